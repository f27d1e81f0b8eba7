// Package vm stands in for the absent go-ethereum package: tables of precompiled contracts of unspecified behaviour.
package vm

import "github.com/ethereum/go-ethereum/common"

type PrecompiledContract interface {
	RequiredGas(input []byte) uint64
	Run(input []byte) ([]byte, error)
}

type none struct{}

func (none) RequiredGas(input []byte) uint64       { return 0 }
func (none) Run(input []byte) ([]byte, error)      { return nil, nil }

var PrecompiledContractsIstanbul = map[common.Address]PrecompiledContract{
	{19: 1}: none{}, {19: 2}: none{}, {19: 3}: none{}, {19: 4}: none{}, {19: 5}: none{}, {19: 6}: none{}, {19: 7}: none{}, {19: 8}: none{}, {19: 9}: none{},
}
var PrecompiledContractsBerlin = map[common.Address]PrecompiledContract{
	{19: 1}: none{}, {19: 2}: none{}, {19: 3}: none{}, {19: 4}: none{}, {19: 5}: none{}, {19: 6}: none{}, {19: 7}: none{}, {19: 8}: none{}, {19: 9}: none{},
}
var PrecompiledContractsCancun = map[common.Address]PrecompiledContract{
	{19: 1}: none{}, {19: 2}: none{}, {19: 3}: none{}, {19: 4}: none{}, {19: 5}: none{}, {19: 6}: none{}, {19: 7}: none{}, {19: 8}: none{}, {19: 9}: none{}, {19: 10}: none{},
}
