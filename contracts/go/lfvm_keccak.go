// stands in for the cgo binding of the hash function: unspecified, the same value for the same bytes
package lfvm

import (
	"github.com/Fantom-foundation/Tosca/go/tosca"
	"vc"
)

func Keccak256(data []byte) tosca.Hash              { return vc.HashOf("keccak", data) }
func Keccak256For32byte(data [32]byte) tosca.Hash   { return vc.HashOf("keccak", data[:]) }
