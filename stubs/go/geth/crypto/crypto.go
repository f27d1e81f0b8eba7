// Package crypto stands in for the absent go-ethereum package: unspecified functions of their inputs.
package crypto

import (
	"vc"

	"github.com/ethereum/go-ethereum/common"
)

func Keccak256(data ...[]byte) []byte {
	var all []byte
	if len(data) == 1 {
		all = data[0]
	} else {
		for _, d := range data {
			all = append(all, d...)
		}
	}
	h := vc.HashOf("keccak", all)
	return h[:]
}

func CreateAddress(a common.Address, nonce uint64) (r common.Address) {
	var d [28]byte
	copy(d[:20], a[:])
	for i := 0; i < 8; i++ {
		d[20+i] = byte(nonce >> (8 * i))
	}
	h := vc.HashOf("create address", d[:])
	copy(r[:], h[12:])
	return
}

func CreateAddress2(a common.Address, salt [32]byte, inithash []byte) (r common.Address) {
	var d [85]byte
	d[0] = 0xff
	copy(d[1:21], a[:])
	copy(d[21:53], salt[:])
	copy(d[53:], inithash)
	h := vc.HashOf("keccak", d[:])
	copy(r[:], h[12:])
	return
}
