// Package abi stands in for the absent go-ethereum package: methods and their selectors (the first four bytes of the hash of
// their signatures, as documented by the node driver contract).
package abi

import "io"

type Method struct{ ID []byte }
type ABI struct{ Methods map[string]Method }

func JSON(r io.Reader) (ABI, error) {
	return ABI{Methods: map[string]Method{
		"setBalance": {[]byte{0xe3, 0x04, 0x43, 0xbc}},
		"copyCode":   {[]byte{0xd6, 0xa0, 0xc7, 0xaf}},
		"swapCode":   {[]byte{0x07, 0x69, 0x0b, 0x2a}},
		"setStorage": {[]byte{0x39, 0xe5, 0x03, 0xab}},
		"incNonce":   {[]byte{0x79, 0xbe, 0xad, 0x38}},
	}}, nil
}
