// Package common stands in for the absent go-ethereum package: the fixed-size byte arrays.
package common

type Address [20]byte
type Hash [32]byte

func nibble(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10
	}
	return c - 'A' + 10
}

// HexToAddress reads 0x followed by 40 digits.
func HexToAddress(s string) (r Address) {
	for i := 0; i < 20; i++ {
		r[i] = nibble(s[2+2*i])<<4 | nibble(s[3+2*i])
	}
	return
}

func (a Address) Bytes() []byte { return a[:] }
func (h Hash) Bytes() []byte    { return h[:] }
