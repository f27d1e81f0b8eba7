// Package sha3 stands in for golang.org/x/crypto/sha3: an unspecified hash function.
package sha3

import (
	"hash"
	"vc"
)

type state struct{ data []byte }

func NewLegacyKeccak256() hash.Hash { return &state{} }
func (s *state) Write(p []byte) (int, error) { s.data = append(s.data, p...); return len(p), nil }
func (s *state) Sum(b []byte) []byte { h := vc.HashOf("keccak", s.data); return append(b, h[:]...) }
func (s *state) Read(p []byte) (int, error) { h := vc.HashOf("keccak", s.data); return copy(p, h[:]), nil }
func (s *state) Reset() { s.data = nil }
func (s *state) Size() int { return 32 }
func (s *state) BlockSize() int { return 136 }
