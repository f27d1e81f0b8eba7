// Package rand stands in for pgregory.net/rand: any sequence of numbers.
package rand

import "vc"

type Rand struct{ _ int }

func New(seed ...uint64) *Rand { return &Rand{} }
func (r *Rand) Uint64() uint64 { return vc.U64("random") }
func (r *Rand) Uint64n(n uint64) uint64 {
	if n == 0 {
		return r.Uint64()
	}
	v := vc.U64("random")
	vc.Requires(v < n)
	return v
}
func (r *Rand) Uint32() uint32 { return vc.U32("random") }
func (r *Rand) Uint32n(n uint32) uint32 {
	if n == 0 {
		return r.Uint32()
	}
	v := vc.U32("random")
	vc.Requires(v < n)
	return v
}
func (r *Rand) Int() int { return int(vc.U64("random") >> 1) }
func (r *Rand) Int63() int64 { return int64(vc.U64("random") >> 1) }
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(r.Uint64n(uint64(n)))
}
func (r *Rand) Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(r.Uint32n(uint32(n)))
}
func (r *Rand) ExpFloat64() float64 { return 1 }
func (r *Rand) Float64() float64 { return 0.5 }
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = vc.U8("random")
	}
	return len(p), nil
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}
func (r *Rand) Shuffle(n int, swap func(i, j int)) {}
func Intn(n int) int { return New().Intn(n) }
