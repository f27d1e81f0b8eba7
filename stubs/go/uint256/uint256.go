// Package uint256 stands in for github.com/holiman/uint256 (absent here): the documented behaviour of the operations the
// repository uses.  Functions u_* are interpreted by the verifier (stubs/go/vc/rt.c) and run on math/big natively.
package uint256

import (
	"fmt"
	"math/big"
	"math/bits"
)

type Int [4]uint64

func NewInt(v uint64) *Int { return &Int{v, 0, 0, 0} }
func (z *Int) Clear() *Int { z[0], z[1], z[2], z[3] = 0, 0, 0, 0; return z }
func (z *Int) Set(x *Int) *Int { z[0], z[1], z[2], z[3] = x[0], x[1], x[2], x[3]; return z }
func (z *Int) SetUint64(x uint64) *Int { z[0], z[1], z[2], z[3] = x, 0, 0, 0; return z }
func (z *Int) SetOne() *Int { return z.SetUint64(1) }
func (z *Int) SetAllOne() *Int { z[0], z[1], z[2], z[3] = ^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0); return z }
func (z *Int) Clone() *Int { return &Int{z[0], z[1], z[2], z[3]} }
func (z *Int) Uint64() uint64 { return z[0] }
func (z *Int) Uint64WithOverflow() (uint64, bool) { return z[0], z[1]|z[2]|z[3] != 0 }
func (z *Int) IsUint64() bool { return z[1]|z[2]|z[3] == 0 }
func (z *Int) IsZero() bool { return z[0]|z[1]|z[2]|z[3] == 0 }
func (z *Int) Eq(x *Int) bool { return u_eq(z, x) }
func (z *Int) Cmp(x *Int) int { return u_cmp(z, x) }
func (z *Int) CmpUint64(x uint64) int { return u_cmp(z, NewInt(x)) }
func (z *Int) Lt(x *Int) bool { return u_lt(z, x) }
func (z *Int) Gt(x *Int) bool { return u_lt(x, z) }
func (z *Int) Slt(x *Int) bool { return u_slt(z, x) }
func (z *Int) Sgt(x *Int) bool { return u_slt(x, z) }
func (z *Int) LtUint64(n uint64) bool { return z[0] < n && z[1]|z[2]|z[3] == 0 }
func (z *Int) GtUint64(n uint64) bool { return z[0] > n || z[1]|z[2]|z[3] != 0 }
func (z *Int) Sign() int {
	if z.IsZero() {
		return 0
	}
	if z[3] < 0x8000000000000000 {
		return 1
	}
	return -1
}
func (z *Int) And(x, y *Int) *Int { z[0], z[1], z[2], z[3] = x[0]&y[0], x[1]&y[1], x[2]&y[2], x[3]&y[3]; return z }
func (z *Int) Or(x, y *Int) *Int { z[0], z[1], z[2], z[3] = x[0]|y[0], x[1]|y[1], x[2]|y[2], x[3]|y[3]; return z }
func (z *Int) Xor(x, y *Int) *Int { z[0], z[1], z[2], z[3] = x[0]^y[0], x[1]^y[1], x[2]^y[2], x[3]^y[3]; return z }
func (z *Int) Not(x *Int) *Int { z[0], z[1], z[2], z[3] = ^x[0], ^x[1], ^x[2], ^x[3]; return z }
func (z *Int) Neg(x *Int) *Int { return z.Sub(new(Int), x) }
func (z *Int) Abs(x *Int) *Int {
	if x[3] < 0x8000000000000000 {
		return z.Set(x)
	}
	return z.Neg(x)
}
func (z *Int) Lsh(x *Int, n uint) *Int { u_shl(z, x, uint64(n)); return z }
func (z *Int) Rsh(x *Int, n uint) *Int { u_shr(z, x, uint64(n)); return z }
func (z *Int) SRsh(x *Int, n uint) *Int { u_sar(z, x, uint64(n)); return z }
func (z *Int) AddUint64(x *Int, y uint64) *Int { return z.Add(x, NewInt(y)) }
func (z *Int) SubUint64(x *Int, y uint64) *Int { return z.Sub(x, NewInt(y)) }
func (z *Int) Add(x, y *Int) *Int { u_add(z, x, y); return z }
func (z *Int) Sub(x, y *Int) *Int { u_sub(z, x, y); return z }
func (z *Int) Mul(x, y *Int) *Int { u_mul(z, x, y); return z }
func (z *Int) Div(x, y *Int) *Int { u_div(z, x, y); return z }
func (z *Int) SDiv(x, y *Int) *Int { u_sdiv(z, x, y); return z }
func (z *Int) Mod(x, y *Int) *Int { u_mod(z, x, y); return z }
func (z *Int) SMod(x, y *Int) *Int { u_smod(z, x, y); return z }
func (z *Int) Exp(x, y *Int) *Int { u_exp(z, x, y); return z }
func (z *Int) ExtendSign(x, y *Int) *Int { u_signext(z, x, y); return z }
func (z *Int) AddMod(x, y, m *Int) *Int { u_addmod(z, x, y, m); return z }
func (z *Int) MulMod(x, y, m *Int) *Int { u_mulmod(z, x, y, m); return z }
func (z *Int) AddOverflow(x, y *Int) (*Int, bool) { o := u_addov(z, x, y); return z, o }
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) { o := u_subov(z, x, y); return z, o }
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) { o := u_mulov(z, x, y); return z, o }
func (z *Int) Byte(n *Int) *Int { u_byte(z, z, n); return z }
func (z *Int) BitLen() int { return int(u_bitlen(z)) }
func (z *Int) ByteLen() int { return (z.BitLen() + 7) / 8 }
func (z *Int) DivMod(x, y, m *Int) (*Int, *Int) {
	var q, r Int
	u_div(&q, x, y)
	u_mod(&r, x, y)
	*z, *m = q, r
	return z, m
}
func (z *Int) SetBytes(buf []byte) *Int {
	if len(buf) == 32 {
		u_frombe(z, (*[32]byte)(buf))
		return z
	}
	var t [32]byte
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	copy(t[32-len(buf):], buf)
	u_frombe(z, &t)
	return z
}
func (z *Int) SetBytes32(in []byte) *Int { _ = in[31]; return z.SetBytes(in[:32]) }
func (z *Int) SetBytes20(in []byte) *Int { _ = in[19]; return z.SetBytes(in[:20]) }
func (z *Int) SetBytes1(in []byte) *Int { _ = in[0]; z[3], z[2], z[1], z[0] = 0, 0, 0, uint64(in[0]); return z }
func (z *Int) SetBytes2(in []byte) *Int { _ = in[1]; z[3], z[2], z[1], z[0] = 0, 0, 0, uint64(in[0])<<8|uint64(in[1]); return z }
func (z *Int) Bytes32() [32]byte { var b [32]byte; u_tobe(&b, z); return b }
func (z *Int) Bytes20() [20]byte { var b [32]byte; u_tobe(&b, z); var r [20]byte; copy(r[:], b[12:]); return r }
func (z *Int) Bytes() []byte { b := z.Bytes32(); return b[32-z.ByteLen():] }
func (z *Int) PutUint256(dest []byte) { _ = dest[31]; b := z.Bytes32(); copy(dest, b[:]) }
func (z *Int) WriteToSlice(dest []byte) {
	b := z.Bytes32()
	if len(dest) >= 32 {
		copy(dest[:32], b[:])
		return
	}
	copy(dest, b[32-len(dest):])
}
func (z *Int) WriteToArray32(dest *[32]byte) { u_tobe(dest, z) }
func (z *Int) WriteToArray20(dest *[20]byte) { *dest = z.Bytes20() }
func (z *Int) PaddedBytes(n int) []byte { b := make([]byte, n); z.WriteToSlice(b); return b }

func (z *Int) ToBig() *big.Int { b := z.Bytes32(); return new(big.Int).SetBytes(b[:]) }
func FromBig(b *big.Int) (*Int, bool) { z := &Int{}; set(z, b); return z, b.BitLen() > 256 }
func MustFromBig(b *big.Int) *Int { z, _ := FromBig(b); return z }
func MustFromDecimal(s string) *Int { b, ok := new(big.Int).SetString(s, 10); if !ok { panic(s) }; return MustFromBig(b) }
func MustFromHex(s string) *Int { b, ok := new(big.Int).SetString(s, 0); if !ok { panic(s) }; return MustFromBig(b) }
func (z *Int) Hex() string { return fmt.Sprintf("0x%x", z.ToBig()) }
func (z *Int) Dec() string { return z.ToBig().String() }
func (z *Int) String() string { return z.Dec() }
func (z Int) Format(s fmt.State, ch rune) { z.ToBig().Format(s, ch) }

// ---- operations interpreted by the verifier
var wrap = new(big.Int).Lsh(big.NewInt(1), 256)

func num(x *Int) *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(x[i]))
	}
	return r
}
func sgn(x *Int) *big.Int {
	r := num(x)
	if x[3]>>63 != 0 {
		r.Sub(r, wrap)
	}
	return r
}
func set(z *Int, v *big.Int) {
	m := new(big.Int).Mod(v, wrap)
	for i := 0; i < 4; i++ {
		z[i] = new(big.Int).And(m, new(big.Int).SetUint64(^uint64(0))).Uint64()
		m.Rsh(m, 64)
	}
}
func u_add(z, x, y *Int) { set(z, new(big.Int).Add(num(x), num(y))) }
func u_sub(z, x, y *Int) { set(z, new(big.Int).Sub(num(x), num(y))) }
func u_mul(z, x, y *Int) { set(z, new(big.Int).Mul(num(x), num(y))) }
func u_div(z, x, y *Int) { if y.IsZero() { z.Clear() } else { set(z, new(big.Int).Quo(num(x), num(y))) } }
func u_mod(z, x, y *Int) { if y.IsZero() { z.Clear() } else { set(z, new(big.Int).Rem(num(x), num(y))) } }
func u_sdiv(z, x, y *Int) { if y.IsZero() { z.Clear() } else { set(z, new(big.Int).Quo(sgn(x), sgn(y))) } }
func u_smod(z, x, y *Int) { if y.IsZero() { z.Clear() } else { set(z, new(big.Int).Rem(sgn(x), sgn(y))) } }
func u_addmod(z, x, y, m *Int) { if m.IsZero() { z.Clear() } else { a := new(big.Int).Add(num(x), num(y)); set(z, a.Rem(a, num(m))) } }
func u_mulmod(z, x, y, m *Int) { if m.IsZero() { z.Clear() } else { a := new(big.Int).Mul(num(x), num(y)); set(z, a.Rem(a, num(m))) } }
func u_exp(z, x, y *Int) { set(z, new(big.Int).Exp(num(x), num(y), wrap)) }
func u_shl(z, x *Int, n uint64) { if n >= 256 { z.Clear() } else { set(z, new(big.Int).Lsh(num(x), uint(n))) } }
func u_shr(z, x *Int, n uint64) { if n >= 256 { z.Clear() } else { set(z, new(big.Int).Rsh(num(x), uint(n))) } }
func u_sar(z, x *Int, n uint64) { if n > 255 { n = 255 }; set(z, new(big.Int).Rsh(sgn(x), uint(n))) }
func u_signext(z, x, y *Int) {
	if !y.IsUint64() || y[0] >= 31 {
		z.Set(x)
		return
	}
	s := uint64(8 * (31 - y[0]))
	var t Int
	u_shl(&t, x, s)
	u_sar(z, &t, s)
}
func u_byte(z, x, n *Int) {
	if !n.IsUint64() || n[0] >= 32 {
		z.Clear()
		return
	}
	v := new(big.Int).Rsh(num(x), uint(8*(31-n[0])))
	set(z, v.And(v, big.NewInt(255)))
}
func u_cmp(x, y *Int) int { return num(x).Cmp(num(y)) }
func u_lt(x, y *Int) bool { return num(x).Cmp(num(y)) < 0 }
func u_slt(x, y *Int) bool { return sgn(x).Cmp(sgn(y)) < 0 }
func u_eq(x, y *Int) bool { return x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] }
func u_bitlen(x *Int) uint64 { return uint64(num(x).BitLen()) }
func u_frombe(z *Int, p *[32]byte) { set(z, new(big.Int).SetBytes(p[:])) }
func u_tobe(p *[32]byte, x *Int) { num(x).FillBytes(p[:]) }
func u_addov(z, x, y *Int) bool { v := new(big.Int).Add(num(x), num(y)); set(z, v); return v.BitLen() > 256 }
func u_subov(z, x, y *Int) bool { v := new(big.Int).Sub(num(x), num(y)); set(z, v); return v.Sign() < 0 }
func u_mulov(z, x, y *Int) bool { v := new(big.Int).Mul(num(x), num(y)); set(z, v); return v.BitLen() > 256 }

var _ = bits.Len64
func (z *Int) SetFromBig(b *big.Int) bool { set(z, b); return b.BitLen() > 256 }
