// Contracts for currency values (property G02): arithmetic on the represented numbers.
package tosca

import (
	"vc"
	_ "vc/rt"

	"github.com/holiman/uint256"
)

func vcNum(v Value) *uint256.Int { return new(uint256.Int).SetBytes(v[:]) }
func vcSame(a, b *uint256.Int) bool {
	return (a[0]^b[0])|(a[1]^b[1])|(a[2]^b[2])|(a[3]^b[3]) == 0
}

func vch_add() {
	a, b := Value(vc.Word("a")), Value(vc.Word("b"))
	r := Add(a, b)
	vc.Ensures("a sum is the sum of the numbers modulo 2^256", vcSame(vcNum(r), new(uint256.Int).Add(vcNum(a), vcNum(b))))
	vc.Cover("add")
}

func vch_sub() {
	a, b := Value(vc.Word("a")), Value(vc.Word("b"))
	r := Sub(a, b)
	vc.Ensures("a difference is the difference of the numbers modulo 2^256", vcSame(vcNum(r), new(uint256.Int).Sub(vcNum(a), vcNum(b))))
	vc.Cover("sub")
}

func vch_scale() {
	a, s := Value(vc.Word("a")), vc.U64("s")
	r := a.Scale(s)
	vc.Ensures("a scaled value is the product of the numbers modulo 2^256", vcSame(vcNum(r), new(uint256.Int).Mul(vcNum(a), uint256.NewInt(s))))
	vc.Cover("scale")
}

func vch_cmp() {
	a, b := Value(vc.Word("a")), Value(vc.Word("b"))
	r := a.Cmp(b)
	x, y := vcNum(a), vcNum(b)
	want := 0
	if x.Lt(y) {
		want = -1
	} else if y.Lt(x) {
		want = 1
	}
	vc.Ensures("a comparison orders the numbers", r == want)
	vc.Cover("cmp")
}

// words from most to least significant, missing ones are leading zeros
func vcNew(n int) {
	w := [4]uint64{vc.U64("w"), vc.U64("w"), vc.U64("w"), vc.U64("w")}
	v := NewValue(w[:n]...)
	var want uint256.Int
	for i := 0; i < n; i++ {
		want[n-1-i] = w[i]
	}
	vc.Ensures("a value is made of its words from most to least significant", vcSame(vcNum(v), &want))
	vc.Cover("new")
}
func vch_new0() { vcNew(0) }
func vch_new1() { vcNew(1) }
func vch_new2() { vcNew(2) }
func vch_new3() { vcNew(3) }
func vch_new4() { vcNew(4) }

func vch_from_uint256() {
	x := uint256.Int{vc.U64("w"), vc.U64("w"), vc.U64("w"), vc.U64("w")}
	y := x
	v := ValueFromUint256(&x)
	vc.Ensures("the value of a number represents the number", vcSame(vcNum(v), &y))
	vc.Ensures("the number is left alone", vcSame(&x, &y))
	vc.Ensures("no number is the value zero", ValueFromUint256(nil) == Value{})
	vc.Cover("from")
}

func vch_to_uint256() {
	v := Value(vc.Word("v"))
	x := v.ToUint256()
	vc.Ensures("the number of a value is the number it represents", vcSame(x, vcNum(v)))
	vc.Ensures("values and numbers convert into each other", ValueFromUint256(x) == v)
	vc.Cover("to")
}
