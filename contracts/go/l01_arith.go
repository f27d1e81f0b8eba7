// Contracts for the arithmetic and bitwise instructions of the Go interpreter (property L01).
package lfvm

import (
	"vc"

	"github.com/holiman/uint256"
)

// runs op on an arbitrary stack of sufficient depth with sufficient gas and compares with the specification
func vcOp(op OpCode, n int, spec func(r, a, b, d *uint256.Int)) {
	c := &context{code: Code{{opcode: op}}, stack: vcStack(), memory: &Memory{}}
	c.params.Revision = vcRevision()
	c.params.Static = vc.Bool("static")
	c.gas = vcGas()
	sp := c.stack.stackPointer
	vc.Requires(sp >= n)
	vc.Requires(c.gas >= 2000) // gas is the subject of L02
	k := int(vc.U64("deeper word"))
	vc.Requires(k >= 0 && k < sp-n)
	var a, b, d, want uint256.Int
	a = c.stack.data[sp-1]
	if n > 1 {
		b = c.stack.data[sp-2]
	}
	if n > 2 {
		d = c.stack.data[sp-3]
	}
	deep := c.stack.data[k]
	status, err := steps(c, true)
	vc.Ensures("the instruction succeeds", err == nil && status == statusRunning && c.pc == 1)
	vc.Ensures("the operands are replaced by one result", c.stack.stackPointer == sp-n+1)
	spec(&want, &a, &b, &d)
	vc.Ensures("the result is the one the EVM defines", vcSame(&c.stack.data[sp-n], &want))
	vc.Ensures("deeper words are unchanged", vcSame(&c.stack.data[k], &deep))
	vc.Ensures("the memory is unchanged", c.memory.store == nil && c.memory.currentMemoryCost == 0)
	vc.Ensures("nothing is refunded and no output is produced", c.refund == 0 && c.returnData == nil)
	vc.Cover("executed")
}

func vcFlag(r *uint256.Int, v bool) { *r = uint256.Int{uint64(vcBit(v)), 0, 0, 0} }

func vch_add()  { vcOp(ADD, 2, func(r, a, b, d *uint256.Int) { r.Add(a, b) }) }
func vch_sub()  { vcOp(SUB, 2, func(r, a, b, d *uint256.Int) { r.Sub(a, b) }) }
func vch_mul()  { vcOp(MUL, 2, func(r, a, b, d *uint256.Int) { r.Mul(a, b) }) }
func vch_div()  { vcOp(DIV, 2, func(r, a, b, d *uint256.Int) { r.Div(a, b) }) }
func vch_sdiv() { vcOp(SDIV, 2, func(r, a, b, d *uint256.Int) { r.SDiv(a, b) }) }
func vch_mod()  { vcOp(MOD, 2, func(r, a, b, d *uint256.Int) { r.Mod(a, b) }) }
func vch_smod() { vcOp(SMOD, 2, func(r, a, b, d *uint256.Int) { r.SMod(a, b) }) }
func vch_addmod() {
	vcOp(ADDMOD, 3, func(r, a, b, d *uint256.Int) { r.AddMod(a, b, d) })
}
func vch_mulmod() {
	vcOp(MULMOD, 3, func(r, a, b, d *uint256.Int) { r.MulMod(a, b, d) })
}
func vch_exp() { vcOp(EXP, 2, func(r, a, b, d *uint256.Int) { r.Exp(a, b) }) }
func vch_signextend() {
	vcOp(SIGNEXTEND, 2, func(r, a, b, d *uint256.Int) {
		if !a.IsUint64() || a[0] >= 31 {
			*r = *b
			return
		}
		s := uint(8 * (31 - a[0]))
		r.Lsh(b, s)
		r.SRsh(r, s)
	})
}
func vch_lt() { vcOp(LT, 2, func(r, a, b, d *uint256.Int) { vcFlag(r, a.Lt(b)) }) }
func vch_gt() { vcOp(GT, 2, func(r, a, b, d *uint256.Int) { vcFlag(r, b.Lt(a)) }) }
func vch_slt() {
	vcOp(SLT, 2, func(r, a, b, d *uint256.Int) { vcFlag(r, a.Slt(b)) })
}
func vch_sgt() {
	vcOp(SGT, 2, func(r, a, b, d *uint256.Int) { vcFlag(r, b.Slt(a)) })
}
func vch_eq() {
	vcOp(EQ, 2, func(r, a, b, d *uint256.Int) { vcFlag(r, vcSame(a, b)) })
}
func vch_iszero() {
	vcOp(ISZERO, 1, func(r, a, b, d *uint256.Int) { vcFlag(r, a[0]|a[1]|a[2]|a[3] == 0) })
}
func vch_and() {
	vcOp(AND, 2, func(r, a, b, d *uint256.Int) { *r = uint256.Int{a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]} })
}
func vch_or() {
	vcOp(OR, 2, func(r, a, b, d *uint256.Int) { *r = uint256.Int{a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]} })
}
func vch_xor() {
	vcOp(XOR, 2, func(r, a, b, d *uint256.Int) { *r = uint256.Int{a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], a[3] ^ b[3]} })
}
func vch_not() {
	vcOp(NOT, 1, func(r, a, b, d *uint256.Int) { *r = uint256.Int{^a[0], ^a[1], ^a[2], ^a[3]} })
}
func vcShift(a *uint256.Int) (uint, bool) { return uint(a[0]), a[1]|a[2]|a[3] == 0 && a[0] < 256 }
func vch_shl() {
	vcOp(SHL, 2, func(r, a, b, d *uint256.Int) {
		if n, ok := vcShift(a); ok {
			r.Lsh(b, n)
		}
	})
}
func vch_shr() {
	vcOp(SHR, 2, func(r, a, b, d *uint256.Int) {
		if n, ok := vcShift(a); ok {
			r.Rsh(b, n)
		}
	})
}
func vch_sar() {
	vcOp(SAR, 2, func(r, a, b, d *uint256.Int) {
		n, ok := vcShift(a)
		if !ok {
			n = 255
		}
		r.SRsh(b, n)
	})
}
func vch_byte() {
	vcOp(BYTE, 2, func(r, a, b, d *uint256.Int) {
		if a[1]|a[2]|a[3] == 0 && a[0] < 32 {
			w := b.Bytes32()
			r[0] = uint64(w[a[0]])
		}
	})
}
