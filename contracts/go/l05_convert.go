// Contracts for the translation of code by the Go interpreter (property L05), without super instructions (the production
// configuration).
package lfvm

import (
	"unsafe"
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// bytes of immediate data, and instructions of the translation, of an opcode
func vcImmediate(op byte) uint64 {
	if op >= 0x60 && op <= 0x7f {
		return uint64(op) - 0x5f
	}
	return 0
}
func vcSlots(op byte) uint64 {
	if op >= 0x60 && op <= 0x7f {
		return (uint64(op) - 0x5f + 1) / 2
	}
	return 1
}

// byte i of a code followed by zeros
func vcByteAt(code []byte, i uint64) byte { return vc.Peek(i < uint64(len(code)), code, i) }

// an arbitrary intermediate state of the translation of a code of n bytes: next free instruction at or before the position
func vcBuilder(n, pos uint64) codeBuilder {
	size := uint64(unsafe.Sizeof(Instruction{}))
	b := codeBuilder{code: unsafe.Slice((*Instruction)(vc.Buffer(n*size, "translated")), n)}
	next := vc.U64("next")
	vc.Requires(next <= pos)
	b.nextPos = int(next)
	return b
}

// the translation of one instruction, for every code, position and state
func vcTranslate(base byte, k uint64) {
	n, pos := vc.U64("code length"), vc.U64("position")
	vc.Requires(n <= 49152 && pos < n)
	code := vc.Bytes(n, "code")
	op := code[pos]
	if base != 0 {
		vc.Requires(op == base+byte(k))
		op = base + byte(k) // concrete
		code[pos] = op
	} else {
		vc.Requires((op < 0x60 || op > 0x7f) && op != 0x5b)
	}
	b := vcBuilder(n, pos)
	next := uint64(b.nextPos)
	w := vc.U64("earlier instruction")
	vc.Requires(w < next)
	before := b.code[w]
	inc := appendInstructions(&b, int(pos), code, false)
	vc.Ensures("the immediate data is skipped", uint64(inc) == vcImmediate(op))
	vc.Ensures("the instruction takes its slots", uint64(b.nextPos) == next+vcSlots(op))
	vc.Ensures("there is always room left for what follows", uint64(len(b.code)) >= n && uint64(len(b.code)) >= uint64(b.nextPos))
	vc.Ensures("the translation does not overtake the code", uint64(b.nextPos) <= pos+uint64(inc)+1)
	vc.Ensures("earlier instructions are kept", b.code[w] == before)
	c := b.code[next]
	vc.Ensures("the instruction is kept", c.opcode == OpCode(op))
	if op == 0x58 {
		vc.Ensures("PC records the position in the code", uint64(c.arg) == pos)
		vc.Cover("pc")
	}
	m := vcImmediate(op)
	for j := uint64(0); 2*j < m; j++ {
		d := b.code[next+j]
		lo := byte(0)
		if 2*j+1 < m {
			lo = vcByteAt(code, pos+2*j+2)
		}
		vc.Ensures("the immediate data is kept, followed by zeros behind the end of code", d.arg == uint16(vcByteAt(code, pos+2*j+1))<<8|uint16(lo))
		vc.Ensures("immediate data is no instruction", j == 0 || d.opcode == DATA)
	}
	vc.Cover("translated")
}

func vcTranslatePush(base byte) { vcTranslate(base, vc.Concretize(vc.U64("width")&15, 16)) }
func vch_translate_plain()      { vcTranslate(0, 0) }
func vch_translate_push1_16()   { vcTranslatePush(0x60) }
func vch_translate_push17_32()  { vcTranslatePush(0x70) }

// filling up to a jump destination
func vch_padding() {
	n := vc.U64("code length")
	vc.Requires(n <= 49152)
	pos := vc.U64("position")
	vc.Requires(pos < n)
	b := vcBuilder(n, pos)
	next := uint64(b.nextPos)
	w := vc.U64("instruction")
	vc.Requires(w < n)
	vcPadded, vcPadding, vcPadBefore, vcPadFrom = b.code, w, b.code[w].opcode, next
	vcPadArg = b.code[w].arg
	b.padNoOpsUntil(int(pos))
	vc.Ensures("the next instruction goes to the position", uint64(b.nextPos) == pos && uint64(len(b.code)) == n)
	want := vcPadBefore
	if w >= next && w < pos {
		want = NOOP
		vc.Cover("padded")
	}
	vc.Ensures("exactly the gap is filled with empty instructions", b.code[w].opcode == want && b.code[w].arg == vcPadArg)
}

var vcPadded []Instruction
var vcPadding, vcPadFrom uint64
var vcPadBefore OpCode
var vcPadArg uint16

// what filling has done before instruction i
func vinv_padding(i uint64) {
	c := vcPadded[vcPadding].opcode
	filled := vcAnd(vcPadding >= vcPadFrom, vcPadding < i)
	vc.Inv(vcAnd(vcAnd(vcImp(filled, c == NOOP), vcImp(!filled, c == vcPadBefore)), vcPadded[vcPadding].arg == vcPadArg))
}

// A push instruction of translated code pushes its immediate data.
func vcPushed(base OpCode) {
	c, h := vcContext(base)
	op := base + OpCode(vc.Concretize(vc.U64("width")&15, 16))
	c.code[0].opcode = op
	m := uint64(op) - 0x5f
	sp, gas := c.stack.stackPointer, c.gas
	vc.Requires(sp < maxStackSize && gas >= 3)
	var want [32]byte
	for i := uint64(0); i < m; i++ {
		arg := c.code[i/2].arg
		if i%2 == 0 {
			arg >>= 8
		}
		want[32-m+i] = byte(arg)
	}
	if m%2 == 1 {
		vc.Requires(byte(c.code[m/2].arg) == 0) // by the translation
	}
	s := execute(c, true)
	vc.Ensures("pushing succeeds at its cost", s == statusRunning && c.gas == gas-3 && h.n == 0)
	vc.Ensures("execution continues behind the immediate data", uint64(c.pc) == (m+1)/2)
	vc.Ensures("the immediate data is pushed as a number", c.stack.stackPointer == sp+1 && c.stack.data[sp].Bytes32() == want)
	vc.Cover("pushed")
}
func vch_push1_16()  { vcPushed(0x60) }
func vch_push17_32() { vcPushed(0x70) }

// jumping over a gap
func vch_jump_to() {
	c, h := vcContext(JUMP_TO)
	sp, gas := c.stack.stackPointer, c.gas
	to := c.code[0].arg
	s := execute(c, true)
	vc.Ensures("skipping a gap costs nothing and changes nothing but the position", s == statusRunning && c.gas == gas && c.stack.stackPointer == sp && h.n == 0)
	vc.Ensures("a gap is skipped to its end", uint64(c.pc) == uint64(to))
	vc.Cover("skipped")
}

// Whole codes, of bounded length: the steps are put together correctly.
func vcWhole(n uint64) {
	code := vc.Bytes(n, "code")
	res := convert(code, ConversionConfig{})
	pos, next := uint64(0), uint64(0) // in the code and in its translation
	isStart := [8]bool{}
	for pos < n {
		op := code[pos]
		if vc.Split(op == 0x5b) {
			if next < pos {
				vc.Ensures("the gap in front of a jump destination is skipped", next < uint64(len(res)) && res[next].opcode == JUMP_TO && uint64(res[next].arg) == pos)
				vc.Cover("gap")
			}
			vc.Ensures("a jump destination stays at its position", pos < uint64(len(res)) && res[pos].opcode == JUMPDEST)
			isStart[pos] = true
			next = pos + 1
			pos++
			continue
		}
		vc.Ensures("every instruction is translated in order", next < uint64(len(res)) && res[next].opcode == OpCode(op))
		if op == 0x58 {
			vc.Ensures("PC records the position in the code", uint64(res[next].arg) == pos)
		}
		if op >= 0x60 && op <= 0x7f {
			m := uint64(op) - 0x5f
			vc.Ensures("the translation holds the immediate data", next+(m+1)/2 <= uint64(len(res)))
			vc.Ensures("the immediate data starts with the byte behind the instruction", byte(res[next].arg>>8) == vcByteAt(code, pos+1))
			pos += m
			next += (m+1)/2 - 1
		}
		pos++
		next++
	}
	vc.Ensures("the translation ends with its last instruction", uint64(len(res)) == next)
	for i := uint64(0); i < n && i < uint64(len(res)); i++ {
		vc.Ensures("jump destinations are exactly those of the code", (res[i].opcode == JUMPDEST) == isStart[i])
	}
	vc.Cover("whole")
}
func vch_whole_0() { vcWhole(0) }
func vch_whole_1() { vcWhole(1) }
func vch_whole_2() { vcWhole(2) }
func vch_whole_3() { vcWhole(3) }

// a jump destination behind push data is found at its position, and only there
func vch_whole_push() {
	k := vc.Concretize(vc.U64("width")&31, 32)
	code := vc.Bytes(k+5, "code")
	code[0] = 0x60 + byte(k) // k+1 bytes of data
	vc.Requires(code[k+2] != 0x5b && code[k+2] != 0x58 && (code[k+2] < 0x60 || code[k+2] > 0x7f))
	code[k+3], code[k+4] = 0x5b, 0x58
	res := convert(code, ConversionConfig{})
	slots := (k + 2) / 2
	vc.Ensures("the push and the instruction behind it", res[0].opcode == OpCode(0x60+k) && res[slots].opcode == OpCode(code[k+2]))
	vc.Ensures("the jump destination stays at its position", res[k+3].opcode == JUMPDEST)
	if slots+1 < k+3 {
		vc.Ensures("the gap is skipped", res[slots+1].opcode == JUMP_TO && uint64(res[slots+1].arg) == k+3)
	}
	vc.Ensures("the code continues behind it", uint64(len(res)) == k+5 && res[k+4].opcode == PC && uint64(res[k+4].arg) == k+4)
	i := vc.U64("instruction")
	vc.Requires(i < uint64(len(res)))
	vc.Ensures("there is no other jump destination", (res[i].opcode == JUMPDEST) == (i == k+3))
	vc.Cover("converted")
}

// translations are cached by the hash of the code
func vch_cache() {
	conv, err := NewConverter(ConversionConfig{})
	vc.Ensures("the default configuration is valid", err == nil)
	a, b := byte(vc.Concretize(vc.U64("instruction")&1, 2)), byte(2)
	h1, h2 := tosca.Hash(vc.Word("hash")), tosca.Hash(vc.Word("other hash"))
	vc.Requires(h1 != h2)
	first := conv.Convert([]byte{a}, &h1)
	other := conv.Convert([]byte{b}, &h2)
	again := conv.Convert([]byte{a}, &h1)
	none := conv.Convert([]byte{b}, nil)
	vc.Ensures("code is translated", len(first) == 1 && first[0].opcode == OpCode(a))
	vc.Ensures("different codes have different translations", len(other) == 1 && other[0].opcode == OpCode(b))
	vc.Ensures("the translation is the same when it is cached", len(again) == 1 && again[0].opcode == OpCode(a))
	vc.Ensures("code without hash is translated", len(none) == 1 && none[0].opcode == OpCode(b))
	vc.Cover("cached")
	var u uint256.Int
	_ = u
}
