// Contracts for the execution memory of the Go interpreter (property L03).
package lfvm

import (
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

func vch_contract_fee_bounds() {
	w0, w1 := uint64(vc.U32("old words")), uint64(vc.U32("new words")) // all sizes in range
	vc.Ensures("sizes in range are 32-bit numbers of words", maxMemoryExpansionSize/32 == 1<<32-1)
	vc.Requires(w0 < w1)
	q0, q1 := w0*w0, w1*w1
	vc.Ensures("squares grow", q0 < q1)
	vc.Fact(q0 < q1) // just proved
	d := vcCost(w1) - vcCost(w0)
	vc.Ensures("lemma: a growing access costs at least one and less than 2^56", d >= 1 && d < 1<<56)
}

func vch_contract_expand() {
	store, n := vcStore()
	m := &Memory{store: store, currentMemoryCost: vcCost(n / 32)}
	c := &context{gas: vcGas(), memory: m}
	gas := c.gas
	offset, size := vc.U64("offset"), vc.U64("size")
	k := vc.U64("position")
	before := vc.Peek(k < n, store, k)
	grown, ok := vcGrown(n, offset, size)
	words := grown / 32
	vc.Requires(words <= maxMemoryExpansionSize/32) // holds by definition of vcGrown
	fee := vcCost(words) - vcCost(n/32)
	vc.Fact(vcImp(words > n/32, vcAnd(fee >= 1, fee < 1<<56))) // vch_contract_fee_bounds
	if grown == n {
		fee = 0
	}
	err := m.expandMemory(offset, size, c)
	vc.Ensures("expansion succeeds exactly if the size is in range and gas covers the fee", (err == nil) == vcAnd(ok, gas >= fee))
	if err != nil {
		vc.Ensures("a failed expansion changes nothing", c.gas == gas && uint64(len(m.store)) == n && m.currentMemoryCost == vcCost(n/32))
		vc.Cover("failed")
		return
	}
	vc.Ensures("the memory covers the access in whole words", uint64(len(m.store)) == grown)
	vc.Ensures("the fee is the difference of words^2/512 + 3 words", c.gas == gas-fee)
	vc.Ensures("the recorded cost is the fee of the size", m.currentMemoryCost == vcCost(words))
	vc.Ensures("new bytes are zero and old bytes are unchanged", vc.Peek(k < grown, m.store, k) == before)
	vc.Cover("succeeded")
}

// an access on the real memory functions, with expandMemory under contract
type vcAccess struct {
	m        *Memory
	c        *context
	n        uint64
	gas      tosca.Gas
	off      uint256.Int
	k        uint64
	before   byte
	cost     tosca.Gas
}

func vcNewAccess() *vcAccess {
	a := &vcAccess{m: vcMemory()}
	a.n = uint64(len(a.m.store))
	a.c = &context{gas: vcGas(), memory: a.m}
	a.gas = a.c.gas
	a.cost = a.m.currentMemoryCost
	a.off = uint256.Int{vc.U64("offset"), vc.U64("offset1"), vc.U64("offset2"), vc.U64("offset3")}
	a.k = vc.U64("position")
	a.before = vc.Peek(a.k < a.n, a.m.store, a.k)
	return a
}

// the effects of an access of a given size; reports whether it had to succeed
func (a *vcAccess) check(size *uint256.Int, err error) bool {
	grown, ok := vcGrown(a.n, a.off[0], size[0])
	ok = vcOr(size[0]|size[1]|size[2]|size[3] == 0, vcAnd(ok, a.off[1]|a.off[2]|a.off[3]|size[1]|size[2]|size[3] == 0))
	fee := tosca.Gas(vc.MemoryFee(grown, a.n))
	vc.Ensures("an access succeeds exactly if it is in range and gas covers the growth", (err == nil) == vcAnd(ok, a.gas >= fee))
	if err != nil {
		vc.Ensures("a failed access changes nothing", a.c.gas == a.gas && uint64(len(a.m.store)) == a.n && a.m.currentMemoryCost == a.cost)
		vc.Ensures("a failed access changes no byte", vc.Peek(a.k < a.n, a.m.store, a.k) == a.before)
		return false
	}
	vc.Ensures("the memory grows to the access", uint64(len(a.m.store)) == grown)
	vc.Ensures("the fee is charged", a.c.gas == a.gas-fee)
	return true
}

func vch_slice() {
	a := vcNewAccess()
	size := &uint256.Int{vc.U64("size"), vc.U64("size1"), vc.U64("size2"), vc.U64("size3")}
	b, err := a.m.getSlice(&a.off, size, a.c)
	if !a.check(size, err) {
		vc.Cover("rejected")
		return
	}
	vc.Ensures("the slice has the requested size", uint64(len(b)) == size[0])
	vc.Ensures("the contents are unchanged and zero-extended", vc.Peek(a.k < uint64(len(a.m.store)), a.m.store, a.k) == a.before)
	if size[0] == 0 {
		vc.Cover("empty")
		return
	}
	i := vc.U64("index")
	vc.Requires(i < size[0])
	vc.Ensures("the slice shows the memory at the offset", b[i] == a.m.store[a.off[0]+i])
	b[i] = 42
	vc.Ensures("the slice is part of the memory", a.m.store[a.off[0]+i] == 42)
	vc.Cover("slice")
}

func vch_read_word() {
	a := vcNewAccess()
	var t uint256.Int
	old := a.m.store
	err := a.m.readWord(&a.off, &t, a.c)
	if !a.check(uint256.NewInt(32), err) {
		vc.Cover("rejected")
		return
	}
	vc.Ensures("reading leaves the old contents in place", vc.Peek(a.k < a.n, old, a.k) == a.before)
	w := t.Bytes32()
	i := vc.Concretize(vc.U64("index")&31, 32)
	want := vc.Peek(a.off[0]+i < a.n, old, a.off[0]+i)
	vc.Ensures("the word is read big-endian at the offset, zero-extended", w[i] == want)
	vc.Ensures("reading changes no byte", vc.Peek(a.k < a.n, a.m.store, a.k) == a.before)
	vc.Cover("read")
}

func vch_set() {
	a := vcNewAccess()
	n := vc.U64("length")
	vc.Requires(n <= maxMemoryExpansionSize)
	v := vc.Bytes(n, "value")
	err := a.m.set(&a.off, v, a.c)
	if !a.check(&uint256.Int{n, 0, 0, 0}, err) {
		vc.Cover("rejected")
		return
	}
	in := a.k-a.off[0] < n
	want := a.before
	if in {
		want = v[a.k-a.off[0]]
	}
	vc.Ensures("exactly the addressed bytes are written", vc.Peek(a.k < uint64(len(a.m.store)), a.m.store, a.k) == want)
	vc.Cover("written")
}

func vch_length() {
	m := vcMemory()
	vc.Ensures("the length is the size in bytes", m.length() == uint64(len(m.store)))
	vc.Ensures("a new memory is empty", NewMemory().length() == 0 && NewMemory().currentMemoryCost == 0)
}
