// The contract of Memory.expandMemory and the memory states other contracts of the Go interpreter start from.
package lfvm

import (
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// the fee of a memory of a given number of words
func vcCost(words uint64) tosca.Gas { return tosca.Gas((words*words)/512 + 3*words) }

// a memory of an arbitrary number of words and arbitrary contents, possibly with unused capacity behind it
func vcStore() (store []byte, size uint64) {
	words := vc.U64("memory words")
	vc.Requires(words <= maxMemoryExpansionSize/32)
	spare := vc.U64("spare capacity")
	vc.Requires(spare <= 1<<20)
	b := vc.Bytes(32*words+spare, "memory")
	return b[:32*words], 32 * words
}
func vcMemory() *Memory {
	s, n := vcStore()
	return &Memory{store: s, currentMemoryCost: tosca.Gas(vc.MemoryFee(n, 0))}
}

// size of the memory covering an access, and whether there is one
func vcGrown(n, offset, size uint64) (uint64, bool) {
	end := offset + size
	if size == 0 || end >= offset && end <= n {
		return n, true
	}
	if end < offset || end > maxMemoryExpansionSize {
		return n, false
	}
	return (end + 31) &^ 31, true
}

// What expandMemory does, with the fee left abstract: callers are verified against this, expandMemory itself against the same
// statement with the fee written out (vch_contract_expand).
func vcontract_expand(m *Memory, offset, size uint64, c *context) error {
	n := uint64(len(m.store))
	grown, ok := vcGrown(n, offset, size)
	if !ok {
		return errOverflow
	}
	if grown == n {
		return nil
	}
	fee := tosca.Gas(vc.MemoryFee(grown, n))
	if c.gas < fee {
		return errOutOfGas
	}
	c.gas -= fee
	m.currentMemoryCost += fee
	m.store = append(m.store, make([]byte, grown-n)...)
	return nil
}
