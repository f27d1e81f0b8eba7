// The state the contracts of the Go interpreter start from: an arbitrary execution state at an arbitrary instruction.
package lfvm

import (
	"unsafe"
	"vc"
	_ "vc/rt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// an arbitrary stack of arbitrary depth
func vcStack() *stack {
	s := (*stack)(vc.Buffer(uint64(unsafe.Sizeof(stack{})), "stack"))
	s.stackPointer = int(vc.U64("depth"))
	vc.Requires(uint64(s.stackPointer) <= maxStackSize)
	return s
}

func vcRevision() tosca.Revision {
	r := vc.U64("revision")
	vc.Requires(r <= uint64(tosca.R13_Cancun))
	return tosca.Revision(r)
}

func vcGas() tosca.Gas {
	g := vc.I64("gas")
	vc.Requires(g >= 0)
	return tosca.Gas(g)
}

// b ? x : y on truth values, without a branch
func vcAnd(a, b bool) bool { return vcBit(a)&vcBit(b) != 0 }
func vcOr(a, b bool) bool  { return vcBit(a)|vcBit(b) != 0 }
func vcImp(a, b bool) bool { return (vcBit(a)^1)|vcBit(b) != 0 }
func vcBit(a bool) uint8 {
	if a {
		return 1
	}
	return 0
}
func vcSame(a, b *uint256.Int) bool {
	return (a[0]^b[0])|(a[1]^b[1])|(a[2]^b[2])|(a[3]^b[3]) == 0
}
