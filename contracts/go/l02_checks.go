// Contracts for the checks in front of every instruction of the Go interpreter (property L02).
package lfvm

import (
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// What the EVM defines about an instruction.
type vcInfo struct {
	ok         bool           // defined
	pops, push int            // operands and results
	gas        tosca.Gas      // fixed cost
	since      tosca.Revision // first revision
	write      bool           // not allowed in static mode
	plain      bool           // no other cost and no other reason to fail
}

func vcInstruction(op OpCode, r tosca.Revision) vcInfo {
	plain := func(pops, push int, gas tosca.Gas) vcInfo { return vcInfo{true, pops, push, gas, tosca.R07_Istanbul, false, true} }
	since := func(r tosca.Revision, i vcInfo) vcInfo { i.since = r; return i }
	more := func(i vcInfo) vcInfo { i.plain = false; return i }
	write := func(i vcInfo) vcInfo { i.write = true; i.plain = false; return i }
	access := func(pops, push int, gas tosca.Gas) vcInfo { // charged by the access list since Berlin
		if r >= tosca.R09_Berlin {
			gas = 0
		}
		return more(plain(pops, push, gas))
	}
	switch {
	case op >= 0x60 && op <= 0x7f:
		return plain(0, 1, 3) // PUSH
	case op >= 0x80 && op <= 0x8f:
		return plain(int(op-0x7f), int(op-0x7f)+1, 3) // DUP
	case op >= 0x90 && op <= 0x9f:
		return plain(int(op-0x8e), int(op-0x8e), 3) // SWAP
	case op >= 0xa0 && op <= 0xa4:
		return write(plain(int(op-0xa0)+2, 0, 375*tosca.Gas(op-0xa0+1))) // LOG
	}
	switch op {
	case 0x00: // STOP
		return plain(0, 0, 0)
	case 0x01, 0x03: // ADD SUB
		return plain(2, 1, 3)
	case 0x02, 0x04, 0x05, 0x06, 0x07, 0x0b: // MUL DIV SDIV MOD SMOD SIGNEXTEND
		return plain(2, 1, 5)
	case 0x08, 0x09: // ADDMOD MULMOD
		return plain(3, 1, 8)
	case 0x0a: // EXP
		return more(plain(2, 1, 10))
	case 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d: // LT..EQ AND OR XOR BYTE SHL SHR SAR
		return plain(2, 1, 3)
	case 0x15, 0x19: // ISZERO NOT
		return plain(1, 1, 3)
	case 0x20: // SHA3
		return more(plain(2, 1, 30))
	case 0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d: // ADDRESS ORIGIN CALLER CALLVALUE CALLDATASIZE CODESIZE GASPRICE RETURNDATASIZE
		return plain(0, 1, 2)
	case 0x31, 0x3b, 0x3f: // BALANCE EXTCODESIZE EXTCODEHASH
		return access(1, 1, 700)
	case 0x35: // CALLDATALOAD
		return plain(1, 1, 3)
	case 0x37, 0x39, 0x3e: // CALLDATACOPY CODECOPY RETURNDATACOPY
		return more(plain(3, 0, 3))
	case 0x3c: // EXTCODECOPY
		return access(4, 0, 700)
	case 0x40: // BLOCKHASH
		return plain(1, 1, 20)
	case 0x41, 0x42, 0x43, 0x44, 0x45, 0x46: // COINBASE TIMESTAMP NUMBER PREVRANDAO GASLIMIT CHAINID
		return plain(0, 1, 2)
	case 0x47: // SELFBALANCE
		return plain(0, 1, 5)
	case 0x48: // BASEFEE
		return since(tosca.R10_London, plain(0, 1, 2))
	case 0x49: // BLOBHASH
		return since(tosca.R13_Cancun, plain(1, 1, 3))
	case 0x4a: // BLOBBASEFEE
		return since(tosca.R13_Cancun, plain(0, 1, 2))
	case 0x50: // POP
		return plain(1, 0, 2)
	case 0x51: // MLOAD
		return more(plain(1, 1, 3))
	case 0x52, 0x53: // MSTORE MSTORE8
		return more(plain(2, 0, 3))
	case 0x54: // SLOAD
		return access(1, 1, 800)
	case 0x55: // SSTORE
		return write(plain(2, 0, 0))
	case 0x56: // JUMP
		return more(plain(1, 0, 8))
	case 0x57: // JUMPI
		return more(plain(2, 0, 10))
	case 0x58, 0x59, 0x5a: // PC MSIZE GAS
		return plain(0, 1, 2)
	case 0x5b: // JUMPDEST
		return plain(0, 0, 1)
	case 0x5c: // TLOAD
		return since(tosca.R13_Cancun, plain(1, 1, 100))
	case 0x5d: // TSTORE
		return since(tosca.R13_Cancun, write(plain(2, 0, 100)))
	case 0x5e: // MCOPY
		return since(tosca.R13_Cancun, more(plain(3, 0, 3)))
	case 0x5f: // PUSH0
		return since(tosca.R12_Shanghai, plain(0, 1, 2))
	case 0xf0: // CREATE
		return write(plain(3, 1, 32000))
	case 0xf5: // CREATE2
		return write(plain(4, 1, 32000))
	case 0xf1, 0xf2: // CALL CALLCODE
		return access(7, 1, 700)
	case 0xf4, 0xfa: // DELEGATECALL STATICCALL
		return access(6, 1, 700)
	case 0xf3, 0xfd: // RETURN REVERT
		return more(plain(2, 0, 0))
	case 0xff: // SELFDESTRUCT
		return write(plain(1, 0, 5000))
	}
	return vcInfo{}
}

func vcChecks(op OpCode) {
	c, h := vcContext(op)
	sp, gas, n := c.stack.stackPointer, c.gas, len(c.memory.store)
	op += OpCode(vc.Concretize(vc.U64("instruction")&15, 16))
	c.code[0].opcode = op
	if vc.Split(c.params.Revision >= tosca.R09_Berlin) {
		c.params.Revision = vcRevision()
		vc.Requires(c.params.Revision >= tosca.R09_Berlin)
	} else {
		c.params.Revision = vcRevision()
		vc.Requires(c.params.Revision < tosca.R09_Berlin)
	}
	i := vcInstruction(op, c.params.Revision)
	value := vcAnd(op == 0xf1, vcAnd(sp >= 3, c.params.Static))
	if value {
		v := c.stack.peekN(2)
		value = v[0]|v[1]|v[2]|v[3] != 0
	}
	status := execute(c, true)
	failed := status == statusFailed
	fits := vcAnd(sp >= i.pops, sp-i.pops+i.push <= maxStackSize)
	allowed := vcAnd(vcAnd(fits, c.params.Revision >= i.since), vcAnd(gas >= i.gas, vcAnd(i.ok, !vcAnd(vcOr(i.write, value), c.params.Static))))
	if failed {
		vc.Ensures("an instruction that is not allowed has no effect", vcImp(!allowed, vcAnd(h.n == 0, len(c.memory.store) == n)))
		vc.Ensures("an instruction without other reasons to fail succeeds if it is allowed", !vcAnd(allowed, i.plain))
		vc.Cover("failed")
		return
	}
	vc.Ensures("only instructions available in the revision and mode, with operands, room and gas, are executed", allowed)
	vc.Ensures("the stack changes by the defined amount", c.stack.stackPointer == sp-i.pops+i.push)
	if i.plain {
		vc.Ensures("exactly the fixed cost is charged", c.gas == gas-i.gas)
		vc.Ensures("the world state is not changed", h.n == 0)
	} else if op < 0xf0 || op > 0xf5 && op != 0xfa {
		vc.Ensures("at least the fixed cost is charged", vcAnd(c.gas <= gas-i.gas, c.gas >= 0))
	}
	vc.Cover("succeeded")
}

func vch_checks_0() { vcChecks(0x00) }
func vch_checks_1() { vcChecks(0x10) }
func vch_checks_2() { vcChecks(0x20) }
func vch_checks_3() { vcChecks(0x30) }
func vch_checks_4() { vcChecks(0x40) }
func vch_checks_5() { vcChecks(0x50) }
func vch_checks_6() { vcChecks(0x60) }
func vch_checks_7() { vcChecks(0x70) }
func vch_checks_8() { vcChecks(0x80) }
func vch_checks_9() { vcChecks(0x90) }
func vch_checks_a() { vcChecks(0xa0) }
func vch_checks_b() { vcChecks(0xb0) }
func vch_checks_c() { vcChecks(0xc0) }
func vch_checks_d() { vcChecks(0xd0) }
func vch_checks_e() { vcChecks(0xe0) }
func vch_checks_f() { vcChecks(0xf0) }
