// Contracts for the Go opcode table (property G01): every byte value agrees with the EVM instruction set.
package vm

import (
	"vc"
	_ "vc/rt"
)

// the EVM instruction set up to Cancun, by byte value
var vcNames = [256]string{
	0x00: "STOP", 0x01: "ADD", 0x02: "MUL", 0x03: "SUB", 0x04: "DIV", 0x05: "SDIV", 0x06: "MOD", 0x07: "SMOD",
	0x08: "ADDMOD", 0x09: "MULMOD", 0x0a: "EXP", 0x0b: "SIGNEXTEND",
	0x10: "LT", 0x11: "GT", 0x12: "SLT", 0x13: "SGT", 0x14: "EQ", 0x15: "ISZERO", 0x16: "AND", 0x17: "OR",
	0x18: "XOR", 0x19: "NOT", 0x1a: "BYTE", 0x1b: "SHL", 0x1c: "SHR", 0x1d: "SAR",
	0x20: "SHA3",
	0x30: "ADDRESS", 0x31: "BALANCE", 0x32: "ORIGIN", 0x33: "CALLER", 0x34: "CALLVALUE", 0x35: "CALLDATALOAD", 0x36: "CALLDATASIZE", 0x37: "CALLDATACOPY",
	0x38: "CODESIZE", 0x39: "CODECOPY", 0x3a: "GASPRICE", 0x3b: "EXTCODESIZE", 0x3c: "EXTCODECOPY", 0x3d: "RETURNDATASIZE", 0x3e: "RETURNDATACOPY", 0x3f: "EXTCODEHASH",
	0x40: "BLOCKHASH", 0x41: "COINBASE", 0x42: "TIMESTAMP", 0x43: "NUMBER", 0x44: "PREVRANDAO", 0x45: "GASLIMIT", 0x46: "CHAINID", 0x47: "SELFBALANCE",
	0x48: "BASEFEE", 0x49: "BLOBHASH", 0x4a: "BLOBBASEFEE",
	0x50: "POP", 0x51: "MLOAD", 0x52: "MSTORE", 0x53: "MSTORE8", 0x54: "SLOAD", 0x55: "SSTORE", 0x56: "JUMP", 0x57: "JUMPI",
	0x58: "PC", 0x59: "MSIZE", 0x5a: "GAS", 0x5b: "JUMPDEST", 0x5c: "TLOAD", 0x5d: "TSTORE", 0x5e: "MCOPY", 0x5f: "PUSH0",
	0x60: "PUSH1", 0x61: "PUSH2", 0x62: "PUSH3", 0x63: "PUSH4", 0x64: "PUSH5", 0x65: "PUSH6", 0x66: "PUSH7", 0x67: "PUSH8",
	0x68: "PUSH9", 0x69: "PUSH10", 0x6a: "PUSH11", 0x6b: "PUSH12", 0x6c: "PUSH13", 0x6d: "PUSH14", 0x6e: "PUSH15", 0x6f: "PUSH16",
	0x70: "PUSH17", 0x71: "PUSH18", 0x72: "PUSH19", 0x73: "PUSH20", 0x74: "PUSH21", 0x75: "PUSH22", 0x76: "PUSH23", 0x77: "PUSH24",
	0x78: "PUSH25", 0x79: "PUSH26", 0x7a: "PUSH27", 0x7b: "PUSH28", 0x7c: "PUSH29", 0x7d: "PUSH30", 0x7e: "PUSH31", 0x7f: "PUSH32",
	0x80: "DUP1", 0x81: "DUP2", 0x82: "DUP3", 0x83: "DUP4", 0x84: "DUP5", 0x85: "DUP6", 0x86: "DUP7", 0x87: "DUP8",
	0x88: "DUP9", 0x89: "DUP10", 0x8a: "DUP11", 0x8b: "DUP12", 0x8c: "DUP13", 0x8d: "DUP14", 0x8e: "DUP15", 0x8f: "DUP16",
	0x90: "SWAP1", 0x91: "SWAP2", 0x92: "SWAP3", 0x93: "SWAP4", 0x94: "SWAP5", 0x95: "SWAP6", 0x96: "SWAP7", 0x97: "SWAP8",
	0x98: "SWAP9", 0x99: "SWAP10", 0x9a: "SWAP11", 0x9b: "SWAP12", 0x9c: "SWAP13", 0x9d: "SWAP14", 0x9e: "SWAP15", 0x9f: "SWAP16",
	0xa0: "LOG0", 0xa1: "LOG1", 0xa2: "LOG2", 0xa3: "LOG3", 0xa4: "LOG4",
	0xf0: "CREATE", 0xf1: "CALL", 0xf2: "CALLCODE", 0xf3: "RETURN", 0xf4: "DELEGATECALL", 0xf5: "CREATE2",
	0xfa: "STATICCALL", 0xfd: "REVERT", 0xfe: "INVALID", 0xff: "SELFDESTRUCT",
}

// the constants of the package under the names of the instruction set
var vcConstants = [...]struct {
	name string
	op   OpCode
}{
	{"STOP", STOP},
	{"ADD", ADD},
	{"MUL", MUL},
	{"SUB", SUB},
	{"DIV", DIV},
	{"SDIV", SDIV},
	{"MOD", MOD},
	{"SMOD", SMOD},
	{"ADDMOD", ADDMOD},
	{"MULMOD", MULMOD},
	{"EXP", EXP},
	{"SIGNEXTEND", SIGNEXTEND},
	{"LT", LT},
	{"GT", GT},
	{"SLT", SLT},
	{"SGT", SGT},
	{"EQ", EQ},
	{"ISZERO", ISZERO},
	{"AND", AND},
	{"OR", OR},
	{"XOR", XOR},
	{"NOT", NOT},
	{"BYTE", BYTE},
	{"SHL", SHL},
	{"SHR", SHR},
	{"SAR", SAR},
	{"SHA3", SHA3},
	{"ADDRESS", ADDRESS},
	{"BALANCE", BALANCE},
	{"ORIGIN", ORIGIN},
	{"CALLER", CALLER},
	{"CALLVALUE", CALLVALUE},
	{"CALLDATALOAD", CALLDATALOAD},
	{"CALLDATASIZE", CALLDATASIZE},
	{"CALLDATACOPY", CALLDATACOPY},
	{"CODESIZE", CODESIZE},
	{"CODECOPY", CODECOPY},
	{"GASPRICE", GASPRICE},
	{"EXTCODESIZE", EXTCODESIZE},
	{"EXTCODECOPY", EXTCODECOPY},
	{"RETURNDATASIZE", RETURNDATASIZE},
	{"RETURNDATACOPY", RETURNDATACOPY},
	{"EXTCODEHASH", EXTCODEHASH},
	{"BLOCKHASH", BLOCKHASH},
	{"COINBASE", COINBASE},
	{"TIMESTAMP", TIMESTAMP},
	{"NUMBER", NUMBER},
	{"PREVRANDAO", PREVRANDAO},
	{"GASLIMIT", GASLIMIT},
	{"CHAINID", CHAINID},
	{"SELFBALANCE", SELFBALANCE},
	{"BASEFEE", BASEFEE},
	{"BLOBHASH", BLOBHASH},
	{"BLOBBASEFEE", BLOBBASEFEE},
	{"POP", POP},
	{"MLOAD", MLOAD},
	{"MSTORE", MSTORE},
	{"MSTORE8", MSTORE8},
	{"SLOAD", SLOAD},
	{"SSTORE", SSTORE},
	{"JUMP", JUMP},
	{"JUMPI", JUMPI},
	{"PC", PC},
	{"MSIZE", MSIZE},
	{"GAS", GAS},
	{"JUMPDEST", JUMPDEST},
	{"TLOAD", TLOAD},
	{"TSTORE", TSTORE},
	{"MCOPY", MCOPY},
	{"PUSH0", PUSH0},
	{"PUSH1", PUSH1},
	{"PUSH2", PUSH2},
	{"PUSH3", PUSH3},
	{"PUSH4", PUSH4},
	{"PUSH5", PUSH5},
	{"PUSH6", PUSH6},
	{"PUSH7", PUSH7},
	{"PUSH8", PUSH8},
	{"PUSH9", PUSH9},
	{"PUSH10", PUSH10},
	{"PUSH11", PUSH11},
	{"PUSH12", PUSH12},
	{"PUSH13", PUSH13},
	{"PUSH14", PUSH14},
	{"PUSH15", PUSH15},
	{"PUSH16", PUSH16},
	{"PUSH17", PUSH17},
	{"PUSH18", PUSH18},
	{"PUSH19", PUSH19},
	{"PUSH20", PUSH20},
	{"PUSH21", PUSH21},
	{"PUSH22", PUSH22},
	{"PUSH23", PUSH23},
	{"PUSH24", PUSH24},
	{"PUSH25", PUSH25},
	{"PUSH26", PUSH26},
	{"PUSH27", PUSH27},
	{"PUSH28", PUSH28},
	{"PUSH29", PUSH29},
	{"PUSH30", PUSH30},
	{"PUSH31", PUSH31},
	{"PUSH32", PUSH32},
	{"DUP1", DUP1},
	{"DUP2", DUP2},
	{"DUP3", DUP3},
	{"DUP4", DUP4},
	{"DUP5", DUP5},
	{"DUP6", DUP6},
	{"DUP7", DUP7},
	{"DUP8", DUP8},
	{"DUP9", DUP9},
	{"DUP10", DUP10},
	{"DUP11", DUP11},
	{"DUP12", DUP12},
	{"DUP13", DUP13},
	{"DUP14", DUP14},
	{"DUP15", DUP15},
	{"DUP16", DUP16},
	{"SWAP1", SWAP1},
	{"SWAP2", SWAP2},
	{"SWAP3", SWAP3},
	{"SWAP4", SWAP4},
	{"SWAP5", SWAP5},
	{"SWAP6", SWAP6},
	{"SWAP7", SWAP7},
	{"SWAP8", SWAP8},
	{"SWAP9", SWAP9},
	{"SWAP10", SWAP10},
	{"SWAP11", SWAP11},
	{"SWAP12", SWAP12},
	{"SWAP13", SWAP13},
	{"SWAP14", SWAP14},
	{"SWAP15", SWAP15},
	{"SWAP16", SWAP16},
	{"LOG0", LOG0},
	{"LOG1", LOG1},
	{"LOG2", LOG2},
	{"LOG3", LOG3},
	{"LOG4", LOG4},
	{"CREATE", CREATE},
	{"CALL", CALL},
	{"CALLCODE", CALLCODE},
	{"RETURN", RETURN},
	{"DELEGATECALL", DELEGATECALL},
	{"CREATE2", CREATE2},
	{"STATICCALL", STATICCALL},
	{"REVERT", REVERT},
	{"INVALID", INVALID},
	{"SELFDESTRUCT", SELFDESTRUCT},
}

func vcIsPush(i int) bool { return 0x5f <= i && i <= 0x7f }

func vch_opcode_names() {
	i := int(vc.Concretize(uint64(vc.U8("opcode")), 256))
	name := OpCode(i).String()
	if vcNames[i] != "" {
		vc.Ensures("each instruction byte prints the name of its instruction", name == vcNames[i])
	} else {
		const hex = "0123456789ABCDEF"
		vc.Ensures("other bytes print their value", name == "op(0x"+hex[i/16:i/16+1]+hex[i%16:i%16+1]+")")
	}
	vc.Cover("names")
}

func vch_opcode_constants() {
	ok := true
	for _, c := range vcConstants {
		ok = ok && vcNames[c.op] == c.name
	}
	vc.Ensures("every instruction name denotes its own byte", ok)
	vc.Cover("constants")
}

func vch_opcode_valid() {
	i := int(vc.Concretize(uint64(vc.U8("opcode")), 256))
	// INVALID is the designated invalid instruction
	vc.Ensures("exactly the bytes of instructions are valid", IsValid(OpCode(i)) == (vcNames[i] != "" && i != 0xfe))
	vc.Cover("valid")
}

func vch_opcode_width() {
	op := vc.U8("opcode")
	want := 1
	if 0x60 <= op && op <= 0x7f {
		want = int(op) - 0x5f + 1
	}
	vc.Ensures("an instruction is as wide as its opcode and immediate data", OpCode(op).Width() == want)
	vc.Cover("width")
}

func vch_opcode_no_push() {
	var count [256]int
	other := false
	for _, op := range ValidOpCodesNoPush() {
		count[op]++
		other = other || vcIsPush(int(op))
	}
	once := true
	for i := 0; i < 256; i++ {
		if vcNames[i] != "" && i != 0xfe && !vcIsPush(i) {
			once = once && count[i] == 1
		} else {
			other = other || count[i] != 0
		}
	}
	vc.Ensures("each valid instruction that is no push is listed exactly once", once)
	vc.Ensures("nothing else is listed", !other)
	vc.Cover("no push")
}
