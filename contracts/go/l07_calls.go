// Contracts for the call and create instructions of the Go interpreter (property L07).
package lfvm

import (
	"errors"
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// A stretch of memory given by two operands. The instructions are verified against the contract of Memory.getSlice (property L03:
// a valid access for which gas covers the growth yields the addressed bytes, charging the growth): vcontract_slice.
type vcRange struct {
	off, size uint256.Int
	ok        bool
	fee       tosca.Gas
	grown     uint64
	data      []byte
}

var vcRanges [2]*vcRange
var vcAccessed int

func vcNewRange(i int, off, size *uint256.Int, n uint64) *vcRange {
	r := &vcRange{off: *off, size: *size}
	vcRanges[i] = r
	vcAccessed = 0
	if vc.Symbolic() {
		r.ok = vc.Bool("valid range")
		r.fee = tosca.Gas(vc.U64("fee"))
		vc.Requires(r.fee >= 0 && r.fee < 1<<56)
		l := vc.U64("range length")
		vc.Requires(l <= maxMemoryExpansionSize)
		empty := size[0]|size[1]|size[2]|size[3] == 0
		vc.Requires(vcImp(empty, vcAnd(r.ok, r.fee == 0)))
		vc.Requires(vcImp(r.ok, vcAnd(size[0] == l, size[1]|size[2]|size[3] == 0)))
		r.data = vc.Bytes(l, "range")
		return r
	}
	r.grown, r.ok = vcGrown(n, off[0], size[0])
	empty := size[0]|size[1]|size[2]|size[3] == 0
	r.ok = empty || r.ok && off[1]|off[2]|off[3]|size[1]|size[2]|size[3] == 0
	r.fee = tosca.Gas(vc.MemoryFee(r.grown, n))
	return r
}

// a byte of the range
func (r *vcRange) at(m *Memory, i uint64) byte {
	if vc.Symbolic() {
		return vc.Peek(i < uint64(len(r.data)), r.data, i)
	}
	return vc.Peek(i < r.size[0] && r.off[0]+i < uint64(len(m.store)), m.store, r.off[0]+i)
}

func vcontract_slice(m *Memory, off, size *uint256.Int, c *context) ([]byte, error) {
	vc.Ensures("the operands give the ranges of memory", vcAccessed < 2)
	r := vcRanges[vcAccessed]
	vcAccessed++
	vc.Ensures("the range given by the operands is accessed", vcAnd(vcSame(off, &r.off), vcSame(size, &r.size)))
	if !r.ok {
		return nil, errOverflow
	}
	if c.gas < r.fee {
		return nil, errOutOfGas
	}
	c.gas -= r.fee
	return r.data, nil
}

func vcIf(b bool, g tosca.Gas) tosca.Gas {
	if b {
		return g
	}
	return 0
}
func vcSetWord(w *uint256.Int) bool { return w[0]|w[1]|w[2]|w[3] != 0 }
func vcIsSet(b [32]byte) bool {
	var w uint256.Int
	w.SetBytes32(b[:])
	return vcSetWord(&w)
}

// an arbitrary answer of the callee, spending at most what it was given
func vcAnswer(h *vcHost) []byte {
	n := vc.U64("answer length")
	vc.Requires(n <= 1<<32)
	out := vc.Bytes(n, "answer")
	h.callResult = tosca.CallResult{Output: out, GasLeft: vcGas(), GasRefund: tosca.Gas(vc.I64("callee refund")), Success: vc.Bool("success"), CreatedAddress: vc.Addr("created")}
	if vc.Split(vc.Bool("call fails")) {
		h.callError = errors.New("call failed")
	}
	return out
}

func vcTop(s *stack, n int) *uint256.Int { return &s.data[s.stackPointer-1-n] }

func vcDoCall(op OpCode, kind tosca.CallKind, berlin, transfer bool) {
	c, h := vcContext(op)
	withValue := kind == tosca.Call || kind == tosca.CallCode
	operands := 6
	if withValue {
		operands = 7
	}
	sp, gas, n := c.stack.stackPointer, c.gas, uint64(len(c.memory.store))
	vc.Requires(sp >= operands)
	vc.Requires((c.params.Revision >= tosca.R09_Berlin) == berlin)
	at := 2
	var value uint256.Int
	if withValue {
		value = *vcTop(c.stack, 2)
		at = 3
	}
	wanted := *vcTop(c.stack, 0)
	to := tosca.Address(vcTop(c.stack, 1).Bytes20())
	in := vcNewRange(0, vcTop(c.stack, at), vcTop(c.stack, at+1), n)
	out := vcNewRange(1, vcTop(c.stack, at+2), vcTop(c.stack, at+3), in.grown)
	vc.Requires(vcSetWord(&value) == transfer)
	h.account = to
	deep := vc.U64("deeper word")
	vc.Requires(deep < uint64(sp-operands))
	deeper := c.stack.data[deep]
	refund := tosca.Gas(vc.I32("refund"))
	c.refund = refund
	i := vc.U64("input byte")
	input := in.at(c.memory, i)
	k := vc.U64("output byte")
	before := out.at(c.memory, k)
	answer := vcAnswer(h)
	balance := h.balance
	if to == h.self {
		balance = h.selfBalance
	}
	empty := vcAnd(h.nonce == 0, vcAnd(!vcIsSet(balance), h.codeSize == 0))
	var own uint256.Int
	own.SetBytes32(h.selfBalance[:])
	poor := vcAnd(transfer, own.Lt(&value))
	left := gas - vcIf(!berlin, 700) - in.fee - out.fee
	ok := vcAnd(vcAnd(in.ok, out.ok), vcAnd(left >= 0, !vcAnd(kind == tosca.Call, vcAnd(transfer, c.params.Static))))
	if berlin {
		warm := vc.Concretize(vc.U64("warm")&1, 2)
		h.warm = warm != 0
		left -= tosca.Gas(2600 - 2500*warm)
	}
	if transfer {
		left -= 9000
		if kind == tosca.Call {
			fresh := vc.Concretize(vc.U64("new account")&1, 2)
			vc.Requires((fresh != 0) == empty)
			left -= tosca.Gas(25000 * fresh)
		}
	}
	ok = vcAnd(ok, left >= 0)
	// all but one 64th of the remaining gas, or what is asked for
	given := left - left/64
	if wanted[1]|wanted[2]|wanted[3] == 0 && wanted[0] <= 1<<63-1 && given >= tosca.Gas(wanted[0]) {
		given = tosca.Gas(wanted[0])
	}
	stipend := vcIf(transfer, 2300)
	vc.Requires(vcImp(ok, h.callResult.GasLeft <= given+stipend))
	vc.Requires(h.callResult.GasRefund <= 1<<62 && h.callResult.GasRefund >= -1<<62)

	var seen byte // of the input at the time of the call, the memory changes afterwards
	h.onCall = func() { seen = vc.Peek(i < uint64(len(h.call.Input)), h.call.Input, i) }

	s := execute(c, true)
	vc.Ensures("the instruction succeeds exactly if it is allowed, its ranges are valid and gas covers its price", (s == statusRunning) == ok)
	if s != statusRunning {
		vc.Ensures("otherwise it fails without a call", s == statusFailed && (h.n == 0 || h.n == 1 && h.kind[0] == vcAccessAccount))
		vc.Cover("failed")
		return
	}
	vc.Ensures("the operands are replaced by the result", c.stack.stackPointer == sp-operands+1)
	vc.Ensures("deeper words are unchanged", vcSame(&c.stack.data[deep], &deeper))
	requests := 0
	if berlin {
		requests = 1
		vc.Ensures("the access is recorded first", h.kind[0] == vcAccessAccount && h.addr[0] == to)
	}
	result := vcTop(c.stack, 0)
	if poor {
		vc.Ensures("without the balance to transfer there is no call", h.n == requests)
		vc.Ensures("the result is zero, without return data", !vcSetWord(result) && len(c.returnData) == 0)
		vc.Ensures("the gas for the call is given back", c.gas == left+stipend && c.refund == refund)
		vc.Ensures("the memory is unchanged", out.at(c.memory, k) == before)
		vc.Cover("poor")
		return
	}
	vc.Ensures("exactly one call is issued", h.n == requests+1 && h.kind[requests] == vcCall)
	p := &h.call
	want := kind
	if kind == tosca.Call && c.params.Static {
		want = tosca.StaticCall
	}
	vc.Ensures("the kind of call, static in static mode", h.callKind == want)
	vc.Ensures("the code that is called", p.CodeAddress == to)
	if kind == tosca.DelegateCall {
		vc.Ensures("a delegate call keeps sender, recipient and value", p.Sender == c.params.Sender && p.Recipient == h.self && p.Value == c.params.Value)
	} else {
		vc.Ensures("the caller is the sender and transfers the given value", p.Sender == h.self && p.Value == tosca.Value(value.Bytes32()))
		if kind == tosca.CallCode {
			vc.Ensures("the code runs for the caller", p.Recipient == h.self)
		} else {
			vc.Ensures("the target is the recipient", p.Recipient == to)
		}
	}
	vc.Ensures("the gas for the call", p.Gas == given+stipend)
	vc.Ensures("the input has the given size", uint64(len(p.Input)) == in.size[0])
	vc.Ensures("the input is the addressed memory", vcImp(i < in.size[0], seen == input))
	good := vcAnd(h.callError == nil, h.callResult.Success)
	vc.Ensures("the result is whether the call succeeded", result[0] == uint64(vcBit(good)) && result[1]|result[2]|result[3] == 0)
	vc.Ensures("unspent gas is given back", c.gas == left-given+h.callResult.GasLeft)
	vc.Ensures("the refund is added up", c.refund == refund+h.callResult.GasRefund)
	if h.callError == nil {
		vc.Ensures("the output is the return data", len(c.returnData) == len(answer) && vcSameByte(c.returnData, answer))
		written := before
		if vcAnd(k < out.size[0], k < uint64(len(answer))) {
			written = vc.Peek(true, answer, k)
		}
		vc.Ensures("the output is written to the given range, as far as both reach", vcImp(k < out.size[0], out.at(c.memory, k) == written))
		vc.Cover("called")
	} else {
		vc.Ensures("a broken call leaves the memory unchanged", out.at(c.memory, k) == before)
		vc.Cover("broken")
	}
}

func vcSameByte(a, b []byte) bool {
	i := vc.U64("byte")
	return vc.Peek(i < uint64(len(a)), a, i) == vc.Peek(i < uint64(len(b)), b, i)
}

func vch_call_istanbul()              { vcDoCall(CALL, tosca.Call, false, false) }
func vch_call_berlin()                { vcDoCall(CALL, tosca.Call, true, false) }
func vch_call_istanbul_transfer()     { vcDoCall(CALL, tosca.Call, false, true) }
func vch_call_berlin_transfer()       { vcDoCall(CALL, tosca.Call, true, true) }
func vch_callcode_istanbul()          { vcDoCall(CALLCODE, tosca.CallCode, false, false) }
func vch_callcode_berlin()            { vcDoCall(CALLCODE, tosca.CallCode, true, false) }
func vch_callcode_istanbul_transfer() { vcDoCall(CALLCODE, tosca.CallCode, false, true) }
func vch_callcode_berlin_transfer()   { vcDoCall(CALLCODE, tosca.CallCode, true, true) }
func vch_delegatecall_istanbul()      { vcDoCall(DELEGATECALL, tosca.DelegateCall, false, false) }
func vch_delegatecall_berlin()        { vcDoCall(DELEGATECALL, tosca.DelegateCall, true, false) }
func vch_staticcall_istanbul()        { vcDoCall(STATICCALL, tosca.StaticCall, false, false) }
func vch_staticcall_berlin()          { vcDoCall(STATICCALL, tosca.StaticCall, true, false) }

func vcDoCreate(op OpCode, kind tosca.CallKind) {
	c, h := vcContext(op)
	operands := 3
	if kind == tosca.Create2 {
		operands = 4
	}
	sp, gas, n := c.stack.stackPointer, c.gas, uint64(len(c.memory.store))
	vc.Requires(sp >= operands)
	shanghai := vc.Split(c.params.Revision >= tosca.R12_Shanghai)
	value := *vcTop(c.stack, 0)
	in := vcNewRange(0, vcTop(c.stack, 1), vcTop(c.stack, 2), n)
	var salt tosca.Hash
	if kind == tosca.Create2 {
		salt = tosca.Hash(vcTop(c.stack, 3).Bytes32())
	}
	deep := vc.U64("deeper word")
	vc.Requires(deep < uint64(sp-operands))
	deeper := c.stack.data[deep]
	refund := tosca.Gas(vc.I32("refund"))
	c.refund = refund
	i := vc.U64("input byte")
	input := in.at(c.memory, i)
	answer := vcAnswer(h)
	transfer := vcSetWord(&value)
	var own uint256.Int
	own.SetBytes32(h.selfBalance[:])
	poor := vcAnd(transfer, own.Lt(&value))
	words := (in.size[0] + 31) / 32
	left := gas - 32000 - in.fee
	ok := vcAnd(in.ok, left >= 0)
	if shanghai {
		ok = vcAnd(ok, in.size[0] <= 49152)
		left -= tosca.Gas(2 * words)
	}
	if kind == tosca.Create2 {
		left -= tosca.Gas(6 * words)
	}
	ok = vcAnd(ok, vcAnd(left >= 0, !c.params.Static))
	given := left - left/64
	vc.Requires(vcImp(ok, h.callResult.GasLeft <= given))
	vc.Requires(h.callResult.GasRefund <= 1<<62 && h.callResult.GasRefund >= -1<<62)

	var seen byte // of the input at the time of the call, the memory changes afterwards
	h.onCall = func() { seen = vc.Peek(i < uint64(len(h.call.Input)), h.call.Input, i) }

	s := execute(c, true)
	vc.Ensures("the instruction succeeds exactly if it is allowed, its code is in range and gas covers its price", (s == statusRunning) == ok)
	if s != statusRunning {
		vc.Ensures("otherwise it fails without a request", s == statusFailed && h.n == 0)
		vc.Cover("failed")
		return
	}
	vc.Ensures("the operands are replaced by the result", c.stack.stackPointer == sp-operands+1)
	vc.Ensures("deeper words are unchanged", vcSame(&c.stack.data[deep], &deeper))
	vc.Ensures("the memory is unchanged", in.at(c.memory, i) == input)
	result := vcTop(c.stack, 0)
	if poor {
		vc.Ensures("without the balance to transfer nothing is created", h.n == 0)
		vc.Ensures("the result is zero, without return data", !vcSetWord(result) && len(c.returnData) == 0)
		vc.Ensures("no gas is passed on", c.gas == left && c.refund == refund)
		vc.Cover("poor")
		return
	}
	vc.Ensures("exactly one creation is issued", h.n == 1 && h.kind[0] == vcCall && h.callKind == kind)
	p := &h.call
	vc.Ensures("the creator, the value and the salt", p.Sender == h.self && p.Value == tosca.Value(value.Bytes32()) && p.Salt == salt)
	vc.Ensures("the gas for the creation", p.Gas == given)
	vc.Ensures("the input has the given size", uint64(len(p.Input)) == in.size[0])
	vc.Ensures("the input is the addressed memory", vcImp(i < in.size[0], seen == input))
	var created uint256.Int
	if h.callError == nil && h.callResult.Success {
		created.SetBytes20(h.callResult.CreatedAddress[:])
		vc.Cover("created")
	}
	vc.Ensures("the result is the created address or zero", vcSame(result, &created))
	vc.Ensures("unspent gas is given back", c.gas == left-given+h.callResult.GasLeft)
	vc.Ensures("the refund is added up", c.refund == refund+h.callResult.GasRefund)
	if h.callError == nil && !h.callResult.Success {
		vc.Ensures("the output of a reverted creation is the return data", len(c.returnData) == len(answer) && vcSameByte(c.returnData, answer))
		vc.Cover("reverted")
	} else {
		vc.Ensures("otherwise there is no return data", len(c.returnData) == 0)
	}
}
func vch_create()  { vcDoCreate(CREATE, tosca.Create) }
func vch_create2() { vcDoCreate(CREATE2, tosca.Create2) }
