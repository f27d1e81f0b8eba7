// Contracts for control flow and the reported outcome of the Go interpreter (property L06).
package lfvm

import (
	"errors"
	"unsafe"
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// code of an arbitrary number of arbitrary instructions, at an arbitrary one of them
func vcAnywhere(op OpCode) (*context, int) {
	c, _ := vcContext(op)
	n := vc.U64("code length")
	vc.Requires(n >= 1 && n <= 1<<20)
	c.code = unsafe.Slice((*Instruction)(vc.Buffer(n*uint64(unsafe.Sizeof(Instruction{})), "program")), n)
	pc := vc.U64("pc")
	vc.Requires(pc < n)
	c.pc = int32(pc)
	vc.Requires(c.code[pc].opcode == op)
	return c, int(pc)
}

// whether a word is the position of a jump destination
func vcTarget(c *context, d *uint256.Int) bool {
	return vcAnd(d[1]|d[2]|d[3] == 0, vcAnd(d[0] < uint64(len(c.code)), vcOpAt(c, d[0]) == JUMPDEST))
}
func vcOpAt(c *context, i uint64) OpCode {
	if i >= uint64(len(c.code)) {
		return STOP
	}
	return c.code[i].opcode
}

func vch_jump() {
	c, _ := vcAnywhere(JUMP)
	sp, gas := c.stack.stackPointer, c.gas
	vc.Requires(sp >= 1)
	d := c.stack.data[sp-1]
	ok := vcAnd(gas >= 8, vcTarget(c, &d))
	s := execute(c, true)
	vc.Ensures("a jump succeeds exactly if gas covers it and the target is a jump destination of the code", (s == statusRunning) == ok)
	if s != statusRunning {
		vc.Ensures("a failed jump is a failure", s == statusFailed)
		vc.Cover("invalid")
		return
	}
	vc.Ensures("execution continues at the target", uint64(c.pc) == d[0])
	vc.Ensures("the target is removed and the fixed cost charged", c.stack.stackPointer == sp-1 && c.gas == gas-8)
	vc.Cover("jumped")
}

func vch_jumpi() {
	c, pc := vcAnywhere(JUMPI)
	sp, gas := c.stack.stackPointer, c.gas
	vc.Requires(sp >= 2)
	d, cond := c.stack.data[sp-1], c.stack.data[sp-2]
	taken := cond[0]|cond[1]|cond[2]|cond[3] != 0
	ok := vcAnd(gas >= 10, vcOr(!taken, vcTarget(c, &d)))
	s := execute(c, true)
	vc.Ensures("a conditional jump succeeds exactly if gas covers it and it is not taken or the target is a jump destination", (s == statusRunning) == ok)
	if s != statusRunning {
		vc.Ensures("a failed jump is a failure", s == statusFailed)
		vc.Cover("invalid")
		return
	}
	vc.Ensures("the operands are removed and the fixed cost charged", c.stack.stackPointer == sp-2 && c.gas == gas-10)
	if taken {
		vc.Ensures("a non-zero condition continues at the target", uint64(c.pc) == d[0])
		vc.Cover("taken")
	} else {
		vc.Ensures("a zero condition continues with the next instruction", int(c.pc) == pc+1)
		vc.Cover("not taken")
	}
}

func vch_jumpdest() {
	c, pc := vcAnywhere(JUMPDEST)
	sp, gas := c.stack.stackPointer, c.gas
	vc.Requires(gas >= 1)
	s := execute(c, true)
	vc.Ensures("a jump destination has no effect but its cost", s == statusRunning && int(c.pc) == pc+1 && c.stack.stackPointer == sp && c.gas == gas-1)
	vc.Cover("passed")
}

func vch_pc() {
	c, pc := vcAnywhere(PC)
	sp, gas := c.stack.stackPointer, c.gas
	vc.Requires(gas >= 2 && sp < maxStackSize)
	w := uint64(c.code[pc].arg) // the position in the original code: property L05
	s := execute(c, true)
	r := c.stack.data[sp]
	vc.Ensures("PC pushes the position recorded for it", s == statusRunning && int(c.pc) == pc+1 && c.stack.stackPointer == sp+1 && r[0] == w && r[1]|r[2]|r[3] == 0)
	vc.Cover("pushed")
}

// instructions that do not jump are followed by the next one
func vch_next() {
	c, pc := vcAnywhere(ADD)
	vc.Requires(c.gas >= 3 && c.stack.stackPointer >= 2)
	s := execute(c, true)
	vc.Ensures("execution continues with the next instruction", s == statusRunning && int(c.pc) == pc+1)
	vc.Cover("next")
}

// without stepping, execution goes on until it ends
func vch_sequence() {
	c, h := vcContext(JUMPDEST)
	c.code[1].opcode = JUMPDEST
	end := vc.Split(vc.Bool("end of code"))
	if end {
		c.code = c.code[:2]
	} else {
		c.code[2].opcode = STOP
	}
	sp, gas := c.stack.stackPointer, c.gas
	s := execute(c, false)
	vc.Ensures("execution proceeds until it stops", s == vcPickStatus(gas >= 2, statusStopped, statusFailed))
	vc.Ensures("every instruction is charged", vcImp(gas >= 2, c.gas == gas-2))
	vc.Ensures("nothing else changes", c.stack.stackPointer == sp && h.n == 0)
	vc.Cover("stopped")
}

func vcPickStatus(b bool, x, y status) status {
	if b {
		return x
	}
	return y
}

func vch_end_of_code() {
	c, _ := vcAnywhere(STOP)
	pc := vc.U64("position")
	vc.Requires(pc >= uint64(len(c.code)) && pc <= 1<<31-1)
	c.pc = int32(pc)
	sp, gas := c.stack.stackPointer, c.gas
	s := execute(c, vc.Split(vc.Bool("stepping")))
	vc.Ensures("execution ends successfully behind the end of code", s == statusStopped && c.gas == gas && c.stack.stackPointer == sp && uint64(c.pc) == pc)
	vc.Cover("ended")
}

func vch_stop() {
	c, _ := vcAnywhere(STOP)
	gas := c.gas
	s := execute(c, false)
	vc.Ensures("STOP ends execution at no cost", s == statusStopped && c.gas == gas)
	vc.Cover("stopped")
}

func vch_invalid() {
	c, _ := vcAnywhere(INVALID)
	s := execute(c, false)
	vc.Ensures("INVALID fails", s == statusFailed)
	vc.Cover("failed")
}

// RETURN and REVERT
func vcEnding(op OpCode, want status) {
	c, h := vcContext(op)
	sp, gas, n := c.stack.stackPointer, c.gas, uint64(len(c.memory.store))
	vc.Requires(sp >= 2)
	off, size := c.stack.data[sp-1], c.stack.data[sp-2]
	i := vc.U64("output byte")
	before := vc.Peek(off[0]+i < n, c.memory.store, off[0]+i)
	grown, ok := vcGrown(n, off[0], size[0])
	ok = vcOr(size[0]|size[1]|size[2]|size[3] == 0, vcAnd(ok, off[1]|off[2]|off[3]|size[1]|size[2]|size[3] == 0))
	fee := tosca.Gas(vc.MemoryFee(grown, n))
	s := execute(c, vc.Split(vc.Bool("stepping")))
	vc.Ensures("execution ends with its result exactly if the result is in range and gas covers the memory", (s == want) == vcAnd(ok, gas >= fee))
	if s != want {
		vc.Ensures("otherwise it fails", s == statusFailed)
		vc.Cover("failed")
		return
	}
	vc.Ensures("the memory is charged", c.gas == gas-fee)
	vc.Ensures("the output has the requested size", uint64(len(c.returnData)) == size[0])
	if size[0] != 0 {
		vc.Requires(i < size[0])
		vc.Ensures("the output is the addressed memory", vc.Peek(true, c.returnData, i) == before)
		vc.Cover("output")
	} else {
		vc.Cover("no output")
	}
	vc.Ensures("ending does not change the world state", h.n == 0)
}
func vch_return() { vcEnding(RETURN, statusReturned) }
func vch_revert() { vcEnding(REVERT, statusReverted) }

// the outcome reported for every way to end
func vcOutcome(s status, c *context, r tosca.Result, err error, out []byte, gas, refund tosca.Gas) {
	vc.Ensures("every way to end is reported", (err == nil) == (s != statusRunning && s <= statusFailed))
	if err != nil {
		vc.Ensures("a broken execution reports nothing", r.Output == nil && r.GasLeft == 0 && r.GasRefund == 0 && !r.Success)
		vc.Cover("broken")
		return
	}
	good := s == statusStopped || s == statusSelfDestructed || s == statusReturned
	vc.Ensures("success is reported exactly for stop, self-destruct and return", r.Success == good)
	if s == statusReturned || s == statusReverted {
		vc.Ensures("the output is reported", len(r.Output) == len(out) && vcAlias(r.Output, out))
		vc.Cover("with output")
	} else {
		vc.Ensures("there is no output without a result", r.Output == nil)
	}
	if s == statusFailed {
		vc.Ensures("failures report no gas", r.GasLeft == 0)
		vc.Cover("failed")
	} else {
		vc.Ensures("the gas left is reported", r.GasLeft == gas)
	}
	if good {
		vc.Ensures("the refund of a successful execution is reported", r.GasRefund == refund)
		vc.Cover("successful")
	} else {
		vc.Ensures("an unsuccessful execution reports no refund", r.GasRefund == 0)
	}
}

func vcAlias(a, b []byte) bool {
	i := vc.U64("output byte")
	return vc.Peek(i < uint64(len(a)), a, i) == vc.Peek(i < uint64(len(b)), b, i)
}

func vcStatus() status {
	s := status(vc.Concretize(vc.U64("status")&7, 8))
	return s
}

func vch_result() {
	n := vc.U64("output length")
	vc.Requires(n <= 1<<32)
	out := vc.Bytes(n, "output")
	c := &context{gas: vcGas(), refund: tosca.Gas(vc.I64("refund")), returnData: out}
	s := vcStatus()
	gas, refund := c.gas, c.refund
	r, err := generateResult(s, c)
	vcOutcome(s, c, r, err, out, gas, refund)
}

// an execution of arbitrary outcome that checks the state it starts in
type vcRunner struct {
	params *tosca.Parameters
	code   Code
	status status
	err    error
	out    []byte
	gas    tosca.Gas
	refund tosca.Gas
	sha    bool
	runs   *int
	stack  **stack
}

func (r vcRunner) run(c *context) (status, error) {
	vc.Ensures("execution starts with the given gas, no refund and at the first instruction", c.gas == r.params.Gas && c.refund == 0 && c.pc == 0)
	vc.Ensures("execution starts with an empty stack and memory and no return data", c.stack.len() == 0 && c.memory.length() == 0 && c.memory.currentMemoryCost == 0 && len(c.returnData) == 0)
	vc.Ensures("execution runs the given code", len(c.code) == len(r.code) && &c.code[0] == &r.code[0])
	vc.Ensures("execution sees the given parameters", c.params.Static == r.params.Static && c.params.Revision == r.params.Revision && c.params.Recipient == r.params.Recipient && c.params.Sender == r.params.Sender && c.params.Value == r.params.Value && len(c.params.Input) == len(r.params.Input) && c.params.Depth == r.params.Depth && c.context == r.params.Context)
	vc.Ensures("the configuration is passed on", c.withShaCache == r.sha)
	*r.runs++
	*r.stack = c.stack
	c.stack.stackPointer = int(vc.U64("final depth"))
	c.gas, c.refund, c.returnData = r.gas, r.refund, r.out
	return r.status, r.err
}

func vch_run() {
	base, h := vcContext(ADD)
	p := base.params
	p.Context = h
	p.Gas = vcGas()
	p.Depth = int(vc.U32("depth of calls"))
	p.Input = vc.Bytes(uint64(vc.U16("input length")), "input")
	n := vc.U64("output length")
	vc.Requires(n <= 1<<32)
	out := vc.Bytes(n, "output")
	runs := 0
	var used *stack
	r := vcRunner{params: &p, code: base.code, status: vcStatus(), out: out, gas: vcGas(), refund: tosca.Gas(vc.I64("refund")), sha: vc.Bool("hash cache"), runs: &runs, stack: &used}
	if vc.Split(vc.Bool("runner fails")) {
		r.err = errors.New("runner failed")
	}
	res, err := run(config{WithShaCache: r.sha, runner: r}, p, base.code)
	vc.Ensures("the code is executed once", runs == 1)
	vc.Ensures("the stack is given back empty", used.len() == 0)
	if r.err != nil {
		vc.Ensures("a failing runner is reported", err == r.err && res.Output == nil && res.GasLeft == 0 && res.GasRefund == 0 && !res.Success)
		vc.Cover("runner failed")
		return
	}
	vcOutcome(r.status, base, res, err, out, r.gas, r.refund)
}

func vch_run_nothing() {
	base, h := vcContext(ADD)
	p := base.params
	p.Context = h
	p.Gas = vcGas()
	res, err := run(config{}, p, Code{})
	vc.Ensures("running no code succeeds and costs nothing", err == nil && res.Success && res.GasLeft == p.Gas && res.GasRefund == 0 && res.Output == nil && h.n == 0)
	vc.Cover("empty")
}

// the default runner executes the code
func vch_run_default() {
	base, h := vcContext(STOP)
	p := base.params
	p.Context = h
	p.Gas = vcGas()
	if vc.Split(vc.Bool("invalid")) {
		base.code[0].opcode = INVALID
		res, err := run(config{}, p, base.code)
		vc.Ensures("the outcome of failing code", err == nil && !res.Success && res.GasLeft == 0 && res.GasRefund == 0 && res.Output == nil)
		vc.Cover("failed")
		return
	}
	res, err := run(config{}, p, base.code)
	vc.Ensures("the outcome of stopping code", err == nil && res.Success && res.GasLeft == p.Gas && res.GasRefund == 0 && res.Output == nil)
	vc.Cover("stopped")
}

// stacks come from the pool empty, also after having been used
func vch_pool() {
	s := NewStack()
	vc.Ensures("a new stack is empty", s.len() == 0)
	s.stackPointer = int(vc.U64("depth"))
	ReturnStack(s)
	vc.Ensures("a stack is given back empty", s.len() == 0)
	vc.Ensures("a stack from the pool is empty", NewStack().len() == 0)
	vc.Cover("pool")
}

func vch_revision() {
	base, h := vcContext(STOP)
	p := base.params
	p.Context = h
	p.Gas = vcGas()
	p.Revision = tosca.Revision(vc.U64("any revision"))
	vc.Requires(p.Revision >= 0)
	p.Code = []byte{byte(vc.Concretize(vc.U64("code")&1, 2)) * 0xfe}
	vm := &lfvm{converter: &Converter{}}
	res, err := vm.Run(p)
	vc.Ensures("exactly the supported revisions are executed", (err == nil) == (p.Revision <= tosca.R13_Cancun))
	if err != nil {
		vc.Ensures("nothing is executed in an unsupported revision", !res.Success && res.GasLeft == 0 && h.n == 0)
		vc.Cover("unsupported")
		return
	}
	vc.Ensures("the given code is executed", res.Success == (p.Code[0] == 0) && res.GasLeft == vcPickGas(p.Code[0] == 0, p.Gas))
	vc.Cover("executed")
}

func vcPickGas(b bool, g tosca.Gas) tosca.Gas {
	if b {
		return g
	}
	return 0
}
