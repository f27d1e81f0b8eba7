// Contracts for the storage and account access instructions of the Go interpreter (property L04).
package lfvm

import (
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// a state about to execute op with enough operands, room and fixed gas, in a given class of revisions
type vcAcc struct {
	c      *context
	h      *vcHost
	sp     int
	gas    tosca.Gas
	rev    tosca.Revision
	berlin bool
	london bool
	top    uint256.Int
	k      int
	deep   uint256.Int
}

func vcNewAcc(op OpCode, pops int) *vcAcc {
	c, h := vcContext(op)
	a := &vcAcc{c: c, h: h, sp: c.stack.stackPointer, gas: c.gas}
	vc.Requires(a.sp >= pops && a.sp < maxStackSize)
	a.berlin = vc.Split(c.params.Revision >= tosca.R09_Berlin)
	a.rev = c.params.Revision
	a.london = a.rev >= tosca.R10_London
	if pops > 0 {
		a.top = c.stack.data[a.sp-1]
	}
	a.k = int(vc.U64("deeper word"))
	vc.Requires(a.k >= 0 && a.k < a.sp-pops)
	a.deep = c.stack.data[a.k]
	return a
}

func (a *vcAcc) key() tosca.Key         { return tosca.Key(a.top.Bytes32()) }
func (a *vcAcc) address() tosca.Address { return tosca.Address(a.top.Bytes20()) }

func vcPick(c bool, x, y tosca.Gas) tosca.Gas {
	if c {
		return x
	}
	return y
}

// the price of touching an account
func (a *vcAcc) accountPrice() tosca.Gas {
	if !a.berlin {
		return 700
	}
	return vcPick(a.h.warm, 100, 2600)
}

// runs the instruction; reports whether it did not fail, which is exactly if gas covers the price
func (a *vcAcc) run(want status, price tosca.Gas) bool {
	s := execute(a.c, true)
	vc.Ensures("the instruction succeeds exactly if gas covers its price", (s != statusFailed) == (a.gas >= price))
	if s == statusFailed {
		vc.Cover("out of gas")
		return false
	}
	vc.Ensures("the way execution continues", s == want)
	vc.Ensures("exactly the price is charged", a.c.gas == a.gas-price)
	vc.Ensures("deeper words are unchanged", vcSame(&a.c.stack.data[a.k], &a.deep))
	return true
}
func (a *vcAcc) result(w [32]byte) {
	r := a.c.stack.data[a.sp-1].Bytes32()
	vc.Ensures("the operand is replaced by the answer", a.c.stack.stackPointer == a.sp && r == w)
}

// the requests: first the access (since Berlin), then others
func (a *vcAcc) accessed(kind vcRequest, addr tosca.Address, key tosca.Key, others int) int {
	n := 0
	if a.berlin {
		n = 1
		vc.Ensures("the access is recorded first", a.h.kind[0] == kind && a.h.addr[0] == addr && a.h.key[0] == key)
	}
	vc.Ensures("exactly the prescribed requests are issued", a.h.n == n+others)
	return n
}

func vch_sload() {
	a := vcNewAcc(SLOAD, 1)
	a.h.slot = a.key()
	price := tosca.Gas(800)
	if a.berlin {
		price = vcPick(a.h.warmSlot, 100, 2100)
	}
	if a.run(statusRunning, price) {
		a.result(a.h.stored)
		a.accessed(vcAccessStorage, a.h.self, a.h.slot, 0)
		vc.Ensures("no refund", a.c.refund == 0)
		vc.Cover("loaded")
	}
}

// price and refund of a storage transition (EIP-2200, EIP-2929, EIP-3529)
func (a *vcAcc) transition(s tosca.StorageStatus) (price, refund tosca.Gas) {
	access := vcPick(a.berlin, 100, 800) // of a dirty or unchanged slot
	reset := vcPick(a.berlin, 2900, 5000)
	clear := vcPick(a.london, 4800, 15000) // refund for deleting
	const set = 20000
	switch s {
	case tosca.StorageAdded: // 0 -> 0 -> Z
		return set, 0
	case tosca.StorageDeleted: // X -> X -> 0
		return reset, clear
	case tosca.StorageModified: // X -> X -> Z
		return reset, 0
	case tosca.StorageDeletedAdded: // X -> 0 -> Z
		return access, -clear
	case tosca.StorageModifiedDeleted: // X -> Y -> 0
		return access, clear
	case tosca.StorageDeletedRestored: // X -> 0 -> X
		return access, reset - access - clear
	case tosca.StorageAddedDeleted: // 0 -> Y -> 0
		return access, set - access
	case tosca.StorageModifiedRestored: // X -> Y -> X
		return access, reset - access
	}
	return access, 0
}

func vch_sstore() {
	a := vcNewAcc(SSTORE, 2)
	a.h.status = tosca.StorageStatus(vc.Concretize(vc.U64("transition")&15, 16))
	vc.Requires(a.h.status <= tosca.StorageModifiedRestored)
	refund := tosca.Gas(vc.I64("refund"))
	a.c.refund = refund
	value := tosca.Word(a.c.stack.data[a.sp-2].Bytes32())
	price, back := a.transition(a.h.status)
	if a.berlin {
		price += vcPick(a.h.warmSlot, 0, 2100)
	}
	if a.c.params.Static || a.gas <= 2300 {
		vc.Ensures("not executed in static mode or with the call stipend only", execute(a.c, true) == statusFailed && a.h.n == 0)
		vc.Cover("rejected")
		return
	}
	if a.run(statusRunning, price) {
		vc.Ensures("the operands are consumed", a.c.stack.stackPointer == a.sp-2)
		n := a.accessed(vcAccessStorage, a.h.self, a.key(), 1)
		vc.Ensures("the slot is set to the value", a.h.kind[n] == vcSetStorage && a.h.addr[n] == a.h.self && a.h.key[n] == a.key() && a.h.word[n] == value)
		vc.Ensures("exactly the prescribed refund is granted", a.c.refund == refund+back)
		vc.Cover("stored")
	}
}

func vch_tload() {
	a := vcNewAcc(TLOAD, 1)
	vc.Requires(a.rev >= tosca.R13_Cancun)
	a.h.slot = a.key()
	if a.run(statusRunning, 100) {
		a.result(a.h.transient)
		vc.Ensures("no other request", a.h.n == 0)
		vc.Cover("loaded")
	}
}
func vch_tstore() {
	a := vcNewAcc(TSTORE, 2)
	vc.Requires(a.rev >= tosca.R13_Cancun && !a.c.params.Static)
	value := tosca.Word(a.c.stack.data[a.sp-2].Bytes32())
	if a.run(statusRunning, 100) {
		vc.Ensures("the operands are consumed", a.c.stack.stackPointer == a.sp-2)
		vc.Ensures("the transient slot is set to the value", a.h.n == 1 && a.h.kind[0] == vcSetTransient && a.h.addr[0] == a.h.self && a.h.key[0] == a.key() && a.h.word[0] == value)
		vc.Cover("stored")
	}
}

// balance of the account the operand names
func (a *vcAcc) balance() tosca.Value {
	if a.h.account == a.h.self {
		return a.h.selfBalance
	}
	return a.h.balance
}

func vch_balance() {
	a := vcNewAcc(BALANCE, 1)
	a.h.account = a.address()
	if a.run(statusRunning, a.accountPrice()) {
		a.result(a.balance())
		a.accessed(vcAccessAccount, a.h.account, tosca.Key{}, 0)
		vc.Cover("answered")
	}
}
func vch_selfbalance() {
	a := vcNewAcc(SELFBALANCE, 0)
	if a.run(statusRunning, 5) {
		r := a.c.stack.data[a.sp].Bytes32()
		vc.Ensures("the own balance is pushed", a.c.stack.stackPointer == a.sp+1 && r == a.h.selfBalance && a.h.n == 0)
		vc.Cover("answered")
	}
}
func vch_extcodesize() {
	a := vcNewAcc(EXTCODESIZE, 1)
	a.h.account = a.address()
	if a.run(statusRunning, a.accountPrice()) {
		a.result(uint256.NewInt(uint64(a.h.codeSize)).Bytes32())
		a.accessed(vcAccessAccount, a.h.account, tosca.Key{}, 0)
		vc.Cover("answered")
	}
}
func vch_extcodehash() {
	a := vcNewAcc(EXTCODEHASH, 1)
	a.h.account = a.address()
	empty := a.balance() == tosca.Value{} && a.h.nonce == 0 && a.h.codeSize == 0
	if a.run(statusRunning, a.accountPrice()) {
		want := a.h.codeHash
		if empty {
			want = tosca.Hash{}
		}
		a.result(want)
		a.accessed(vcAccessAccount, a.h.account, tosca.Key{}, 0)
		vc.Cover("answered")
	}
}
func vch_selfdestruct() {
	a := vcNewAcc(SELFDESTRUCT, 1)
	a.h.account = a.address()
	vc.Requires(!a.c.params.Static)
	refund := tosca.Gas(vc.I64("refund"))
	a.c.refund = refund
	price := tosca.Gas(5000)
	if a.berlin {
		price += vcPick(a.h.warm, 0, 2600)
	}
	if a.balance() == (tosca.Value{}) && a.h.nonce == 0 && a.h.codeSize == 0 && a.h.selfBalance != (tosca.Value{}) {
		price += 25000
	}
	if a.run(statusSelfDestructed, price) {
		n := a.accessed(vcAccessAccount, a.h.account, tosca.Key{}, 1)
		vc.Ensures("the account is destructed in favour of the beneficiary", a.h.kind[n] == vcSelfDestruct && a.h.addr[n] == a.h.self && a.h.other == a.h.account)
		vc.Ensures("the refund is granted for the first destruction before London", a.c.refund == refund+vcPick(a.h.destructed && !a.london, 24000, 0))
		vc.Cover("destructed")
	}
}
func vch_blockhash() {
	a := vcNewAcc(BLOCKHASH, 1)
	n, cur := a.top[0], uint64(a.c.params.BlockNumber)
	a.h.block = int64(n)
	known := a.top.IsUint64() && n < cur && cur-n <= 256
	if a.run(statusRunning, 20) {
		if known {
			a.result(a.h.blockHash)
			vc.Cover("known")
		} else {
			a.result([32]byte{})
			vc.Cover("unknown")
		}
		vc.Ensures("no other request", a.h.n == 0)
	}
}
