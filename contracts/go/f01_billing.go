// Contracts for gas billing of the Go transaction processor (property F01).
package floria

import (
	"unsafe"
	"vc"
	_ "vc/rt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

// ---------------------------------------------------------------- intrinsic gas

// The number of non-zero bytes among the first i bytes of the input, and of keys in the first i entries of the access list, as
// sequences given by their defining equations.
var vcInput []byte
var vcCount []uint64
var vcList []tosca.AccessTuple
var vcKeys []uint64
var vcBase, vcListBase uint64

func vcNonZero(b byte) uint64 { return uint64((uint32(b) + 255) >> 8) }
func vcCountStep(i uint64) bool { return vcCount[i+1] == vcCount[i]+vcNonZero(vcInput[i]) }
func vcKeysStep(i uint64) bool  { return vcKeys[i+1] == vcKeys[i]+uint64(len(vcList[i].Keys)) }
func vcIn(i uint64) uint64 { // an index in range
	if i < uint64(len(vcInput)) {
		return i
	}
	return 0
}

// after i bytes, x is ...
func vinv2_nonzero(i, x uint64) { vcCounted(i, x, 0, 0, 1) }
func vinv2_zero(i, x uint64)    { vcCounted(i, x, 0, 1, 0) }
func vinv2_data(i, x uint64)    { vcCounted(i, x, 0, 4, 16) }
func vinv2_gas(i, x uint64)     { vcCounted(i, x, vcBase, 4, 16) }
func vinv2_more(i, x uint64)    { vcCounted(i, x, vcBase+4*uint64(len(vcInput)), 0, 12) }
func vcCounted(i, x, base, zero, nonzero uint64) {
	if i < uint64(len(vcInput)) {
		vc.Fact(vcCountStep(i))
	}
	if i <= uint64(len(vcInput)) {
		vc.Inv(x == base+zero*(i-vcCount[i])+nonzero*vcCount[i])
	}
}

// after i entries of the access list, x is ...
func vinv2_keys(i, x uint64)     { vcListed(i, x, 0, 0, 1) }
func vinv2_keygas(i, x uint64)   { vcListed(i, x, 0, 0, 1900) }
func vinv2_listgas(i, x uint64)  { vcListed(i, x, vcListBase+2400*uint64(len(vcList)), 0, 1900) }
func vinv2_listgas2(i, x uint64) { vcListed(i, x, vcListBase, 2400, 1900) }
func vinv2_listgas3(i, x uint64) { vcListed(i, x, 0, 2400, 1900) }
func vcListed(i, x, base, entry, key uint64) {
	if i < uint64(len(vcList)) {
		vc.Fact(vcKeysStep(i))
	}
	if i <= uint64(len(vcList)) {
		vc.Inv(x == base+entry*i+key*vcKeys[i])
	}
}

func vcWords(n uint64, name string) []uint64 {
	return unsafe.Slice((*uint64)(vc.Buffer(8*n, name)), n)
}

func vcBilling(create bool) {
	n, m := vc.U64("input bytes"), vc.U64("entries of the access list")
	if !vc.Symbolic() {
		n, m = n&63, m&3
	}
	vc.Requires(n >= 1 && n <= 1<<40 && m >= 1 && m <= 1<<32)
	tx := tosca.Transaction{}
	vcInput = unsafe.Slice((*byte)(vc.Buffer(n, "input")), n)
	vcCount, vcKeys = vcWords(n+1, "non-zero bytes"), vcWords(m+1, "keys")
	vcCount[0], vcKeys[0] = 0, 0
	if vc.Symbolic() {
		vcList = unsafe.Slice((*tosca.AccessTuple)(vc.Buffer(m*uint64(unsafe.Sizeof(tosca.AccessTuple{})), "access list")), m)
	} else {
		vcList = make([]tosca.AccessTuple, m)
		for i := range vcList {
			vcList[i].Keys = make([]tosca.Key, vc.U64("keys of an entry")&3)
			vcKeys[i+1] = vcKeys[i] + uint64(len(vcList[i].Keys))
		}
		for i := range vcInput {
			vcCount[i+1] = vcCount[i] + vcNonZero(vcInput[i])
		}
	}
	vcBase = 53000
	if !create {
		tx.Recipient = &tosca.Address{}
		vcBase = 21000
	}
	tx.Input, tx.AccessList = vcInput, vcList
	vcListBase = vcBase + 4*(n-vcCount[n]) + 16*vcCount[n]
	gas := setupGasBilling(tx)
	vc.Ensures("intrinsic gas is charged per transaction, byte, account and key", uint64(gas) == vcListBase+2400*m+1900*vcKeys[m])
	vc.Cover("billed")
}
func vch_contract_intrinsic_call()   { vcBilling(false) }
func vch_contract_intrinsic_create() { vcBilling(true) }
func vch_contract_intrinsic_empty() {
	tx := tosca.Transaction{}
	want := tosca.Gas(53000)
	if vc.Bool("call") {
		tx.Recipient = &tosca.Address{}
		want = 21000
	}
	vc.Ensures("intrinsic gas of a transaction without data or access list", setupGasBilling(tx) == want)
	vc.Cover("billed")
}

// ---------------------------------------------------------------- buying and returning gas

func vch_contract_buy() {
	h := vcNewWorld()
	tx := tosca.Transaction{Sender: h.a, GasPrice: vc.Word("price"), GasLimit: tosca.Gas(vc.U64("limit"))}
	vc.Requires(tx.GasLimit >= 0)
	before, bal := h.balA, vcNum(h.balA)
	err := buyGas(tx, h)
	cost, over := new(uint256.Int).MulOverflow(vcNum(tx.GasPrice), uint256.NewInt(uint64(tx.GasLimit)))
	vc.Ensures("nothing but the balance of the sender is touched", h.others == 0 && h.nonces == 0)
	vc.Ensures("gas is bought exactly if the balance covers the limit at the price", (err == nil) == (!over && !bal.Lt(cost)))
	if err != nil {
		vc.Ensures("nothing is paid for a rejected transaction", h.balA == before)
		return
	}
	vc.Ensures("exactly the limit at the price is paid", vcSame(vcNum(h.balA), new(uint256.Int).Sub(bal, cost)))
}

func vch_contract_return() {
	h := vcNewWorld()
	tx := tosca.Transaction{Sender: h.a, GasPrice: vc.Word("price"), GasLimit: tosca.Gas(vc.U64("limit"))}
	left := vc.U64("gas left")
	bal := vcNum(h.balA)
	refundGas(tx, h, tosca.Gas(left))
	vc.Ensures("nothing but the balance of the sender is touched", h.others == 0 && h.nonces == 0)
	worth := new(uint256.Int).Mul(vcNum(tx.GasPrice), uint256.NewInt(left))
	vc.Ensures("exactly the unused gas is returned at the price", vcSame(vcNum(h.balA), new(uint256.Int).Add(bal, worth)))
	vc.Cover("returned")
}

// the gas left over in the end (Fantom: a tenth of the unused gas of external transactions is kept; EIP-3529)
func vcLeft(sender tosca.Address, limit tosca.Gas, r tosca.CallResult, rev tosca.Revision) tosca.Gas {
	left := r.GasLeft
	if sender != (tosca.Address{}) {
		left -= left / 10
	}
	if !r.Success {
		return left
	}
	most := (limit - left) / 5
	if rev < tosca.R10_London {
		most = (limit - left) / 2
	}
	if r.GasRefund > most {
		return left + most
	}
	return left + r.GasRefund
}

func vcRevision() tosca.Revision {
	r := tosca.Revision(vc.U64("revision") & 15)
	vc.Requires(r >= tosca.R07_Istanbul && r <= tosca.R13_Cancun)
	return r
}

func vch_left() {
	tx := tosca.Transaction{Sender: vc.Addr("sender"), GasLimit: tosca.Gas(vc.U64("limit"))}
	r := tosca.CallResult{Success: vc.Bool("success"), GasLeft: tosca.Gas(vc.U64("gas left")), GasRefund: tosca.Gas(vc.U64("refund"))}
	vc.Requires(tx.GasLimit >= 0 && r.GasLeft >= 0 && r.GasLeft <= tx.GasLimit)
	rev := vcRevision()
	left := calculateGasLeft(tx, r, rev)
	vc.Ensures("the gas left follows the refund cap and the charge on unused gas", left == vcLeft(tx.Sender, tx.GasLimit, r, rev))
	vc.Cover("left")
}

// both outcomes of buying gas exist
func vch_contract_buy_witness() {
	h := vcNewWorld()
	h.balA = tosca.NewValue(21000)
	tx := tosca.Transaction{Sender: h.a, GasPrice: tosca.NewValue(1), GasLimit: 21000}
	vc.Ensures("a covered price is paid", buyGas(tx, h) == nil && h.balA == tosca.Value{})
	vc.Ensures("an uncovered price is rejected", buyGas(tx, h) != nil && h.balA == tosca.Value{})
	vc.Cover("both outcomes")
}

// ---------------------------------------------------------------- running a transaction

// Run is verified against the contracts of setupGasBilling, buyGas and refundGas (above), of setUpAccessList
// (declares accounts and slots, changes nothing else) and of runContext.Call (yields a result with no more gas than given; the balance of the sender may change). The replay runs the
// real functions, with an interpreter giving that result.
type vcTransaction struct {
	h        *vcRunWorld
	tx       tosca.Transaction
	kind     tosca.CallKind
	rev      tosca.Revision
	fee      tosca.Gas
	afford   bool        // the balance covers the limit at the price
	paid     tosca.Value // balance left after buying gas
	bought   bool
	left     tosca.Gas   // gas left in the end
	counted  bool
	returned tosca.Value // balance after the return of gas
	refunds  int
	before   tosca.Value
	result   tosca.CallResult
	err      error
	calls    int
	declared int
	balance  tosca.Value // after the call
}

var vcNow *vcTransaction

// other accounts are fresh
type vcRunWorld struct{ *vcWorld }

func (h *vcRunWorld) GetNonce(a tosca.Address) uint64 {
	if a == h.a {
		return h.nonce
	}
	return 0
}
func (h *vcRunWorld) GetCodeHash(a tosca.Address) tosca.Hash {
	if a == h.a {
		return h.codeHash
	}
	return tosca.Hash{}
}
func (h *vcRunWorld) AccountExists(tosca.Address) bool { return true }

func (t *vcTransaction) is(tx tosca.Transaction) bool {
	return tx.Sender == t.tx.Sender && tx.GasPrice == t.tx.GasPrice && tx.GasLimit == t.tx.GasLimit
}

// where buyGas is not a function of its own, its contract
func (t *vcTransaction) tie() {
	if vc.Symbolic() && !t.bought {
		bal := vcNum(t.before)
		cost, over := new(uint256.Int).MulOverflow(vcNum(t.tx.GasPrice), uint256.NewInt(uint64(t.tx.GasLimit)))
		vc.Requires(t.afford == (!over && !bal.Lt(cost)))
		vc.Requires(t.paid == new(uint256.Int).Sub(bal, cost).Bytes32())
	}
}

// the gas left in the end
func (t *vcTransaction) count() {
	if !t.counted {
		t.counted = true
		left := vcLeft(t.tx.Sender, t.tx.GasLimit, t.result, t.rev)
		if vc.Symbolic() {
			vc.Requires(t.left == left)
		}
		t.left = left
	}
}

func vcontract_buy(tx tosca.Transaction, c tosca.TransactionContext) error {
	t := vcNow
	vc.Ensures("the gas of the transaction is bought once", t.is(tx) && !t.bought && t.h.balA == t.before)
	t.bought = true
	if !t.afford {
		return &vcFailure{}
	}
	t.h.balA = t.paid
	return nil
}
func vcontract_refund(tx tosca.Transaction, c tosca.TransactionContext, left tosca.Gas) {
	t := vcNow
	t.count()
	vc.Ensures("gas is returned once, to the sender, after the call", t.is(tx) && t.refunds == 0 && t.calls == 1 && t.h.balA == t.balance)
	vc.Ensures("exactly the gas left is returned", left == t.left)
	t.refunds++
	t.h.balA = t.returned
}
func vcontract_billing(tx tosca.Transaction) tosca.Gas { return vcNow.fee }
func vcontract_declare(tx tosca.Transaction, c tosca.TransactionContext, rev tosca.Revision) {
	vc.Ensures("the access list of the transaction is declared before the call", vcNow.calls == 0)
	vcNow.declared++
}
func vcontract_call(r runContext, kind tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	t := vcNow
	vc.Ensures("the call is of the kind of the transaction", kind == t.kind)
	vc.Ensures("the call starts at the top", r.depth == 0 && !r.static)
	vc.Ensures("the nonce is increased once, by calls before the call", (kind != tosca.Call && t.h.nonces == 0) || (t.h.nonces == 1 && t.h.nonceNow == t.h.nonce+1))
	vc.Ensures("accounts and slots are declared from Berlin on", (t.declared == 1) == (t.rev >= tosca.R09_Berlin))
	vc.Ensures("the call has the parameters of the transaction", p.Value == t.tx.Value && len(p.Input) == len(t.tx.Input) && r.transactionParameters.GasPrice == t.tx.GasPrice && r.blockParameters.Revision == t.rev)
	vcAtCall(p.Sender, p.Gas, r.transactionParameters.Origin)
	if kind == tosca.Call {
		vc.Ensures("the recipient is called", p.Recipient == *t.tx.Recipient)
	}
	t.h.balA = t.balance
	return t.result, t.err
}
func vcAtCall(sender tosca.Address, gas tosca.Gas, origin tosca.Address) {
	t := vcNow
	t.calls++
	t.tie()
	vc.Ensures("exactly the gas beyond the intrinsic gas is given to the call", gas == t.tx.GasLimit-t.fee)
	vc.Ensures("gas is bought before the call", t.h.balA == t.paid)
	vc.Ensures("the sender is the caller and origin", sender == t.tx.Sender && origin == t.tx.Sender)
}

type vcInterpreter struct{}

func (vcInterpreter) Run(p tosca.Parameters) (tosca.Result, error) {
	t := vcNow
	vcAtCall(p.Sender, p.Gas, p.Origin)
	t.h.balA = t.balance
	return tosca.Result{Success: t.result.Success, GasLeft: t.result.GasLeft, GasRefund: t.result.GasRefund}, t.err
}

type vcFailure struct{}

func (*vcFailure) Error() string { return "failure" }

const (
	vcRejected = iota
	vcShort
	vcExecuted
)

func vcRun(create bool, outcome int) {
	h := &vcRunWorld{vcNewWorld()}
	t := &vcTransaction{h: h, rev: vcRevision(), kind: tosca.Call, balance: vc.Word("balance after the call")}
	vcNow = t
	n := vc.U64("input bytes")
	if !vc.Symbolic() {
		if n > 1<<32 {
			n = 49153 // longer than init code may be
		} else {
			n &= 63
		}
	}
	vc.Requires(n <= 1<<40)
	to := h.b
	t.tx = tosca.Transaction{Sender: h.a, Nonce: vc.U64("transaction nonce"), GasPrice: vc.Word("price"), GasLimit: tosca.Gas(vc.U64("limit")),
		Recipient: &to, Input: unsafe.Slice((*byte)(vc.Buffer(n, "input")), n), AccessList: make([]tosca.AccessTuple, 1)}
	if create {
		t.tx.Recipient, t.kind = nil, tosca.Create
	}
	if vc.Symbolic() {
		t.tx.Value = vc.Word("value")
		t.fee = tosca.Gas(vc.U64("intrinsic gas"))
	} else {
		t.fee = setupGasBilling(t.tx)
	}
	limit := t.tx.GasLimit
	vc.Requires(limit >= 0 && t.fee >= 21000 && t.fee < 1<<62)
	t.before = h.balA
	if vc.Symbolic() {
		t.afford, t.paid, t.returned, t.left = vc.Bool("affordable"), vc.Word("balance after buying gas"), vc.Word("balance in the end"), tosca.Gas(vc.U64("gas left in the end"))
	} else {
		bal := vcNum(h.balA)
		cost, over := new(uint256.Int).MulOverflow(vcNum(t.tx.GasPrice), uint256.NewInt(uint64(limit)))
		t.afford, t.paid = !over && !bal.Lt(cost), new(uint256.Int).Sub(bal, cost).Bytes32()
	}
	good := t.tx.Nonce == h.nonce && h.nonce+1 != 0 && (h.codeHash == tosca.Hash{} || h.codeHash == emptyCodeHash) && t.afford &&
		!(create && t.rev >= tosca.R12_Shanghai && n > 49152)
	switch outcome {
	case vcRejected:
		vc.Requires(!good)
	case vcShort:
		vc.Requires(good && limit < t.fee)
	case vcExecuted:
		vc.Requires(good && limit >= t.fee)
	}
	t.result = tosca.CallResult{Success: vc.Bool("success"), GasLeft: tosca.Gas(vc.U64("gas left")), GasRefund: tosca.Gas(vc.I64("refund"))}
	if vc.Symbolic() {
		t.result.CreatedAddress = vc.Addr("created")
	}
	if outcome == vcExecuted {
		vc.Requires(t.result.GasLeft >= 0 && t.result.GasLeft <= limit-t.fee && t.result.GasRefund >= 0)
		if vc.Bool("call fails") {
			t.err = &vcFailure{}
		}
	}
	r, err := newProcessor(vcInterpreter{}).Run(tosca.BlockParameters{Revision: t.rev}, t.tx, h)
	if outcome != vcExecuted {
		if r.Success || err != nil || h.nonces != 0 || (outcome == vcRejected && (r.GasUsed != 0 || h.balA != t.before)) || (outcome == vcShort && (r.GasUsed != limit || h.balA != t.paid)) {
			t.tie()
		}
		vc.Ensures("the call is made exactly by accepted transactions covering their intrinsic gas", t.calls == 0)
		vc.Ensures("a transaction that is not executed succeeds not and fails not", !r.Success && err == nil && r.ContractAddress == nil && len(r.Logs) == 0 && len(r.Output) == 0)
		vc.Ensures("a transaction that is not executed changes nothing but the balance paying for gas", h.others == 0 && h.nonces == 0)
		if outcome == vcRejected {
			vc.Ensures("a rejected transaction uses no gas and pays nothing", r.GasUsed == 0 && h.balA == t.before)
		} else {
			vc.Ensures("a transaction not covering its intrinsic gas uses and pays its limit", r.GasUsed == limit && h.balA == t.paid)
		}
		vc.Cover("not executed")
		return
	}
	if !vc.Symbolic() {
		vc.Requires(t.calls == 1) // else the call ended before the interpreter
	}
	vc.Ensures("the call is made once", t.calls == 1)
	vc.Ensures("a failure of the interpreter is passed on", (err != nil) == (t.err != nil))
	vc.Ensures("an executed transaction changes nothing else outside the call", !vc.Symbolic() || h.others == 0)
	if t.err != nil || (!t.result.Success && t.result.GasLeft == 0) {
		vc.Ensures("a transaction failing without gas uses its limit and is returned nothing", !r.Success && r.GasUsed == limit && h.balA == t.balance)
		vc.Cover("failed")
		return
	}
	t.count()
	vc.Ensures("the receipt tells success and the gas used", r.Success == t.result.Success && r.GasUsed == limit-t.left)
	if t.refunds == 0 {
		worth := new(uint256.Int).Mul(vcNum(t.tx.GasPrice), uint256.NewInt(uint64(t.left)))
		t.returned = new(uint256.Int).Add(vcNum(t.balance), worth).Bytes32()
	}
	vc.Ensures("the unused gas is returned to the sender", h.balA == t.returned)
	vc.Ensures("the receipt names the created account of creates only", (r.ContractAddress != nil) == create)
	if create && vc.Symbolic() {
		vc.Ensures("the receipt names the created account", *r.ContractAddress == t.result.CreatedAddress)
	}
	vc.Cover("executed")
}
func vch_run_rejected_call()   { vcRun(false, vcRejected) }
func vch_run_rejected_create() { vcRun(true, vcRejected) }
func vch_run_short_call()      { vcRun(false, vcShort) }
func vch_run_short_create()    { vcRun(true, vcShort) }
func vch_run_call()            { vcRun(false, vcExecuted) }
func vch_run_create()          { vcRun(true, vcExecuted) }
