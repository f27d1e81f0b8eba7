// An execution environment of arbitrary behaviour that keeps a record of the requests changing the world state.
package lfvm

import (
	"unsafe"
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

type vcRequest int

const (
	vcAccessAccount vcRequest = iota + 1
	vcAccessStorage
	vcSetStorage
	vcSetTransient
	vcSelfDestruct
	vcLog
	vcCall
	vcForbidden
)

type vcHost struct {
	n     int // number of recorded requests
	kind  [4]vcRequest
	addr  [4]tosca.Address
	key   [4]tosca.Key
	word  [4]tosca.Word
	other tosca.Address
	log   tosca.Log

	callKind   tosca.CallKind
	call       tosca.CallParameters
	callResult tosca.CallResult
	callError  error
	onCall     func()

	// the account queries are about, and what the world state answers for it
	account  tosca.Address
	warm     bool
	warmSlot bool
	balance  tosca.Value
	nonce    uint64
	codeSize int
	codeHash tosca.Hash
	code     tosca.Code
	// another account with a balance of its own
	self        tosca.Address
	selfBalance tosca.Value
	// storage
	slot       tosca.Key
	stored     tosca.Word
	transient  tosca.Word
	status     tosca.StorageStatus
	destructed bool
	block      int64
	blockHash  tosca.Hash
}

func (h *vcHost) record(k vcRequest, a tosca.Address, key tosca.Key, w tosca.Word) {
	if h.n < len(h.kind) {
		h.kind[h.n], h.addr[h.n], h.key[h.n], h.word[h.n] = k, a, key, w
	}
	h.n++
}

// the answer to a question about anything but the expected account or slot
func vcElse(ok bool, w [32]byte) [32]byte {
	if ok {
		return w
	}
	return vc.Word("unrelated answer")
}

func (h *vcHost) AccountExists(a tosca.Address) bool { return vc.Bool("exists") }
func (h *vcHost) GetBalance(a tosca.Address) tosca.Value {
	if a == h.self {
		return h.selfBalance
	}
	return vcElse(a == h.account, h.balance)
}
func (h *vcHost) SetBalance(a tosca.Address, v tosca.Value) { h.n += 10 }
func (h *vcHost) GetNonce(a tosca.Address) uint64 {
	if a == h.account {
		return h.nonce
	}
	return vc.U64("unrelated answer")
}
func (h *vcHost) SetNonce(a tosca.Address, n uint64) { h.n += 10 }
func (h *vcHost) GetCode(a tosca.Address) tosca.Code {
	if a == h.account {
		return h.code
	}
	return nil
}
func (h *vcHost) GetCodeHash(a tosca.Address) tosca.Hash {
	return tosca.Hash(vcElse(a == h.account, h.codeHash))
}
func (h *vcHost) GetCodeSize(a tosca.Address) int {
	if a == h.account {
		return h.codeSize
	}
	return int(vc.U64("unrelated answer"))
}
func (h *vcHost) SetCode(a tosca.Address, c tosca.Code) { h.n += 10 }
func (h *vcHost) GetStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return vcElse(a == h.self && k == h.slot, h.stored)
}
func (h *vcHost) SetStorage(a tosca.Address, k tosca.Key, w tosca.Word) tosca.StorageStatus {
	h.record(vcSetStorage, a, k, w)
	return h.status
}
func (h *vcHost) SelfDestruct(a tosca.Address, b tosca.Address) bool {
	h.record(vcSelfDestruct, a, tosca.Key{}, tosca.Word{})
	h.other = b
	return h.destructed
}
func (h *vcHost) CreateSnapshot() tosca.Snapshot   { h.n += 10; return 0 }
func (h *vcHost) RestoreSnapshot(s tosca.Snapshot) { h.n += 10 }
func (h *vcHost) GetTransientStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return vcElse(a == h.self && k == h.slot, h.transient)
}
func (h *vcHost) SetTransientStorage(a tosca.Address, k tosca.Key, w tosca.Word) {
	h.record(vcSetTransient, a, k, w)
}
func (h *vcHost) AccessAccount(a tosca.Address) tosca.AccessStatus {
	h.record(vcAccessAccount, a, tosca.Key{}, tosca.Word{})
	return tosca.AccessStatus(h.warm)
}
func (h *vcHost) AccessStorage(a tosca.Address, k tosca.Key) tosca.AccessStatus {
	h.record(vcAccessStorage, a, k, tosca.Word{})
	return tosca.AccessStatus(h.warmSlot)
}
func (h *vcHost) EmitLog(l tosca.Log) {
	h.record(vcLog, l.Address, tosca.Key{}, tosca.Word{})
	h.log = l
}
func (h *vcHost) GetLogs() []tosca.Log { return nil }
func (h *vcHost) GetBlockHash(n int64) tosca.Hash {
	return tosca.Hash(vcElse(n == h.block, h.blockHash))
}
func (h *vcHost) GetCommittedStorage(a tosca.Address, k tosca.Key) tosca.Word {
	return vc.Word("unrelated answer")
}
func (h *vcHost) IsAddressInAccessList(a tosca.Address) bool { return vc.Bool("unrelated answer") }
func (h *vcHost) IsSlotInAccessList(a tosca.Address, k tosca.Key) (bool, bool) {
	return vc.Bool("unrelated answer"), vc.Bool("unrelated answer")
}
func (h *vcHost) HasSelfDestructed(a tosca.Address) bool { return vc.Bool("unrelated answer") }
func (h *vcHost) Call(k tosca.CallKind, p tosca.CallParameters) (tosca.CallResult, error) {
	h.record(vcCall, p.Recipient, tosca.Key{}, tosca.Word{})
	h.callKind, h.call = k, p
	if h.onCall != nil {
		h.onCall()
	}
	return h.callResult, h.callError
}

// an environment of arbitrary answers
func vcNewHost() *vcHost {
	h := &vcHost{}
	h.account = vc.Addr("account")
	h.self = vc.Addr("recipient")
	h.warm = vc.Bool("warm account")
	h.warmSlot = vc.Bool("warm slot")
	h.balance = vc.Word("balance")
	h.selfBalance = vc.Word("own balance")
	h.nonce = vc.U64("nonce")
	h.codeSize = int(vc.U32("code size"))
	h.codeHash = vc.Word("code hash")
	h.stored = vc.Word("stored")
	h.transient = vc.Word("transient")
	h.destructed = vc.Bool("destructed")
	h.blockHash = vc.Word("block hash")
	return h
}

// code of n instructions, all arbitrary but the first
func vcCode(op OpCode, n uint64) Code {
	code := unsafe.Slice((*Instruction)(vc.Buffer(n*uint64(unsafe.Sizeof(Instruction{})), "code")), n)
	code[0].opcode = op
	return code
}

func vcLimbs(name string) uint256.Int {
	return uint256.Int{vc.U64(name), vc.U64(name), vc.U64(name), vc.U64(name)}
}

// an arbitrary state about to execute op
func vcContext(op OpCode) (*context, *vcHost) {
	h := vcNewHost()
	c := &context{context: h, code: vcCode(op, 17), stack: vcStack(), memory: vcMemory()}
	p := &c.params
	p.Revision = vcRevision()
	p.Static = vc.Bool("static")
	p.Recipient = h.self
	p.Sender = vc.Addr("sender")
	p.Origin = vc.Addr("origin")
	p.Coinbase = vc.Addr("coinbase")
	p.Value = vc.Word("value")
	p.GasPrice = vc.Word("gas price")
	p.PrevRandao = vc.Word("prevrandao")
	p.ChainID = vc.Word("chain id")
	p.BaseFee = vc.Word("base fee")
	p.BlobBaseFee = vc.Word("blob base fee")
	p.BlockNumber = vc.I64("block number")
	p.Timestamp = vc.I64("timestamp")
	p.GasLimit = vcGas()
	vc.Requires(p.BlockNumber >= 0)
	c.gas = vcGas()
	return c, h
}
