// A world state of arbitrary contents that keeps the balances of two accounts and a record of the requests changing it.
package floria

import (
	"vc"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

type vcWorld struct {
	a, b     tosca.Address // the accounts involved, possibly the same
	balA     tosca.Value
	balB     tosca.Value
	writes   int // balance changes
	others   int // any other change, or anything about another account
	nonce    uint64
	codeHash tosca.Hash
	nonceNow uint64 // of the sender, as last set
	nonces   int
	logs     []tosca.Log
	paid     tosca.Value // balance after buying gas
	accessed int
	order    int
	nonceAt  int
}

func vcNewWorld() *vcWorld {
	h := &vcWorld{a: vc.Addr("sender"), b: vc.Addr("receiver")}
	h.balA, h.balB = vc.Word("balance"), vc.Word("balance of the receiver")
	h.nonce = vc.U64("nonce")
	h.codeHash = vc.Word("code hash")
	if h.b == h.a {
		h.balB = h.balA
	}
	return h
}

func (h *vcWorld) GetBalance(a tosca.Address) tosca.Value {
	if a == h.a {
		return h.balA
	}
	if a == h.b {
		return h.balB
	}
	return vc.Word("unrelated balance")
}
func (h *vcWorld) SetBalance(a tosca.Address, v tosca.Value) {
	h.order++
	h.writes++
	if a != h.a && a != h.b {
		h.others++
	}
	if a == h.a {
		h.balA = v
	}
	if a == h.b {
		h.balB = v
	}
}
func (h *vcWorld) AccountExists(a tosca.Address) bool { return vc.Bool("exists") }
func (h *vcWorld) GetNonce(a tosca.Address) uint64 {
	if a == h.a {
		return h.nonce
	}
	return vc.U64("unrelated nonce")
}
func (h *vcWorld) SetNonce(a tosca.Address, n uint64) {
	h.order++
	if a != h.a {
		h.others++
	}
	h.nonces++
	h.nonceNow = n
	h.nonceAt = h.order
}
func (h *vcWorld) GetCode(a tosca.Address) tosca.Code { return nil }
func (h *vcWorld) GetCodeHash(a tosca.Address) tosca.Hash {
	if a == h.a {
		return h.codeHash
	}
	return vc.Word("unrelated code hash")
}
func (h *vcWorld) GetCodeSize(a tosca.Address) int                                   { return vc.Int("code size") }
func (h *vcWorld) SetCode(a tosca.Address, c tosca.Code)                             { h.others++ }
func (h *vcWorld) GetStorage(a tosca.Address, k tosca.Key) tosca.Word                { return vc.Word("storage") }
func (h *vcWorld) SetStorage(tosca.Address, tosca.Key, tosca.Word) (s tosca.StorageStatus) { h.others++; return }
func (h *vcWorld) SelfDestruct(a, b tosca.Address) bool                              { h.others++; return false }
func (h *vcWorld) CreateSnapshot() tosca.Snapshot                                    { h.others++; return 0 }
func (h *vcWorld) RestoreSnapshot(tosca.Snapshot)                                    { h.others++ }
func (h *vcWorld) GetTransientStorage(tosca.Address, tosca.Key) tosca.Word           { return vc.Word("transient") }
func (h *vcWorld) SetTransientStorage(tosca.Address, tosca.Key, tosca.Word)          { h.others++ }
func (h *vcWorld) AccessAccount(a tosca.Address) tosca.AccessStatus                  { h.accessed++; return false }
func (h *vcWorld) AccessStorage(tosca.Address, tosca.Key) tosca.AccessStatus         { h.accessed++; return false }
func (h *vcWorld) EmitLog(tosca.Log)                                                 { h.others++ }
func (h *vcWorld) GetLogs() []tosca.Log                                              { return h.logs }
func (h *vcWorld) GetBlockHash(int64) tosca.Hash                                     { return vc.Word("block hash") }
func (h *vcWorld) GetCommittedStorage(tosca.Address, tosca.Key) tosca.Word           { return vc.Word("storage") }
func (h *vcWorld) IsAddressInAccessList(tosca.Address) bool                          { return vc.Bool("listed") }
func (h *vcWorld) IsSlotInAccessList(tosca.Address, tosca.Key) (bool, bool)          { return vc.Bool("listed"), vc.Bool("listed") }
func (h *vcWorld) HasSelfDestructed(tosca.Address) bool                              { return vc.Bool("destructed") }

func vcNum(v tosca.Value) *uint256.Int { return new(uint256.Int).SetBytes(v[:]) }

// the number x of a value, without branches
func vcSame(a, b *uint256.Int) bool { return (a[0]^b[0])|(a[1]^b[1])|(a[2]^b[2])|(a[3]^b[3]) == 0 }
