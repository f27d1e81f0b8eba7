// Contracts for value transfers of the Go transaction processor (property F02).
package floria

import (
	"vc"
	_ "vc/rt"

	"github.com/Fantom-foundation/Tosca/go/tosca"
	"github.com/holiman/uint256"
)

func vch_transfer() {
	h := vcNewWorld()
	value := tosca.Value(vc.Word("value"))
	a, b, v := vcNum(h.balA), vcNum(h.balB), vcNum(value)
	same := h.a == h.b
	balA, balB := h.balA, h.balB
	err := transferValue(h, value, h.a, h.b)
	sum, over := new(uint256.Int).AddOverflow(b, v)
	covered := !a.Lt(v)
	vc.Ensures("no other account is touched", h.others == 0 && h.nonces == 0)
	vc.Ensures("a transfer fails exactly if it is not covered or the receiver would overflow", (err == nil) == (covered && (same || !over)))
	if err != nil || same {
		vc.Ensures("a failed transfer, or one to oneself, changes nothing", h.balA == balA && h.balB == balB)
		if err != nil {
			vc.Cover("failed")
		} else {
			vc.Cover("to oneself")
		}
		return
	}
	vc.Ensures("the sender pays exactly the value", vcSame(vcNum(h.balA), new(uint256.Int).Sub(a, v)))
	vc.Ensures("the receiver gets exactly the value", vcSame(vcNum(h.balB), sum))
	vc.Ensures("the sender is not overdrawn", !vcNum(h.balA).Gt(a))
	vc.Cover("moved")
}
