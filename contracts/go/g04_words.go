// Contracts for the size in words (property G04).
package tosca

import "vc"

func vch_size_in_words() {
	n := vc.U64("size")
	got := SizeInWords(n)
	want := n / 32
	if n%32 != 0 {
		want++
	}
	vc.Ensures("the number of words is the size divided by 32, rounded up", got == want)
	vc.Cover("words")
}
