// Package vc provides the contract intrinsics for Go: interpreted symbolically by the verifier, natively they replay a
// counterexample (or search for one) on the real code.
package vc

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

var (
	in     map[string]string
	count  map[string]int
	log    strings.Builder
	fuzz   bool
	rng    *rand.Rand
	recent []uint64
)

type stop struct{ code int }

func word() uint64 {
	specials := []uint64{0, 1, 2, 31, 32, 33, 63, 64, 65, 255, 256, 1023, 1024, 1025, 0x7fffffff, 0xffffffff, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 1, ^uint64(0) - 31, 20, 21, 30}
	switch rng.Intn(6) {
	case 0:
		return specials[rng.Intn(len(specials))]
	case 1:
		return uint64(rng.Intn(40))
	case 2:
		return rng.Uint64()
	case 3:
		if len(recent) > 0 {
			return recent[rng.Intn(len(recent))] + uint64(rng.Intn(3)) - 1
		}
		return 0
	case 4:
		return uint64(1) << rng.Intn(64)
	}
	return uint64(rng.Intn(1000))
}

func randfill(p []byte) {
	if len(p) <= 8 {
		w := word()
		recent = append(recent, w)
		for i := range p {
			p[i] = byte(w >> (8 * i))
		}
		return
	}
	for i := range p {
		p[i] = 0
	}
	// the machine word at the low end (little endian) or, equally often, at the high end
	put := func() {
		w := word()
		recent = append(recent, w)
		be := rng.Intn(2) == 0
		for i := 0; i < 8 && i < len(p); i++ {
			if be {
				p[len(p)-1-i] = byte(w >> (8 * i))
			} else {
				p[i] = byte(w >> (8 * i))
			}
		}
	}
	switch k := rng.Intn(8); {
	case k < 4:
		put()
	case k == 4:
		for i := range p {
			p[i] = 0xff
		}
		put()
	case k == 5:
		p[rng.Intn(2)*(len(p)-1)] = 0x80
	default:
		rng.Read(p)
	}
}

func fill(kind, name string, p []byte) {
	key := fmt.Sprintf("%s %s %d", kind, name, count["a"+name])
	count["a"+name]++
	if fuzz {
		if kind == "buf" {
			switch rng.Intn(4) {
			case 3: // small machine words, 32 bytes apart
				for i := range p {
					p[i] = 0
				}
				for i := 0; i+1 < len(p); i += 32 {
					p[i] = byte(rng.Intn(200))
					if rng.Intn(8) == 0 {
						p[i+1] = byte(rng.Intn(256))
					}
				}
			case 0:
				for i := range p {
					p[i] = 0
				}
			case 1:
				for i := range p {
					p[i] = byte(0x56 + rng.Intn(16))
				}
			default:
				rng.Read(p)
			}
		} else {
			randfill(p)
		}
	} else if v, ok := in[key]; ok {
		b, _ := hex.DecodeString(v)
		copy(p, b)
	}
	fmt.Fprintf(&log, "%s %s\n", key, hex.EncodeToString(p))
}

func le(n int, name string) uint64 {
	b := make([]byte, n)
	fill("any", name, b)
	r := uint64(0)
	for i := n - 1; i >= 0; i-- {
		r = r<<8 | uint64(b[i])
	}
	return r
}
func U64(name string) uint64 { return le(8, name) }
func I64(name string) int64  { return int64(le(8, name)) }
func Int(name string) int    { return int(le(8, name)) }
func U32(name string) uint32 { return uint32(le(4, name)) }
func I32(name string) int32  { return int32(le(4, name)) }
func U16(name string) uint16 { return uint16(le(2, name)) }
func U8(name string) uint8   { return uint8(le(1, name)) }
func Bool(name string) bool  { return le(1, name)&1 == 1 }
func Word(name string) (r [32]byte) { fill("any", name, r[:]); return }
func Addr(name string) (r [20]byte) { fill("any", name, r[:]); return }
func Bytes(n uint64, name string) []byte {
	if n > 1<<24 {
		fmt.Println("input too large to replay")
		panic(stop{77})
	}
	b := make([]byte, n)
	fill("buf", name, b)
	return b
}
func Fill(p unsafe.Pointer, n uint64, name string)    { fill("any", name, unsafe.Slice((*byte)(p), n)) }
func Buffer(n uint64, name string) unsafe.Pointer {
	if n > 1<<24 {
		panic(stop{77})
	}
	b := make([]uint64, n/8+1)
	fill("buf", name, unsafe.Slice((*byte)(unsafe.Pointer(&b[0])), n))
	return unsafe.Pointer(&b[0])
}
func Requires(c bool) {
	if !c {
		panic(stop{77})
	}
}
func Ensures(label string, c bool) {
	if !c {
		fmt.Printf("CONTRACT VIOLATED: %s\n", label)
		panic(stop{42})
	}
}
func Lemma(label string, c bool)          { Ensures(label, c) }
func Cover(label string)                  {}
func Symbolic() bool                      { return false }
func Split(c bool) bool                   { return c }
func Concretize(v, max uint64) uint64     { return v }
func Fact(c bool)                         {}
func Inv(c bool)                          {}
func Forget(p unsafe.Pointer)             {}
func Peek(c bool, b []byte, i uint64) byte {
	if c {
		return b[i]
	}
	return 0
}
// fee difference between two memory sizes, zero unless growing
func MemoryFee(n, old uint64) int64 {
	c := func(b uint64) uint64 { w := (b + 31) / 32; return w*w/512 + 3*w }
	if n <= old {
		return 0
	}
	return int64(c(n) - c(old))
}
func HashOf(name string, data []byte) (r [32]byte) {
	h := uint64(0xcbf29ce484222325)
	for _, b := range data {
		h = (h ^ uint64(b)) * 0x100000001b3
	}
	h ^= uint64(len(data)) * 0x9e3779b97f4a7c15
	for i := range r {
		h = h*6364136223846793005 + 1442695040888963407
		r[i] = byte(h >> 56)
	}
	return
}

func once(f func()) (code int, why string) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(stop); ok {
				code = s.code
				return
			}
			code, why = 43, fmt.Sprintf("CRASH: panic: %v\n%s", e, debug.Stack())
		}
	}()
	f()
	return 0, ""
}

// Main runs one contract: replay FILE, or fuzz SEED SECONDS.
func Main(hs map[string]func()) {
	f := hs[os.Args[2]]
	if f == nil {
		fmt.Println("no such contract")
		os.Exit(2)
	}
	if os.Args[1] == "replay" {
		in = map[string]string{}
		fd, err := os.Open(os.Args[3])
		if err != nil {
			os.Exit(2)
		}
		sc := bufio.NewScanner(fd)
		sc.Buffer(make([]byte, 1<<26), 1<<26)
		for sc.Scan() {
			s := strings.TrimRight(sc.Text(), "\r\n")
			if i := strings.LastIndex(s, " "); i > 0 && (strings.HasPrefix(s, "any ") || strings.HasPrefix(s, "buf ")) {
				in[s[:i]] = s[i+1:]
			}
		}
		count = map[string]int{}
		code, why := once(f)
		fmt.Print(why)
		os.Exit(code)
	}
	var seed, secs int64
	fmt.Sscan(os.Args[3], &seed)
	fmt.Sscan(os.Args[4], &secs)
	fuzz = true
	end := time.Now().Add(time.Duration(secs) * time.Second)
	for n := seed * 1000003; time.Now().Before(end); n++ {
		rng = rand.New(rand.NewSource(n))
		count = map[string]int{}
		recent = nil
		log.Reset()
		code, why := once(f)
		if code != 0 && code != 77 {
			fmt.Print(why)
			fmt.Printf("INPUT\n%sENDINPUT\n", log.String())
			os.Exit(code)
		}
	}
}
