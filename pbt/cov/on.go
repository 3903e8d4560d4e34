//go:build cov

// Package cov watches what code built with -d=libfuzzer executes: which edges,
// and what it compares with what.
package cov

import (
	"math/bits"
	"unsafe"
)

const Enabled = true

// The linker lays the counters of all instrumented packages between these, and
// the compiler calls the functions below; the runtime declares both for
// fuzzing.

//go:linkname _counters internal/fuzz._counters
var _counters [0]byte

//go:linkname _ecounters internal/fuzz._ecounters
var _ecounters [0]byte

func counters() []byte {
	addr := unsafe.Pointer(&_counters)
	return unsafe.Slice((*byte)(addr), int(uintptr(unsafe.Pointer(&_ecounters))-uintptr(addr)))
}

//go:linkname libfuzzerTraceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname libfuzzerTraceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname libfuzzerTraceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname libfuzzerTraceCmp8 runtime.libfuzzerTraceCmp8

//go:linkname libfuzzerTraceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname libfuzzerTraceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname libfuzzerTraceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname libfuzzerTraceConstCmp8 runtime.libfuzzerTraceConstCmp8

//go:linkname libfuzzerHookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname libfuzzerHookEqualFold runtime.libfuzzerHookEqualFold

func libfuzzerTraceCmp1(a, b uint8, pc uint)  { compared(uint64(a), uint64(b), pc, false) }
func libfuzzerTraceCmp2(a, b uint16, pc uint) { compared(uint64(a), uint64(b), pc, false) }
func libfuzzerTraceCmp4(a, b uint32, pc uint) { compared(uint64(a), uint64(b), pc, false) }
func libfuzzerTraceCmp8(a, b uint64, pc uint) { compared(a, b, pc, false) }

func libfuzzerTraceConstCmp1(a, b uint8, pc uint)  { compared(uint64(a), uint64(b), pc, true) }
func libfuzzerTraceConstCmp2(a, b uint16, pc uint) { compared(uint64(a), uint64(b), pc, true) }
func libfuzzerTraceConstCmp4(a, b uint32, pc uint) { compared(uint64(a), uint64(b), pc, true) }
func libfuzzerTraceConstCmp8(a, b uint64, pc uint) { compared(a, b, pc, true) }

func libfuzzerHookStrCmp(a, b string, pc uint)    { comparedStrings(a, b) }
func libfuzzerHookEqualFold(a, b string, pc uint) { comparedStrings(a, b) }

const (
	size    = 1 << 18
	maxSeen = 1 << 10
)

var (
	on       bool
	fresh    bool
	results  [size]uint8 // by comparison and how near the operands were
	nResults int
	edges    []uint8 // by counter: the magnitudes of counts seen
	nEdges   int

	operands [512][2]uint64
	nOp      uint

	constSeen = map[uint64]bool{}
	constList []uint64
	strSeen   = map[string]bool{}
	strList   []string
)

func compared(a, b uint64, pc uint, constant bool) {
	if !on {
		return
	}
	operands[nOp%uint(len(operands))] = [2]uint64{a, b}
	nOp++
	h := (uint64(pc) + 1) * 0x9e3779b97f4a7c15 >> 40
	d := a - b
	if a < b {
		d = b - a
	}
	for _, f := range [2]uint64{uint64(bits.OnesCount64(a ^ b)), 65 + uint64(bits.Len64(d))} {
		p := &results[(h+f)%size]
		if *p == 0 {
			*p = 1
			fresh = true
			nResults++
			if constant && !constSeen[a] && len(constList) < maxSeen {
				constSeen[a] = true
				constList = append(constList, a)
			}
		}
	}
}

func comparedStrings(a, b string) {
	if !on {
		return
	}
	for _, s := range [2]string{a, b} {
		if len(s) > 0 && len(s) <= 64 && !strSeen[s] && len(strList) < maxSeen {
			s = string([]byte(s))
			strSeen[s] = true
			strList = append(strList, s)
			fresh = true
		}
	}
}

// Begin starts an observed execution.
func Begin() {
	clear(counters())
	fresh, on, nOp = false, true, 0
}

// End ends it, and says whether it did anything no execution did before.
func End() bool {
	on = false
	c := counters()
	if edges == nil {
		edges = make([]uint8, len(c))
	}
	for i, n := range c {
		if n == 0 {
			continue
		}
		m := uint8(1) << (bits.Len8(n) - 1)
		if edges[i]&m == 0 {
			if edges[i] == 0 {
				nEdges++
			}
			edges[i] |= m
			fresh = true
		}
	}
	return fresh
}

// Edges and Compared are how many edges, and results of comparisons, were seen.
func Edges() int    { return nEdges }
func Compared() int { return nResults }

// Work is how many comparisons there were in this execution up to now.
func Work() int { return int(nOp) }

// Operands are pairs of numbers compared in the last execution.
func Operands() [][2]uint64 { return operands[:min(nOp, uint(len(operands)))] }

// Constants are constants that numbers were compared with in any execution.
func Constants() []uint64 { return constList }

// Strings are strings compared in any execution.
func Strings() []string { return strList }
