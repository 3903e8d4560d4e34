// Package ref is the reference model of UAX #29 extended grapheme cluster
// segmentation, with a pinned copy of the Unicode 17.0.0 character data.
//
// It shares no code and no data with the code under test. Each boundary
// decision looks back over the text itself, as the rules are written, rather
// than carrying a state forward.
package ref

import (
	_ "embed"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

type GCB uint8

const (
	Other GCB = iota
	CR
	LF
	Control
	Extend
	ZWJ
	RI
	Prepend
	SpacingMark
	L
	V
	T
	LV
	LVT
	NumGCB
)

var gcbNames = [NumGCB]string{"Other", "CR", "LF", "Control", "Extend", "ZWJ", "Regional_Indicator", "Prepend", "SpacingMark", "L", "V", "T", "LV", "LVT"}

func (g GCB) String() string { return gcbNames[g] }

type InCB uint8

const (
	INone InCB = iota
	IConsonant
	IExtend
	ILinker
)

var incbNames = [...]string{"None", "Consonant", "Extend", "Linker"}

func (i InCB) String() string { return incbNames[i] }

// Props packs GCB in the low nibble, Extended_Pictographic in bit 4 and InCB
// in bits 5-6.
type Props uint8

func MakeProps(g GCB, ep bool, i InCB) Props {
	p := Props(g) | Props(i)<<5
	if ep {
		p |= 1 << 4
	}
	return p
}
func (p Props) GCB() GCB   { return GCB(p & 15) }
func (p Props) EP() bool   { return p&(1<<4) != 0 }
func (p Props) InCB() InCB { return InCB(p >> 5 & 3) }
func (p Props) IsControl() bool {
	g := p.GCB()
	return g == CR || g == LF || g == Control
}
func (p Props) String() string {
	s := p.GCB().String()
	if p.EP() {
		s += "+ExtPict"
	}
	if p.InCB() != INone {
		s += "+InCB=" + p.InCB().String()
	}
	return s
}

const MaxRune = 0x10FFFF

// Table gives the properties of every code point.
type Table []Props

//go:embed ucd17.txt
var ucd17 string

//go:embed GraphemeBreakTest17.txt
var breakTest17 string

// U17 is the pinned Unicode 17.0.0 table.
var U17 = parseTable(ucd17)

func parseTable(src string) Table {
	t := make(Table, MaxRune+1)
	for _, l := range strings.Split(src, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		f := strings.Fields(l)
		a, e1 := strconv.ParseUint(f[0], 16, 32)
		b, e2 := strconv.ParseUint(f[1], 16, 32)
		if e1 != nil || e2 != nil || len(f) != 5 {
			panic("bad table line " + l)
		}
		g := Other
		for i, n := range gcbNames {
			if n == f[2] {
				g = GCB(i)
			}
		}
		if g == Other && f[2] != "-" {
			panic("bad GCB " + l)
		}
		ic := INone
		for i, n := range incbNames {
			if n == f[4] {
				ic = InCB(i)
			}
		}
		if ic == INone && f[4] != "-" {
			panic("bad InCB " + l)
		}
		p := MakeProps(g, f[3] == "EP", ic)
		for c := a; c <= b; c++ {
			t[c] = p
		}
	}
	return t
}

// Break reports whether there is a boundary between ps[i-1] and ps[i], for
// 0 < i < len(ps), ps being the characters of the text from its start.
func Break(ps []Props, i int) bool {
	prev, next := ps[i-1], ps[i]
	pg, ng := prev.GCB(), next.GCB()
	// GB3, GB4, GB5
	if pg == CR && ng == LF {
		return false
	}
	if prev.IsControl() || next.IsControl() {
		return true
	}
	// GB6, GB7, GB8
	if pg == L && (ng == L || ng == V || ng == LV || ng == LVT) {
		return false
	}
	if (pg == LV || pg == V) && (ng == V || ng == T) {
		return false
	}
	if (pg == LVT || pg == T) && ng == T {
		return false
	}
	// GB9, GB9a, GB9b
	if ng == Extend || ng == ZWJ || ng == SpacingMark || pg == Prepend {
		return false
	}
	// GB9c
	if next.InCB() == IConsonant {
		linker := false
		j := i - 1
		for ; j >= 0 && (ps[j].InCB() == IExtend || ps[j].InCB() == ILinker); j-- {
			linker = linker || ps[j].InCB() == ILinker
		}
		if linker && j >= 0 && ps[j].InCB() == IConsonant {
			return false
		}
	}
	// GB11
	if next.EP() && pg == ZWJ {
		j := i - 2
		for j >= 0 && ps[j].GCB() == Extend {
			j--
		}
		if j >= 0 && ps[j].EP() {
			return false
		}
	}
	// GB12, GB13
	if pg == RI && ng == RI {
		n := 0
		for j := i - 1; j >= 0 && ps[j].GCB() == RI; j-- {
			n++
		}
		if n%2 == 1 {
			return false
		}
	}
	return true
}

// InDomain reports whether every structurally complete UTF-8 sequence in data
// (lead byte C0-F7 with all its continuation bytes) is a valid scalar value,
// i.e. there are no overlong, surrogate or out-of-range encodings.
func InDomain(data []byte) bool {
	for i := 0; i < len(data); {
		n := StructLen(data[i])
		if n == 0 || !complete(data[i:], n) {
			i++
			continue
		}
		r, size := utf8.DecodeRune(data[i:])
		if r == utf8.RuneError && size == 1 {
			return false
		}
		if size != n {
			panic("ref: inconsistent decoding")
		}
		i += n
	}
	return true
}

// StructLen is the sequence length a lead byte announces, or 0.
func StructLen(b byte) int {
	switch {
	case b < 0x80:
		return 1
	case b&0xe0 == 0xc0:
		return 2
	case b&0xf0 == 0xe0:
		return 3
	case b&0xf8 == 0xf0:
		return 4
	}
	return 0
}

func complete(p []byte, n int) bool {
	if len(p) < n {
		return false
	}
	for _, b := range p[1:n] {
		if b&0xc0 != 0x80 {
			return false
		}
	}
	return true
}

// Ends returns the end offsets of the clusters of data, which must be
// InDomain: an ill-formed byte is a cluster of its own and separates what is
// before it from what follows.
func (t Table) Ends(data []byte) []int {
	var ends []int
	var ps []Props
	var offs []int
	flush := func(end int) {
		if len(ps) == 0 {
			return
		}
		for i := 1; i < len(ps); i++ {
			if Break(ps, i) {
				ends = append(ends, offs[i])
			}
		}
		ends = append(ends, end)
		ps, offs = ps[:0], offs[:0]
	}
	for i := 0; i < len(data); {
		r, n := utf8.DecodeRune(data[i:])
		if r == utf8.RuneError && n == 1 {
			flush(i)
			ends = append(ends, i+1)
			i++
			continue
		}
		ps = append(ps, t[r])
		offs = append(offs, i)
		i += n
	}
	flush(len(data))
	return ends
}

// UnitState says what the bytes at the start of a buffer are, when more data
// may follow.
type UnitState int

const (
	Complete   UnitState = iota // a structurally complete sequence
	IllFormed                   // a byte that no further data can complete
	Incomplete                  // a sequence that further data could complete
)

// FirstUnit classifies the first bytes of p (len(p) > 0).
func FirstUnit(p []byte) (UnitState, int) {
	n := StructLen(p[0])
	if n == 0 {
		return IllFormed, 1
	}
	for i := 1; i < n && i < len(p); i++ {
		if p[i]&0xc0 != 0x80 {
			return IllFormed, 1
		}
	}
	if len(p) < n {
		return Incomplete, len(p)
	}
	return Complete, n
}

// Vector is one line of GraphemeBreakTest.txt.
type Vector struct {
	Runes []rune
	Ends  []int // rune counts at which clusters end
}

// Vectors returns the official conformance vectors.
func Vectors() []Vector {
	var out []Vector
	for _, l := range strings.Split(breakTest17, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		var v Vector
		for _, w := range f {
			switch w {
			case "÷":
				if len(v.Runes) > 0 {
					v.Ends = append(v.Ends, len(v.Runes))
				}
			case "×":
			default:
				n, err := strconv.ParseUint(w, 16, 32)
				if err != nil {
					panic(err)
				}
				v.Runes = append(v.Runes, rune(n))
			}
		}
		out = append(out, v)
	}
	return out
}

// SelfTest checks the model against the official vectors.
func SelfTest() error {
	vs := Vectors()
	if len(vs) != 766 {
		return fmt.Errorf("reference model: %d vectors, want 766", len(vs))
	}
	for _, v := range vs {
		var got []int
		pos := map[int]int{}
		off := 0
		for i, r := range v.Runes {
			pos[off] = i
			off += utf8.RuneLen(r)
		}
		pos[off] = len(v.Runes)
		for _, e := range U17.Ends([]byte(string(v.Runes))) {
			got = append(got, pos[e])
		}
		if fmt.Sprint(got) != fmt.Sprint(v.Ends) {
			return fmt.Errorf("reference model: %x: ends %v, want %v", v.Runes, got, v.Ends)
		}
	}
	return nil
}
