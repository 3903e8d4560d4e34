// Package ucd describes sets of Unicode Character Database input files: it
// generates them, writes them as files, says which properties they assign,
// and parses files independently of the code under test.
package ucd

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif/pbt/gen"
	"verif/pbt/ref"
)

// Span gives the code points Lo..Hi one property value.
type Span struct {
	Lo, Hi rune
	P      ref.Props
}

// Set is a set of input files, described by spans of which later ones take
// precedence, and repetitive ones written out by a rule.
type Set struct {
	Spans []Span
	Many  []Many
	Style uint64 // how the files are formatted
	Fault string // what is wrong with the files, if anything
	At    rune   // where
	// BadForm is the form of the fault.
	BadForm int
	Anchor  bool // keep the probe's anchor characters as they are
	Bare    bool // the files don't give CR and LF their values
	Long    int  // one line of the Long-th file is very long (1 to 3)
	Bulk    int  // the Bulk-th file has a great many comments in one place (1 to 3)
	Each    bool // there is a line for each code point
}

// Many gives N blocks of 64 code points, Stride blocks apart and each with
// its own pattern of P, starting at block First.
type Many struct {
	First, Stride, N int
	P                ref.Props
	Salt             uint64
}

// Show describes the set briefly.
func (s Set) Show() string {
	var b strings.Builder
	for i, sp := range s.Spans {
		if i == 12 {
			fmt.Fprintf(&b, " ... (%d spans)", len(s.Spans))
			break
		}
		fmt.Fprintf(&b, " %04X..%04X=%v", sp.Lo, sp.Hi, sp.P)
	}
	for _, m := range s.Many {
		fmt.Fprintf(&b, " %d distinct blocks from %04X every %d of %v", m.N, m.First*64, m.Stride, m.P)
	}
	if s.Bare {
		b.WriteString(" (CR and LF have no value)")
	}
	if s.Long > 0 {
		fmt.Fprintf(&b, " a very long line in %s", names[s.Long-1])
	}
	if s.Bulk > 0 {
		fmt.Fprintf(&b, " very many comments in %s", names[s.Bulk-1])
	}
	if s.Each {
		b.WriteString(" a line for each code point")
	}
	if s.Fault != "" {
		fmt.Fprintf(&b, " fault: %s at %04X, form %d", s.Fault, s.At, s.BadForm)
	}
	return strings.TrimSpace(b.String())
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Table gives the properties the files assign.
func (s Set) Table() ref.Table {
	t := make(ref.Table, ref.MaxRune+1)
	for _, m := range s.Many {
		for i := range m.N {
			base := (m.First + i*m.Stride) * 64
			if base < 0 || base+63 > ref.MaxRune {
				break
			}
			// The number i in binary, then salt: distinct for distinct i.
			bits := uint64(i+1) | mix(m.Salt+uint64(i))<<20
			for j := range 64 {
				if bits>>j&1 != 0 {
					t[base+j] = m.P
				}
			}
		}
	}
	for _, sp := range s.Spans {
		for r := sp.Lo; r <= sp.Hi; r++ {
			t[r] = sp.P
		}
	}
	if !s.Bare {
		t['\r'] = ref.MakeProps(ref.CR, false, ref.INone)
		t['\n'] = ref.MakeProps(ref.LF, false, ref.INone)
	}
	if s.Anchor {
		for _, c := range gen.Classes {
			t[c.Rep] = c.P
		}
	}
	return t
}

// DistinctBlocks counts the distinct blocks of 64 scalar values, and bounds
// the index blocks.
func DistinctBlocks(t ref.Table) (props, indices int) {
	seen := map[string]int{}
	id := make([]byte, 0, 3*(ref.MaxRune+1)/64)
	for b := 0; b+64 <= len(t); b += 64 {
		k := make([]byte, 64)
		for j := range k {
			if r := b + j; r < 0xd800 || r > 0xdfff {
				k[j] = byte(t[r])
			}
		}
		n, ok := seen[string(k)]
		if !ok {
			n = len(seen)
			seen[string(k)] = n
		}
		id = append(id, byte(n), byte(n>>8), byte(n>>16))
	}
	idx := map[string]bool{}
	top := map[string]bool{}
	for i := 0; i < len(id); i += 64 * 3 {
		idx[string(id[i:i+64*3])] = true
	}
	for i := 0; i < len(id); i += 64 * 64 * 3 {
		top[string(id[i:min(len(id), i+64*64*3)])] = true
	}
	return len(seen), len(idx) + len(top) + 8
}

type line struct {
	lo, hi rune
	val    string
}

// runs are the maximal spans with a value.
func runs(t ref.Table, f func(ref.Props) string) []line {
	var out []line
	for r := rune(0); int(r) < len(t); {
		v := f(t[r])
		e := r
		for p := t[r]; int(e)+1 < len(t) && (t[e+1] == p || f(t[e+1]) == v); {
			e++
		}
		if v != "" {
			out = append(out, line{r, e, v})
		}
		r = e + 1
	}
	return out
}

type writer struct {
	strings.Builder
	style uint64
	n     uint64
	each  bool
}

func (w *writer) pick(n int) int {
	w.n++
	return int(mix(w.style+w.n) % uint64(n))
}

func (w *writer) filler() {
	switch w.pick(12) {
	case 0:
		w.WriteString("\n")
	case 1:
		w.WriteString("# comment; with ; separators 0041..005A ; L\n")
	case 2:
		w.WriteString("   \t \n")
	case 3:
		w.WriteString("# @missing: 0000..10FFFF; Other\n")
	case 4:
		w.WriteString("\n# ================================================\n\n")
	}
}

func (w *writer) line(l line, fields ...string) {
	if w.style != 0 {
		w.filler()
	}
	rng := fmt.Sprintf("%04X", l.lo)
	if l.hi != l.lo || w.style != 0 && w.pick(9) == 0 {
		rng += fmt.Sprintf("..%04X", l.hi)
	}
	k := 0
	if w.style != 0 {
		k = w.pick(6)
	}
	switch k {
	case 0:
		fmt.Fprintf(w, "%-14s; %s # Lo  [%d] SOME NAME..OTHER NAME\n", rng, strings.Join(fields, "; "), l.hi-l.lo+1)
	case 1:
		fmt.Fprintf(w, "%s;%s\n", rng, strings.Join(fields, ";"))
	case 2:
		fmt.Fprintf(w, "%s\t;\t%s\t#\n", rng, strings.Join(fields, "\t;\t"))
	case 3:
		fmt.Fprintf(w, "%s ; %s#x;y\n", rng, strings.Join(fields, " ; "))
	case 4:
		fmt.Fprintf(w, "  %s  ;  %s   \r\n", rng, strings.Join(fields, " ;"))
	case 5:
		fmt.Fprintf(w, "%-14s; %s # 0041..005A ; Control\n", rng, strings.Join(fields, "; "))
	}
}

// lines emits ls, splitting some spans and shuffling if the style says so.
func (w *writer) lines(ls []line, emit func(line)) {
	var out []line
	for _, l := range ls {
		for w.each && l.hi > l.lo {
			out = append(out, line{l.lo, l.lo, l.val})
			l.lo++
		}
		for w.style != 0 && l.hi > l.lo && w.pick(10) == 0 {
			m := l.lo + rune(w.pick(int(l.hi-l.lo)))
			out = append(out, line{l.lo, m, l.val})
			l.lo = m + 1
		}
		out = append(out, l)
	}
	if w.style%3 == 1 {
		for i := len(out) - 1; i > 0; i-- {
			j := w.pick(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	} else if w.style%3 == 2 { // grouped by value, as in the published files
		sort.SliceStable(out, func(i, j int) bool { return out[i].val < out[j].val })
	}
	for _, l := range out {
		emit(l)
	}
}

// Files gives the contents of the three files.
func (s Set) Files() (gbp, emoji, dcp string) {
	t := s.Table()
	w := &writer{style: s.Style, each: s.Each}
	w.lines(runs(t, func(p ref.Props) string {
		if p.GCB() == ref.Other {
			return ""
		}
		return p.GCB().String()
	}), func(l line) { w.line(l, l.val) })
	gbp = w.String()

	w = &writer{style: s.Style + 3*7919, each: s.Each}
	w.lines(runs(t, func(p ref.Props) string {
		if !p.EP() {
			return ""
		}
		return "Extended_Pictographic"
	}), func(l line) {
		if s.Style != 0 && w.pick(4) == 0 { // irrelevant properties
			w.line(l, []string{"Emoji", "Emoji_Modifier", "Emoji_Component", "Emoji_Presentation"}[w.pick(4)])
		}
		w.line(l, l.val)
	})
	if s.Style != 0 {
		w.line(line{0x23, 0x39, ""}, "Emoji")
	}
	emoji = w.String()

	w = &writer{style: s.Style + 3*104729, each: s.Each}
	w.lines(runs(t, func(p ref.Props) string {
		if p.InCB() == ref.INone {
			return ""
		}
		return p.InCB().String()
	}), func(l line) {
		if s.Style != 0 && w.pick(4) == 0 {
			w.line(l, [][]string{{"Alphabetic"}, {"Grapheme_Extend"}, {"XID_Continue"}, {"Extend"}, {"Linker"},
				{"InSC", "Consonant"}, {"InPC", "Linker"}, {"GCB", "Extend"}}[w.pick(8)]...)
		}
		w.line(l, "InCB", l.val)
	})
	if s.Style != 0 {
		w.line(line{0x41, 0x5a, ""}, "Uppercase")
		w.line(line{0x900, 0x1fff, ""}, "InSC", "Consonant")
	}
	dcp = w.String()

	bad := func(file *string, l string) {
		ls := strings.SplitAfter(*file, "\n")
		i := int(mix(s.Style+77) % uint64(len(ls)))
		*file = strings.Join(slices.Insert(ls, i, l), "")
	}
	if s.Long > 0 {
		file := []*string{&gbp, &emoji, &dcp}[s.Long-1]
		bad(file, "# "+strings.Repeat("very ", []int{13100, 13107, 13200, 30000, 250000}[s.Style%5])+"long line\n")
	}
	if s.Bulk > 0 {
		file := []*string{&gbp, &emoji, &dcp}[s.Bulk-1]
		bad(file, strings.Repeat("# 0041..005A ; Control # one of a great many comments, of which nothing is to be read\n", []int{800, 70000, 210000}[s.Style%3]))
	}
	switch s.Fault {
	case "":
	case "bad code point in GraphemeBreakProperty.txt":
		bad(&gbp, s.badPoint()+[]string{" ; L", "; Extend # Mn", " ; Other"}[s.BadForm/10%3]+"\n")
	case "bad code point in emoji-data.txt":
		bad(&emoji, s.badPoint()+[]string{" ; Extended_Pictographic", "; Emoji", " ; Emoji_Component # E0.0"}[s.BadForm/10%3]+"\n")
	case "bad code point in DerivedCoreProperties.txt":
		bad(&dcp, s.badPoint()+[]string{" ; InCB; Linker", "; Alphabetic", " ; InCB ; Extend # Mn"}[s.BadForm/10%3]+"\n")
	case "conflict":
		// In a range of characters of which no other has a value, or alone.
		lo, hi := s.At, s.At
		for lo > 0 && int(s.At-lo) < s.BadForm%4*9 && free(t, lo-1) {
			lo--
		}
		for hi < ref.MaxRune && int(hi-s.At) < s.BadForm/4%4*9 && free(t, hi+1) {
			hi++
		}
		if lo == hi {
			emoji += fmt.Sprintf("%04X ; Extended_Pictographic # conflict\n", lo)
		} else {
			emoji += fmt.Sprintf("%04X..%04X ; Extended_Pictographic # conflict\n", lo, hi)
		}
	case "missing GraphemeBreakProperty.txt", "missing emoji-data.txt", "missing DerivedCoreProperties.txt",
		"unreadable GraphemeBreakProperty.txt", "unreadable emoji-data.txt", "unreadable DerivedCoreProperties.txt":
	default:
		panic("unknown fault " + s.Fault)
	}
	return
}

// free says that a code point has no grapheme-break value and is no pictograph.
func free(t ref.Table, r rune) bool { return t[r].GCB() == ref.Other && !t[r].EP() }

// badPoint is what stands where a code point or range should.
func (s Set) badPoint() string {
	a := fmt.Sprintf("%04X", s.At)
	switch s.BadForm % 10 {
	case 0:
		return fmt.Sprintf("%X", 0x110000+s.At)
	case 1:
		return a + "..G"
	case 2:
		return a + "x"
	case 3:
		return fmt.Sprintf("%s..%X", a, 0x110000+s.At)
	case 4:
		return "U+" + a
	case 5:
		return "1" + fmt.Sprintf("%08X", s.At) // beyond 32 bits
	case 6:
		return a + "..1" + fmt.Sprintf("%08X", s.At)
	case 7:
		return "0x" + a + ".." + a
	case 8:
		return a[:2] + " " + a[2:]
	default:
		return fmt.Sprintf("O%s", a[1:]) // the letter
	}
}

// Faults a set can have. All must make generation fail.
var Faults = []string{"bad code point in GraphemeBreakProperty.txt", "bad code point in emoji-data.txt", "bad code point in DerivedCoreProperties.txt",
	"conflict", "missing GraphemeBreakProperty.txt", "missing emoji-data.txt", "missing DerivedCoreProperties.txt",
	"unreadable GraphemeBreakProperty.txt", "unreadable emoji-data.txt", "unreadable DerivedCoreProperties.txt"}

var names = []string{"auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt", "DerivedCoreProperties.txt"}

// Write makes dir the directory of the files.
func (s Set) Write(dir string) error {
	a, b, c := s.Files()
	for i, text := range []string{a, b, c} {
		p := filepath.Join(dir, names[i])
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		os.Remove(p)
		switch s.Fault {
		case "missing " + filepath.Base(p):
			continue
		case "unreadable " + filepath.Base(p): // can be opened, cannot be read
			if err := os.Mkdir(p, 0o755); err != nil {
				return err
			}
			continue
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// edges are code points at which encodings or blocks change.
// WritePlain writes the files for a table in the plainest way: lines of at
// most 16 code points, in order.
func WritePlain(dir string, t ref.Table) error {
	chop := func(f func(ref.Props) string, emit func(*writer, line)) string {
		w := &writer{}
		for _, l := range runs(t, f) {
			for l.lo <= l.hi {
				part := line{l.lo, min(l.hi, l.lo|15), l.val}
				emit(w, part)
				l.lo = part.hi + 1
			}
		}
		return w.String()
	}
	one := func(w *writer, l line) { w.line(l, l.val) }
	texts := []string{
		chop(func(p ref.Props) string {
			if p.GCB() == ref.Other {
				return ""
			}
			return p.GCB().String()
		}, one),
		chop(func(p ref.Props) string {
			if !p.EP() {
				return ""
			}
			return "Extended_Pictographic"
		}, one),
		chop(func(p ref.Props) string {
			if p.InCB() == ref.INone {
				return ""
			}
			return p.InCB().String()
		}, func(w *writer, l line) { w.line(l, "InCB", l.val) }),
	}
	for i, n := range names {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, n), []byte(texts[i]), 0o644); err != nil {
			return err
		}
	}
	return nil
}

var edges = []rune{0, 0x20, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0xbf, 0xc0, 0x7ff, 0x800, 0x83f, 0x840, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000,
	0x1003f, 0x10040, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffbf, 0x10ffc0, 0x10fffe, 0x10ffff}

func point(t *rapid.T) rune {
	var r int
	switch gen.Uniform(t, 6) {
	case 5:
		r = int(gen.MinedPoint(t))
		if r < 0x110 && gen.Uniform(t, 2) == 0 { // of a block, perhaps
			r *= 64
		}
	case 0:
		r = int(edges[gen.Uniform(t, len(edges))])
	case 1:
		r = gen.Uniform(t, 0x110000/64)*64 + []int{0, 1, 31, 62, 63}[gen.Uniform(t, 5)]
	case 2:
		r = gen.Uniform(t, 0x110000/4096)*4096 + rapid.IntRange(-1, 1).Draw(t, "off")
	case 3:
		r = gen.Uniform(t, 0xfff+1)
	default:
		r = gen.Uniform(t, ref.MaxRune+1)
	}
	return rune(min(max(r, 0), ref.MaxRune))
}

var values = func() []ref.Props {
	var out []ref.Props
	for _, c := range gen.Classes {
		if c.P != 0 {
			out = append(out, c.P)
		}
	}
	return out
}()

// value draws properties: those that occur, or (odd) any that the files could
// assign.
func value(t *rapid.T, odd bool) ref.Props {
	if odd && gen.Uniform(t, 5) == 4 {
		i := ref.InCB(gen.Uniform(t, 4))
		if g := ref.GCB(gen.Uniform(t, int(ref.NumGCB)+1)); g < ref.NumGCB {
			return ref.MakeProps(g, false, i)
		}
		return ref.MakeProps(ref.Other, true, i)
	}
	return values[gen.Uniform(t, len(values))]
}

// Gen draws a set. small keeps it within what the emitted table can index.
func Gen(t *rapid.T, small bool) Set {
	var s Set
	var prev []Span
	n := gen.Uniform(t, 25)
	for range n {
		var sp Span
		k := gen.Uniform(t, 10)
		switch {
		case k < 3:
			sp.Lo = point(t)
			sp.Hi = sp.Lo
		case k < 5:
			sp.Lo = point(t)
			sp.Hi = sp.Lo + rune(gen.Uniform(t, 201))
		case k < 6:
			sp.Lo, sp.Hi = point(t), point(t)
		case k < 7: // whole blocks
			sp.Lo = point(t) &^ 63
			sp.Hi = sp.Lo + rune(64*rapid.IntRange(1, 70).Draw(t, "blocks")) - 1
		case len(prev) > 0: // the same as an earlier one elsewhere, perhaps a little different
			p := prev[gen.Uniform(t, len(prev))]
			d := rune(rapid.IntRange(-200, 200).Draw(t, "shift")) * 64
			sp = Span{p.Lo + d, p.Hi + d, p.P}
			if gen.Uniform(t, 3) == 2 {
				sp.Hi++
			}
			if sp.Lo < 0 {
				continue
			}
		default:
			continue
		}
		if sp.P == 0 && k < 7 {
			sp.P = value(t, !small)
		}
		if sp.Lo > sp.Hi {
			sp.Lo, sp.Hi = sp.Hi, sp.Lo
		}
		sp.Hi = min(sp.Hi, ref.MaxRune)
		if sp.Lo > sp.Hi {
			continue
		}
		prev = append(prev, sp)
		if gen.Uniform(t, 10) == 9 { // a hole in an earlier span
			sp.P = 0
		}
		s.Spans = append(s.Spans, sp)
	}
	if k := gen.Uniform(t, 6); k >= 3 || small && k >= 2 {
		m := Many{First: int(point(t)) / 64, Stride: 1 + gen.Uniform(t, 70), P: value(t, !small), Salt: rapid.Uint64Range(0, 1000).Draw(t, "salt")}
		hi := 100
		if !small {
			hi = []int{100, 300, 1100, 3000, 9000}[gen.Uniform(t, 5)]
		}
		m.N = 1 + gen.Uniform(t, hi)
		if gen.Uniform(t, 8) == 0 {
			m.N = gen.MinedSize(t, hi, m.N)
		}
		if m.N > 200 {
			m.Stride = 1 + gen.Uniform(t, max(1, min(8, 17000/m.N)))
			m.First = gen.Uniform(t, max(1, 17408-m.N*m.Stride))
		}
		s.Many = append(s.Many, m)
	}
	s.Style = uint64(gen.Uniform(t, 1001))
	s.Bare = gen.Uniform(t, 6) == 5
	if gen.Uniform(t, 20) == 19 {
		s.Long = 1 + gen.Uniform(t, 3)
	}
	if gen.Uniform(t, 30) == 29 {
		s.Bulk = 1 + gen.Uniform(t, 3)
	}
	s.Each = gen.Uniform(t, 25) == 24
	return s
}

// Big draws more distinct blocks than a byte can number.
func Big(t *rapid.T) Many {
	m := Many{P: value(t, false), Salt: rapid.Uint64Range(0, 1000).Draw(t, "salt")}
	m.N = []int{240, 256, 300, 600, 990, 1020, 1100, 2030, 4000, 9000}[gen.Uniform(t, 10)] + gen.Uniform(t, 40)
	if gen.Uniform(t, 4) == 0 {
		m.N = max(240, gen.MinedSize(t, 9000, m.N))
	}
	m.Stride = 1 + gen.Uniform(t, min(8, 17000/m.N))
	m.First = gen.Uniform(t, 17408-m.N*m.Stride)
	return m
}

// AddFault draws a fault.
func (s *Set) AddFault(t *rapid.T) {
	s.Fault = Faults[gen.Uniform(t, len(Faults))]
	s.At = point(t)
	s.BadForm = gen.Uniform(t, 240)
	if s.Fault == "conflict" { // at a character with a grapheme-break value
		if s.At >= 0xd800 && s.At <= 0xdfff {
			s.At = 0xe000
		}
		for slices.ContainsFunc(gen.Classes[:], func(c *gen.Class) bool { return c.Rep == s.At }) {
			s.At++
		}
		s.Spans = append(s.Spans, Span{s.At, s.At, ref.MakeProps(ref.GCB(rapid.IntRange(int(ref.CR), int(ref.NumGCB)-1).Draw(t, "gcb")), false, ref.INone)})
	}
}

// Parse reads the three files independently of the code under test.
func Parse(dir string) (ref.Table, error) {
	t := make(ref.Table, ref.MaxRune+1)
	gcb := map[string]ref.GCB{}
	for g := ref.CR; g < ref.NumGCB; g++ {
		gcb[g.String()] = g
	}
	incb := map[string]ref.InCB{"Consonant": ref.IConsonant, "Extend": ref.IExtend, "Linker": ref.ILinker}
	for i, name := range names {
		raw, err := os.ReadFile(filepath.Join(dir, name))
		if err != nil {
			return nil, err
		}
		for _, l := range strings.Split(string(raw), "\n") {
			l, _, _ = strings.Cut(l, "#")
			f := strings.Split(l, ";")
			if len(f) < 2 {
				continue
			}
			for j := range f {
				f[j] = strings.TrimSpace(f[j])
			}
			a, b, two := strings.Cut(f[0], "..")
			if !two {
				b = a
			}
			lo, e1 := strconv.ParseUint(a, 16, 32)
			hi, e2 := strconv.ParseUint(b, 16, 32)
			if e1 != nil || e2 != nil || hi > ref.MaxRune {
				return nil, fmt.Errorf("%s: bad line %q", name, l)
			}
			for r := lo; r <= hi; r++ {
				p := t[r]
				switch i {
				case 0:
					g, ok := gcb[f[1]]
					if !ok {
						return nil, fmt.Errorf("%s: bad value %q", name, l)
					}
					p = ref.MakeProps(g, p.EP(), p.InCB())
				case 1:
					if f[1] == "Extended_Pictographic" {
						p = ref.MakeProps(p.GCB(), true, p.InCB())
					}
				case 2:
					if f[1] == "InCB" {
						if len(f) < 3 {
							return nil, fmt.Errorf("%s: bad line %q", name, l)
						}
						p = ref.MakeProps(p.GCB(), p.EP(), incb[f[2]])
					}
				}
				t[r] = p
			}
		}
	}
	return t, nil
}
