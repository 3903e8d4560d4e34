package main

import (
	"bytes"
	"fmt"
	"slices"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
	"verif/pbt/ref"
)

// The checks in this file do not use the reference model: what the clusters
// must be is known from how each text is put together.

func class(r rune) int { return classOf[u17[r]] }

var classOf = func() map[ref.Props]int {
	m := map[ref.Props]int{}
	for i, c := range gen.Classes {
		m[c.P] = i
	}
	return m
}()

func isMark(c int) bool {
	return c == gen.ExtI || c == gen.Link || c == gen.ExtN || c == gen.ZWJ || c == gen.SM
}
func isControl(c int) bool { return c == gen.CR || c == gen.LF || c == gen.Control }

// clusters is a text under construction.
type clusters struct {
	data []byte
	ends []int
}

// add appends s as one cluster.
func (c *clusters) add(s string) {
	if s == "" {
		return
	}
	c.data = append(c.data, s...)
	c.ends = append(c.ends, len(c.data))
}

// grow appends s to the last cluster.
func (c *clusters) grow(s string) {
	c.data = append(c.data, s...)
	c.ends[len(c.ends)-1] = len(c.data)
}

func (c *clusters) check() error { return expect(c.data, c.ends) }

// both checks in one buffer and streamed.
func (c *clusters) both(initial int, reads []int) error {
	if err := c.check(); err != nil {
		return err
	}
	if len(c.data) > 4096 { // little by little would be quadratic
		reads = slices.Clone(reads)
		for i := range reads {
			reads[i] = max(reads[i], len(c.data)/64+i)
		}
	}
	all, got, err := stream(&chunkReader{data: c.data, sizes: reads, final: eof}, initial, len(c.data)+64)
	if err != nil || !bytes.Equal(all, c.data) || !eqInts(got, c.ends) {
		return fmt.Errorf("streamed: error %v: %w", err, differ("clusters", c.data, got, c.ends))
	}
	return nil
}

// ---- C09: clusters of any length

// Fam is Before + Head + Rep*N + Tail + After. In the families with Each,
// every repetition is a cluster (of RI: every two); otherwise the middle is
// one cluster.
type Fam struct {
	Family string
	Before string
	Head   string
	Rep    string
	N      int
	Tail   string
	After  string
	Each   bool
	Stream bool
}

func (c Fam) Show() string {
	return fmt.Sprintf("%s: %+q %+q + %+q x%d + %+q %+q", c.Family, c.Before, c.Head, c.Rep, c.N, c.Tail, c.After)
}

// layout appends the text to t, and its clusters.
func (c Fam) layout(t *clusters) {
	t.add(c.Before)
	switch {
	case c.Family == "regional indicators":
		rs := []rune(c.Rep)
		for i := 0; i < c.N; i++ {
			if i%2 == 0 {
				t.add(string(rs[i%len(rs)]))
			} else {
				t.grow(string(rs[i%len(rs)]))
			}
		}
		t.grow(c.Tail)
	case c.Each:
		for range c.N {
			t.add(c.Rep)
		}
	default:
		var b bytes.Buffer
		b.Grow(len(c.Head) + len(c.Rep)*c.N + len(c.Tail))
		b.WriteString(c.Head)
		for range c.N {
			b.WriteString(c.Rep)
		}
		b.WriteString(c.Tail)
		t.add(b.String())
	}
	t.add(c.After)
}

// size is the length of the text in bytes.
func (c Fam) size() int {
	var t clusters
	c.layout(&t)
	return len(t.data)
}

func checkFam(c Fam, o *pbt.Obs) error {
	var t clusters
	c.layout(&t)
	o.Class(c.Family)
	o.If(c.N >= 256, "256 repetitions or more")
	o.If(c.N >= 4096, "4096 repetitions or more")
	o.If(c.N >= 65535, "65535 repetitions or more")
	if c.N >= 16 {
		o.NonTrivial()
	}
	if c.Stream {
		return t.both(16, nil)
	}
	return t.check()
}

var famNames = []string{"base and marks", "prepended run", "jamo L", "jamo V", "jamo T", "emoji zwj", "conjuncts", "conjunct with long gap",
	"emoji with long gap", "regional indicators", "many clusters", "CR LF lines", "controls", "marks alone"}

func drawN(t *rapid.T, quickBits, maxBits int) int {
	bits := quickBits
	if gen.Uniform(t, 20) == 19 {
		bits = maxBits
	}
	switch k := gen.Uniform(t, 10); k % 3 {
	case 0:
		if k == 9 {
			return gen.MinedSize(t, 1<<bits, 1)
		}
		return rapid.IntRange(1, 40).Draw(t, "n")
	case 1:
		return max(1, 1<<rapid.IntRange(1, bits).Draw(t, "bits")+rapid.IntRange(-2, 2).Draw(t, "off"))
	default:
		return 1 + gen.Uniform(t, 1<<bits)
	}
}

func drawFam(t *rapid.T, fam, n int) Fam {
	c := Fam{Family: famNames[fam], N: n}
	str := func(cls ...int) string { return string(gen.OneOf(t, cls...)) }
	nonControl := func() string { return string(gen.AnyRuneExcept(t, isControl)) }
	some := func(lo, hi int, cls ...int) string {
		s := ""
		for range rapid.IntRange(lo, hi).Draw(t, "some") {
			s += str(cls...)
		}
		return s
	}
	switch fam {
	case 0:
		c.Head, c.Rep = nonControl(), string(gen.Marks(t, 1, 3))
	case 1:
		c.Head, c.Rep, c.Tail = "", some(1, 3, gen.Prep), nonControl()
	case 2:
		c.Rep, c.Tail = some(1, 3, gen.HL), []string{"", str(gen.HLVT) + str(gen.HT), str(gen.HLV) + str(gen.HV), str(gen.HV)}[gen.Uniform(t, 4)]
	case 3:
		c.Head, c.Rep, c.Tail = []string{"", str(gen.HL), str(gen.HLV)}[gen.Uniform(t, 3)], some(1, 3, gen.HV), some(0, 2, gen.HT)
	case 4:
		c.Head, c.Rep = []string{"", str(gen.HLVT), str(gen.HLV), str(gen.HV), str(gen.HL) + str(gen.HV)}[gen.Uniform(t, 5)], some(1, 3, gen.HT)
	case 5:
		c.Head, c.Rep = str(gen.EP), some(0, 3, gen.ExtI, gen.Link, gen.ExtN)+"\u200d"+str(gen.EP)
		c.Tail = string(gen.Marks(t, 0, 2))
	case 6:
		c.Head, c.Rep = str(gen.Cons), some(0, 2, gen.ExtI, gen.ZWJ)+str(gen.Link)+some(0, 2, gen.ExtI, gen.ZWJ, gen.Link)+str(gen.Cons)
		c.Tail = string(gen.Marks(t, 0, 2))
	case 7:
		c.Head, c.Rep, c.Tail = str(gen.Cons), some(1, 3, gen.ExtI, gen.ZWJ, gen.Link), str(gen.Cons)
		if rapid.Bool().Draw(t, "first") {
			c.Head += str(gen.Link)
		} else {
			c.Tail = str(gen.Link) + c.Tail
		}
	case 8:
		c.Head, c.Rep, c.Tail = str(gen.EP), some(1, 3, gen.ExtI, gen.Link, gen.ExtN), "\u200d"+str(gen.EP)
	case 9:
		c.Rep, c.Tail = some(1, 4, gen.RI), string(gen.Marks(t, 0, 2))
	case 10:
		c.Rep, c.Each = str(gen.Other)+string(gen.Marks(t, 0, 3)), true
	case 11:
		c.Rep, c.Each = "\r\n", true
	case 12:
		c.Rep, c.Each = str(gen.LF, gen.Control), true
	case 13:
		c.Rep = string(gen.Marks(t, 1, 3))
	}
	c.Before = []string{"", "\n", string(gen.Classes[gen.Control].Rep), "\r\n"}[gen.Uniform(t, 4)]
	c.After = []string{"", "\r", string(gen.Classes[gen.Control].Rep), "\r\n"}[gen.Uniform(t, 4)]
	if gen.Uniform(t, 2) == 0 {
		c.After = after(t, c.Head+c.Rep+c.Tail)
	}
	if fam == 12 {
		c.Before = "" // CR or CR LF would need care; nothing is enough here
	}
	c.Stream = n <= 20000 && gen.Uniform(t, 4) == 3
	return c
}

// after draws a character that is not joined to what s ends with.
func after(t *rapid.T, s string) string {
	r, _ := utf8.DecodeLastRuneInString(s)
	last := class(r)
	if last == gen.Prep {
		return "\n"
	}
	if last == gen.CR {
		return "a"
	}
	can := []int{gen.Other, gen.Other, gen.Prep, gen.Control, gen.LF, gen.CR}
	if last != gen.RI {
		can = append(can, gen.RI)
	}
	if last != gen.ZWJ {
		can = append(can, gen.EP)
	}
	if !isMark(last) {
		can = append(can, gen.Cons)
	}
	if last != gen.HL {
		can = append(can, gen.HL, gen.HLV, gen.HLVT)
	}
	return string(gen.OneOf(t, can...))
}

// fit makes the repetitions so many that the middle has about size bytes.
func (c *Fam) fit(size int) {
	c.N = max(1, (size-len(c.Head)-len(c.Tail))/len(c.Rep))
}

func famGen(quickBits, maxBits int) func(t *rapid.T) Fam {
	return func(t *rapid.T) Fam {
		fam := gen.Uniform(t, len(famNames))
		return drawFam(t, fam, drawN(t, quickBits, maxBits))
	}
}

var kFam = &pbt.Kind[Fam]{Name: "family", Check: checkFam, Gen: famGen(9, 14)}
var kFamBig = &pbt.Kind[Fam]{Name: "big-family", Check: checkFam, Gen: famGen(13, 20)}

// kFamEdge: at the sizes where a counter might overflow.
var kFamEdge = &pbt.Kind[Fam]{Name: "family-at-size-edge", Check: checkFam, Gen: func(t *rapid.T) Fam {
	edge := []int{127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537}
	fam := gen.Uniform(t, len(famNames))
	n := edge[gen.Uniform(t, len(edge))]
	if gen.Uniform(t, 3) == 0 {
		n = gen.MinedSize(t, 100000, n)
	}
	c := drawFam(t, fam, n)
	if gen.Uniform(t, 2) == 0 {
		c.fit(n)
	}
	return c
}}

// kFamGiant: beyond what any counter of two bytes, and most buffers, hold.
var kFamGiant = &pbt.Kind[Fam]{Name: "giant-family", Check: checkFam, Gen: func(t *rapid.T) Fam {
	ns := []int{70000, 100000, 131071, 131073, 200000, 262145, 524289, 1000000, 1<<20 + 1}
	fam := gen.Uniform(t, len(famNames))
	n := ns[gen.Uniform(t, len(ns))]
	if gen.Uniform(t, 4) == 0 {
		n = gen.MinedSize(t, 1<<21, n)
	}
	c := drawFam(t, fam, n)
	c.Stream = gen.Uniform(t, 2) == 1
	return c
}, Slow: true}

// kFamHuge: 2^24 to 2^25 repetitions.
var kFamHuge = &pbt.Kind[Fam]{Name: "huge-family", Check: checkFam, Gen: func(t *rapid.T) Fam {
	fam := gen.Uniform(t, len(famNames))
	return drawFam(t, fam, 1<<24+1+gen.Uniform(t, 1<<24))
}, Slow: true}

var c09 = &pbt.Prop{ID: "C09",
	Rule:  "14 families of repeatable constructs with random members, repeated from 1 to 2^25 times, around powers of two in particular, and up to 2^31 (thorough: 2^32) bytes for 2 (thorough: 13) constructs, the clusters being known by construction; 75 repeatable bodies filled to every length of 2 to 1200 (thorough: 8000) bytes and characters, and to sizes the code mentions, each followed by every class and compared with the short form; non-trivial = 16 repetitions or more",
	Kinds: []pbtKind{pbt.K(kFam), pbt.K(kFamBig), pbt.K(kFamEdge), pbt.K(kFamGiant), pbt.K(kFamHuge), pbt.K(kVast), pbt.K(kExact)},
	Run: func(r *pbt.Run) {
		runExact(r)
		pbt.Rapid(r, kFam, r.N(240000, 2000000))
		pbt.Rapid(r, kFamEdge, r.N(16000, 200000))
		pbt.Rapid(r, kFamGiant, r.N(400, 8000))
		pbt.Rapid(r, kFamHuge, r.N(16, 160))
		runVast(r)
		if r.Thorough {
			pbt.Rapid(r, kFamBig, r.N(0, 100000))
		}
	}}

// ---- C10: regional indicators

type RIItem struct {
	Prep  string
	Core  string // a run of RIs, or one other character
	Marks string
}
type RIText struct{ Items []RIItem }

func (c RIText) Show() string {
	s := ""
	for _, it := range c.Items {
		s += fmt.Sprintf("[%+q %+q %+q]", it.Prep, it.Core, it.Marks)
	}
	return s
}

func checkRI(c RIText, o *pbt.Obs) error {
	var t clusters
	for _, it := range c.Items {
		rs := []rune(it.Core)
		if u17[rs[0]].GCB() != ref.RI {
			if isControl(class(rs[0])) {
				t.add(it.Prep)
				t.add(it.Core)
				t.add(it.Marks)
			} else {
				t.add(it.Prep + it.Core + it.Marks)
			}
			continue
		}
		o.If(len(rs) >= 3, "run of three or more")
		o.If(it.Prep != "", "prepended run")
		o.If(it.Marks != "", "marks end the run")
		if len(rs) >= 2 && len(c.Items) > 1 {
			o.NonTrivial()
		}
		for i := 0; i < len(rs); i += 2 {
			s := string(rs[i:min(i+2, len(rs))])
			if i == 0 {
				s = it.Prep + s
			}
			t.add(s)
		}
		if it.Marks != "" {
			t.grow(it.Marks)
		}
	}
	return t.both(8, []int{3})
}

var kRI = &pbt.Kind[RIText]{Name: "runs", Check: checkRI, Gen: func(t *rapid.T) RIText {
	var c RIText
	prevCls, open := -1, false // class of the previous core; whether it could join an RI
	for range rapid.IntRange(1, 7).Draw(t, "items") {
		var it RIItem
		for range max(0, rapid.IntRange(-3, 2).Draw(t, "prep")) {
			it.Prep += string(gen.RuneOf(t, gen.Prep))
		}
		cls := gen.RI
		if gen.Uniform(t, 3) == 2 {
			cls = []int{gen.Other, gen.Other, gen.Control, gen.LF, gen.EP, gen.Cons, gen.HLVT}[gen.Uniform(t, 7)]
			if cls == prevCls {
				cls = gen.Other // keeps emoji and conjunct rules out of it
			}
		}
		if cls == gen.RI && open && it.Prep == "" {
			it.Prep = string(gen.RuneOf(t, gen.Prep))
		}
		n := 1
		if cls == gen.RI {
			n = gen.Count(t, 1, 9, 60)
		}
		for range n {
			it.Core += string(gen.RuneOf(t, cls))
		}
		if gen.Uniform(t, 3) == 2 {
			it.Marks = string(gen.Marks(t, 1, 3))
		}
		open = cls == gen.RI && it.Marks == ""
		prevCls = cls
		c.Items = append(c.Items, it)
	}
	return c
}}

// RIRun: a run of N indicators in a context.
type RIRun struct {
	N      int
	Pick   uint64
	Before int
	After  int
}

var riBefore = []string{"", "a", "\n", "\r", "\u0600", "\u0600\u0600", "a\u0300", "\u00a9", "\u00a9\u200d", "\u0915\u094d", "\u1100", "\u0300", "\U0001F1E6\u0300",
	"\U0001F1E6\U0001F1E7\U0001F1E8\u0600", "\U0001F1E6\u200d", "\U0001F1E6\U0001F1E7\u0903", "\u200d", "\uac00"}
var riAfter = []string{"", "a", "\u0300", "\u200d", "\n", "\u0600", "\u0300\U0001F1E6\U0001F1E7", "\u00a9", "\u0915", "\u1161"}

func checkRIRun(c RIRun, o *pbt.Obs) error {
	if c.N >= 2 {
		o.NonTrivial()
	}
	var t clusters
	joins := false
	switch b := riBefore[c.Before]; b {
	case "\U0001F1E6\U0001F1E7\U0001F1E8\u0600":
		t.add("\U0001F1E6\U0001F1E7")
		t.add("\U0001F1E8")
		t.add("\u0600")
		joins = true
	case "\u0600", "\u0600\u0600":
		t.add(b)
		joins = true
	default:
		t.add(b)
	}
	for i := 0; i < c.N; i++ {
		s := string(rune(0x1f1e6 + (c.Pick>>(5*(i%12))&31)%26))
		if i%2 == 1 || i == 0 && joins {
			t.grow(s)
		} else {
			t.add(s)
		}
	}
	switch a := riAfter[c.After]; a {
	case "":
	case "\u0300", "\u200d":
		t.grow(a)
	case "\u0300\U0001F1E6\U0001F1E7":
		t.grow("\u0300")
		t.add("\U0001F1E6\U0001F1E7")
	default:
		t.add(a)
	}
	return t.both(4, []int{1})
}

var kRIRun = &pbt.Kind[RIRun]{Name: "run-in-context", Check: checkRIRun, Smaller: func(c RIRun) []RIRun {
	var out []RIRun
	for _, d := range []RIRun{{c.N / 2, c.Pick, c.Before, c.After}, {c.N - 1, c.Pick, c.Before, c.After}, {c.N, 0, c.Before, c.After}, {c.N, c.Pick, 0, c.After}, {c.N, c.Pick, c.Before, 0}} {
		if d != c && d.N > 0 {
			out = append(out, d)
		}
	}
	return out
}}

// RIMix: indicators around one other character.
type RIMix struct{ A, B, C, X rune }

func (c RIMix) Show() string {
	return fmt.Sprintf("U+%04X U+%04X U+%04X around U+%04X", c.A, c.B, c.C, c.X)
}

func checkRIMix(c RIMix, o *pbt.Obs) error {
	a, b, d, x := string(c.A), string(c.B), string(c.C), string(c.X)
	o.NonTrivial()
	o.Evals(2)
	cl := class(c.X)
	for form := range 3 {
		var t clusters
		switch form { // indicators before x
		case 0:
		case 1:
			t.add(a)
		case 2:
			t.add(a + b)
		}
		switch {
		case cl == gen.RI && form == 1:
			t.grow(x) // a x, b d, a
			t.add(b + d)
			t.add(a)
		case cl == gen.RI: // (a b,) x b, d a
			t.add(x + b)
			t.add(d + a)
		case isMark(cl) && form > 0:
			t.grow(x)
			t.add(b + d)
			t.add(a)
		case cl == gen.Prep:
			t.add(x + b + d)
			t.add(a)
		default:
			t.add(x)
			t.add(b + d)
			t.add(a)
		}
		if err := t.check(); err != nil {
			return err
		}
	}
	return nil
}

var kRIMix = &pbt.Kind[RIMix]{Name: "indicators-around-character", Check: checkRIMix}

var c10 = &pbt.Prop{ID: "C10",
	Rule:  "every run length up to 300 and some up to 65,537 in every combination of 18 preceding and 10 following contexts, every triple of indicators, indicators around every character that has properties, and random texts of several runs with prepended characters, marks and other characters between, in one buffer and streamed; and, with the reference model, all class sequences up to length 4 (thorough: 6), triples of known characters and random texts, where a mistake counts if the characters on its two sides are ones this property is about; non-trivial = a run of two or more, in random texts with something around it",
	Kinds: append([]pbtKind{pbt.K(kRI), pbt.K(kRIRun), pbt.K(kRIMix), pbt.K(kGiantRI)}, own10.kinds()...),
	Run: func(r *pbt.Run) {
		i := 0
		edges := []int{510, 511, 512, 513, 514, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537}
		last := r.Pick(300, 2100)
		for n := 1; n <= last+len(edges); n++ {
			size := n
			if n > last {
				if size = edges[n-last-1]; size <= last {
					continue
				}
			}
			for b := range riBefore {
				for a := range riAfter {
					if i++; r.Mine(i) && !pbt.One(r, kRIRun, RIRun{size, r.Mix(uint64(i)), b, a}) {
						return
					}
				}
			}
		}
		ri := func(n int) rune { return 0x1f1e6 + rune(n%26) }
		for n := range 26 * 26 * 26 {
			if i++; r.Mine(i) && !pbt.One(r, kRIMix, RIMix{ri(n), ri(n / 26), ri(n / 676), 'x'}) {
				return
			}
		}
		for _, x := range listed {
			for n := range r.Pick(8, 100) {
				m := int(r.Mix(uint64(x)<<8|uint64(n)) >> 33)
				if n == 0 {
					m = 0
				}
				if x == 'x' {
					continue
				}
				// Distinct: the first is unlike the others in its index.
				if i++; r.Mine(i) && !pbt.One(r, kRIMix, RIMix{ri(n), ri(m / 26), ri(m/676 + n/26), x}) {
					return
				}
			}
		}
		pbt.Rapid(r, kRI, r.N(480000, 6000000))
		pbt.Rapid(r, kGiantRI, r.N(240, 8000))
		own10.run(r)
	}}

// ---- C11 and C12: chains of characters with marks between

type Chain struct {
	Before string
	Chars  string   // the characters
	Gaps   []string // what lies between them: marks
	After  string
}

func (c Chain) Show() string { return show([]byte(c.text())) }
func (c Chain) text() string {
	s := c.Before
	for i, r := range []rune(c.Chars) {
		if i > 0 {
			s += c.Gaps[i-1]
		}
		s += string(r)
	}
	return s + c.After
}

func (c Chain) build(joined func(a, b int, gap []int) bool) (t clusters) {
	rs := []rune(c.Chars)
	t.add(c.Before) // ends with a control, or empty
	t.add(string(rs[0]))
	for i, gap := range c.Gaps {
		var g []int
		for _, r := range gap {
			g = append(g, class(r))
		}
		t.grow(gap)
		if joined(class(rs[i]), class(rs[i+1]), g) {
			t.grow(string(rs[i+1]))
		} else {
			t.add(string(rs[i+1]))
		}
	}
	switch {
	case c.After == "":
	case isMark(class([]rune(c.After)[0])):
		t.grow(c.After)
	default:
		t.add(c.After)
	}
	return t
}

func zwjJoins(a, b int, gap []int) bool {
	if a != gen.EP || b != gen.EP || len(gap) == 0 || gap[len(gap)-1] != gen.ZWJ {
		return false
	}
	for _, g := range gap[:len(gap)-1] {
		if g != gen.ExtI && g != gen.Link && g != gen.ExtN {
			return false
		}
	}
	return true
}

func linkerJoins(a, b int, gap []int) bool {
	if a != gen.Cons || b != gen.Cons {
		return false
	}
	linker := false
	for _, g := range gap {
		switch g {
		case gen.Link:
			linker = true
		case gen.ExtI, gen.ZWJ:
		default:
			return false
		}
	}
	return linker
}

func chainCheck(joined func(a, b int, gap []int) bool, main int, key int) func(Chain, *pbt.Obs) error {
	return func(c Chain, o *pbt.Obs) error {
		t := c.build(func(a, b int, gap []int) bool {
			j := joined(a, b, gap)
			has := slices.Contains(gap, key)
			if a == main && b == main && has {
				o.NonTrivial()
				o.If(j, "joined")
				o.If(!j, "not joined although the gap has a joiner")
			}
			o.If(a != main && b == main && has, "joiner, but nothing to join to before it")
			o.If(a == main && b != main && has, "joiner, but nothing to join after it")
			return j
		})
		return t.both(8, []int{2, 3})
	}
}

// chainGen draws a chain mostly of class main; two equal neighbours of any
// other class are avoided, so that no other rule joins anything.
func chainGen(main int, gapWeights []int) func(t *rapid.T) Chain {
	others := []int{gen.Other, gen.RI, gen.EP, gen.Cons, gen.HL, gen.HLVT}
	return func(t *rapid.T) Chain {
		var c Chain
		prev := -1
		n := rapid.IntRange(2, 6).Draw(t, "chars")
		for i := range n {
			cls := main
			if gen.Uniform(t, 5) == 4 {
				cls = others[gen.Uniform(t, len(others))]
				if cls != main && cls == prev || prev == gen.HL && cls == gen.HLVT {
					cls = gen.Other
				}
			}
			prev = cls
			c.Chars += string(gen.RuneOf(t, cls))
			if i == n-1 {
				break
			}
			gap := ""
			for range gen.Count(t, 0, 5, 40) {
				gap += string(gen.OneOf(t, gapWeights...))
			}
			c.Gaps = append(c.Gaps, gap)
		}
		c.Before = []string{"", "\n", "\x00"}[gen.Uniform(t, 3)]
		c.After = []string{"", "a", "\u0300", "\n", "\u200d", "\u0600"}[gen.Uniform(t, 6)]
		return c
	}
}

func smallerChain(c Chain) []Chain {
	var out []Chain
	rs := []rune(c.Chars)
	for i := range c.Gaps {
		if len(c.Gaps) > 1 {
			d := c
			d.Chars = string(rs[i : i+2])
			d.Gaps = []string{c.Gaps[i]}
			out = append(out, d)
		}
		for _, g := range pbt.SmallerRunes([]rune(c.Gaps[i])) {
			d := c
			d.Gaps = slices.Clone(c.Gaps)
			d.Gaps[i] = string(g)
			out = append(out, d)
		}
	}
	if c.Before != "" || c.After != "" {
		d := c
		d.Before, d.After = "", ""
		out = append(out, d)
	}
	return out
}

// enumGaps runs all gaps up to length n between two characters of class main,
// and with one of them of another class.
func enumGaps(r *pbt.Run, k *pbt.Kind[Chain], main, n int) {
	sym := []int{gen.ExtI, gen.Link, gen.ExtN, gen.ZWJ, gen.SM}
	i := uint64(0)
	pick := func(cls int) string {
		i++
		m := r.Mix(i)
		return string(gen.Member(cls, int(m%10), int(m>>8%1000003)))
	}
	pairs := [][2]int{{main, main}, {main, gen.Other}, {gen.Other, main}, {main, gen.EP + gen.Cons - main}, {gen.EP + gen.Cons - main, main}, {gen.RI, main}, {main, gen.HL}}
	idx := 0
	var rec func(gap []int) bool
	rec = func(gap []int) bool {
		for _, p := range pairs {
			for rep := range 2 { // the gap alone, and after a first joined pair
				if idx++; !r.Mine(idx) {
					continue
				}
				g := ""
				for _, s := range gap {
					g += pick(s)
				}
				c := Chain{Chars: pick(p[0]) + pick(p[1]), Gaps: []string{g}}
				if rep == 1 {
					first := "\u200d"
					if main == gen.Cons {
						first = "\u094d"
					}
					c.Chars = pick(main) + c.Chars
					c.Gaps = append([]string{first}, c.Gaps...)
				}
				if !pbt.One(r, k, c) {
					return false
				}
			}
		}
		if len(gap) == n {
			return true
		}
		for _, s := range sym {
			if !rec(append(gap[:len(gap):len(gap)], s)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

var kZWJ = &pbt.Kind[Chain]{Name: "chain", Check: chainCheck(zwjJoins, gen.EP, gen.ZWJ),
	Gen: chainGen(gen.EP, []int{gen.ZWJ, gen.ZWJ, gen.ZWJ, gen.ExtI, gen.ExtN, gen.Link, gen.SM})}
var kZWJEnum = &pbt.Kind[Chain]{Name: "gap", Check: chainCheck(zwjJoins, gen.EP, gen.ZWJ), Smaller: smallerChain}

// kZWJTail: E* ZWJ gaps, which random gaps rarely are when long.
var kZWJTail = &pbt.Kind[Chain]{Name: "joined-chain", Check: chainCheck(zwjJoins, gen.EP, gen.ZWJ), Gen: func(t *rapid.T) Chain {
	n := rapid.IntRange(2, 8).Draw(t, "chars")
	flaw := rapid.IntRange(-3, n-2).Draw(t, "flaw")
	var c Chain
	for i := range n {
		c.Chars += string(gen.RuneOf(t, gen.EP))
		if i == n-1 {
			break
		}
		var g []rune
		for range gen.Count(t, 0, 3, 30) {
			g = append(g, gen.OneOf(t, gen.ExtI, gen.ExtN, gen.Link))
		}
		g = append(g, 0x200d)
		if i == flaw {
			at := rapid.IntRange(0, len(g)).Draw(t, "at")
			g = slices.Insert(g, at, gen.OneOf(t, gen.SM, gen.ZWJ, gen.ExtI))
		}
		c.Gaps = append(c.Gaps, string(g))
	}
	return c
}}

// kZWJPair: particular characters around and in the gap.
var kZWJPair = &pbt.Kind[Chain]{Name: "members", Check: chainCheck(zwjJoins, gen.EP, gen.ZWJ), Smaller: smallerChain}

// runMembers puts, between a and b of the main class, joined by joiners, every
// character that has properties, on its own, before and behind the joiner.
func runMembers(r *pbt.Run, k *pbt.Kind[Chain], firsts, joiners []rune) bool {
	i := 0
	for _, x := range listed {
		cl := class(x)
		for _, a := range firsts {
			b := firsts[int(r.Mix(uint64(x)<<20|uint64(a))%uint64(len(firsts)))]
			j := joiners[int(r.Mix(uint64(a)<<21|uint64(x))%uint64(len(joiners)))]
			var c Chain
			for form := range 3 {
				gap := [3]string{string(x), string(x) + string(j), string(j) + string(x)}[form]
				if isMark(cl) {
					c = Chain{Chars: string(a) + string(b), Gaps: []string{gap}}
				} else {
					c = Chain{Chars: string(a) + string(x) + string(b), Gaps: [3][]string{{"", ""}, {"", string(j)}, {string(j), ""}}[form]}
				}
				if joinsOtherwise(c) || x == j && form != 1 {
					continue // the latter is there otherwise
				}
				if i++; r.Mine(i) && !pbt.One(r, k, c) {
					return false
				}
			}
		}
	}
	return true
}

// joinsOtherwise: two characters of the chain are next to each other and
// joined because of what they are.
func joinsOtherwise(c Chain) bool {
	rs := []rune(c.Chars)
	for i, g := range c.Gaps {
		a, b := class(rs[i]), class(rs[i+1])
		if g == "" && joins[a][b] || isControl(a) && g != "" || a == gen.Prep && g == "" {
			return true
		}
	}
	return false
}

var c11 = &pbt.Prop{ID: "C11",
	Rule:  "every gap up to the stated length over {extend, linker, ZWNJ, ZWJ, spacing mark} between pictographics and between one and another class, members varied by seed; every pictographic before and after a joiner with each well-known one (thorough: with every one); every two pictographics with 5 to 25 gaps as in emoji sequences; every character that has properties in the gap; random chains with random gaps, and chains of proper gaps with at most one flaw; the joined/not joined answer is a pattern match on the gap; and, with the reference model, all class sequences up to length 4 (thorough: 6), triples of known characters and random texts, where a mistake counts if the characters on its two sides are ones this property is about; non-trivial = a gap with a ZWJ between two pictographics",
	Kinds: append([]pbtKind{pbt.K(kZWJ), pbt.K(kZWJEnum), pbt.K(kZWJTail), pbt.K(kZWJPair), pbt.K(kZWJGiant), pbt.K(kZWJRow)}, own11.kinds()...),
	Run: func(r *pbt.Run) {
		enumGaps(r, kZWJEnum, gen.EP, r.Pick(6, 8))
		i := 0
		eps := gen.Classes[gen.EP]
		for _, a := range eps.Runes {
			for n, b := range eps.Runes {
				known := slices.Contains(eps.Known, a) || slices.Contains(eps.Known, b)
				if !known && !r.Thorough {
					if n%61 != int(a)%61 {
						continue
					}
				}
				if i++; r.Mine(i) && !pbt.One(r, kZWJPair, Chain{Chars: string(a) + string(b), Gaps: []string{"\u200d"}}) {
					return
				}
			}
		}
		if !runMembers(r, kZWJPair, []rune{0xa9, 0x2764, 0x1f3f4, 0x1f468, 0x1f469}, []rune{0x200d}) {
			return
		}
		runZWJRows(r)
		pbt.Rapid(r, kZWJ, r.N(360000, 6000000))
		pbt.Rapid(r, kZWJTail, r.N(360000, 6000000))
		pbt.Rapid(r, kZWJGiant, r.N(1600, 40000))
		own11.run(r)
	}}

var kConj = &pbt.Kind[Chain]{Name: "chain", Check: chainCheck(linkerJoins, gen.Cons, gen.Link),
	Gen: chainGen(gen.Cons, []int{gen.Link, gen.Link, gen.Link, gen.ExtI, gen.ExtI, gen.ZWJ, gen.ExtN, gen.SM})}
var kConjEnum = &pbt.Kind[Chain]{Name: "gap", Check: chainCheck(linkerJoins, gen.Cons, gen.Link), Smaller: smallerChain}
var kConjTail = &pbt.Kind[Chain]{Name: "joined-chain", Check: chainCheck(linkerJoins, gen.Cons, gen.Link), Gen: func(t *rapid.T) Chain {
	n := rapid.IntRange(2, 8).Draw(t, "chars")
	flaw := rapid.IntRange(-3, n-2).Draw(t, "flaw")
	var c Chain
	for i := range n {
		c.Chars += string(gen.RuneOf(t, gen.Cons))
		if i == n-1 {
			break
		}
		var g []rune
		for range gen.Count(t, 0, 4, 30) {
			g = append(g, gen.OneOf(t, gen.ExtI, gen.ZWJ, gen.Link))
		}
		at := rapid.IntRange(0, len(g)).Draw(t, "linker")
		g = slices.Insert(g, at, gen.RuneOf(t, gen.Link))
		if i == flaw {
			at := rapid.IntRange(0, len(g)).Draw(t, "at")
			g = slices.Insert(g, at, gen.OneOf(t, gen.SM, gen.ExtN))
		}
		c.Gaps = append(c.Gaps, string(g))
	}
	return c
}}

var kConjPair = &pbt.Kind[Chain]{Name: "members", Check: chainCheck(linkerJoins, gen.Cons, gen.Link), Smaller: smallerChain}

var c12 = &pbt.Prop{ID: "C12",
	Rule:  "every gap up to the stated length over {extend, linker, ZWNJ, ZWJ, spacing mark} between consonants and between one and another class, members varied by seed; every two consonants with every linker, and with some 100 gaps of two or three marks of the script; every character that has properties in the gap; random chains with random gaps, and chains of proper gaps with at most one interruption; the joined/not joined answer is a pattern match on the gap; and, with the reference model, all class sequences up to length 4 (thorough: 6), triples of known characters and random texts, where a mistake counts if the characters on its two sides are ones this property is about; non-trivial = a gap with a linker between two consonants",
	Kinds: append([]pbtKind{pbt.K(kConj), pbt.K(kConjEnum), pbt.K(kConjTail), pbt.K(kConjPair), pbt.K(kConjGiant), pbt.K(kConjRow)}, own12.kinds()...),
	Run: func(r *pbt.Run) {
		enumGaps(r, kConjEnum, gen.Cons, r.Pick(6, 8))
		i := 0
		for _, a := range gen.Classes[gen.Cons].Runes {
			for _, b := range gen.Classes[gen.Cons].Runes {
				l := gen.Classes[gen.Link].Runes
				if i++; r.Mine(i) && !pbt.One(r, kConjPair, Chain{Chars: string(a) + string(b), Gaps: []string{string(l[int(r.Mix(uint64(i))%uint64(len(l)))])}}) {
					return
				}
			}
		}
		if !runMembers(r, kConjPair, []rune{0x915, 0x939, 0x995, 0xc15, 0xd15}, gen.Classes[gen.Link].Runes) {
			return
		}
		runConjRows(r)
		pbt.Rapid(r, kConj, r.N(360000, 6000000))
		pbt.Rapid(r, kConjTail, r.N(360000, 6000000))
		pbt.Rapid(r, kConjGiant, r.N(1600, 40000))
		own12.run(r)
	}}

// ---- C13: Hangul

// syllable gives the length in characters of the first syllable block.
func syllable(cs []int) int {
	i := 0
	for i < len(cs) && cs[i] == gen.HL {
		i++
	}
	ls := i
	core := false
	switch {
	case i < len(cs) && cs[i] == gen.HV:
		core = true
		for i < len(cs) && cs[i] == gen.HV {
			i++
		}
	case i < len(cs) && cs[i] == gen.HLV:
		core = true
		i++
		for i < len(cs) && cs[i] == gen.HV {
			i++
		}
	case i < len(cs) && cs[i] == gen.HLVT:
		core = true
		i++
	}
	if core || ls == 0 {
		for i < len(cs) && cs[i] == gen.HT {
			i++
		}
	}
	if i == 0 {
		return 1
	}
	return i
}

// decompose replaces precomposed syllables: how 1 fully, 2 LVT to LV T only.
// It returns for each character the number of characters it became.
func decompose(rs []rune, how func(i int) int) (out []rune, widths []int) {
	for i, r := range rs {
		n := len(out)
		s := r - 0xac00
		h := how(i)
		switch {
		case s < 0 || s >= 11172 || h == 0:
			out = append(out, r)
		case h == 2 && s%28 != 0:
			out = append(out, r-s%28, 0x11a7+s%28)
		default:
			out = append(out, 0x1100+s/588, 0x1161+s%588/28)
			if s%28 != 0 {
				out = append(out, 0x11a7+s%28)
			}
		}
		widths = append(widths, len(out)-n)
	}
	return
}

func checkHangul(c Text, o *pbt.Obs) error {
	rs := []rune(string(c.Data))
	var cs []int
	for _, r := range rs {
		cs = append(cs, class(r))
	}
	var t clusters
	var runeEnds []int
	for i := 0; i < len(rs); {
		n := syllable(cs[i:])
		for i+n < len(cs) && isMark(cs[i+n]) && !isControl(cs[i]) {
			n++
		}
		o.If(n >= 3, "block of three or more")
		if n >= 2 && n < len(rs) {
			o.NonTrivial()
		}
		t.add(string(rs[i : i+n]))
		i += n
		runeEnds = append(runeEnds, i)
	}
	if err := t.check(); err != nil {
		return err
	}
	for how := 1; how <= 3; how++ {
		ds, widths := decompose(rs, func(i int) int {
			if how == 3 { // alternate
				return i % 3
			}
			return how
		})
		if len(ds) == len(rs) {
			continue
		}
		o.Class("decomposed variant")
		o.Evals(1)
		pos, k := 0, 0
		var want []int
		for i, w := range widths {
			for range w {
				pos += len(string(ds[k]))
				k++
			}
			if slices.Contains(runeEnds, i+1) {
				want = append(want, pos)
			}
		}
		if err := expect([]byte(string(ds)), want); err != nil {
			return fmt.Errorf("decomposition of %s: %w", show(c.Data), err)
		}
	}
	return nil
}

var hangulSyms = []int{gen.HL, gen.HV, gen.HT, gen.HLV, gen.HLVT, gen.ExtI, gen.Other}

var kHangul = &pbt.Kind[Text]{Name: "jamo-text", Check: checkHangul, Gen: func(t *rapid.T) Text {
	n := gen.Count(t, 2, 12, 80)
	var rs []rune
	for range n {
		if gen.Uniform(t, 10) < 8 {
			rs = append(rs, gen.OneOf(t, gen.HL, gen.HV, gen.HT, gen.HLV, gen.HLVT))
		} else {
			rs = append(rs, gen.OneOf(t, gen.ExtI, gen.ZWJ, gen.SM, gen.ExtN, gen.Other, gen.LF))
		}
	}
	return Text{[]byte(string(rs))}
}}
var kHangulSeq = &pbt.Kind[Text]{Name: "jamo-sequence", Check: checkHangul, Smaller: smallerText}

var c13 = &pbt.Prop{ID: "C13",
	Rule:  "every sequence up to the stated length over {L, V, T, LV, LVT, mark, other}, members varied by seed; all 11,172 syllables and all conjoining jamo, with each jamo type before and after; every L with every V and every T, and (thorough; quick: every fifth of) every precomposed syllable with every jamo of another type; random texts; each also with precomposed syllables decomposed fully, to LV T, or in part (each variant an evaluation); blocks found by matching the syllable pattern; and, with the reference model, all class sequences up to length 4 (thorough: 6), triples of known characters and random texts, where a mistake counts if the characters on its two sides are ones this property is about; non-trivial = a block of two or more characters and something else",
	Kinds: append([]pbtKind{pbt.K(kHangul), pbt.K(kHangulSeq), pbt.K(kGiantHangul)}, own13.kinds()...),
	Run: func(r *pbt.Run) {
		for n := 1; n <= r.Pick(6, 7); n++ {
			total := 1
			for range n {
				total *= len(hangulSyms)
			}
			rs := make([]rune, n)
			for i := range total {
				if !r.Mine(i) {
					continue
				}
				m, x := r.Mix(uint64(n)<<56^uint64(i)), i
				for j := range rs {
					rs[j] = gen.Member(hangulSyms[x%len(hangulSyms)], int(m%10), int(m>>8%1000003))
					m = m>>7 | m<<57
					x /= len(hangulSyms)
				}
				if !pbt.One(r, kHangulSeq, Text{[]byte(string(rs))}) {
					return
				}
			}
		}
		i := 0
		for _, cls := range hangulSyms[:5] {
			for _, c := range gen.Classes[cls].Runes {
				i++
				if !r.Mine(i) {
					continue
				}
				// Eight characters: longer than the sequences above.
				s := string(c)
				for _, x := range []string{"\u1100" + s + "\u1100" + s + "\u1161" + s + "\u11a8" + s, "\uac00" + s + "\uac01" + s + s + "\uac00\u11a8" + s + "\uac01", "\u1161" + s + "\u11a8" + s + "\u0300\u11a8" + s + "a" + s} {
					if !pbt.One(r, kHangulSeq, Text{[]byte(x)}) {
						return
					}
				}
			}
		}
		for _, l := range gen.Classes[gen.HL].Runes {
			for _, v := range gen.Classes[gen.HV].Runes {
				for _, t := range gen.Classes[gen.HT].Runes {
					if i++; !r.Mine(i) {
						continue
					}
					// Nine jamo, in other orders than above.
					rs := []rune{l, v, t, t, v, l, t, l, v}
					if !pbt.One(r, kHangulSeq, Text{[]byte(string(rs))}) {
						return
					}
				}
			}
		}
		for _, x := range [][2]int{{gen.HLV, gen.HV}, {gen.HLV, gen.HT}, {gen.HLVT, gen.HT}, {gen.HL, gen.HLV}, {gen.HL, gen.HLVT}, {gen.HT, gen.HLVT}} {
			for n, a := range gen.Classes[x[0]].Runes {
				for m, b := range gen.Classes[x[1]].Runes {
					if !r.Thorough && (n+m)%5 != 0 {
						continue
					}
					if i++; !r.Mine(i) {
						continue
					}
					if !pbt.One(r, kHangulSeq, Text{[]byte(string([]rune{a, b, 'a', b, a, 'b', a, a, b, b}))}) {
						return
					}
				}
			}
		}
		pbt.Rapid(r, kHangul, r.N(360000, 6000000))
		pbt.Rapid(r, kGiantHangul, r.N(240, 8000))
		own13.run(r)
	}}

// ---- C14: controls

// Ctl is parts of text separated by runs of control characters.
type Ctl struct {
	Parts    []string // len(Controls)+1, without control characters
	Controls []string
}

func (c Ctl) Show() string {
	s := ""
	for i, p := range c.Parts {
		s += p
		if i < len(c.Controls) {
			s += c.Controls[i]
		}
	}
	return show([]byte(s))
}

func checkCtl(c Ctl, o *pbt.Obs) error {
	var t clusters
	cr := false
	for i, p := range c.Parts {
		cr = cr && p == ""
		ends, err := oneShot([]byte(p))
		if err != nil {
			return err
		}
		pos := 0
		for _, e := range ends {
			t.add(p[pos:e])
			pos = e
		}
		o.If(len(ends) > 0 && i > 0 && i < len(c.Parts)-1, "text between controls")
		if i == len(c.Controls) {
			break
		}
		for _, r := range c.Controls[i] {
			if cr && r == '\n' {
				t.grow("\n")
				o.Class("CR LF")
				cr = false
				continue
			}
			t.add(string(r))
			cr = r == '\r'
		}
		if p != "" && c.Parts[i+1] != "" && c.Controls[i] != "" {
			o.NonTrivial()
		}
	}
	return t.both(8, []int{1})
}

var kCtl = &pbt.Kind[Ctl]{Name: "separated-text", Check: checkCtl, Gen: func(t *rapid.T) Ctl {
	var c Ctl
	part := func() string {
		s := ""
		for _, r := range gen.Runes(t, 8) {
			if !u17[r].IsControl() {
				s += string(r)
			}
		}
		return s
	}
	c.Parts = append(c.Parts, part())
	for range rapid.IntRange(1, 4).Draw(t, "controls") {
		s := ""
		for range rapid.IntRange(1, 4).Draw(t, "run") {
			s += string(gen.OneOf(t, gen.CR, gen.LF, gen.Control, gen.Control))
		}
		c.Controls = append(c.Controls, s)
		c.Parts = append(c.Parts, part())
	}
	return c
}}
var kCtlEach = &pbt.Kind[Ctl]{Name: "each-control", Check: checkCtl}

var ctlParts = [][2]string{{"e", "\u0301"}, {"\u00a9\u200d", "\u00a9"}, {"\U0001F1E6", "\U0001F1E7"}, {"\u0600", "a"}, {"\u0915\u094d", "\u0915"}, {"\u1100", "\u1161"},
	{"a", "\u200d\u00a9"}, {"\u0300", "\u0903"}, {"\u00a9", "\u200d\u00a9"}, {"\U0001F1E6\U0001F1E7\U0001F1E8", "\U0001F1E9\U0001F1EA"}}

// CtlRow is a control character with each of the characters that have
// properties on either side.
type CtlRow struct{ Rune rune }

func (c CtlRow) Show() string { return fmt.Sprintf("U+%04X and each listed character", c.Rune) }

func checkCtlRow(c CtlRow, o *pbt.Obs) error {
	var buf [12]byte
	x := string(c.Rune)
	o.NonTrivial()
	o.Evals(int64(len(listed)) - 1)
	for i, y := range listedUTF8 {
		b := append(append(append(buf[:0], y...), x...), y...)
		yx, xy := len(y), len(y)+len(x)
		want := []int{yx, xy, len(b)}
		switch {
		case listed[i] == '\r' && c.Rune == '\n':
			want = []int{xy, len(b)}
		case listed[i] == '\n' && c.Rune == '\r':
			want = []int{yx, len(b)}
		}
		pos := 0
		for _, e := range want {
			if adv, _, err := textseg.ScanGraphemeClusters(b[pos:], true); err != nil || adv != e-pos {
				return fmt.Errorf("%s: cluster at byte %d has %d bytes (error %v), want %d", show(b), pos, adv, err, e-pos)
			}
			pos = e
		}
	}
	return nil
}

var kCtlRow = &pbt.Kind[CtlRow]{Name: "control-between-character", Check: checkCtlRow}
var kCtlLong = &pbt.Kind[Ctl]{Name: "separated-long-text", Check: checkCtl, Gen: func(t *rapid.T) Ctl {
	part := func() string {
		s := ""
		n := gen.Uniform(t, 400)
		p := ""
		for _, r := range gen.Runes(t, 3) {
			if !u17[r].IsControl() {
				p += string(r)
			}
		}
		for p != "" && len(s) < n {
			s += p
		}
		return s
	}
	c := Ctl{Parts: []string{part()}}
	for range rapid.IntRange(1, 3).Draw(t, "controls") {
		s := ""
		for range gen.Count(t, 1, 4, 300) {
			s += string(gen.OneOf(t, gen.CR, gen.LF, gen.Control, gen.Control))
		}
		c.Controls = append(c.Controls, s)
		c.Parts = append(c.Parts, part())
	}
	return c
}}

var c14 = &pbt.Prop{ID: "C14",
	Rule:  "every one of the control, format-control, CR and LF characters between ten pairs of texts that would join without it, and next to CR and LF, and every one between two of each character that has properties; random texts separated by runs of controls, the parts being compared with their segmentation alone; and, with the reference model, all class sequences up to length 4 (thorough: 6), triples of known characters and random texts, where a mistake counts if the characters on its two sides are ones this property is about; non-trivial = text on both sides of a control",
	Kinds: append([]pbtKind{pbt.K(kCtl), pbt.K(kCtlEach), pbt.K(kCtlRow), pbt.K(kCtlLong), pbt.K(kGiantCtl)}, own14.kinds()...),
	Run: func(r *pbt.Run) {
		i := 0
		for _, cls := range []int{gen.CR, gen.LF, gen.Control} {
			for _, c := range gen.Classes[cls].Runes {
				for _, p := range ctlParts {
					for _, ctl := range []string{string(c), "\r" + string(c), string(c) + "\n", string(c) + "\r\n" + string(c)} {
						if i++; r.Mine(i) && !pbt.One(r, kCtlEach, Ctl{[]string{p[0], p[1]}, []string{ctl}}) {
							return
						}
					}
				}
			}
		}
		for _, cls := range []int{gen.CR, gen.LF, gen.Control} {
			for _, c := range gen.Classes[cls].Runes {
				if i++; r.Mine(i) && !pbt.One(r, kCtlRow, CtlRow{c}) {
					return
				}
			}
		}
		pbt.Rapid(r, kCtl, r.N(480000, 6000000))
		pbt.Rapid(r, kCtlLong, r.N(16000, 200000))
		pbt.Rapid(r, kGiantCtl, r.N(240, 8000))
		own14.run(r)
	}}

// ---- C15: attachment

func checkAttach(c Text, o *pbt.Obs) error {
	ends, err := oneShot(c.Data)
	if err != nil {
		return err
	}
	prev := rune(-1)
	for i, r := range string(c.Data) {
		if prev >= 0 && !u17[prev].IsControl() {
			cl := class(r)
			att := isMark(cl) || class(prev) == gen.Prep && !isControl(cl)
			if att {
				o.NonTrivial()
				o.If(isMark(cl), "mark attached")
				o.If(!isMark(cl), "prepended character attached")
				if slices.Contains(ends, i) {
					return fmt.Errorf("boundary at byte %d of %s, between U+%04X (%v) and U+%04X (%v):\n %s", i, show(c.Data), prev, u17[prev], r, u17[r], pieces(c.Data, ends))
				}
			}
		}
		prev = r
	}
	return nil
}

// MarkRow is a mark after each of the characters that have properties, or a
// prepended character before each.
type MarkRow struct{ Rune rune }

func (c MarkRow) Show() string { return fmt.Sprintf("U+%04X and each listed character", c.Rune) }

func checkMarkRow(c MarkRow, o *pbt.Obs) error {
	var buf [16]byte
	x := string(c.Rune)
	prep := !isMark(class(c.Rune))
	o.NonTrivial()
	o.Evals(int64(2*len(listed)) - 1)
	for i, y := range listedUTF8 {
		if isControl(listedClass[i]) {
			continue
		}
		for _, twice := range []bool{false, true} {
			b := append(append(buf[:0], y...), x...)
			if prep {
				b = append(append(buf[:0], x...), y...)
			}
			if twice { // y x x, or x x y
				if prep {
					b = append(append(append(buf[:0], x...), x...), y...)
				} else {
					b = append(b, x...)
				}
			}
			if adv, _, err := textseg.ScanGraphemeClusters(b, true); err != nil || adv != len(b) {
				return fmt.Errorf("%s: first cluster has %d bytes (error %v), want all %d", show(b), adv, err, len(b))
			}
		}
	}
	return nil
}

var kMarkRow = &pbt.Kind[MarkRow]{Name: "attach-to-each", Check: checkMarkRow}
var kAttachLong = &pbt.Kind[Text]{Name: "attach-long", Check: checkAttach, Gen: func(t *rapid.T) Text { return Text{gen.Long(t, 20000, false, true)} }}

type Insert struct {
	Data    pbt.Blob
	At      int // cluster number, modulo their count
	Rune    rune
	Prepend bool
}

func (c Insert) Show() string {
	return fmt.Sprintf("%s with U+%04X at cluster %d", show(c.Data), c.Rune, c.At)
}

func checkInsert(c Insert, o *pbt.Obs) error {
	ends, err := oneShot(c.Data)
	if err != nil {
		return err
	}
	if len(ends) == 0 {
		return nil
	}
	k := c.At % len(ends)
	start, end := 0, ends[k]
	if k > 0 {
		start = ends[k-1]
	}
	rs := []rune(string(c.Data[start:end]))
	if u17[rs[0]].IsControl() {
		o.Class("control cluster: not applicable")
		return nil
	}
	classify(c.Data, ends, o)
	at := end
	if c.Prepend {
		at = start
	}
	ins := string(c.Rune)
	data := slices.Concat(c.Data[:at], []byte(ins), c.Data[at:])
	want := slices.Clone(ends)
	for i := k; i < len(want); i++ {
		want[i] += len(ins)
	}
	if err := expect(data, want); err != nil {
		return fmt.Errorf("inserting U+%04X at byte %d of %s: %w", c.Rune, at, show(c.Data), err)
	}
	return nil
}

var kAttach = &pbt.Kind[Text]{Name: "attach", Check: checkAttach, Gen: func(t *rapid.T) Text { return Text{gen.Valid(t, 30)} }}
var kAttachEach = &pbt.Kind[Text]{Name: "attach-each", Check: checkAttach, Smaller: smallerText}
var kInsert = &pbt.Kind[Insert]{Name: "insert", Check: checkInsert, Gen: func(t *rapid.T) Insert {
	c := Insert{Data: gen.Valid(t, 20), At: gen.Uniform(t, 31), Prepend: rapid.Bool().Draw(t, "prepend")}
	c.Rune = gen.RuneOf(t, gen.SM)
	if c.Prepend {
		c.Rune = gen.RuneOf(t, gen.Prep)
	}
	return c
}}
var kInsertEach = &pbt.Kind[Insert]{Name: "insert-each", Check: checkInsert, Smaller: func(c Insert) []Insert {
	var out []Insert
	for _, t := range smallerText(Text{c.Data}) {
		for at := range 4 {
			out = append(out, Insert{t.Data, at, c.Rune, c.Prepend})
		}
	}
	return out
}}

var c15 = &pbt.Prop{ID: "C15",
	Rule:  "every extending, joining, spacing and prepended character next to every non-control character that has properties, and in longer texts with a member of every class; every class sequence of length <= 3 with an insertion at each cluster; random texts, scanned for forbidden boundaries, and with a spacing mark or prepended character inserted; and, with the reference model, all class sequences up to length 4 (thorough: 6), triples of known characters and random texts, where a mistake counts if the characters on its two sides are ones this property is about; non-trivial = some attachment to check, or several clusters one of which has several characters",
	Kinds: append([]pbtKind{pbt.K(kAttach), pbt.K(kAttachEach), pbt.K(kInsert), pbt.K(kInsertEach), pbt.K(kMarkRow), pbt.K(kAttachLong), pbt.K(kGiantMarks)}, own15.kinds()...),
	Run: func(r *pbt.Run) {
		i := 0
		do := func(s string) bool {
			i++
			return !r.Mine(i) || pbt.One(r, kAttachEach, Text{[]byte(s)})
		}
		for cls := range gen.Classes {
			if !isMark(cls) && cls != gen.Prep {
				continue
			}
			for _, m := range gen.Classes[cls].Runes {
				for o := range gen.Classes {
					if isControl(o) {
						continue
					}
					x := r.Mix(uint64(m)<<8 | uint64(o))
					b := string(gen.Member(o, int(x%10), int(x>>8%1000003)))
					// A leading character keeps these distinct from each
					// other whatever members are drawn.
					if !do(string(m) + string(rune('a'+o)) + b + string(m) + b + string(m) + string(m)) {
						return
					}
				}
			}
		}
		for n := 1; n <= r.Pick(3, 4); n++ {
			enumClasses(r, n, func(rs []rune) bool {
				for at := range n {
					m := r.Mix(uint64(at) + uint64(rs[0])<<8)
					for _, p := range []bool{false, true} {
						cls := gen.SM
						if p {
							cls = gen.Prep
						}
						if !pbt.One(r, kInsertEach, Insert{[]byte(string(rs)), at, gen.Member(cls, int(m%10), int(m>>8%1000003)), p}) {
							return false
						}
					}
				}
				return true
			})
		}
		for cls := range gen.Classes {
			if !isMark(cls) && cls != gen.Prep {
				continue
			}
			for _, m := range gen.Classes[cls].Runes {
				if i++; r.Mine(i) && !pbt.One(r, kMarkRow, MarkRow{m}) {
					return
				}
			}
		}
		pbt.Rapid(r, kAttach, r.N(360000, 6000000))
		pbt.Rapid(r, kInsert, r.N(480000, 6000000))
		pbt.Rapid(r, kAttachLong, r.N(6000, 80000))
		pbt.Rapid(r, kGiantMarks, r.N(400, 12000))
		own15.run(r)
	}}
