package main

import (
	"bytes"
	"fmt"
	"slices"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// Texts with clusters of up to a megabyte, described briefly so that a replay
// file stays small. What their clusters are is known from how they are made.

// Giant is Fam's text, First between it and Second's (if that has any), and
// how it is delivered.
type Giant struct {
	Fam    Fam
	First  pbt.Blob // a control character or ill-formed byte, which ends the first
	Second Fam
	Reads  []int // in 1024ths of the whole
	Cut    int
}

func (c Giant) Show() string {
	s := c.Fam.Show() + fmt.Sprintf(" then %+q", []byte(c.First))
	if c.Second.N > 0 {
		s += " then " + c.Second.Show()
	}
	return s
}

func (c Giant) layout() (t clusters) {
	c.Fam.layout(&t)
	t.add(string(c.First))
	if c.Second.N > 0 {
		c.Second.layout(&t)
	}
	return
}

// giantSizes are where buffers end and counters wrap, in bytes or characters.
var giantSizes = []int{256, 512, 1024, 4096, 8192, 16384, 32768, 65536, 65536, 65536, 131072, 262144, 524288, 1 << 20}

// drawGiantFam draws a family with about as many bytes, or repetitions, as
// one of giantSizes.
func drawGiantFam(t *rapid.T, small bool, fams ...int) Fam {
	c := drawFam(t, fams[gen.Uniform(t, len(fams))], 1)
	sizes := giantSizes
	if small {
		sizes = sizes[:10]
	}
	size := sizes[gen.Uniform(t, len(sizes))]
	if gen.Uniform(t, 6) == 0 {
		size = gen.MinedSize(t, sizes[len(sizes)-1], size)
	}
	switch gen.Uniform(t, 3) {
	case 0: // repetitions
		if size > 1<<17 {
			size >>= 4
		}
		c.N = max(1, size+rapid.IntRange(-2, 2).Draw(t, "off"))
	case 1: // bytes
		c.N = max(1, (size-len(c.Head)-len(c.Tail))/len(c.Rep)+rapid.IntRange(-3, 3).Draw(t, "off"))
	default:
		c.N = 1 + size/len(c.Rep)/2 + gen.Uniform(t, size/len(c.Rep)+1)
	}
	c.Before, c.After, c.Stream = "", "", false
	return c
}

var oneCluster = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 13}
var anyFam = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}

var illBytes = []string{"\xff", "\x80", "\xc3", "\xe2", "\xf0", "\xf8"}

// drawGiant: ill says that what follows the first text may be ill-formed.
func drawGiant(t *rapid.T, ill bool, fams []int) Giant {
	c := Giant{Fam: drawGiantFam(t, false, fams...), First: []byte(string(gen.OneOf(t, gen.LF, gen.Control)))}
	if ill && gen.Uniform(t, 3) > 0 {
		c.First = []byte(illBytes[gen.Uniform(t, len(illBytes))])
	}
	if gen.Uniform(t, 2) == 1 {
		c.Second = drawGiantFam(t, true, fams...)
	}
	c.Cut = gen.Uniform(t, 1<<20)
	for range gen.Uniform(t, 4) {
		c.Reads = append(c.Reads, 8+gen.Uniform(t, 1024))
	}
	return c
}

func giantKind(name string, ill bool, fams []int, check func(c Giant, t *clusters, o *pbt.Obs) error) *pbt.Kind[Giant] {
	return &pbt.Kind[Giant]{Name: name, Slow: true, Gen: func(t *rapid.T) Giant { return drawGiant(t, ill, fams) },
		Check: func(c Giant, o *pbt.Obs) error {
			t := c.layout()
			o.If(len(t.data) >= 1<<12, "giant text, 4 KiB or more")
			o.If(len(t.data) >= 1<<16, "giant text, 64 KiB or more")
			if t.ends[0] >= 256 {
				o.NonTrivial()
			}
			return check(c, &t, o)
		}}
}

// reads are the sizes of reads of a text of n bytes: not so small that the
// scanner would look at a giant cluster again and again.
func (c Giant) reads(n int) []int {
	var out []int
	for _, r := range c.Reads {
		out = append(out, max(1, n*r/1024, n/32))
	}
	return out
}

// C02: a partition that progresses.
var kGiantBytes = giantKind("giant-clusters", true, anyFam, func(c Giant, t *clusters, o *pbt.Obs) error {
	ends, err := oneShot(t.data)
	if err != nil {
		return err
	}
	if ends[len(ends)-1] != len(t.data) {
		return fmt.Errorf("clusters of %s cover only %d bytes of %d", show(t.data), ends[len(ends)-1], len(t.data))
	}
	for _, n := range giantPrefixes(len(t.data), t.ends[0]) {
		if err := notEOF(t.data[:n]); err != nil {
			return err
		}
	}
	all, sends, serr := stream(&chunkReader{data: t.data, sizes: c.reads(len(t.data)), final: eof}, 1, len(t.data)+64)
	if serr != nil || !bytes.Equal(all, t.data) {
		return fmt.Errorf("scanner over %s: %v, %d bytes of %d, %s", show(t.data), serr, len(all), len(t.data), show(all))
	}
	for i, e := range sends {
		if e == 0 || i > 0 && e == sends[i-1] {
			return fmt.Errorf("scanner over %s: empty token %d", show(t.data), i)
		}
	}
	return nil
})

// giantPrefixes are lengths up to n: round numbers, and about the end of the
// first cluster.
func giantPrefixes(n, first int) []int {
	var out []int
	for b := 1; b <= n; b *= 2 {
		for _, d := range []int{-2, -1, 0, 1, 2} {
			out = append(out, b+d)
		}
	}
	for d := -9; d <= 9; d++ {
		out = append(out, first+d, n+d)
	}
	out = slices.DeleteFunc(out, func(i int) bool { return i < 0 || i > n })
	slices.Sort(out)
	return slices.Compact(out)
}

// C03: the same clusters however they arrive.
var kGiantStream = giantKind("giant-stream", true, anyFam, func(c Giant, t *clusters, o *pbt.Obs) error {
	want, err := oneShot(t.data)
	if err != nil {
		return err
	}
	longest, prev := 0, 0
	for _, e := range want {
		longest, prev = max(longest, e-prev), e
	}
	for _, initial := range []int{1, 4096, longest + 5} {
		for _, with := range []bool{false, true} {
			all, got, serr := stream(&chunkReader{data: t.data, sizes: c.reads(len(t.data)), eofWith: with, final: eof}, initial, max(initial, longest+5))
			if serr != nil || !bytes.Equal(all, t.data) || !eqInts(got, want) {
				return fmt.Errorf("streamed (buffer from %d to %d, reads %v, EOF with data %v): error %v: %w", initial, longest+5, c.reads(len(t.data)), with, serr,
					differ("clusters", t.data, got, want))
			}
		}
	}
	return nil
})

// C04, and the plain expectation: the ill-formed byte alone, each side alone.
var kGiantIll = giantKind("giant-ill-formed", true, anyFam, func(c Giant, t *clusters, o *pbt.Obs) error {
	return t.both(4096, c.reads(len(t.data)))
})

// C05: prefixes of a giant cluster and what follows it.
var kGiantIncr = giantKind("giant-prefixes", true, oneCluster, func(c Giant, t *clusters, o *pbt.Obs) error {
	first := t.ends[0]
	for _, n := range giantPrefixes(len(t.data), first) {
		o.Evals(1)
		p := t.data[:n:n]
		adv, tok, err := textseg.ScanGraphemeClusters(p, false)
		if err != nil || adv < 0 || adv > n || (adv == 0) != (tok == nil) || adv > 0 && !bytes.Equal(tok, p[:adv]) {
			return fmt.Errorf("first %d bytes of %s before EOF: got %d, %s, %v", n, c.Show(), adv, show(tok), err)
		}
		want := 0
		// What ends the cluster is a control character or a bad byte: known
		// when complete; a lead byte, when the byte after it is there.
		known := first + len(c.First)
		if len(c.First) == 1 && c.First[0] >= 0xc0 && c.First[0] < 0xf8 {
			if known++; known > len(t.data) {
				known = len(t.data) + 1
			}
		}
		if n >= known {
			want = first
		}
		if adv != want {
			return fmt.Errorf("first %d bytes of %s before EOF: got %d, want %d (the first cluster has %d bytes, %+q follows)", n, c.Show(), adv, want, first, []byte(c.First))
		}
		if adv, _, err := textseg.ScanGraphemeClusters(p, true); n > 0 && (err != nil || adv < 1 || adv > n || n >= first && adv != first) {
			return fmt.Errorf("first %d bytes of %s at EOF: got %d, %v (the first cluster has %d bytes)", n, c.Show(), adv, err, first)
		}
	}
	return nil
})

// C07: cut at a boundary; appended to.
var kGiantCut = giantKind("giant-cut", true, anyFam, func(c Giant, t *clusters, o *pbt.Obs) error {
	ends, err := oneShot(t.data)
	if err != nil {
		return err
	}
	for _, i := range []int{0, min(1, len(ends)-1), len(ends) / 2, c.Cut % len(ends), len(ends) - 1} {
		o.Evals(1)
		cut := ends[i]
		head, err := oneShot(t.data[:cut:cut])
		if err != nil {
			return err
		}
		tail, err := oneShot(append([]byte{}, t.data[cut:]...))
		if err != nil {
			return err
		}
		for _, e := range tail {
			head = append(head, cut+e)
		}
		if !eqInts(head, ends) {
			return fmt.Errorf("cut at boundary %d: %w", cut, differ("clusters of the pieces", t.data, head, ends))
		}
	}
	// The first text, complete and valid, is what the rest is appended to.
	cut := c.Fam.size()
	alone, err := oneShot(t.data[:cut:cut])
	if err != nil {
		return err
	}
	if n := len(alone) - 1; len(ends) < n || !eqInts(alone[:n], ends[:n]) || len(ends) > n && ends[n] < cut {
		return fmt.Errorf("appending to the first %d bytes moved a boundary inside them: %w", cut, differ("clusters before and after", t.data, ends, alone))
	}
	return nil
})

// giantFam: one of some families, as in C09.
func giantFam(fams ...int) *pbt.Kind[Fam] {
	return &pbt.Kind[Fam]{Name: "giant", Check: checkFam, Slow: true, Gen: func(t *rapid.T) Fam {
		c := drawGiantFam(t, false, fams...)
		c.Before = []string{"", "\n", string(gen.Classes[gen.Control].Rep), "\r\n"}[gen.Uniform(t, 4)]
		if c.Family == "controls" {
			c.Before = ""
		}
		c.After = []string{"", "\r", string(gen.Classes[gen.Control].Rep), "\r\n"}[gen.Uniform(t, 4)]
		c.Stream = len(c.Rep)*c.N < 1<<17
		return c
	}}
}

var (
	kGiantRI     = giantFam(9)
	kGiantHangul = giantFam(2, 3, 4)
	kGiantCtl    = giantFam(11, 12)
	kGiantMarks  = giantFam(0, 1, 13)
	kGiantAll    = giantFam(anyFam...)
)

// Stretched is a chain one of whose gaps has a part repeated N times.
type Stretched struct {
	Chain Chain
	Gap   int    // which
	At    int    // how many characters into it
	Rep   string // marks
	N     int
}

func (c Stretched) Show() string {
	return fmt.Sprintf("%s with %+q x%d, %d into gap %d", c.Chain.Show(), c.Rep, c.N, c.At, c.Gap)
}

func stretched(name string, check func(Chain, *pbt.Obs) error, chain func(t *rapid.T) Chain, rep []int) *pbt.Kind[Stretched] {
	return &pbt.Kind[Stretched]{Name: name, Slow: true,
		Check: func(c Stretched, o *pbt.Obs) error {
			d := c.Chain
			d.Gaps = slices.Clone(d.Gaps)
			g := []rune(d.Gaps[c.Gap])
			d.Gaps[c.Gap] = string(g[:c.At]) + string(bytes.Repeat([]byte(c.Rep), c.N)) + string(g[c.At:])
			o.If(c.N > 256, "gap of more than 256 characters")
			o.If(c.N > 65536, "gap of more than 65536 characters")
			return check(d, o)
		},
		Gen: func(t *rapid.T) Stretched {
			c := Stretched{Chain: chain(t)}
			c.Gap = gen.Uniform(t, len(c.Chain.Gaps))
			c.At = gen.Uniform(t, len([]rune(c.Chain.Gaps[c.Gap]))+1)
			for range 1 + gen.Uniform(t, 2) {
				c.Rep += string(gen.OneOf(t, rep...))
			}
			size := giantSizes[gen.Uniform(t, len(giantSizes)-3)]
			switch gen.Uniform(t, 3) {
			case 0:
				c.N = size + rapid.IntRange(-3, 3).Draw(t, "off")
			case 1:
				c.N = max(1, size/len(c.Rep)+rapid.IntRange(-3, 3).Draw(t, "off"))
			default:
				c.N = 1 + gen.Uniform(t, 300)
			}
			return c
		}}
}

var (
	kZWJGiant  = stretched("stretched-gap", chainCheck(zwjJoins, gen.EP, gen.ZWJ), kZWJTail.Gen, []int{gen.ExtI, gen.ExtN, gen.Link, gen.ExtN, gen.ExtI, gen.ZWJ, gen.SM})
	kConjGiant = stretched("stretched-gap", chainCheck(linkerJoins, gen.Cons, gen.Link), kConjTail.Gen, []int{gen.ExtI, gen.Link, gen.ZWJ, gen.ExtI, gen.ExtN, gen.SM})
)
