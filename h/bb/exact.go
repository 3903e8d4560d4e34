package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// Every length: what comes after a long cluster's worth of text is treated as
// it is after a short one. The oracle is metamorphic: the long text's first
// clusters are those of the short one with the filling left out.

// body is Head + Unit repeated + Tail, after prepended characters that make
// the length exact.
type body struct{ Head, Unit, Tail string }

const (
	xPrep  = "\u0600" // 2 bytes
	xPrep3 = "\u08e2"
	xRI    = "\U0001F1E6"
)

// bodies reach every state of the rules by way of every repeatable part.
var bodies = func() (out []body) {
	for _, tail := range []string{"", "a", "\u0300", "\u200c", "\u200d", "\u094d", "\u0903", "\u1100", "\u1161", "\u11a8", "\uac00", "\uac01", xRI, xRI + xRI, "\u00a9", "\u00a9\u200d", "\u0915", "\u0915\u094d", "\u0915\u200d"} {
		out = append(out, body{"", xPrep, tail})
	}
	for _, head := range []string{"", "a", "\u0903", "\u1100", "\uac01", xRI, xRI + xRI, "\u00a9", "\u0915"} {
		for _, tail := range []string{"", "\u200d", "\u094d", "\u200c", "\u0903"} {
			out = append(out, body{head, "\u0300", tail})
		}
	}
	for _, tail := range []string{"", "\u0300", "\u200d"} {
		out = append(out, body{"\u0915", "\u094d", tail}, body{"\u00a9", "\u200d\u00a9", tail}, body{"\u0915", "\u094d\u0915", tail})
	}
	return append(out, body{"", "\u1100", ""}, body{"", "\u1100", "\u1161"}, body{"\u1100", "\u1161", ""}, body{"\uac01", "\u11a8", ""}, body{"\uac00", "\u11a8", "\u200d"})
}()

// Exact is a text whose first Size bytes (or characters) are filled by a body.
type Exact struct {
	Size  int
	Chars bool
	Body  int
}

func (c Exact) Show() string {
	unit := "bytes"
	if c.Chars {
		unit = "characters"
	}
	return fmt.Sprintf("%d %s of %+q, then a character of each class", c.Size, unit, bodies[c.Body])
}

// build returns the body of exactly the size and a short form of it, or "" if
// it cannot have that size.
func (c Exact) build() (long, short string) {
	b := bodies[c.Body]
	size := func(s string) int {
		if c.Chars {
			return utf8.RuneCountInString(s)
		}
		return len(s)
	}
	rest := c.Size - size(b.Head) - size(b.Tail)
	k := rest / size(b.Unit)
	fill := rest - k*size(b.Unit)
	if !c.Chars && fill == 1 {
		k--
		fill += size(b.Unit)
	}
	if k < 2 || rest < 2 {
		return "", ""
	}
	prep := strings.Repeat(xPrep, fill)
	if !c.Chars {
		prep = strings.Repeat(xPrep, fill/2)
		if fill%2 == 1 {
			prep = strings.Repeat(xPrep, (fill-3)/2) + xPrep3
		}
	}
	return prep + b.Head + strings.Repeat(b.Unit, k) + b.Tail, prep + b.Head + b.Unit + b.Tail
}

func checkExact(c Exact, o *pbt.Obs) error {
	long, short := c.build()
	if long == "" {
		return nil
	}
	o.NonTrivial()
	o.If(c.Size >= 4096, "4096 or more")
	o.Evals(int64(len(gen.Classes)))
	lb, sb := append([]byte(long), make([]byte, 8)...), append([]byte(short), make([]byte, 8)...)
	for cls := -1; cls < len(gen.Classes); cls++ {
		l, s := lb[:len(long)], sb[:len(short)]
		if cls >= 0 {
			l, s = utf8.AppendRune(l, gen.Classes[cls].Rep), utf8.AppendRune(s, gen.Classes[cls].Rep)
		}
		got, _, err := textseg.ScanGraphemeClusters(l, true)
		want, _, err2 := textseg.ScanGraphemeClusters(s, true)
		if err2 != nil || want < len(short)-len(xRI) {
			continue // not about length
		}
		want += len(long) - len(short)
		if err != nil || got != want {
			return fmt.Errorf("after %s: the first cluster of %+q repeated to %d bytes and %+q has %d bytes (error %v), want %d as when it is short", c.Show(), bodies[c.Body].Unit, len(long), l[len(long):], got, err, want)
		}
	}
	return nil
}

var kExact = &pbt.Kind[Exact]{Name: "every-length", Check: checkExact, Smaller: func(c Exact) []Exact {
	var out []Exact
	for b := range c.Body {
		out = append(out, Exact{c.Size, c.Chars, b})
	}
	return out
}}

// exactSizes are all sizes up to all, those in the code, and those at which
// buffers commonly end.
func exactSizes(all, most int) (out []int) {
	for n := 2; n <= all; n++ {
		out = append(out, n)
	}
	edges := []int{2048, 4096, 8192, 16384, 32768, 65536}
	var mined []int
	for _, n := range gen.Mined.Ints {
		if n > all && n <= most {
			mined = append(mined, n)
		}
	}
	for i := range min(40, len(mined)) { // the code may hold a table
		edges = append(edges, mined[i*len(mined)/min(40, len(mined))])
	}
	for _, e := range edges {
		for n := e - 1; n <= e+1; n++ {
			if n > all && n <= most {
				out = append(out, n)
			}
		}
	}
	slices.Sort(out)
	return slices.Compact(out)
}

func runExact(r *pbt.Run) {
	i := 0
	for _, size := range exactSizes(r.Pick(1200, 8000), 100000) {
		for b := range bodies {
			for _, chars := range []bool{false, true} {
				if i++; r.Mine(i) && !pbt.One(r, kExact, Exact{size, chars, b}) {
					return
				}
			}
		}
	}
}

// ---- C07: what follows, up to every length of the buffer

// Filled is a text with something appended so that the whole has exactly Size
// bytes.
type Filled struct {
	Text pbt.Blob
	Fill int // index into fills
	Size int
}

// fills are of one byte per character, so that any size is possible.
var fills = []string{"x", "\r\n", " ", "\xff", "ab\n"}

func (c Filled) Show() string {
	return fmt.Sprintf("%s filled up with %+q to %d bytes", show(c.Text), fills[c.Fill], c.Size)
}

func checkFilled(c Filled, o *pbt.Obs) error {
	f := fills[c.Fill]
	if c.Size <= len(c.Text)+2 {
		return nil
	}
	o.NonTrivial()
	o.If(c.Size >= 4096, "4096 bytes or more")
	o.Evals(1)
	data := append(slices.Grow(slices.Clone([]byte(c.Text)), c.Size), strings.Repeat(f, (c.Size-len(c.Text))/len(f)+1)...)[:c.Size]
	want, err := oneShot(c.Text)
	if err != nil {
		return err
	}
	for _, atEOF := range []bool{true, false} {
		pos := 0
		for i, end := range want[:len(want)-1] {
			adv, tok, err := textseg.ScanGraphemeClusters(data[pos:], atEOF)
			if err != nil || pos+adv != end || len(tok) != adv {
				return fmt.Errorf("cluster %d of %s (at end of input: %v) ends at byte %d (error %v); without what is appended, at %d", i, c.Show(), atEOF, pos+adv, err, end)
			}
			pos = end
		}
	}
	return nil
}

var kFilled = &pbt.Kind[Filled]{Name: "filled-to-every-length", Check: checkFilled, Smaller: func(c Filled) []Filled {
	var out []Filled
	for _, t := range smallerText(Text{c.Text}) {
		if len(t.Data) > 0 {
			out = append(out, Filled{t.Data, c.Fill, c.Size})
		}
	}
	return out
}}

func runFilled(r *pbt.Run) {
	i := 0
	for _, size := range exactSizes(r.Pick(1000, 6000), 1<<20) {
		for _, a := range gen.Classes {
			for _, b := range gen.Classes {
				if i++; r.Mine(i) && !pbt.One(r, kFilled, Filled{[]byte("z" + string(a.Rep) + string(b.Rep) + string(a.Rep) + "z"), int(r.Mix(uint64(i)) % uint64(len(fills))), size}) {
					return
				}
			}
		}
	}
}
