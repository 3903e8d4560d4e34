package main

import (
	"fmt"
	"slices"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// Characters of one script are mostly near each other, so that what concerns
// a script concerns a block of characters. The checks here go through all
// combinations of those of a block, as one case for many texts each.

// blocks are, for each 128 code points, the listed characters among them and
// the joiners.
var blocks = func() [][]rune {
	m := map[rune][]rune{}
	var order []rune
	for _, r := range listed {
		if m[r>>7] == nil {
			order = append(order, r>>7)
		}
		m[r>>7] = append(m[r>>7], r)
	}
	slices.Sort(order)
	var out [][]rune
	for _, b := range order {
		rs := m[b]
		for _, r := range []rune{0x200c, 0x200d} {
			if !slices.Contains(rs, r) {
				rs = append(rs, r)
			}
		}
		slices.Sort(rs)
		out = append(out, rs)
	}
	return out
}()

// firstLen[a][b][c] is the number of characters in the first cluster of three
// of these classes.
var firstLen = func() (m [gen.NumClasses][gen.NumClasses][gen.NumClasses]int8) {
	for i, a := range gen.Classes {
		for j, b := range gen.Classes {
			for k, c := range gen.Classes {
				s := []byte(string([]rune{a.Rep, b.Rep, c.Rep}))
				m[i][j][k] = int8(utf8.RuneCount(s[:u17.Ends(s)[0]]))
			}
		}
	}
	return
}()

// Triples is A and every two characters of its block.
type Triples struct {
	Block int
	A     rune
}

func (c Triples) Show() string {
	b := blocks[c.Block]
	return fmt.Sprintf("U+%04X and every two of the %d characters with properties from U+%04X on", c.A, len(b), b[0])
}

func checkTriples(c Triples, o *pbt.Obs) error {
	set := blocks[c.Block]
	var buf [16]byte
	n0 := utf8.EncodeRune(buf[:], c.A)
	ca := class(c.A)
	cls := make([]int, len(set))
	for i, r := range set {
		cls[i] = class(r)
	}
	o.NonTrivial()
	o.Evals(int64(len(set)*len(set)) - 1)
	for i, b := range set {
		n1 := n0 + utf8.EncodeRune(buf[n0:], b)
		for j, x := range set {
			n2 := n1 + utf8.EncodeRune(buf[n1:], x)
			want := [...]int{0, n0, n1, n2}[firstLen[ca][cls[i]][cls[j]]]
			if adv, _, err := textseg.ScanGraphemeClusters(buf[:n2:n2], true); adv != want || err != nil {
				return fmt.Errorf("U+%04X U+%04X U+%04X (%s): first cluster of %d bytes (error %v), want %d", c.A, b, x, show(buf[:n2]), adv, err, want)
			}
		}
	}
	return nil
}

var kTriples = &pbt.Kind[Triples]{Name: "triples-of-block", Check: checkTriples}

// runTriples does every block; of those with hundreds of like characters only
// one in n.
func runTriples(r *pbt.Run, n int) {
	i := 0
	for k, b := range blocks {
		for _, a := range b {
			if b[0] >= 0xe0000 && r.Mix(uint64(a)<<8)%uint64(n) != 0 {
				continue
			}
			if i++; r.Mine(i) && !pbt.One(r, kTriples, Triples{k, a}) {
				return
			}
		}
	}
}

// Quads is A and X, then every mark and every character of their block.
type Quads struct {
	Block int
	A, X  rune
}

func (c Quads) Show() string {
	b := blocks[c.Block]
	return fmt.Sprintf("U+%04X U+%04X, a mark and a character of those with properties from U+%04X on", c.A, c.X, b[0])
}

func checkQuads(c Quads, o *pbt.Obs) error {
	set := blocks[c.Block]
	var buf [16]byte
	n0 := utf8.EncodeRune(buf[:], c.A)
	n1 := n0 + utf8.EncodeRune(buf[n0:], c.X)
	var known [gen.NumClasses][gen.NumClasses]int8
	rep := []rune{gen.Classes[class(c.A)].Rep, gen.Classes[class(c.X)].Rep, 0, 0}
	o.NonTrivial()
	n := 0
	for _, y := range set {
		if !isMark(class(y)) {
			continue
		}
		n2 := n1 + utf8.EncodeRune(buf[n1:], y)
		for _, z := range set {
			n3 := n2 + utf8.EncodeRune(buf[n2:], z)
			n++
			k := &known[class(y)][class(z)]
			if *k == 0 {
				rep[2], rep[3] = gen.Classes[class(y)].Rep, gen.Classes[class(z)].Rep
				s := []byte(string(rep))
				*k = int8(utf8.RuneCount(s[:u17.Ends(s)[0]]))
			}
			want := [...]int{0, n0, n1, n2, n3}[*k]
			if adv, _, err := textseg.ScanGraphemeClusters(buf[:n3:n3], true); adv != want || err != nil {
				return fmt.Errorf("U+%04X U+%04X U+%04X U+%04X (%s): first cluster of %d bytes (error %v), want %d", c.A, c.X, y, z, show(buf[:n3]), adv, err, want)
			}
		}
	}
	o.Evals(int64(n - 1))
	return nil
}

var kQuads = &pbt.Kind[Quads]{Name: "fours-of-block", Check: checkQuads}

// runQuads does one in n of the beginnings, whose second is a mark.
func runQuads(r *pbt.Run, n int) {
	i := 0
	for k, b := range blocks {
		if b[0] >= 0xe0000 {
			continue
		}
		for _, a := range b {
			for _, x := range b {
				if !isMark(class(x)) || r.Mix(uint64(a)<<24|uint64(x))%uint64(n) != 0 {
					continue
				}
				if i++; r.Mine(i) && !pbt.One(r, kQuads, Quads{k, a, x}) {
					return
				}
			}
		}
	}
}

// GapRow is A, then the gap, then every character of A's class.
type GapRow struct {
	A   rune
	Gap string
}

func (c GapRow) Show() string { return fmt.Sprintf("U+%04X %+q and each of its class", c.A, c.Gap) }

func gapRow(joined func(a, b int, gap []int) bool) func(c GapRow, o *pbt.Obs) error {
	return func(c GapRow, o *pbt.Obs) error {
		cls := class(c.A)
		var g []int
		for _, r := range c.Gap {
			g = append(g, class(r))
		}
		j := joined(cls, cls, g)
		o.If(j, "joined")
		o.If(!j, "not joined")
		o.NonTrivial()
		o.Evals(int64(len(gen.Classes[cls].Runes)) - 1)
		text := []byte(string(c.A) + c.Gap)
		n := len(text)
		for _, b := range gen.Classes[cls].Runes {
			text = utf8.AppendRune(text[:n], b)
			want := n
			if j {
				want = len(text)
			}
			if adv, _, err := textseg.ScanGraphemeClusters(text, true); adv != want || err != nil {
				return fmt.Errorf("U+%04X %+q U+%04X: first cluster of %d bytes (error %v), want %d", c.A, c.Gap, b, adv, err, want)
			}
		}
		return nil
	}
}

var (
	kZWJRow  = &pbt.Kind[GapRow]{Name: "gap-between-any-two", Check: gapRow(zwjJoins)}
	kConjRow = &pbt.Kind[GapRow]{Name: "gap-between-any-two", Check: gapRow(linkerJoins)}
)

const zw = "\u200d"

// runZWJRows: the gaps that occur in emoji sequences, and some that look like
// them.
func runZWJRows(r *pbt.Run) {
	gaps := []string{"", zw, "\ufe0f" + zw, "\ufe0e" + zw, "\U0001f3fb" + zw, "\U0001f3fd" + zw, "\U0001f3ff" + zw, "\u20e3" + zw, "\u0301" + zw, "\U000e0067\U000e007f" + zw, "\u200c" + zw,
		zw + zw, zw + "\ufe0f", zw + "\U0001f3fd", "\ufe0f", "\U0001f3fd", "\u200c", "\u0903" + zw, zw + "\u0903", "\U0001f3fd\ufe0f" + zw, "\ufe0f\ufe0f" + zw, "\ufe0f" + zw + zw, "\u3099" + zw, "\u094d" + zw, zw + "\u094d" + zw}
	i := 0
	for _, a := range gen.Classes[gen.EP].Runes {
		known := slices.Contains(gen.Classes[gen.EP].Known, a)
		for n, g := range gaps {
			if n > 4 && !known && !r.Thorough && r.Mix(uint64(a)<<8|uint64(n))%8 != 0 {
				continue
			}
			if i++; r.Mine(i) && !pbt.One(r, kZWJRow, GapRow{a, g}) {
				return
			}
		}
	}
}

// runConjRows: the gaps of a few characters with the marks of the first
// consonant's script.
func runConjRows(r *pbt.Run) {
	i := 0
	for _, a := range gen.Classes[gen.Cons].Runes {
		var link, ext, sm []string
		for _, m := range blocks[blockOf(a)] {
			switch s := string(m); class(m) {
			case gen.Link:
				link = append(link, s)
			case gen.ExtI:
				ext = append(ext, s)
			case gen.SM:
				sm = append(sm, s)
			}
		}
		if !slices.Contains(link, "\u094d") {
			link = append(link, "\u094d")
		}
		ext = append(ext, zw, "\u0301")
		sm = append(sm, "\u200c", "\u0903")
		var gaps []string
		for _, e := range ext {
			gaps = append(gaps, e)
		}
		for _, l := range link {
			gaps = append(gaps, l, l+l, zw+l+zw, l+zw+l)
			for _, e := range ext {
				gaps = append(gaps, e+l, l+e, e+zw+l, zw+e+l, l+zw+e, l+e+zw, e+l+zw, zw+l+e, e+l+e)
			}
			for _, s := range sm {
				gaps = append(gaps, s+l, l+s, l+zw+s, l+s+zw, zw+s+l, s+zw+l)
			}
		}
		for _, l := range gen.Classes[gen.Link].Runes {
			if s := string(l); !slices.Contains(link, s) {
				gaps = append(gaps, s, zw+s, s+zw)
			}
		}
		for n, g := range gaps {
			if len([]rune(g)) > 2 && !r.Thorough && r.Mix(uint64(a)<<20|uint64(n))%4 != 0 {
				continue
			}
			if i++; r.Mine(i) && !pbt.One(r, kConjRow, GapRow{a, g}) {
				return
			}
		}
	}
}

func blockOf(r rune) int {
	return slices.IndexFunc(blocks, func(b []rune) bool {
		return slices.Contains(b, r) && slices.ContainsFunc(b, func(x rune) bool { return x>>7 == r>>7 })
	})
}
