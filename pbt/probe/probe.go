// Package probe finds out, through the segmentation function alone, whether a
// character is treated with given properties: it is placed in contexts made of
// one anchor character per property class, which between them tell any two
// classes apart.
package probe

import (
	"fmt"
	"slices"
	"unicode/utf8"

	"verif/pbt/gen"
	"verif/pbt/ref"
)

// Scan is bufio.SplitFunc.
type Scan func(data []byte, atEOF bool) (int, []byte, error)

type context struct {
	pre, post   []byte
	pres, posts []ref.Props
}

func ctx(pre, post []int) context {
	var c context
	for _, k := range pre {
		c.pre = append(c.pre, string(gen.Classes[k].Rep)...)
		c.pres = append(c.pres, gen.Classes[k].P)
	}
	for _, k := range post {
		c.post = append(c.post, string(gen.Classes[k].Rep)...)
		c.posts = append(c.posts, gen.Classes[k].P)
	}
	return c
}

// Contexts, chosen so that SelfTest holds.
var contexts = []context{
	ctx([]int{gen.Other}, []int{gen.Other}),
	ctx([]int{gen.CR}, []int{gen.ExtI}),
	ctx(nil, []int{gen.LF}),
	ctx([]int{gen.HL}, []int{gen.HV}),
	ctx([]int{gen.HV}, []int{gen.HT}),
	ctx([]int{gen.HT}, []int{gen.HL}),
	ctx(nil, []int{gen.HLV}),
	ctx([]int{gen.HLVT}, nil),
	ctx([]int{gen.HLV}, []int{gen.HLVT}),
	ctx([]int{gen.Prep}, []int{gen.Prep}),
	ctx([]int{gen.RI}, []int{gen.RI}),
	ctx([]int{gen.EP, gen.ZWJ}, []int{gen.ZWJ, gen.EP}),
	ctx([]int{gen.EP}, []int{gen.EP}),
	ctx([]int{gen.EP}, []int{gen.ZWJ, gen.EP}),
	ctx([]int{gen.Cons}, []int{gen.Cons}),
	ctx([]int{gen.Cons, gen.Link}, []int{gen.Cons}),
	ctx([]int{gen.Cons, gen.Link}, []int{gen.Link, gen.Cons}),
	ctx([]int{gen.RI, gen.RI}, []int{gen.SM}),
	ctx([]int{gen.Control}, []int{gen.Control}),
}

// Contexts is the number of contexts each character is placed in.
var Contexts = len(contexts)

// pattern[props] lists, per context, whether there is a boundary at each
// character position.
var patterns [256][][]bool

func pattern(p ref.Props) [][]bool {
	if patterns[p] == nil {
		var out [][]bool
		for _, c := range contexts {
			ps := append(append(append([]ref.Props{}, c.pres...), p), c.posts...)
			b := make([]bool, len(ps))
			for i := 1; i < len(ps); i++ {
				b[i] = ref.Break(ps, i)
			}
			out = append(out, b)
		}
		patterns[p] = out
	}
	return patterns[p]
}

// SelfTest checks that the contexts distinguish all classes.
func SelfTest() error {
	for i, a := range gen.Classes {
		for _, b := range gen.Classes[:i] {
			if fmt.Sprint(pattern(a.P)) == fmt.Sprint(pattern(b.P)) {
				return fmt.Errorf("probe contexts cannot tell %s from %s", a.Name, b.Name)
			}
		}
	}
	return nil
}

// Prober holds scratch space.
type Prober struct {
	Scan Scan
	buf  []byte
}

// Check places r in every context and compares the boundaries with those its
// properties p imply.
func (pr *Prober) Check(r rune, p ref.Props) error { return pr.check(r, p, all) }

// CheckBriefly is Check in only as many contexts as it takes to tell p from
// every other class.
func (pr *Prober) CheckBriefly(r rune, p ref.Props) error { return pr.check(r, p, enough(p)) }

var all = func() (cs []int) {
	for i := range contexts {
		cs = append(cs, i)
	}
	return
}()

var brief [256][]int

// enough picks contexts greedily, those that rule out most other classes
// first.
func enough(p ref.Props) []int {
	if brief[p] != nil {
		return brief[p]
	}
	var others []ref.Props
	for _, c := range gen.Classes {
		if c.P != p {
			others = append(others, c.P)
		}
	}
	var out []int
	for len(others) > 0 {
		best, bestLeft := -1, others
		for ci := range contexts {
			var left []ref.Props
			for _, q := range others {
				if slices.Equal(pattern(p)[ci], pattern(q)[ci]) {
					left = append(left, q)
				}
			}
			if len(left) < len(bestLeft) {
				best, bestLeft = ci, left
			}
		}
		if best < 0 {
			out = all // indistinguishable from some class: as it is
			break
		}
		out, others = append(out, best), bestLeft
	}
	brief[p] = out
	return out
}

func (pr *Prober) check(r rune, p ref.Props, which []int) error {
	pat := pattern(p)
	var enc [4]byte
	n := utf8.EncodeRune(enc[:], r)
	for _, ci := range which {
		c := contexts[ci]
		pr.buf = append(append(append(pr.buf[:0], c.pre...), enc[:n]...), c.post...)
		data := pr.buf
		want := pat[ci]
		pos, k := 0, 0 // byte and character position
		for pos < len(data) {
			adv, _, err := pr.Scan(data[pos:], true)
			if err != nil || adv <= 0 || adv > len(data)-pos {
				return fmt.Errorf("U+%04X in %+q: at byte %d: advance %d, error %v", r, data, pos, adv, err)
			}
			// Expected end of this cluster.
			end := pos
			for {
				_, sz := utf8.DecodeRune(data[end:])
				end += sz
				k++
				if k == len(want) || want[k] {
					break
				}
			}
			if pos+adv != end {
				return fmt.Errorf("U+%04X (%v) in %+q: cluster %+q, want %+q", r, p, data, data[pos:pos+adv], data[pos:end])
			}
			pos = end
		}
	}
	return nil
}

// Digest describes how r is treated in every context.
func (pr *Prober) Digest(r rune) uint64 {
	h := uint64(14695981039346656037)
	var enc [4]byte
	n := utf8.EncodeRune(enc[:], r)
	for _, c := range contexts {
		data := append(append(append(pr.buf[:0], c.pre...), enc[:n]...), c.post...)
		pr.buf = data
		for len(data) > 0 {
			adv, tok, err := pr.Scan(data, true)
			h = (h ^ uint64(adv)) * 1099511628211
			if err != nil || adv <= 0 || adv > len(data) || len(tok) != adv {
				h = (h ^ 999) * 1099511628211
				break
			}
			data = data[adv:]
		}
		h = (h ^ 777) * 1099511628211
	}
	return h
}

// Deduce names the class r behaves as, if any.
func (pr *Prober) Deduce(r rune) string {
	for _, c := range gen.Classes {
		if pr.Check(r, c.P) == nil {
			return c.Name
		}
	}
	return "no class"
}
