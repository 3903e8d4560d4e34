// Command version checks that the autoversion package is the implementation
// for the Unicode version of the Go release that compiled it.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"unicode"

	"pgregory.net/rapid"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	v15 "github.com/apparentlymart/go-textseg/v15/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

var major, _, _ = strings.Cut(unicode.Version, ".")

// want is the implementation for the standard library's Unicode version.
var want = map[string]func([]byte, bool) (int, []byte, error){"15": v15.ScanGraphemeClusters, "17": v17.ScanGraphemeClusters}[major]

type Text struct{ Data pbt.Blob }

func (c Text) Show() string { return fmt.Sprintf("%+q", []byte(c.Data)) }

func same(data []byte, atEOF bool) error {
	a1, t1, e1 := auto.ScanGraphemeClusters(data, atEOF)
	a2, t2, e2 := want(data, atEOF)
	if a1 != a2 || !bytes.Equal(t1, t2) || (t1 == nil) != (t2 == nil) || (e1 == nil) != (e2 == nil) {
		return fmt.Errorf("ScanGraphemeClusters(%+q, %v) = %d, %+q, %v; go-textseg for Unicode %s gives %d, %+q, %v", data, atEOF, a1, t1, e1, unicode.Version, a2, t2, e2)
	}
	return nil
}

func checkText(c Text, o *pbt.Obs) error {
	data := []byte(c.Data)
	if len(data) > 3 {
		o.NonTrivial()
	}
	step := 1 + len(data)/300
	for n := 0; n <= len(data); n += step {
		for _, eof := range []bool{true, false} {
			if err := same(data[:n], eof); err != nil {
				return err
			}
		}
	}
	o.Evals(2 * int64(len(data)/step))
	for rest := data; len(rest) > 0; {
		if err := same(rest, true); err != nil {
			return err
		}
		n, _, _ := want(rest, true)
		if n <= 0 || n > len(rest) {
			break
		}
		rest = rest[n:]
	}
	return nil
}

var kText = &pbt.Kind[Text]{Name: "every-call", Check: checkText, Gen: func(t *rapid.T) Text { return Text{gen.Bytes(t, 400, true)} }}

// Long is a long text: a piece repeated to at least so many bytes.
type Long struct {
	Head, Piece, Tail pbt.Blob
	Size              int
}

func (c Long) Show() string {
	return fmt.Sprintf("%+q, then %+q repeated to %d bytes, then %+q", []byte(c.Head), []byte(c.Piece), c.Size, []byte(c.Tail))
}

var marks = []string{"\u0301", "\u200d", "\u0903", "\u0600", "\u1100", "\u094d\u0915", "\u0915\u094d", "\u200d\u00a9", "\u00a9\u200d", "\U0001f1e6", "a", "\r", "\xff", "\u11a8", "\U000e0061", "\u094d"}
var sizes = []int{64, 128, 256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 1 << 14, 1 << 15, 1 << 16, 70000, 1 << 17}

var kLong = &pbt.Kind[Long]{Name: "long-text", Check: func(c Long, o *pbt.Obs) error {
	if len(c.Piece) == 0 {
		return nil
	}
	o.NonTrivial()
	data := append([]byte(c.Head), bytes.Repeat(c.Piece, c.Size/len(c.Piece)+1)...)
	n := len(c.Head) + c.Size
	data = append(data[:min(n, len(data))], c.Tail...)
	for _, k := range []int{len(data), n, n - 1, n + 1} {
		for _, eof := range []bool{true, false} {
			if err := same(data[:max(0, min(k, len(data)))], eof); err != nil {
				return err
			}
		}
	}
	o.Evals(7)
	return nil
}, Gen: func(t *rapid.T) Long {
	c := Long{Head: gen.Bytes(t, 8, true), Tail: gen.Bytes(t, 8, true), Piece: pbt.Blob(marks[gen.Uniform(t, len(marks))]), Size: sizes[gen.Uniform(t, len(sizes))]}
	if gen.Uniform(t, 3) == 0 {
		c.Piece = gen.Bytes(t, 8, true)
	}
	if gen.Uniform(t, 6) == 0 {
		c.Size = max(64, gen.MinedSize(t, 70000, c.Size))
	}
	if gen.Uniform(t, 2) == 0 {
		c.Size += gen.Uniform(t, 9) - 4
	} else if gen.Uniform(t, 2) == 0 {
		c.Size = gen.Uniform(t, 10000)
	}
	return c
}}

// Reuse is a buffer read into again and again, as bufio.Scanner does with its.
type Reuse struct {
	Texts []pbt.Blob
	Size  int // only so much of each is given, when it is that long
	AtEOF bool
}

func (c Reuse) Show() string {
	s := fmt.Sprintf("in one buffer, at most %d bytes of each, atEOF %v:", c.Size, c.AtEOF)
	for _, t := range c.Texts {
		s += fmt.Sprintf(" %+q", []byte(t))
	}
	return s
}

func checkReuse(c Reuse, o *pbt.Obs) error {
	buf := make([]byte, 1024)
	equal := map[int]int{}
	for _, t := range c.Texts {
		n := copy(buf, t)
		n = max(0, min(n, c.Size))
		if equal[n]++; n > 0 && equal[n] > 1 {
			o.NonTrivial()
		}
		if err := same(buf[:n], c.AtEOF); err != nil {
			return err
		}
	}
	o.Evals(int64(len(c.Texts)))
	return nil
}

var kReuse = &pbt.Kind[Reuse]{Name: "reused-buffer", Check: checkReuse, Gen: func(t *rapid.T) Reuse {
	c := Reuse{Size: 1 + gen.Uniform(t, 24), AtEOF: gen.Uniform(t, 2) == 0}
	if gen.Uniform(t, 4) == 0 {
		c.Size = 1 << 10
	}
	for range 2 + gen.Uniform(t, 6) {
		c.Texts = append(c.Texts, gen.Bytes(t, 40, true))
	}
	return c
}}

type Block struct{ Lo, Hi rune }

func (c Block) Show() string { return fmt.Sprintf("U+%04X..U+%04X", c.Lo, c.Hi) }

var around = [][2]string{{"", "a"}, {"a", "a"}, {"\u0915\u094d", "\u094d\u0915"}, {"\u00a9\u200d", "\u200d\u00a9"}, {"\u1100", "\u1161"}, {"\u0600", "\u0600"}, {"\U0001f1e6", "\U0001f1e6"}}

func checkBlock(c Block, o *pbt.Obs) error {
	o.NonTrivial()
	for r := c.Lo; r <= c.Hi; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		for _, ctx := range around {
			if err := same([]byte(ctx[0]+string(r)+ctx[1]), true); err != nil {
				return err
			}
			if err := same([]byte(string(r)+ctx[1]), false); err != nil {
				return err
			}
		}
	}
	o.Evals(int64(c.Hi-c.Lo+1) * int64(len(around)) * 2)
	return nil
}

var kBlock = &pbt.Kind[Block]{Name: "every-scalar", Check: checkBlock, Smaller: func(c Block) []Block {
	if c.Lo == c.Hi {
		return nil
	}
	m := (c.Lo + c.Hi) / 2
	return []Block{{c.Lo, m}, {m + 1, c.Hi}}
}}

type Version struct{ Unicode string }

func checkVersion(c Version, o *pbt.Obs) error {
	o.NonTrivial()
	o.Class("Unicode " + unicode.Version)
	if got := fmt.Sprint(auto.UnicodeMajorVersion); got != major {
		return fmt.Errorf("UnicodeMajorVersion is %s, unicode.Version is %s", got, unicode.Version)
	}
	return nil
}

var kVersion = &pbt.Kind[Version]{Name: "version", Check: checkVersion}

var c20 = &pbt.Prop{ID: "C20",
	Rule:  "under each installed Go release: compilation, the version constant, all scalar values in seven contexts at and before end of input, and random byte strings (valid, ill-formed and wild) for every prefix at and before end of input, long repetitive texts up to 128 KiB, and one buffer overwritten between calls; non-trivial = longer than three bytes, or the buffer given again at the same length",
	Kinds: []pbt.AnyKind{pbt.K(kVersion), pbt.K(kBlock), pbt.K(kText), pbt.K(kLong), pbt.K(kReuse)},
	Run: func(r *pbt.Run) {
		if r.Shard == 0 {
			pbt.One(r, kVersion, Version{unicode.Version})
		}
		for i := range 0x110000 / 0x400 {
			if r.Mine(i) {
				pbt.One(r, kBlock, Block{rune(i) * 0x400, rune(i)*0x400 + 0x3ff})
			}
		}
		pbt.Rapid(r, kText, r.N(60000, 3000000))
		pbt.Rapid(r, kLong, r.N(12000, 400000))
		pbt.Rapid(r, kReuse, r.N(60000, 2000000))
	}}

func main() {
	if want == nil {
		fmt.Println("HARNESS ERROR: no go-textseg to compare with for Unicode", unicode.Version)
		os.Exit(3)
	}
	pbt.Main([]*pbt.Prop{c20})
}
