// Command gt checks the table generator's tree in process: it decodes the
// tree it builds from generated data files and compares it with the data.
package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops"
	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/gentable"

	"verif/pbt"
	"verif/pbt/ref"
	"verif/pbt/ucd"
)

// number maps properties to the numbers the repository stores.
var number = func() (m [256]int) {
	for p := range m {
		m[p] = -1
	}
	for g := ref.Other; g < ref.NumGCB; g++ {
		for _, ep := range []bool{false, true} {
			for i := ref.INone; i <= ref.ILinker; i++ {
				n := 0
				if g != ref.Other {
					n |= int(charprops.LookupGCBProperty(g.String()))
				}
				if ep {
					n |= int(charprops.LookupEmojiProperty("Extended_Pictographic"))
				}
				if i != ref.INone {
					n |= int(charprops.LookupInCBProperty(i.String()))
				}
				m[ref.MakeProps(g, ep, i)] = n
			}
		}
	}
	return
}()

var scratch string

func build(s ucd.Set) (tree gentable.RawPropertyTree, err error) {
	dir := filepath.Join(scratch, "ucd")
	pbt.Must(os.RemoveAll(dir))
	pbt.Must(s.Write(dir))
	return buildDir(dir)
}

func buildDir(dir string) (tree gentable.RawPropertyTree, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return gentable.BuildRawPropertyTree(dir)
}

// lookup walks the tree as the lookup function does.
func lookup(t *gentable.RawPropertyTree, r rune) (v int, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("U+%04X: the tree refers outside itself: %v", r, p)
		}
	}()
	var b [4]byte
	n := utf8.EncodeRune(b[:], r)
	if n == 1 {
		return int(t.Properties[b[0]]), nil
	}
	x := int(t.Indices[b[0]&63])
	for _, c := range b[1 : n-1] {
		x = int(t.Indices[x<<6+int(c&63)])
	}
	return int(t.Properties[x<<6+int(b[n-1]&63)]), nil
}

func verify(t *gentable.RawPropertyTree, want ref.Table) error {
	for r := rune(0); r <= ref.MaxRune; r++ {
		if r == 0xd800 {
			r = 0xe000
		}
		v, err := lookup(t, r)
		if err != nil {
			return err
		}
		if v != number[want[r]] {
			return fmt.Errorf("U+%04X: the table has %v (0x%02x), the files say %v (0x%02x)", r, charprops.CharProperties(v), v, want[r], number[want[r]])
		}
	}
	return nil
}

type Case struct{ Set ucd.Set }

func (c Case) Show() string { return c.Set.Show() }

func check(c Case, o *pbt.Obs) error {
	want := c.Set.Table()
	tree, err := build(c.Set)
	n, ni := ucd.DistinctBlocks(want)
	if err != nil && c.Set.Long > 0 {
		o.Class("very long line: refused")
		return nil
	}
	if err != nil && n+ni > 200 {
		o.Class("more blocks than the table can index: refused")
		return nil
	}
	if err != nil {
		return fmt.Errorf("generation failed on well-formed data: %v", err)
	}
	o.If(c.Set.Long > 0, "very long line: read")
	o.If(n > 256, "more than 256 distinct blocks")
	o.If(n > 1023, "more than 1023 distinct blocks")
	o.If(n <= 256, "up to 256 distinct blocks")
	if n > 3 {
		o.NonTrivial()
	}
	return verify(&tree, want)
}

var kTree = &pbt.Kind[Case]{Name: "tree", Check: check, Gen: func(t *rapid.T) Case { return Case{ucd.Gen(t, false)} }}
var kBig = &pbt.Kind[Case]{Name: "tree-many-blocks", Check: check, Gen: func(t *rapid.T) Case {
	s := ucd.Gen(t, false)
	s.Many = append(s.Many, ucd.Big(t))
	return Case{s}
}}

var c18 = &pbt.Prop{ID: "C18",
	Rule:  "random sets of data files (ranges at encoding and block edges, repeated and nearly repeated blocks, up to thousands of distinct blocks, irrelevant properties, varied formatting), the resulting tree looked up for every scalar value; non-trivial = more than three distinct blocks",
	Kinds: []pbt.AnyKind{pbt.K(kTree), pbt.K(kBig)},
	Run: func(r *pbt.Run) {
		// The lookup here must be right for the shape of the tree: on the
		// published data it gives the published properties. If it does not,
		// only the end-to-end cases can tell whether generation is wrong.
		real := filepath.Join(os.Getenv("REPO"), "textseg/internal/charprops/ucd")
		done := make(chan error, 1)
		go func() {
			data, err := ucd.Parse(real)
			var tree gentable.RawPropertyTree
			if err == nil {
				tree, err = buildDir(real)
			}
			if err == nil {
				err = verify(&tree, data)
			}
			done <- err
		}()
		var err error
		select {
		case err = <-done:
		case <-time.After(100 * time.Second):
			err = errors.New("it is still being built after 100 s")
		}
		if err != nil {
			r.Note("UNCALIBRATED in-process cases skipped, the tree built from the published data cannot be interpreted: %v", err)
			return
		}
		pbt.Rapid(r, kTree, r.N(900, 30000))
		pbt.Rapid(r, kBig, r.N(300, 10000))
	}}

func main() {
	if err := ref.SelfTest(); err != nil {
		fmt.Println("HARNESS ERROR:", err)
		os.Exit(3)
	}
	var err error
	scratch, err = os.MkdirTemp("", "vf-gt-")
	if err != nil {
		fmt.Println("HARNESS ERROR:", err)
		os.Exit(3)
	}
	defer os.RemoveAll(scratch)
	pbt.Main([]*pbt.Prop{c18})
}
