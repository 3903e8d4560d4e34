package main

import (
	"fmt"
	"strings"

	"verif/pbt"
)

// ManyLines is a file of N data lines; those of the properties differ in their
// code points, fields and comments, those of the vectors in their characters.
type ManyLines struct {
	N     int
	Every int // a comment or blank line after so many
	Chunk int
}

func (c ManyLines) Show() string {
	return fmt.Sprintf("%d data lines, another one after every %d, in reads of %d bytes", c.N, c.Every, c.Chunk)
}

// manyLines are around the numbers at which a counter or a buffer may end.
func manyLines(run *pbt.Run) (out []ManyLines) {
	for i, n := range []int{1 << 15, 1<<16 - 1, 1 << 16, 1<<16 + 1, 70000, 100001, 1<<17 + 1, 1<<18 + 1, 1<<20 + 1} {
		out = append(out, ManyLines{n, 1 + i*7%5, []int{0, 4096, 65536, 1000}[i%4]})
	}
	for n := 250; n < 4200; n += 50 {
		out = append(out, ManyLines{n, 3, 0})
	}
	if run.Thorough {
		for i, n := range []int{1 << 21, 1<<22 + 1, 5000000} {
			out = append(out, ManyLines{n, 1000, []int{0, 1 << 20}[i%2]})
		}
	}
	return out
}

func (c ManyLines) source(text string) Source {
	s := Source{Text: text, FailAt: -1}
	if c.Chunk > 0 {
		s.Chunks = []int{c.Chunk}
	}
	return s
}

func checkManyProps(c ManyLines, o *pbt.Obs) error {
	var b strings.Builder
	p := Props{Want: make([]Entry, 0, c.N)}
	names := []string{"Extend", "Prepend", "L", "Other"}
	for i := range c.N {
		lo := rune(i * 7 % 0x110000)
		hi := min(lo+rune(i%5), 0x10ffff)
		fields := []string{names[i%3]}
		if i%4 == 0 {
			fields = append(fields, names[i%2])
		}
		if lo == hi {
			fmt.Fprintf(&b, "%04X ; %s # %d\n", lo, strings.Join(fields, "; "), i)
		} else {
			fmt.Fprintf(&b, "%04X..%04X; %s\n", lo, hi, strings.Join(fields, ";"))
		}
		p.Want = append(p.Want, Entry{lo, hi, fields, b.Len()})
		if i%c.Every == 0 {
			b.WriteString([]string{"\n", "# a comment\n"}[i/c.Every%2])
		}
	}
	o.NonTrivial()
	p.Source = c.source(b.String())
	return checkProps(p, o)
}

var kManyProps = &pbt.Kind[ManyLines]{Name: "many-lines", Check: checkManyProps}

func checkManyVectors(c ManyLines, o *pbt.Obs) error {
	var b strings.Builder
	p := Vectors{Want: make([]Vector, 0, c.N)}
	for i := range c.N {
		r := rune(0xe000 + i*7%0x2000)
		if i%2 == 0 {
			fmt.Fprintf(&b, "÷ %04X ÷ 0301 ÷\t# %d\n", r, i)
			p.Want = append(p.Want, Vector{[]string{string(r), "\u0301"}, b.Len()})
		} else {
			fmt.Fprintf(&b, "÷ %04X × 0301 ÷\n", r)
			p.Want = append(p.Want, Vector{[]string{string(r) + "\u0301"}, b.Len()})
		}
		if i%c.Every == 0 {
			b.WriteString([]string{"\n", "# a comment\n"}[i/c.Every%2])
		}
	}
	o.NonTrivial()
	p.Source = c.source(b.String())
	return checkVectors(p, o)
}

var kManyVectors = &pbt.Kind[ManyLines]{Name: "many-lines", Check: checkManyVectors}
