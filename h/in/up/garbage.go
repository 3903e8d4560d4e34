package main

import (
	"bytes"
	"fmt"
	"io"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/ucdparse"

	"pgregory.net/rapid"

	"verif/pbt"
	"verif/pbt/gen"
)

// ---- C16, C17: lines of anything among well-formed ones

// Line is a well-formed line and what it holds, or garbage: any text at all,
// which gives an entry, an error or nothing.
type Line struct {
	Text    pbt.Blob
	Garbage bool
	Want    string
}

// Garbled is a file with such lines. The well-formed ones before the first error
// must be read all the same, and in order.
type Garbled struct {
	Vectors bool
	Lines   []Line
	Chunks  []int
}

func (c Garbled) Show() string {
	s := ""
	for _, l := range c.Lines {
		mark := ""
		if l.Garbage {
			mark = "?"
		}
		s += fmt.Sprintf("%s%+q ", mark, []byte(l.Text))
	}
	return s
}

func propString(e ucdparse.Entry) (string, error) {
	fields := slices.Collect(e.AllFields())
	s := fmt.Sprintf("%X..%X %q", e.Start, e.End-1, fields)
	if e.Start < 0 || e.Start > 0x10ffff || e.End < 1 || e.End > 0x110000 {
		return s, fmt.Errorf("entry %s is not one of code points", s)
	}
	if len(fields) == 0 || fields[0] != e.FirstField() {
		return s, fmt.Errorf("entry %s, but the first field is %q", s, e.FirstField())
	}
	for _, f := range fields {
		if strings.ContainsAny(f, ";#\n") || f != strings.Trim(f, " \t") {
			return s, fmt.Errorf("entry %s has the field %q", s, f)
		}
	}
	return s, nil
}

func vectorString(e ucdparse.TestDataEntry) (string, error) {
	s := fmt.Sprintf("%+q", e.WantSegments)
	if !bytes.Equal(bytes.Join(e.WantSegments, nil), e.Input) {
		return s, fmt.Errorf("segments %s do not make up the input %+q", s, e.Input)
	}
	if !utf8.Valid(e.Input) {
		return s, fmt.Errorf("input %+q is not valid UTF-8", e.Input)
	}
	for _, seg := range e.WantSegments {
		if !utf8.Valid(seg) || len(seg) == 0 {
			return s, fmt.Errorf("segments %s", s)
		}
	}
	return s, nil
}

func checkGarbled(c Garbled, o *pbt.Obs) error {
	var text []byte
	garbage := 0
	for _, l := range c.Lines {
		text = append(append(text, l.Text...), '\n')
		if l.Garbage {
			garbage++
		}
	}
	src := &Source{Text: string(text), Chunks: c.Chunks, FailAt: -1}
	next := func() func() (string, error) {
		if c.Vectors {
			sc := ucdparse.NewTestDataScanner(src.reader())
			return func() (string, error) {
				e, err := sc.NextEntry()
				if err != nil {
					return "", err
				}
				s, bad := vectorString(e)
				if bad != nil {
					return s, invariant{bad}
				}
				return s, nil
			}
		}
		sc := ucdparse.NewScanner(src.reader())
		return func() (string, error) {
			e, err := sc.NextEntry()
			if err != nil {
				return "", err
			}
			s, bad := propString(e)
			if bad != nil {
				return s, invariant{bad}
			}
			return s, nil
		}
	}()
	if garbage > 0 && garbage < len(c.Lines) {
		o.NonTrivial()
	}
	// at are the numbers of lines that may have been read by now.
	at := map[int]bool{0: true}
	skip := func() { // garbage that gives nothing
		for i := range c.Lines {
			if at[i] && c.Lines[i].Garbage {
				at[i+1] = true
			}
		}
	}
	for n := 0; ; n++ {
		skip()
		got, err := next()
		if bad, ok := err.(invariant); ok {
			return fmt.Errorf("entry %d: %v", n, bad)
		}
		if err == io.EOF {
			o.Class("read to the end")
			if !at[len(c.Lines)] {
				return fmt.Errorf("end of file after %d entries, though well-formed lines follow", n)
			}
			return nil
		}
		after := map[int]bool{}
		for i, l := range c.Lines {
			if at[i] && (l.Garbage || err == nil && got == l.Want) {
				after[i+1] = true
			}
		}
		if err != nil {
			o.Class("error")
			if len(after) == 0 {
				return fmt.Errorf("error %v after %d entries, though the next line is well-formed", err, n)
			}
			return nil
		}
		if len(after) == 0 {
			return fmt.Errorf("entry %d is %s, which none of the lines that may be next holds", n, got)
		}
		at = after
	}
}

type invariant struct{ error }

func wellFormed(t *rapid.T, vectors bool) Line {
	if !vectors {
		lo := codePoint(t)
		hi := lo
		rng := hex(t, uint32(lo))
		if gen.Uniform(t, 2) == 0 {
			hi = lo + rune(gen.Uniform(t, int(0x10ffff-lo)+1))
			rng += ".." + hex(t, uint32(hi))
		}
		var fields []string
		for range 1 + gen.Uniform(t, 3) {
			fields = append(fields, []string{"Extend", "InCB", "Linker", "x", "", "a b"}[gen.Uniform(t, 6)])
		}
		return Line{Text: pbt.Blob(rng + " ; " + strings.Join(fields, " ; ") + " # note"), Want: fmt.Sprintf("%X..%X %q", lo, hi, fields)}
	}
	var segs []string
	line := "÷"
	for range 1 + gen.Uniform(t, 4) {
		seg := ""
		for i := range 1 + gen.Uniform(t, 3) {
			r := codePoint(t)
			if !utf8.ValidRune(r) {
				r = 'a'
			}
			if i > 0 {
				line += " ×"
			}
			line += " " + hex(t, uint32(r))
			seg += string(r)
		}
		line += " ÷"
		segs = append(segs, seg)
	}
	b := make([][]byte, len(segs))
	for i, s := range segs {
		b[i] = []byte(s)
	}
	return Line{Text: pbt.Blob(line + "\t# note"), Want: fmt.Sprintf("%+q", b)}
}

// bits are what garbage is made from; line ends are not among it.
var garbageBits = []string{"0", "41", "D800", "DFFF", "10FFFF", "110000", "FFFFFFFF", "80000000", "-", "x", "..", ".", ";", "#", " ", "\t", "÷", "×", "\xc3", "\xb7", "\x97", "\x00", "\xff", "\ufeff", "\u00a0", "_", "0x", "U+", "é", "\U0001f600", "/"}

func garbageLine(t *rapid.T, vectors bool) Line {
	var b []byte
	if gen.Uniform(t, 3) > 0 {
		b = wellFormed(t, vectors).Text
	}
	for range 1 + gen.Uniform(t, 5) {
		i := gen.Uniform(t, len(b)+1)
		j := min(len(b), i+gen.Uniform(t, 4))
		bit := garbageBits[gen.Uniform(t, len(garbageBits))]
		b = slices.Concat(b[:i], []byte(bit), b[j:])
	}
	return Line{Text: b, Garbage: true}
}

func genGarbled(vectors bool) func(t *rapid.T) Garbled {
	return func(t *rapid.T) Garbled {
		c := Garbled{Vectors: vectors}
		for range 1 + gen.Uniform(t, 8) {
			if gen.Uniform(t, 3) == 0 {
				c.Lines = append(c.Lines, garbageLine(t, vectors))
			} else {
				c.Lines = append(c.Lines, wellFormed(t, vectors))
			}
		}
		for range gen.Uniform(t, 3) {
			c.Chunks = append(c.Chunks, 1+gen.Uniform(t, 30))
		}
		return c
	}
}

var kGarbledProps = &pbt.Kind[Garbled]{Name: "garbled-lines", Check: checkGarbled, Gen: genGarbled(false)}
var kGarbledVectors = &pbt.Kind[Garbled]{Name: "garbled-lines", Check: checkGarbled, Gen: genGarbled(true)}
