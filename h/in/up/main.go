// Command up checks the parsers of Unicode data files and of segmentation
// conformance vectors.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg/internal/charprops/ucdparse"

	"verif/pbt"
	"verif/pbt/gen"
)

// Source is a file's contents and how a reader delivers them.
type Source struct {
	Text    string
	Chunks  []int // sizes of successive reads, repeated; 0 means an empty read
	WithEnd bool  // the end (or the failure) comes together with the last bytes
	FailAt  int   // the reader fails after so many bytes; -1 never
}

var errReader = errors.New("verif: injected reader failure")

type reader struct {
	s     *Source
	data  []byte
	i     int
	empty int
	end   error
}

func (s *Source) reader() *reader {
	r := &reader{s: s, data: []byte(s.Text), end: io.EOF}
	if s.FailAt >= 0 && s.FailAt <= len(r.data) {
		r.data, r.end = r.data[:s.FailAt], errReader
	}
	return r
}

func (r *reader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.end
	}
	n := len(p)
	if len(r.s.Chunks) > 0 {
		n = r.s.Chunks[r.i%len(r.s.Chunks)]
		r.i++
	}
	if n == 0 {
		if r.empty++; r.empty < 20 {
			return 0, nil
		}
		n = 1
	}
	r.empty = 0
	n = copy(p, r.data[:min(n, len(r.data))])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.s.WithEnd {
		return n, r.end
	}
	return n, nil
}

func genDelivery(t *rapid.T, s *Source) {
	switch gen.Uniform(t, 4) {
	case 0:
	case 1:
		s.Chunks = []int{1 + gen.Uniform(t, 5)}
	case 2:
		s.Chunks = []int{1 + gen.Uniform(t, 5000)}
	case 3:
		for range 2 + gen.Uniform(t, 5) {
			s.Chunks = append(s.Chunks, gen.Uniform(t, 40))
		}
	}
	s.WithEnd = gen.Uniform(t, 2) == 1
	s.FailAt = -1
	if gen.Uniform(t, 4) == 3 {
		s.FailAt = gen.Uniform(t, len(s.Text)+1)
	}
}

// Entry is one data line as it should be read.
type Entry struct {
	Lo, Hi rune
	Fields []string
	End    int // offset of the end of its line in the text, with the line ending
}

// Props is a case for the property file parser: the text, the entries it
// holds up to an invalid line, if any.
type Props struct {
	Source
	Want    []Entry
	Invalid string // the invalid line that follows the wanted entries
	InvEnd  int    // where that line ends
}

func (c Props) Show() string { return show(c.Source, c.Invalid) }

func show(s Source, invalid string) string {
	out := fmt.Sprintf("%q", s.Text)
	if len(out) > 400 {
		out = out[:400] + "..."
	}
	if len(s.Chunks) > 0 {
		out += fmt.Sprintf(" in reads of %v", s.Chunks)
	}
	if s.FailAt >= 0 {
		out += fmt.Sprintf(" failing after %d bytes", s.FailAt)
	}
	if invalid != "" {
		out += fmt.Sprintf(" (invalid: %q)", invalid)
	}
	return out
}

// overlong is the offset of the first line too long for a default
// bufio.Scanner; a parser may read it or reject it.
func overlong(text string) int {
	pos := 0
	for _, l := range strings.SplitAfter(text, "\n") {
		if len(l) > 65000 {
			return pos
		}
		pos += len(l)
	}
	return len(text) + 1
}

func rejected(err error, end, overlong int, o *pbt.Obs) bool {
	if err == nil || err == io.EOF || end <= overlong {
		return false
	}
	o.Class("overlong line rejected")
	return true
}

func same(e ucdparse.Entry, w Entry) error {
	if e.Start != w.Lo || e.End != w.Hi+1 {
		return fmt.Errorf("code points %04X..%04X, want %04X..%04X", e.Start, e.End-1, w.Lo, w.Hi)
	}
	if f := e.FirstField(); f != w.Fields[0] {
		return fmt.Errorf("first field %q, want %q", f, w.Fields[0])
	}
	all := e.AllFields()
	for stop := range len(w.Fields) { // stopping early must be possible
		i := 0
		for f := range all {
			if i >= len(w.Fields) || f != w.Fields[i] {
				return fmt.Errorf("field %d %q, want %q", i, f, w.Fields)
			}
			if i++; i > stop {
				break
			}
		}
	}
	for range 2 { // and so must starting again
		if f := slices.Collect(all); !slices.Equal(f, w.Fields) {
			return fmt.Errorf("fields %q, want %q", f, w.Fields)
		}
	}
	if f := slices.Collect(e.AllFields()); !slices.Equal(f, w.Fields) {
		return fmt.Errorf("fields read again %q, want %q", f, w.Fields)
	}
	return nil
}

func checkProps(c Props, o *pbt.Obs) error {
	c.observe(o)
	w := c.walk(o)
	for {
		if done, err := w.step(); done || err != nil {
			return err
		}
	}
}

func (c *Props) observe(o *pbt.Obs) {
	received := len(c.Text)
	failing := c.FailAt >= 0 && c.FailAt <= len(c.Text)
	if failing {
		received = c.FailAt
	}
	o.If(overlong(c.Text[:received]) < received, "overlong line")
	o.If(failing, "reader failure")
	o.If(c.Invalid != "", "invalid line")
	o.If(len(c.Chunks) > 0, "chunked")
	o.If(strings.Contains(c.Text, "\r\n"), "CRLF")
	o.If(!strings.HasSuffix(c.Text, "\n"), "no final line ending")
	o.If(len(c.Text) > 70000, "larger than a scanner buffer")
	if len(c.Want) > 0 {
		o.NonTrivial()
	}
}

// walk reads a case's file entry by entry.
type walk[S, E any] struct {
	c        *S
	o        *pbt.Obs
	i        int // entries read
	received int
	complete int // how much of it are lines with their ending, or the whole file
	failing  bool
	long     int
	next     func() (E, error)
	last     E
	seen     []E
}

func newWalk[S, E any](c *S, src *Source, next func() (E, error), o *pbt.Obs) *walk[S, E] {
	w := &walk[S, E]{c: c, o: o, received: len(src.Text), next: next}
	if src.FailAt >= 0 && src.FailAt <= len(src.Text) {
		w.failing, w.received = true, src.FailAt
	}
	w.complete = w.received
	if w.failing { // the reader says nothing of where the last line would have ended
		w.complete = strings.LastIndexByte(src.Text[:w.received], '\n') + 1
	}
	w.long = overlong(src.Text[:w.received])
	return w
}

type propWalk struct {
	*walk[Props, ucdparse.Entry]
}

func (c *Props) walk(o *pbt.Obs) propWalk {
	sc := ucdparse.NewScanner(c.reader())
	return propWalk{newWalk(c, &c.Source, sc.NextEntry, o)}
}

// again looks at the last entry again; it is good until the next is read.
func (w propWalk) again() error {
	if w.i == 0 {
		return nil
	}
	if err := same(w.last, w.c.Want[w.i-1]); err != nil {
		return fmt.Errorf("entry %d, looked at again before the next one is read: %v", w.i-1, err)
	}
	return nil
}

// step reads one more entry.
func (w propWalk) step() (done bool, err error) {
	c := w.c
	if i := w.i; i < len(c.Want) && c.Want[i].End <= w.complete { // else the rest was not received
		want := c.Want[i]
		e, err := w.next()
		if rejected(err, want.End, w.long, w.o) {
			return true, nil
		}
		if err != nil {
			return true, fmt.Errorf("entry %d: error %v, want %04X..%04X %q", i, err, want.Lo, want.Hi, want.Fields)
		}
		if err := same(e, want); err != nil {
			return true, fmt.Errorf("entry %d: %v", i, err)
		}
		w.last = e
		w.i++
		return false, nil
	}
	e, err := w.next()
	switch {
	case c.Invalid != "" && c.InvEnd <= w.received:
		if err == nil {
			return true, fmt.Errorf("the invalid line %q yields the entry %04X..%04X", c.Invalid, e.Start, e.End-1)
		}
		if err == io.EOF {
			return true, fmt.Errorf("the invalid line %q is taken for the end of the file", c.Invalid)
		}
	case w.failing:
		// A line cut short by the failure may be delivered, or rejected.
		if err == nil {
			_, err = w.next()
		}
		if err == nil {
			return true, fmt.Errorf("more than one entry after the last complete line before the reader's failure")
		}
		if err == io.EOF {
			return true, fmt.Errorf("the reader's failure is taken for the end of the file")
		}
	default:
		if err == nil {
			return true, fmt.Errorf("an extra entry %04X..%04X at the end of the file", e.Start, e.End-1)
		}
		if err != io.EOF && !rejected(err, len(c.Text), w.long, w.o) {
			return true, fmt.Errorf("error %v at the end of the file", err)
		}
	}
	return true, nil
}

// PropPair is two files read by turns.
type PropPair struct {
	A, B  Props
	Order []bool // whose turn it is, cyclically
}

func (c PropPair) Show() string {
	return fmt.Sprintf("by turns %v: %s AND %s", c.Order, c.A.Show(), c.B.Show())
}

func byTurns(order []bool, a, b func() (bool, error)) error {
	var doneA, doneB bool
	for i := 0; !doneA || !doneB; i++ {
		first := !doneA
		if !doneA && !doneB && len(order) > 0 {
			first = order[i%len(order)]
		}
		var err error
		if first {
			if doneA, err = a(); err != nil {
				return fmt.Errorf("two files read by turns, the first: %v", err)
			}
		} else if doneB, err = b(); err != nil {
			return fmt.Errorf("two files read by turns, the second: %v", err)
		}
		if len(order) > 0 && i == len(order)-1 && allSame(order) {
			order = nil // else the other would wait for ever
		}
	}
	return nil
}

func allSame(b []bool) bool {
	return !slices.Contains(b, !b[0])
}

func checkPropPair(c PropPair, o *pbt.Obs) error {
	if len(c.A.Want) > 1 && len(c.B.Want) > 1 {
		o.NonTrivial()
	}
	a, b := c.A.walk(o), c.B.walk(o)
	step := func(w propWalk) func() (bool, error) {
		return func() (bool, error) {
			if err := w.again(); err != nil {
				return true, err
			}
			return w.step()
		}
	}
	return byTurns(c.Order, step(a), step(b))
}

func genOrder(t *rapid.T) (out []bool) {
	for range 1 + gen.Uniform(t, 6) {
		out = append(out, gen.Uniform(t, 2) == 1)
	}
	return out
}

var kPropPair = &pbt.Kind[PropPair]{Name: "two-files-by-turns", Check: checkPropPair, Gen: func(t *rapid.T) PropPair {
	return PropPair{genProps(t), genProps(t), genOrder(t)}
}}

var words = []string{"Extend", "InCB", "Linker", "Basic Latin", "L", "Mn", "0041", "<CJK Ideograph, First>", "Extended_Pictographic", "x", "é", "文字", "a..b", "LETTER A", "0.5",
	"Prepend", "Control", "1", "-", "N/A", "a  b", "\u200d", "..", "@missing", "(#)"}

func blank(t *rapid.T) string {
	return []string{"", " ", "  ", "\t", " \t ", "          "}[gen.Uniform(t, 6)]
}

func eol(t *rapid.T) string {
	if gen.Uniform(t, 5) == 4 {
		return "\r\n"
	}
	return "\n"
}

func comment(t *rapid.T) string {
	if gen.Uniform(t, 10) == 0 {
		if w := gen.MinedText(t); !strings.ContainsAny(w, "\n\r") && utf8.ValidString(w) {
			return "#" + w
		}
	}
	return []string{"", "#", "# comment", "# 0041..005A ; L # more", "#;", "# Lo  [26] LATIN CAPITAL LETTER A..LATIN CAPITAL LETTER Z", "#é÷×", "# ÷ 0020 × 0308 ÷", "##"}[gen.Uniform(t, 9)]
}

func filler(t *rapid.T, b *strings.Builder) {
	switch gen.Uniform(t, 8) {
	case 0:
		b.WriteString(eol(t))
	case 1:
		b.WriteString(blank(t) + "# 0041..005A ; Not data" + eol(t))
	case 2:
		b.WriteString(blank(t) + eol(t))
	case 3:
		b.WriteString("# @missing: 0000..10FFFF; Other" + eol(t))
	case 4:
		b.WriteString(blank(t) + comment(t) + eol(t))
	case 5:
		switch gen.Uniform(t, 200) {
		case 0, 1:
			b.WriteString("# " + strings.Repeat("long ", gen.Uniform(t, 12000)) + eol(t))
		case 2:
			b.WriteString("# " + strings.Repeat("overlong ", 7000+gen.Uniform(t, 3000)) + eol(t))
		}
	}
}

func hex(t *rapid.T, v uint32) string {
	switch gen.Uniform(t, 6) {
	case 0:
		return fmt.Sprintf("%05X", v)
	case 1:
		return fmt.Sprintf("%06X", v)
	case 2:
		return fmt.Sprintf("%04x", v)
	}
	return fmt.Sprintf("%04X", v)
}

var edges = []rune{0, 1, 9, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0xe0001, 0xf0000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff}

func codePoint(t *rapid.T) rune {
	switch gen.Uniform(t, 5) {
	case 4:
		return gen.MinedPoint(t)
	case 0:
		return edges[gen.Uniform(t, len(edges))]
	case 1:
		return rune(gen.Uniform(t, 0x3000))
	}
	return rune(gen.Uniform(t, 0x110000))
}

var badRanges = []string{"110000", "110001", "FFFFFF", "200000", "7FFFFFFF", "80000000", "FFFFFFFF", "100000041", "FFFFFFFFFFFFFFFFFFFF", "G041", "00G1", "U+0041", "0x41", "-0041", "-1", "41h", "",
	"0041..110000", "0041..7FFFFFFF", "0041..FFFFFFFF", "0041..", "..0041", "0041..0042..", "0041...0042", "0041..G", "XYZ..0041", "110000..110010", "0041-0042", "0041 0042", "0041,0042", "0041..0042..0043",
	"100000000..100000041", "0041..100000042", "Ａ", "÷", "0041..U+0042", "name"}

func genProps(t *rapid.T) Props {
	var c Props
	var b strings.Builder
	n := gen.Uniform(t, 13)
	switch gen.Uniform(t, 500) {
	case 0:
		n = 1500
	case 1, 2, 3:
		n = gen.MinedSize(t, 5000, n)
	}
	bad := -1
	if gen.Uniform(t, 3) == 0 && n > 0 && n < 100 {
		bad = gen.Uniform(t, n)
	}
	for i := range n {
		filler(t, &b)
		nf := 1 + gen.Uniform(t, 4)
		if gen.Uniform(t, 10) == 0 {
			nf = gen.Uniform(t, 40) + 1
			if gen.Uniform(t, 20) == 0 {
				nf = gen.Uniform(t, 400) + 1
			} else if gen.Uniform(t, 3) == 0 {
				nf = gen.MinedSize(t, 1000, nf)
			}
		}
		var e Entry
		for range nf {
			f := words[gen.Uniform(t, len(words))]
			if gen.Uniform(t, 6) == 0 {
				if w := gen.MinedText(t); w == strings.TrimSpace(w) && !strings.ContainsAny(w, "#;\n\r") && utf8.ValidString(w) {
					f = w
				}
			}
			if f == "(#)" { // a comment marker cannot be in a field
				f = ""
			}
			if gen.Uniform(t, 400) == 0 {
				f = strings.Repeat("very long ", 1000) + "field"
			} else if gen.Uniform(t, 100) == 0 {
				f = strings.Repeat("x", gen.MinedSize(t, 20000, 1))
			}
			e.Fields = append(e.Fields, f)
		}
		e.Lo = codePoint(t)
		e.Hi = e.Lo
		var rng string
		switch gen.Uniform(t, 4) {
		case 0:
			e.Hi = max(e.Lo, codePoint(t))
			rng = hex(t, uint32(e.Lo)) + ".." + hex(t, uint32(e.Hi))
		case 1:
			e.Hi = min(e.Lo+rune(gen.Uniform(t, 300)), 0x10ffff)
			rng = hex(t, uint32(e.Lo)) + ".." + hex(t, uint32(e.Hi))
		default:
			rng = hex(t, uint32(e.Lo))
		}
		if i == bad {
			k := gen.Uniform(t, len(badRanges)+8)
			switch {
			case k < len(badRanges):
				rng = badRanges[k]
			case k < len(badRanges)+4:
				rng = fmt.Sprintf("%X", uint64(0x110000)+uint64(gen.Uniform(t, 1<<31-1)))
			default:
				rng = fmt.Sprintf("%s..%X", hex(t, uint32(e.Lo)), uint64(0x110000)+uint64(gen.Uniform(t, 1<<31-1)))
			}
		}
		start := b.Len()
		b.WriteString(blank(t) + rng + blank(t) + ";")
		for i, f := range e.Fields {
			if i > 0 {
				b.WriteString(";")
			}
			b.WriteString(blank(t) + f + blank(t))
		}
		b.WriteString(comment(t))
		line := b.String()[start:]
		if i < n-1 || gen.Uniform(t, 4) != 0 {
			b.WriteString(eol(t))
		}
		if i == bad {
			c.Invalid, c.InvEnd = line, b.Len()
			continue
		}
		e.End = b.Len()
		if c.Invalid == "" {
			c.Want = append(c.Want, e)
		}
	}
	if strings.HasSuffix(b.String(), "\n") || b.Len() == 0 {
		filler(t, &b)
	}
	c.Text = b.String()
	genDelivery(t, &c.Source)
	return c
}

var kProps = &pbt.Kind[Props]{Name: "generated-file", Check: checkProps, Gen: genProps}

// File is a case for one of the shipped files.
type File struct {
	Name  string
	Chunk int
}

var shipped = []string{"DerivedCoreProperties.txt", "auxiliary/GraphemeBreakProperty.txt", "emoji/emoji-data.txt"}

func load(name string) string {
	raw, err := os.ReadFile(filepath.Join(os.Getenv("REPO"), "textseg/internal/charprops/ucd", name))
	pbt.Must(err)
	return string(raw)
}

func checkFile(c File, o *pbt.Obs) error {
	p := Props{Source: Source{Text: load(c.Name), FailAt: -1}}
	if c.Chunk > 0 {
		p.Chunks = []int{c.Chunk}
	}
	pos := 0
	for _, l := range strings.SplitAfter(p.Text, "\n") {
		pos += len(l)
		l, _, _ = strings.Cut(l, "#")
		f := strings.Split(l, ";")
		if len(f) < 2 {
			continue
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		lo, hi, two := strings.Cut(f[0], "..")
		if !two {
			hi = lo
		}
		a, err := strconv.ParseUint(lo, 16, 21)
		if err != nil {
			return nil // not a file this reading understands: C19's matter
		}
		b, err := strconv.ParseUint(hi, 16, 21)
		if err != nil {
			return nil
		}
		p.Want = append(p.Want, Entry{rune(a), rune(b), f[1:], pos})
	}
	o.Evals(int64(len(p.Want)))
	return checkProps(p, o)
}

var kFile = &pbt.Kind[File]{Name: "shipped-file", Check: checkFile}

// PropBlock is a file of entries for each of 256 code points from Lo on, as
// single ones, as ends of ranges, in several spellings.
type PropBlock struct{ Lo rune }

func (c PropBlock) Show() string { return fmt.Sprintf("entries for U+%04X..U+%04X", c.Lo, c.Lo+255) }

func checkPropBlock(c PropBlock, o *pbt.Obs) error {
	p := Props{Source: Source{FailAt: -1}}
	var b strings.Builder
	for r := c.Lo; r < c.Lo+256; r++ {
		valid := r <= 0x10ffff
		for form := range 5 {
			lo, hi := r, r
			switch form {
			case 0:
				fmt.Fprintf(&b, "%04X          ; Extend # form %d\n", r, form)
			case 1:
				fmt.Fprintf(&b, "%04x;Extend\n", r)
			case 2:
				fmt.Fprintf(&b, " %06X ;\tExtend\r\n", r)
			case 3:
				lo = 0
				fmt.Fprintf(&b, "0000..%04X ; Extend\n", r)
			case 4:
				if hi = 0x10ffff; !valid {
					hi = r
				}
				fmt.Fprintf(&b, "%04X..%04X ; Extend\n", r, hi)
			}
			if !valid {
				p.Text, p.Invalid, p.InvEnd = b.String(), b.String(), b.Len()
				if err := checkProps(p, o); err != nil {
					return err
				}
				b.Reset()
				continue
			}
			p.Want = append(p.Want, Entry{lo, hi, []string{"Extend"}, b.Len()})
		}
	}
	o.NonTrivial()
	o.Evals(5*256 - 1)
	if b.Len() == 0 {
		return nil
	}
	p.Text = b.String()
	return checkProps(p, o)
}

var kPropBlock = &pbt.Kind[PropBlock]{Name: "every-code-point", Check: checkPropBlock}

// LineLen is a file in which one line has exactly N bytes.
type LineLen struct {
	N    int
	Form int
}

func (c LineLen) Show() string { return fmt.Sprintf("line of %d bytes, form %d", c.N, c.Form) }

func padded(c LineLen, begin, data string) string {
	switch c.Form % 4 {
	case 0: // in a comment
		return data + " #" + strings.Repeat("c", max(0, c.N-len(data)-2))
	case 1: // in space before
		return strings.Repeat(" ", max(0, c.N-len(data))) + data
	case 2: // in space behind
		return data + strings.Repeat(" ", max(0, c.N-len(data)))
	default: // a comment alone, then the data
		return "#" + strings.Repeat("-", max(0, c.N-1)) + "\n" + data
	}
}

func checkLineLen(c LineLen, o *pbt.Obs) error {
	p := Props{Source: Source{FailAt: -1}}
	end := "\n"
	if c.Form&4 != 0 {
		end = "\r\n"
	}
	add := func(line string, e Entry) {
		p.Text += line + end
		e.End = len(p.Text)
		p.Want = append(p.Want, e)
	}
	add("0041;A", Entry{0x41, 0x41, []string{"A"}, 0})
	add(padded(c, "", "1F600..1F64F ; Extended_Pictographic"), Entry{0x1f600, 0x1f64f, []string{"Extended_Pictographic"}, 0})
	add("0042 ; B ; C", Entry{0x42, 0x42, []string{"B", "C"}, 0})
	if c.Form&8 != 0 {
		p.Text = strings.TrimSuffix(p.Text, end)
		p.Want[2].End = len(p.Text)
	}
	if c.Form&16 != 0 {
		p.Chunks = []int{1000}
	}
	return checkProps(p, o)
}

var kLineLen = &pbt.Kind[LineLen]{Name: "line-length", Check: checkLineLen}

// lineLens are the lengths at which a reader's buffer might fill.
var lineLens = func() (out []int) {
	for n := 36; n < 300; n++ {
		out = append(out, n)
	}
	for n := 512; n <= 65536; n *= 2 {
		for d := -45; d <= 8; d++ {
			out = append(out, n+d)
		}
	}
	return append(out, 3000, 10000, 50000, 65000)
}()

var c16 = &pbt.Prop{ID: "C16",
	Rule:  "random property files (single code points and ranges over all of Unicode, 1-400 fields, comments, blank lines, spaces and tabs, LF and CRLF, missing final line ending, lines up to 90 KB (one beyond 64 KiB may be rejected), one invalid range) delivered in reads of varying sizes, with reader failures at random offsets, every code point and 4,096 beyond the last in five spellings, lines of every length near powers of two, files of up to 1,048,577 lines (thorough: 5 million), the shipped files, pairs of files read by turns, and files in which garbage stands among well-formed lines; non-trivial = at least one data line before the fault",
	Kinds: []pbt.AnyKind{pbt.K(kProps), pbt.K(kFile), pbt.K(kPropBlock), pbt.K(kLineLen), pbt.K(kPropPair), pbt.K(kGarbledProps), pbt.K(kManyProps)},
	Run: func(r *pbt.Run) {
		i := 0
		for _, f := range shipped {
			for _, n := range []int{0, 1, 7, 4096, 70000} {
				if i++; r.Mine(i) {
					pbt.One(r, kFile, File{f, n})
				}
			}
		}
		for lo := rune(0); lo < 0x111000; lo += 256 {
			if i++; r.Mine(i) {
				pbt.One(r, kPropBlock, PropBlock{lo})
			}
		}
		for _, n := range lineLens {
			for form := range 32 {
				if i++; r.Mine(i) {
					pbt.One(r, kLineLen, LineLen{n, form})
				}
			}
		}
		for _, c := range manyLines(r) {
			if i++; r.Mine(i) {
				pbt.One(r, kManyProps, c)
			}
		}
		pbt.Rapid(r, kProps, r.N(100000, 3000000))
		pbt.Rapid(r, kPropPair, r.N(20000, 600000))
		pbt.Rapid(r, kGarbledProps, r.N(80000, 4000000))
	}}

// Vector is one conformance line as it should be read.
type Vector struct {
	Segs []string
	End  int
}

// Vectors is a case for the conformance vector parser.
type Vectors struct {
	Source
	Want    []Vector
	Invalid string
	InvEnd  int
}

func (c Vectors) Show() string { return show(c.Source, c.Invalid) }

func sameVector(e ucdparse.TestDataEntry, w Vector) error {
	in := strings.Join(w.Segs, "")
	if string(e.Input) != in {
		return fmt.Errorf("input %+q, want %+q", e.Input, in)
	}
	got := make([]string, len(e.WantSegments))
	for i, s := range e.WantSegments {
		got[i] = string(s)
	}
	if !slices.Equal(got, w.Segs) {
		return fmt.Errorf("segments %+q, want %+q", got, w.Segs)
	}
	if !bytes.Equal(bytes.Join(e.WantSegments, nil), e.Input) {
		return fmt.Errorf("segments %+q do not make up the input %+q", got, e.Input)
	}
	return nil
}

func checkVectors(c Vectors, o *pbt.Obs) error {
	c.observe(o)
	w := c.walk(o)
	for {
		if done, err := w.step(); done || err != nil {
			if err == nil {
				err = w.again()
			}
			return err
		}
	}
}

func (c *Vectors) observe(o *pbt.Obs) {
	received := len(c.Text)
	failing := c.FailAt >= 0 && c.FailAt <= len(c.Text)
	if failing {
		received = c.FailAt
	}
	o.If(overlong(c.Text[:received]) < received, "overlong line")
	o.If(failing, "reader failure")
	o.If(c.Invalid != "", "invalid value")
	o.If(len(c.Chunks) > 0, "chunked")
	o.If(strings.Contains(c.Text, "\r\n"), "CRLF")
	o.If(!strings.HasSuffix(c.Text, "\n"), "no final line ending")
	for _, w := range c.Want {
		if len(w.Segs) > 1 || utf8.RuneCountInString(w.Segs[0]) > 1 {
			o.NonTrivial()
		}
	}
}

type vectorWalk struct {
	*walk[Vectors, ucdparse.TestDataEntry]
}

func (c *Vectors) walk(o *pbt.Obs) vectorWalk {
	sc := ucdparse.NewTestDataScanner(c.reader())
	return vectorWalk{newWalk(c, &c.Source, sc.NextEntry, o)}
}

// again looks at all the entries again.
func (w vectorWalk) again() error {
	for i, e := range w.seen {
		if err := sameVector(e, w.c.Want[i]); err != nil {
			return fmt.Errorf("entry %d, looked at again after later entries were read: %v", i, err)
		}
	}
	return nil
}

func (w vectorWalk) step() (done bool, err error) {
	c := w.c
	if i := w.i; i < len(c.Want) && c.Want[i].End <= w.complete {
		want := c.Want[i]
		e, err := w.next()
		if rejected(err, want.End, w.long, w.o) {
			return true, nil
		}
		if err != nil {
			return true, fmt.Errorf("entry %d: error %v, want segments %+q", i, err, want.Segs)
		}
		if err := sameVector(e, want); err != nil {
			return true, fmt.Errorf("entry %d: %v", i, err)
		}
		w.seen = append(w.seen, e)
		w.i++
		return false, nil
	}
	e, err := w.next()
	switch {
	case c.Invalid != "" && c.InvEnd <= w.received:
		if err == nil {
			return true, fmt.Errorf("the invalid line %q yields the entry %+q", c.Invalid, e.Input)
		}
		if err == io.EOF {
			return true, fmt.Errorf("the invalid line %q is taken for the end of the file", c.Invalid)
		}
	case w.failing:
		if err == nil {
			_, err = w.next()
		}
		if err == nil {
			return true, fmt.Errorf("more than one entry after the last complete line before the reader's failure")
		}
		if err == io.EOF {
			return true, fmt.Errorf("the reader's failure is taken for the end of the file")
		}
	default:
		if err == nil {
			return true, fmt.Errorf("an extra entry %+q at the end of the file", e.Input)
		}
		if err != io.EOF && !rejected(err, len(c.Text), w.long, w.o) {
			return true, fmt.Errorf("error %v at the end of the file", err)
		}
	}
	return true, nil
}

// VectorPair is two files read by turns.
type VectorPair struct {
	A, B  Vectors
	Order []bool
}

func (c VectorPair) Show() string {
	return fmt.Sprintf("by turns %v: %s AND %s", c.Order, c.A.Show(), c.B.Show())
}

func checkVectorPair(c VectorPair, o *pbt.Obs) error {
	if len(c.A.Want) > 1 && len(c.B.Want) > 1 {
		o.NonTrivial()
	}
	a, b := c.A.walk(o), c.B.walk(o)
	if err := byTurns(c.Order, a.step, b.step); err != nil {
		return err
	}
	if err := a.again(); err != nil {
		return err
	}
	return b.again()
}

var kVectorPair = &pbt.Kind[VectorPair]{Name: "two-files-by-turns", Check: checkVectorPair, Gen: func(t *rapid.T) VectorPair {
	return VectorPair{genVectors(t), genVectors(t), genOrder(t)}
}}

var badValues = []string{"D800", "DBFF", "DC00", "DFFF", "110000", "FFFFFF", "7FFFFFFF", "FFFFFFFF", "100000041", "G", "00G1", "U+0041", "0x41", "-1", "0041,0042", "0041 0042", "FFFFFFFFFFFFFFFFFFFF", "x", "0041;", "é", "÷0020D800"}

func genVectors(t *rapid.T) Vectors {
	var c Vectors
	var b strings.Builder
	n := gen.Uniform(t, 9)
	if gen.Uniform(t, 500) == 0 {
		n = 500
	}
	bad := -1
	if gen.Uniform(t, 3) == 0 && n > 0 && n < 100 {
		bad = gen.Uniform(t, n)
	}
	gap := func() string {
		return []string{" ", " ", " ", "", "\t", "  "}[gen.Uniform(t, 6)]
	}
	for i := range n {
		filler(t, &b)
		m := 1 + gen.Uniform(t, 8)
		switch gen.Uniform(t, 1000) {
		case 0:
			m = 1 + gen.Uniform(t, 3000)
		case 1, 2, 3, 4, 5:
			m = gen.MinedSize(t, 3000, m)
		}
		var v Vector
		badAt := -1
		if i == bad {
			badAt = gen.Uniform(t, m)
		}
		start := b.Len()
		b.WriteString(blank(t) + "÷" + gap())
		seg := ""
		for j := range m {
			r := gen.AnyRune(t)
			if gen.Uniform(t, 3) == 0 {
				if r = codePoint(t); r >= 0xd800 && r <= 0xdfff {
					r = 0
				}
			}
			if j == badAt {
				k := gen.Uniform(t, len(badValues)+6)
				switch {
				case k < len(badValues):
					b.WriteString(badValues[k])
				case k < len(badValues)+3:
					b.WriteString(hex(t, uint32(0xd800+gen.Uniform(t, 0x800))))
				default:
					fmt.Fprintf(&b, "%X", uint64(0x110000)+uint64(gen.Uniform(t, 1<<31-1)))
				}
			} else {
				b.WriteString(hex(t, uint32(r)))
			}
			seg += string(r)
			if j == m-1 || gen.Uniform(t, 2) == 1 {
				v.Segs = append(v.Segs, seg)
				seg = ""
				b.WriteString(gap() + "÷")
			} else {
				b.WriteString(gap() + "×")
			}
			if j < m-1 {
				b.WriteString(gap())
			}
		}
		b.WriteString(blank(t) + comment(t))
		line := b.String()[start:]
		if i < n-1 || gen.Uniform(t, 4) != 0 {
			b.WriteString(eol(t))
		}
		if i == bad {
			c.Invalid, c.InvEnd = line, b.Len()
			continue
		}
		v.End = b.Len()
		if c.Invalid == "" {
			c.Want = append(c.Want, v)
		}
	}
	if strings.HasSuffix(b.String(), "\n") || b.Len() == 0 {
		filler(t, &b)
	}
	c.Text = b.String()
	genDelivery(t, &c.Source)
	return c
}

var kVectors = &pbt.Kind[Vectors]{Name: "generated-file", Check: checkVectors, Gen: genVectors}

func checkVectorFile(c File, o *pbt.Obs) error {
	p := Vectors{Source: Source{Text: load(c.Name), FailAt: -1}}
	if c.Chunk > 0 {
		p.Chunks = []int{c.Chunk}
	}
	pos := 0
	for _, l := range strings.SplitAfter(p.Text, "\n") {
		pos += len(l)
		l, _, _ = strings.Cut(l, "#")
		var v Vector
		seg := ""
		for _, w := range strings.Fields(l) {
			if w == "÷" && seg != "" {
				v.Segs = append(v.Segs, seg)
				seg = ""
			}
			if w == "÷" || w == "×" {
				continue
			}
			n, err := strconv.ParseUint(w, 16, 21)
			if err != nil {
				return nil
			}
			seg += string(rune(n))
		}
		if len(v.Segs) > 0 {
			v.End = pos
			p.Want = append(p.Want, v)
		}
	}
	o.Evals(int64(len(p.Want)))
	return checkVectors(p, o)
}

var kVectorFile = &pbt.Kind[File]{Name: "shipped-file", Check: checkVectorFile}

// VectorBlock is a file of vectors with each of 256 code points from Lo on.
type VectorBlock struct{ Lo rune }

func (c VectorBlock) Show() string {
	return fmt.Sprintf("vectors with U+%04X..U+%04X", c.Lo, c.Lo+255)
}

func checkVectorBlock(c VectorBlock, o *pbt.Obs) error {
	var b strings.Builder
	p := Vectors{Source: Source{FailAt: -1}}
	add := func(format string, r rune, segs ...string) error {
		fmt.Fprintf(&b, format, r)
		if utf8.ValidRune(r) {
			p.Want = append(p.Want, Vector{segs, b.Len()})
			return nil
		}
		p.Text, p.Invalid, p.InvEnd = b.String(), b.String(), b.Len()
		b.Reset()
		return checkVectors(p, o)
	}
	for r := c.Lo; r < c.Lo+256; r++ {
		x := string(r)
		for _, err := range []error{add("÷ %04X ÷\n", r, x), add("÷ 0061 × %04X ÷ 0062 ÷\t# comment\n", r, "a"+x, "b"), add("÷ %06X ÷ 0020 ÷\r\n", r, x, " "), add("÷ 1F600 ÷ %04x ÷\n", r, "\U0001F600", x)} {
			if err != nil {
				return err
			}
		}
	}
	o.NonTrivial()
	o.Evals(4*256 - 1)
	if b.Len() == 0 {
		return nil
	}
	p.Text = b.String()
	return checkVectors(p, o)
}

var kVectorBlock = &pbt.Kind[VectorBlock]{Name: "every-code-point", Check: checkVectorBlock}

func checkVectorLineLen(c LineLen, o *pbt.Obs) error {
	p := Vectors{Source: Source{FailAt: -1}}
	end := "\n"
	if c.Form&4 != 0 {
		end = "\r\n"
	}
	add := func(line string, segs ...string) {
		p.Text += line + end
		p.Want = append(p.Want, Vector{segs, len(p.Text)})
	}
	add("÷ 0041 ÷", "A")
	add(padded(c, "", "÷ 1F600 × 0301 ÷ 000A ÷"), "\U0001F600\u0301", "\n")
	add("÷ 0042 ÷ 0043 ÷", "B", "C")
	if c.Form&8 != 0 {
		p.Text = strings.TrimSuffix(p.Text, end)
		p.Want[2].End = len(p.Text)
	}
	if c.Form&16 != 0 {
		p.Chunks = []int{1000}
	}
	return checkVectors(p, o)
}

var kVectorLineLen = &pbt.Kind[LineLen]{Name: "line-length", Check: checkVectorLineLen}

// VectorLen is a vector of N characters in segments of Seg.
type VectorLen struct{ N, Seg int }

func (c VectorLen) Show() string {
	return fmt.Sprintf("%d characters in segments of %d", c.N, c.Seg)
}

func checkVectorLen(c VectorLen, o *pbt.Obs) error {
	p := Vectors{Source: Source{FailAt: -1}}
	var b strings.Builder
	var segs []string
	b.WriteString("÷ 0041 ÷\n÷")
	p.Want = append(p.Want, Vector{[]string{"A"}, b.Len() - len("÷")})
	for i := range c.N {
		r := []rune{0x41, 0x301, 0x915, 0x1f600, 0x200d}[i%5]
		if i%c.Seg == 0 {
			segs = append(segs, "")
		}
		segs[len(segs)-1] += string(r)
		mark := "×"
		if i == c.N-1 || (i+1)%c.Seg == 0 {
			mark = "÷"
		}
		fmt.Fprintf(&b, " %04X %s", r, mark)
	}
	b.WriteString("\n")
	p.Want = append(p.Want, Vector{segs, b.Len()})
	b.WriteString("÷ 0042 × 0043 ÷\n")
	p.Want = append(p.Want, Vector{[]string{"BC"}, b.Len()})
	p.Text = b.String()
	return checkVectors(p, o)
}

// vectorLens are up to what a line of 64 KiB has room for.
var vectorLens = func() (out []int) {
	const most = 7900
	for n := 1; n <= 600; n++ {
		out = append(out, n)
	}
	for n := 1024; n <= most; n *= 2 {
		out = append(out, n-1, n, n+1)
	}
	for n := 631; n < most; n += 331 {
		out = append(out, n)
	}
	for _, n := range gen.Mined.Ints {
		for d := -1; d <= 1; d++ {
			if n+d > 600 && n+d <= most {
				out = append(out, n+d)
			}
		}
	}
	slices.Sort(out)
	return append(slices.Compact(out), most)
}()

var kVectorLen = &pbt.Kind[VectorLen]{Name: "vector-length", Check: checkVectorLen}

var c17 = &pbt.Prop{ID: "C17",
	Rule:  "random vector files (1-3000 scalar values per line over all of Unicode with random marks, comments, blank lines, spacing, LF and CRLF, missing final line ending, one invalid value) delivered in reads of varying sizes, with reader failures at random offsets, every code point and 4,096 beyond the last in four vectors, lines of every length near powers of two, files of up to 1,048,577 lines (thorough: 5 million), vectors of 1-600 characters, and of many numbers up to 7900, the shipped file, pairs of files read by turns, and files in which garbage stands among well-formed lines; non-trivial = a data line with more than one character",
	Kinds: []pbt.AnyKind{pbt.K(kVectors), pbt.K(kVectorFile), pbt.K(kVectorBlock), pbt.K(kVectorLineLen), pbt.K(kVectorLen), pbt.K(kVectorPair), pbt.K(kGarbledVectors), pbt.K(kManyVectors)},
	Run: func(r *pbt.Run) {
		for i, n := range []int{0, 1, 7, 4096, 70000} {
			if r.Mine(i) {
				pbt.One(r, kVectorFile, File{"auxiliary/GraphemeBreakTest.txt", n})
			}
		}
		i := 0
		for lo := rune(0); lo < 0x111000; lo += 256 {
			if i++; r.Mine(i) {
				pbt.One(r, kVectorBlock, VectorBlock{lo})
			}
		}
		for _, n := range lineLens {
			for form := range 32 {
				if i++; r.Mine(i) {
					pbt.One(r, kVectorLineLen, LineLen{n, form})
				}
			}
		}
		for _, n := range vectorLens {
			for _, seg := range []int{1, 2, 7, 64, 300, 10000} {
				if i++; r.Mine(i) {
					pbt.One(r, kVectorLen, VectorLen{n, seg})
				}
			}
		}
		for _, c := range manyLines(r) {
			if i++; r.Mine(i) {
				pbt.One(r, kManyVectors, c)
			}
		}
		pbt.Rapid(r, kVectors, r.N(100000, 3000000))
		pbt.Rapid(r, kVectorPair, r.N(20000, 600000))
		pbt.Rapid(r, kGarbledVectors, r.N(80000, 4000000))
	}}

func main() { pbt.Main([]*pbt.Prop{c16, c17, c26}) }
