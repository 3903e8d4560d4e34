package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"slices"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
	"verif/pbt/ref"
)

// ---- C01: conformance of valid text

func checkModel(c Text, o *pbt.Obs) error {
	want := u17.Ends(c.Data)
	classify(c.Data, want, o)
	return expect(c.Data, want)
}

// enumClasses enumerates all class sequences of length n, each position being
// a member of its class chosen by the seed.
func enumClasses(r *pbt.Run, n int, f func(rs []rune) bool) {
	total := 1
	for range n {
		total *= gen.NumClasses
	}
	rs := make([]rune, n)
	for i := 0; i < total; i++ {
		if !r.Mine(i) {
			continue
		}
		x := i
		m := r.Mix(uint64(n)<<56 ^ uint64(i))
		for j := range rs {
			rs[j] = gen.Member(x%gen.NumClasses, int(m%10), int(m>>8%1000003))
			m = m>>7 | m<<57
			x /= gen.NumClasses
		}
		if !f(rs) {
			return
		}
	}
}

var kText = &pbt.Kind[Text]{Name: "text", Check: checkModel, Gen: func(t *rapid.T) Text { return Text{gen.Valid(t, 60)} }}
var kSeq = &pbt.Kind[Text]{Name: "class-sequence", Check: checkModel, Smaller: smallerText}
var kFree = &pbt.Kind[Text]{Name: "characters", Check: checkModel, Gen: func(t *rapid.T) Text {
	n := rapid.IntRange(6, 24).Draw(t, "n")
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = gen.AnyRune(t)
	}
	return Text{[]byte(string(rs))}
}}

// kScan: the same through bufio.Scanner.
var kScanText = &pbt.Kind[Text]{Name: "text-through-scanner", Check: func(c Text, o *pbt.Obs) error {
	want := u17.Ends(c.Data)
	classify(c.Data, want, o)
	all, got, err := stream(bytes.NewReader(c.Data), 16, len(c.Data)+64)
	if err != nil || !bytes.Equal(all, c.Data) {
		return fmt.Errorf("scanner over %s: error %v, text %s", show(c.Data), err, show(all))
	}
	if !eqInts(got, want) {
		return differ("scanner clusters", c.Data, got, want)
	}
	return nil
}, Gen: func(t *rapid.T) Text { return Text{gen.Valid(t, 60)} }}

var kLongText = &pbt.Kind[Text]{Name: "long-text", Check: checkModel, Gen: func(t *rapid.T) Text { return Text{gen.Long(t, 100000, false, true)} }}

// Row is a character before each of the characters that have properties, and
// those before it.
type Row struct {
	Rune rune
}

func (c Row) Show() string { return fmt.Sprintf("U+%04X and each listed character", c.Rune) }

// listed are the characters of every class but the plain and the precomposed
// syllables, with the well-known ones of those.
var listed = func() []rune {
	var out []rune
	for i, c := range gen.Classes {
		if i == gen.Other || i == gen.HLV || i == gen.HLVT {
			out = append(out, c.Known...)
			continue
		}
		out = append(out, c.Runes...)
	}
	return out
}()

// joins[a][b] says whether characters of classes a and b are one cluster.
var joins = func() (m [gen.NumClasses][gen.NumClasses]bool) {
	for i, a := range gen.Classes {
		for j, b := range gen.Classes {
			m[i][j] = len(u17.Ends([]byte(string(a.Rep)+string(b.Rep)))) == 1
		}
	}
	return
}()

var listedUTF8, listedClass = func() (enc []string, cls []int) {
	for _, r := range listed {
		enc = append(enc, string(r))
		cls = append(cls, class(r))
	}
	return
}()

func checkRow(c Row, o *pbt.Obs) error {
	var buf [8]byte
	x := string(c.Rune)
	xc := class(c.Rune)
	o.NonTrivial()
	o.Evals(int64(2*len(listed)) - 1)
	n := copy(buf[:], x)
	for i, y := range listedUTF8 {
		b := buf[:n+copy(buf[n:], y)]
		want := n
		if joins[xc][listedClass[i]] {
			want = len(b)
		}
		if adv, _, err := textseg.ScanGraphemeClusters(b, true); adv != want || err != nil {
			return fmt.Errorf("U+%04X (%v) U+%04X (%v): first cluster of %d bytes (error %v), want %d", c.Rune, u17[c.Rune], listed[i], u17[listed[i]], adv, err, want)
		}
	}
	for i, y := range listedUTF8 {
		k := copy(buf[:], y)
		b := buf[:k+copy(buf[k:], x)]
		want := k
		if joins[listedClass[i]][xc] {
			want = len(b)
		}
		if adv, _, err := textseg.ScanGraphemeClusters(b, true); adv != want || err != nil {
			return fmt.Errorf("U+%04X (%v) U+%04X (%v): first cluster of %d bytes (error %v), want %d", listed[i], u17[listed[i]], c.Rune, u17[c.Rune], adv, err, want)
		}
	}
	return nil
}

var kRow = &pbt.Kind[Row]{Name: "pairs-with-character", Check: checkRow}

// runRows does the rows of the listed characters, or of all that have
// properties, and of every n-th other.
func runRows(r *pbt.Run, n int) {
	i := 0
	for c := rune(0); c <= ref.MaxRune; c++ {
		if !utf8.ValidRune(c) {
			continue
		}
		cl := class(c)
		if (cl == gen.Other || cl == gen.HLV || cl == gen.HLVT) && r.Mix(uint64(c))%uint64(n) != 0 {
			continue
		}
		if i++; r.Mine(i) && !pbt.One(r, kRow, Row{c}) {
			return
		}
	}
	r.Note("%d characters paired with each of %d listed ones, both ways round", i, len(listed))
}

// enumKnown enumerates the sequences of n well-known characters.
func enumKnown(r *pbt.Run, n int, set []rune, f func(rs []rune) bool) {
	total := 1
	for range n {
		total *= len(set)
	}
	rs := make([]rune, n)
	for i := 0; i < total; i++ {
		if !r.Mine(i) {
			continue
		}
		x := i
		for j := range rs {
			rs[j] = set[x%len(set)]
			x /= len(set)
		}
		if !f(rs) {
			return
		}
	}
}

// famous is a short selection of gen.Known, with what the code mentions.
var famous = withMined([]rune{'a', '1', '#', ' ', '\t', '\n', '\r', 0, 0x7f, 0xa0, 0xa9, 0xad, 0x301, 0x34f, 0x600, 0x61c, 0x6dd, 0x903, 0x915, 0x93c, 0x93f, 0x94d, 0x9be, 0x9cd, 0x937, 0xbcd, 0xd4d, 0xd4e, 0xe33, 0xeb3, 0x1039, 0x103a,
	0x1100, 0x115f, 0x1160, 0x1161, 0x11a8, 0xac00, 0xac01, 0xa960, 0x17d2, 0x180e, 0x200b, 0x200c, 0x200d, 0x200e, 0x2028, 0x2029, 0x2060, 0x20e3, 0x2122, 0x2640, 0x2764, 0x302e, 0x3099, 0xfe0e, 0xfe0f, 0xfeff, 0xff9e, 0xfffd,
	0x110bd, 0x1d165, 0x1f1e6, 0x1f1fa, 0x1f1ff, 0x1f308, 0x1f3f3, 0x1f3f4, 0x1f3fb, 0x1f3ff, 0x1f468, 0x1f469, 0xe0001, 0xe0067, 0xe007f, 0xe0100, 0xe0fff, 0x10ffff}, 40)

// mentioned are representatives of the classes and the characters the code
// mentions.
var mentioned = func() []rune {
	var out []rune
	for _, c := range gen.Classes {
		out = append(out, c.Rep)
	}
	return withMined(out, 30)
}()

// withMined adds to set at most n of the characters that the code mentions.
func withMined(set []rune, n int) []rune {
	var add []rune
	for _, r := range gen.Mined.Runes {
		if r >= 0x80 && !slices.Contains(set, r) {
			add = append(add, r)
		}
	}
	for i := range min(n, len(add)) {
		set = append(set, add[i*len(add)/min(n, len(add))])
	}
	return set
}

var kKnown = &pbt.Kind[Text]{Name: "known-sequence", Check: checkModel, Smaller: smallerText}
var kMentioned = &pbt.Kind[Text]{Name: "mentioned-sequence", Check: checkModel, Smaller: smallerText}

var c01 = &pbt.Prop{ID: "C01",
	Rule:  "every sequence of the 18 property classes up to the stated length (members varied by seed), every sequence of 78 well-known characters and up to 40 that the code mentions of length 3 (thorough: 4), every sequence of 4 of class representatives and up to 30 mentioned characters, every ordered pair of characters that have properties (each pair an evaluation), every three of them within 128 code points, fours of them with a mark in the middle, clusters of up to a megabyte, random texts of rule-specific constructs up to 100 KB, and a differential run against ICU; non-trivial = at least two clusters, one of them with several characters, and any row of pairs",
	Kinds: []pbtKind{pbt.K(kText), pbt.K(kSeq), pbt.K(kFree), pbt.K(kScanText), pbt.K(kICU), pbt.K(kLongText), pbt.K(kRow), pbt.K(kKnown), pbt.K(kGiantAll), pbt.K(kTriples), pbt.K(kQuads), pbt.K(kMentioned)},
	Run: func(r *pbt.Run) {
		maxLen := r.Pick(5, 7)
		for n := 1; n <= maxLen && !r.Failed(); n++ {
			enumClasses(r, n, func(rs []rune) bool { return pbt.One(r, kSeq, Text{[]byte(string(rs))}) })
		}
		r.Note("all class sequences up to length %d", maxLen)
		enumKnown(r, r.Pick(3, 4), famous, func(rs []rune) bool { return pbt.One(r, kKnown, Text{[]byte(string(rs))}) })
		enumKnown(r, 4, mentioned, func(rs []rune) bool { return pbt.One(r, kMentioned, Text{[]byte(string(rs))}) })
		runRows(r, r.Pick(400, 8))
		runTriples(r, r.Pick(16, 1))
		runQuads(r, r.Pick(32, 1))
		pbt.Rapid(r, kText, r.N(600000, 8000000))
		pbt.Rapid(r, kFree, r.N(600000, 8000000))
		pbt.Rapid(r, kScanText, r.N(120000, 1000000))
		pbt.Rapid(r, kLongText, r.N(8000, 100000))
		pbt.Rapid(r, kGiantAll, r.N(240, 8000))
		runICU(r)
	}}

// ---- C02: lossless partition

func checkPartition(c Text, o *pbt.Obs) error {
	data := []byte(c.Data)
	ends, err := oneShot(data)
	if err != nil {
		return err
	}
	if len(data) > 0 && (len(ends) == 0 || ends[len(ends)-1] != len(data)) {
		return fmt.Errorf("clusters of %s cover only %v", show(data), ends)
	}
	classify(data, ends, o)
	wf := bytes.Equal(bytes.ToValidUTF8(data, nil), data)
	o.If(!wf, "not valid UTF-8")
	o.If(!ref.InDomain(data), "overlong/surrogate/out-of-range")
	if len(data) > 1 && !wf {
		o.NonTrivial()
	}
	// Calls before end of input: at every cluster start, and on every short prefix.
	prev := 0
	for _, e := range append([]int{0}, ends...) {
		if err := notEOF(data[e:]); err != nil {
			return err
		}
		prev = e
	}
	_ = prev
	for n := 0; n <= min(len(data), 24); n++ {
		if err := notEOF(data[:n]); err != nil {
			return err
		}
	}
	for _, eof := range []bool{false, true} {
		for _, b := range [][]byte{nil, {}, data[:0], data[len(data):]} {
			if a, tok, err := textseg.ScanGraphemeClusters(b, eof); a != 0 || tok != nil || err != nil {
				return fmt.Errorf("empty buffer, atEOF=%v: got %d, %v, %v", eof, a, tok, err)
			}
		}
	}
	all, sends, serr := stream(bytes.NewReader(data), 1, len(data)+64)
	if serr != nil {
		return fmt.Errorf("scanner over %s: %v", show(data), serr)
	}
	if !bytes.Equal(all, data) {
		return fmt.Errorf("scanner over %s delivered %s", show(data), show(all))
	}
	for i, e := range sends {
		if e == 0 || i > 0 && e == sends[i-1] {
			return fmt.Errorf("scanner over %s: empty token %d", show(data), i)
		}
	}
	return nil
}

func notEOF(p []byte) error {
	adv, tok, err := textseg.ScanGraphemeClusters(p, false)
	if err != nil {
		return fmt.Errorf("%s before EOF: error %v", show(p), err)
	}
	if adv < 0 || adv > len(p) {
		return fmt.Errorf("%s before EOF: advance %d", show(p), adv)
	}
	if adv == 0 && tok != nil {
		return fmt.Errorf("%s before EOF: token %s without advance", show(p), show(tok))
	}
	if adv > 0 && (tok == nil || !bytes.Equal(tok, p[:adv])) {
		return fmt.Errorf("%s before EOF: advance %d with token %s", show(p), adv, show(tok))
	}
	return nil
}

var kBytes = &pbt.Kind[Text]{Name: "bytes", Check: checkPartition, Gen: func(t *rapid.T) Text { return Text{gen.Bytes(t, 40, true)} }}
var kRaw = &pbt.Kind[Text]{Name: "raw-bytes", Check: checkPartition, Gen: func(t *rapid.T) Text {
	return Text{rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b")}
}}
var kLongBytes = &pbt.Kind[Text]{Name: "long-bytes", Check: checkPartition, Gen: func(t *rapid.T) Text { return Text{gen.Long(t, 100000, true, false)} }}
var kByteSeq = &pbt.Kind[Text]{Name: "byte-sequence", Check: checkPartition, Smaller: smallerText}

// alphabet4 are the bytes that differ in role for the decoder or the trie.
var alphabet3 = []byte{0, '\n', '\r', 'a', 0x7f, 0x80, 0x8c, 0x8d, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xcc, 0xd8, 0xdf, 0xe0, 0xe1, 0xe2,
	0xea, 0xed, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfe, 0xff}

var c02 = &pbt.Prop{ID: "C02",
	Rule:  "all byte strings of length 1 and 2, all lead bytes with all pairs of following bytes (4-byte leads: with further continuation bytes), all strings over a role alphabet, random mixtures of text and garbage up to 100 KB; non-trivial = ill-formed and longer than a byte, or several clusters with a multi-character one",
	Kinds: []pbtKind{pbt.K(kBytes), pbt.K(kRaw), pbt.K(kByteSeq), pbt.K(kLongBytes), pbt.K(kGiantBytes), pbt.K(kVastBuffer)},
	Run: func(r *pbt.Run) {
		i := 0
		do := func(b ...byte) bool {
			i++
			if !r.Mine(i) {
				return true
			}
			return pbt.One(r, kByteSeq, Text{append([]byte{}, b...)})
		}
		do()
		for a := 0; a < 256; a++ {
			do(byte(a))
			for b := 0; b < 256; b++ {
				if !do(byte(a), byte(b)) {
					return
				}
			}
		}
		// Every structurally complete 3- and 4-byte sequence class: all
		// leads, all first two continuation bytes.
		for a := 0xe0; a < 0xf8; a++ {
			for b := 0x80; b < 0xc0; b++ {
				for c := 0x80; c < 0xc0; c++ {
					if a < 0xf0 {
						if !do(byte(a), byte(b), byte(c)) {
							return
						}
						continue
					}
					for _, d := range []byte{0x80, 0x9f, 0xbf} {
						if !do(byte(a), byte(b), byte(c), d) {
							return
						}
					}
				}
			}
		}
		al := alphabet3
		n := r.Pick(3, 4)
		var rec func(p []byte) bool
		rec = func(p []byte) bool {
			if len(p) >= 3 && !do(p...) {
				return false
			}
			if len(p) == n {
				return true
			}
			for _, b := range al {
				if !rec(append(p[:len(p):len(p)], b)) {
					return false
				}
			}
			return true
		}
		rec(nil)
		pbt.Rapid(r, kBytes, r.N(600000, 8000000))
		pbt.Rapid(r, kRaw, r.N(240000, 4000000))
		pbt.Rapid(r, kLongBytes, r.N(6000, 80000))
		pbt.Rapid(r, kGiantBytes, r.N(320, 9600))
		runVastBuffer(r)
	}}

// ---- C03: independence of arrival

type Chunks struct {
	Data    pbt.Blob
	Repeat  int // data is repeated this often
	Reads   []int
	EOFWith bool
	Fault   bool // the reader fails instead of ending
	Initial int  // initial buffer; -1 default
	Slack   int  // limit = longest cluster + 5 + Slack; -1: unlimited; < -1: limit = -Slack
}

func (c Chunks) Show() string {
	return fmt.Sprintf("%s x%d reads=%v eofWithData=%v fault=%v buffer=%d slack=%d", show(c.Data), c.Repeat, c.Reads, c.EOFWith, c.Fault, c.Initial, c.Slack)
}

func checkChunks(c Chunks, o *pbt.Obs) error {
	data := bytes.Repeat(c.Data, max(1, c.Repeat))
	want, err := oneShot(data)
	if err != nil {
		return err
	}
	if ref.InDomain(data) && len(data) < 4096 {
		if m := u17.Ends(data); !eqInts(want, m) {
			return differ("clusters of the whole text", data, want, m)
		}
	}
	longest, prev := 0, 0
	for _, e := range want {
		longest = max(longest, e-prev)
		prev = e
	}
	final := io.EOF
	if c.Fault {
		final = errInjected
	}
	limit := len(data) + 64
	tight := false
	if c.Initial < 0 && longest > 1<<15 {
		c.Initial = 4096 // beyond what the scanner's default buffer can hold
	}
	switch {
	case c.Slack >= 0:
		limit = longest + 5 + c.Slack
	case c.Slack < -1:
		limit = -c.Slack
		tight = limit < longest+5
	}
	classify(data, want, o)
	o.If(c.Fault, "reader fault")
	o.If(tight, "buffer limit below longest cluster")
	o.If(!ref.InDomain(data), "overlong/surrogate/out-of-range")
	o.If(c.Repeat > 1, "long stream")
	split := false
	pos := 0
	for i := 0; i < 4096 && len(c.Reads) > 0 && pos < len(data); i++ {
		pos += c.Reads[i%len(c.Reads)]
		if pos < len(data) && data[pos]&0xc0 == 0x80 {
			split = true
		}
	}
	o.If(split, "read ends inside a character")
	rd := &chunkReader{data: data, sizes: c.Reads, eofWith: c.EOFWith, final: final}
	all, got, serr := stream(rd, c.Initial, limit)
	if tight && serr == bufio.ErrTooLong {
		o.Class("ErrTooLong")
		if len(got) > len(want) || !eqInts(got, want[:len(got)]) || !bytes.Equal(all, data[:len(all)]) {
			return differ("clusters before ErrTooLong", data, got, want[:min(len(got), len(want))])
		}
		return nil
	}
	wantErr := error(nil)
	if c.Fault {
		wantErr = errInjected
	}
	if serr != wantErr {
		return fmt.Errorf("scanner error %v, want %v, after %d of %d bytes (limit %d, longest cluster %d) of %s", serr, wantErr, len(all), len(data), limit, longest, show(data))
	}
	if !bytes.Equal(all, data) {
		return fmt.Errorf("scanner delivered %s of %s", show(all), show(data))
	}
	if !eqInts(got, want) {
		return differ("streamed clusters", data, got, want)
	}
	return nil
}

func genReads(t *rapid.T) []int {
	switch gen.Uniform(t, 6) {
	case 0:
		return []int{1}
	case 1:
		return nil
	case 2:
		return []int{rapid.IntRange(2, 9).Draw(t, "size")}
	default:
		s := rapid.SliceOfN(rapid.IntRange(0, 12), 1, 8).Draw(t, "sizes")
		return append(s, rapid.IntRange(1, 5).Draw(t, "last"))
	}
}

var kChunks = &pbt.Kind[Chunks]{Name: "chunks", Check: checkChunks, Gen: func(t *rapid.T) Chunks {
	c := Chunks{Data: gen.Bytes(t, 40, true), Repeat: 1, Reads: genReads(t), EOFWith: rapid.Bool().Draw(t, "eofWith"),
		Fault: gen.Uniform(t, 4) == 3, Initial: rapid.IntRange(-1, 24).Draw(t, "initial")}
	switch gen.Uniform(t, 4) {
	case 0, 1:
		c.Slack = -1
	case 2:
		c.Slack = gen.Uniform(t, 7)
	default:
		c.Slack = -2 - gen.Uniform(t, 21)
	}
	if c.Slack != -1 && c.Initial < 0 {
		c.Initial = 1
	}
	if c.Slack < -1 && c.Initial > -c.Slack {
		c.Initial = 1
	}
	return c
}}
var kLongStream = &pbt.Kind[Chunks]{Name: "long-stream", Check: checkChunks, Gen: func(t *rapid.T) Chunks {
	d := gen.Bytes(t, 20, true)
	if len(d) == 0 {
		d = []byte("a")
	}
	size := 4000 + gen.Uniform(t, 146000)
	c := Chunks{Data: d, Repeat: size/len(d) + 1, EOFWith: rapid.Bool().Draw(t, "eofWith"), Initial: -1, Slack: -1}
	switch gen.Uniform(t, 5) {
	case 4:
		c.Reads = []int{max(gen.MinedSize(t, 10000, 4095), 200)}
		c.Initial = gen.MinedSize(t, 10000, 4097)
	case 0:
	case 1:
		c.Reads = []int{rapid.IntRange(500, 5000).Draw(t, "size")}
	case 2:
		c.Reads = []int{4096}
	default:
		c.Reads = rapid.SliceOfN(rapid.IntRange(1, 3000), 1, 6).Draw(t, "sizes")
	}
	// Repeating marks could make one cluster longer than the default buffer.
	longest, prev := 0, 0
	for _, e := range u17.Ends(bytes.Repeat(d, 12)) {
		longest, prev = max(longest, e-prev), e
	}
	if longest > 6*len(d) {
		c.Initial = 4096
		// Every read makes the scanner look at the whole cluster again.
		for i := range c.Reads {
			c.Reads[i] += 1000
		}
	}
	return c
}}
var kSplit = &pbt.Kind[Chunks]{Name: "all-splits", Check: func(c Chunks, o *pbt.Obs) error {
	return checkChunks(c, o)
}, Smaller: func(c Chunks) []Chunks {
	var out []Chunks
	for _, t := range smallerText(Text{c.Data}) {
		d := c
		d.Data = t.Data
		out = append(out, d)
	}
	return out
}}

var kSplitKnown = &pbt.Kind[Chunks]{Name: "all-splits-of-known-sequence", Check: checkChunks, Smaller: kSplit.Smaller}

type pbtKind = pbt.AnyKind

var c03 = &pbt.Prop{ID: "C03",
	Rule:  "all class sequences of length <= 3 delivered byte by byte and split in two at every byte, all sequences of 2 (thorough: 3) well-known characters split at every byte, random byte strings with random read sizes, buffer sizes, limits, EOF styles and read faults, long streams through the default scanner, and two or three streams read in turns or one after another through one buffer; non-trivial = several clusters, one of them with several characters, or a second stream read",
	Kinds: []pbtKind{pbt.K(kChunks), pbt.K(kLongStream), pbt.K(kSplit), pbt.K(kSplitKnown), pbt.K(kGiantStream), pbt.K(kStreams)},
	Run: func(r *pbt.Run) {
		for n := 1; n <= r.Pick(3, 4); n++ {
			ok := true
			enumClasses(r, n, func(rs []rune) bool {
				b := []byte(string(rs))
				ok = pbt.One(r, kSplit, Chunks{Data: b, Repeat: 1, Reads: []int{1}, Initial: 1, Slack: 0})
				for i := 1; i < len(b) && ok && n <= 3; i++ {
					ok = pbt.One(r, kSplit, Chunks{Data: b, Repeat: 1, Reads: []int{i, 1 << 20}, Initial: -1, Slack: -1, EOFWith: i%2 == 0})
				}
				return ok
			})
			if !ok {
				return
			}
		}
		enumKnown(r, r.Pick(2, 3), famous, func(rs []rune) bool {
			b := []byte(string(rs))
			ok := true
			for i := 1; i < len(b) && ok; i++ {
				ok = pbt.One(r, kSplitKnown, Chunks{Data: b, Repeat: 1, Reads: []int{i, 1 << 20}, Initial: 4, Slack: i % 3, EOFWith: i%2 == 0})
			}
			return ok
		})
		pbt.Rapid(r, kChunks, r.N(720000, 8000000))
		pbt.Rapid(r, kLongStream, r.N(4800, 60000))
		pbt.Rapid(r, kStreams, r.N(240000, 4000000))
		pbt.Rapid(r, kGiantStream, r.N(240, 7200))
	}}

// ---- C04: ill-formed bytes

func checkIllFormed(c Text, o *pbt.Obs) error {
	if !ref.InDomain(c.Data) {
		return nil // unspecified
	}
	want := u17.Ends(c.Data)
	bad := !bytes.Equal(bytes.ToValidUTF8(c.Data, nil), c.Data)
	o.If(bad, "has ill-formed bytes")
	if len(c.Data) > 0 {
		st, _ := ref.FirstUnit(c.Data)
		o.If(st == ref.Incomplete, "begins with incomplete sequence")
		tail := c.Data[max(0, len(c.Data)-3):]
		for i := range tail {
			if s, _ := ref.FirstUnit(tail[i:]); s == ref.Incomplete {
				o.Class("ends with incomplete sequence")
				break
			}
		}
	}
	if bad && len(want) > 1 {
		o.NonTrivial()
	}
	if err := expect(c.Data, want); err != nil {
		return err
	}
	reads := []int{1}
	if len(c.Data) > 2000 { // byte by byte would be quadratic
		reads = []int{len(c.Data) / 50, 1, 2, 3}
	}
	all, got, err := stream(&chunkReader{data: c.Data, sizes: reads, final: io.EOF}, 1, len(c.Data)+64)
	if err != nil || !bytes.Equal(all, c.Data) || !eqInts(got, want) {
		return fmt.Errorf("streamed: error %v; %w", err, differ("clusters", c.Data, got, want))
	}
	return nil
}

var kIll = &pbt.Kind[Text]{Name: "ill-formed", Check: checkIllFormed, Gen: func(t *rapid.T) Text { return Text{gen.Bytes(t, 40, false)} }}
var kDamaged = &pbt.Kind[Text]{Name: "damaged-text", Check: checkIllFormed, Gen: func(t *rapid.T) Text {
	b := gen.Valid(t, 20)
	for range rapid.IntRange(1, 3).Draw(t, "damage") {
		if len(b) == 0 {
			break
		}
		i := gen.Uniform(t, len(b))
		switch gen.Uniform(t, 4) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] ^= byte(1 << gen.Uniform(t, 8))
		case 2:
			b = b[:i]
		case 3:
			b = append(append(b[:i:i], byte(gen.Uniform(t, 256))), b[i:]...)
		}
	}
	return Text{gen.Tame(b)}
}}
var kIllLong = &pbt.Kind[Text]{Name: "long-ill-formed", Check: checkIllFormed, Gen: func(t *rapid.T) Text { return Text{gen.Long(t, 60000, false, false)} }}
var kIllSeq = &pbt.Kind[Text]{Name: "unit-sequence", Check: checkIllFormed, Smaller: func(c Text) []Text {
	var out []Text
	for _, b := range pbt.SmallerBytes(c.Data) {
		out = append(out, Text{b})
	}
	return out
}}

// units of the C04 enumeration: characters of each role and every kind of
// ill-formed or truncated unit.
var illUnits = []string{"a", "\r", "\n", "\u0300", "\u200d", "\u0600", "\u1100", "\uac00", "\U0001F1E6", "\u00a9", "\u0915", "\u094d",
	"\x80", "\xbf", "\xff", "\xf8", "\xc3", "\xcc", "\xe2", "\xe2\x80", "\xe0\xa5", "\xf0", "\xf0\x9f", "\xf0\x9f\x87", "\xc0", "\xf5"}

var c04 = &pbt.Prop{ID: "C04",
	Rule:  "all sequences up to length 4 of characters of every role and ill-formed or truncated units, every byte and byte pair between characters, every impossible byte and every truncation of well-known characters between any two of them, random damaged texts up to 60 KB; overlong, surrogate and out-of-range encodings excluded by construction; non-trivial = has an ill-formed byte and more than one cluster",
	Kinds: []pbtKind{pbt.K(kIll), pbt.K(kDamaged), pbt.K(kIllSeq), pbt.K(kIllLong), pbt.K(kGiantIll)},
	Run: func(r *pbt.Run) {
		i := 0
		do := func(s string) bool {
			i++
			if !r.Mine(i) || !ref.InDomain([]byte(s)) {
				return true
			}
			return pbt.One(r, kIllSeq, Text{[]byte(s)})
		}
		n := r.Pick(4, 5)
		var rec func(s string, k int) bool
		rec = func(s string, k int) bool {
			if k > 0 && !do(s) {
				return false
			}
			if k == n {
				return true
			}
			for _, u := range illUnits {
				if !rec(s+u, k+1) {
					return false
				}
			}
			return true
		}
		if !rec("", 0) {
			return
		}
		for a := 0; a < 256; a++ {
			for b := 0; b < 256; b++ {
				for _, ctx := range [][2]string{{"", ""}, {"e", "\u0301"}, {"\U0001F1E6", "\U0001F1E7"}, {"\u0600", "\u0300"}} {
					if !do(ctx[0] + string([]byte{byte(a), byte(b)}) + ctx[1]) {
						return
					}
				}
			}
		}
		// Ill-formed bytes and cut characters between well-known ones. No
		// sequence above has two of these: all are distinct.
		var cuts []string
		for _, c := range []rune{0xa9, 0x301, 0x94d, 0x200d, 0xac01, 0xfeff, 0xfffd, 0x1f1e6, 0x1f468, 0xe0067, 0x10ffff} {
			s := string(c)
			for k := 1; k < len(s); k++ {
				cuts = append(cuts, s[:k])
			}
			if len(s) > 2 {
				cuts = append(cuts, s[1:], s[2:])
			}
		}
		for _, a := range famous {
			for _, c := range cuts {
				for _, b := range famous {
					if i++; r.Mine(i) && !pbt.One(r, kIllSeq, Text{[]byte("\u3042" + string(a) + c + string(b))}) {
						return
					}
				}
			}
		}
		pbt.Rapid(r, kIll, r.N(600000, 8000000))
		pbt.Rapid(r, kDamaged, r.N(600000, 8000000))
		pbt.Rapid(r, kIllLong, r.N(6000, 80000))
		pbt.Rapid(r, kGiantIll, r.N(320, 9600))
	}}

// ---- C05: incremental calls

type Incr struct {
	Data     pbt.Blob
	Suffixes []pbt.Blob
}

func (c Incr) Show() string {
	s := show(c.Data) + " then any of"
	for _, x := range c.Suffixes {
		s += " " + show(x)
	}
	return s
}

// completions are characters of every class whose encoding extends a partial
// sequence.
func completions(part []byte) [][]byte {
	var out [][]byte
	for _, cl := range gen.Classes {
		n := 0
		for _, set := range [][]rune{{cl.Rep}, cl.Edges, cl.Runes} {
			for _, r := range set {
				if s := string(r); len(s) > len(part) && s[:len(part)] == string(part) {
					out = append(out, []byte(s[len(part):]))
					if n++; n >= 2 {
						break
					}
				}
			}
			if n >= 2 {
				break
			}
		}
	}
	return out
}

var completionCache = map[string][][]byte{}

var repSuffixes = func() [][]byte {
	out := [][]byte{{}, {0xff}, {0x80}, {0xbf, 0xbf, 0xbf}}
	for _, cl := range gen.Classes {
		out = append(out, []byte(string(cl.Rep)))
	}
	return out
}()

func checkIncr(c Incr, o *pbt.Obs) error {
	full := []byte(c.Data)
	first := 0
	if len(full) > 48 {
		first = u17.Ends(full)[0]
	}
	var buffer []byte // filled again and again, as a reader's is
	for n := 0; n <= len(full); n++ {
		if n > 48 && n < len(full)-6 && (n < first-6 || n > first+6) && n&(n-1) != 0 && (n+1)&n != 0 && uint64(n)*2654435761>>7%uint64(len(full)/8) != 0 {
			continue // of a long text: its ends, around its first boundary, powers of two, and eight others or so
		}
		o.Evals(1)
		p := full[:n:n]
		adv, tok, err := textseg.ScanGraphemeClusters(p, false)
		if err != nil {
			return fmt.Errorf("%s before EOF: error %v", show(p), err)
		}
		if adv < 0 || adv > n || (adv == 0) != (tok == nil) || adv > 0 && !bytes.Equal(tok, p[:adv]) {
			return fmt.Errorf("%s before EOF: got %d, %s", show(p), adv, show(tok))
		}
		if n > 0 {
			a2, t2, e2 := textseg.ScanGraphemeClusters(p, true)
			if a2 < 1 || a2 > n || e2 != nil || !bytes.Equal(t2, p[:a2]) {
				return fmt.Errorf("%s at EOF: got %d, %s, %v", show(p), a2, show(t2), e2)
			}
		}
		// q: the complete units of p; part: an incomplete sequence at its end.
		q := 0
		ill := 0
		for q < n {
			st, k := ref.FirstUnit(p[q:])
			if st == ref.Incomplete {
				break
			}
			if st == ref.IllFormed {
				ill++
			}
			q += k
		}
		part := p[q:]
		if !ref.InDomain(p[:q]) {
			o.Class("unspecified encodings: finality only")
		} else {
			ends := u17.Ends(p[:q])
			if len(ends) >= 2 {
				o.Class("boundary decided")
				o.NonTrivial()
				if adv == 0 {
					return fmt.Errorf("%s before EOF: asks for more data, but the first cluster %s and what follows it are complete", show(p), show(p[:ends[0]]))
				}
				if adv != ends[0] {
					return fmt.Errorf("%s before EOF: returned %s, want %s", show(p), show(tok), show(p[:ends[0]]))
				}
				continue
			}
			if ill == 0 && n > 0 {
				o.Class("boundary undecided")
				// The bytes end inside the cluster, or inside the character
				// that follows it; returning is right only if final.
				if len(part) > 0 {
					o.Class("ends inside a character")
				}
				if len(part) > 0 && adv != 0 {
					return fmt.Errorf("%s before EOF: returned %s although the bytes end inside a character", show(p), show(tok))
				}
			}
		}
		if adv == 0 {
			continue
		}
		// It returned early: no continuation may change that.
		o.Class("early return checked against continuations")
		var sufs [][]byte
		for _, s := range c.Suffixes {
			sufs = append(sufs, s)
		}
		if n < len(full) {
			sufs = append(sufs, full[n:])
		}
		sufs = append(sufs, repSuffixes...)
		if len(part) > 0 {
			cs, ok := completionCache[string(part)]
			if !ok {
				cs = completions(part)
				completionCache[string(part)] = cs
			}
			sufs = append(sufs, cs...)
		}
		for _, s := range sufs {
			whole := append(append(buffer[:0], p...), s...)
			buffer = whole
			a2, _, _ := textseg.ScanGraphemeClusters(whole, true)
			if a2 != adv {
				return fmt.Errorf("%s before EOF: returned %s, but followed by %s the cluster is %s", show(p), show(tok), show(s), show(whole[:max(0, min(a2, len(whole)))]))
			}
			if ref.InDomain(whole) {
				if e := u17.Ends(whole); e[0] != adv {
					return fmt.Errorf("%s before EOF: returned %s, but followed by %s the cluster must be %s", show(p), show(tok), show(s), show(whole[:e[0]]))
				}
			}
		}
	}
	// A window moved along the text in one buffer.
	for _, k := range []int{3, 8, 20} {
		if len(full) <= k || len(full) > 200 {
			break
		}
		var want []int
		for pos := 0; pos+k <= len(full); pos++ {
			n, _, _ := textseg.ScanGraphemeClusters(full[pos:pos+k:pos+k], false)
			want = append(want, n)
		}
		window := make([]byte, k)
		for pos, want := range want {
			copy(window, full[pos:])
			whole := window // but for a character that isn't complete
			for i := range min(3, k) {
				if st, _ := ref.FirstUnit(window[k-1-i:]); st == ref.Incomplete {
					whole = window[:k-1-i]
				}
			}
			if !utf8.Valid(whole) {
				continue // whether it waits is not always specified
			}
			if got, _, err := textseg.ScanGraphemeClusters(window, false); got != want || err != nil {
				return fmt.Errorf("%s before EOF: returned %d bytes, but in a buffer that held other text before, %d and error %v", show(window), want, got, err)
			}
		}
	}
	return nil
}

var kIncr = &pbt.Kind[Incr]{Name: "prefixes", Check: checkIncr, Gen: func(t *rapid.T) Incr {
	var c Incr
	switch gen.Uniform(t, 4) {
	case 0, 1:
		c.Data = gen.Valid(t, 20)
	case 2:
		c.Data = gen.Bytes(t, 20, false)
	default:
		c.Data = gen.Bytes(t, 20, true)
	}
	for range gen.Uniform(t, 3) {
		c.Suffixes = append(c.Suffixes, gen.Bytes(t, 4, true))
	}
	return c
}}
var kIncrSeq = &pbt.Kind[Incr]{Name: "prefixes-of-class-sequence", Check: checkIncr, Smaller: func(c Incr) []Incr {
	var out []Incr
	for _, t := range smallerText(Text{c.Data}) {
		out = append(out, Incr{Data: t.Data, Suffixes: c.Suffixes})
	}
	return out
}}

var kIncrKnown = &pbt.Kind[Incr]{Name: "prefixes-of-known-sequence", Check: checkIncr, Smaller: kIncrSeq.Smaller}
var kIncrLong = &pbt.Kind[Incr]{Name: "prefixes-of-long-text", Check: checkIncr, Gen: func(t *rapid.T) Incr {
	c := Incr{Data: gen.Long(t, 6000, true, gen.Uniform(t, 2) == 0)}
	if gen.Uniform(t, 2) == 0 { // one long cluster
		c.Data = []byte(string(gen.AnyRune(t)) + string(bytes.Repeat([]byte(string(gen.Marks(t, 1, 3))), 1+gen.Uniform(t, 700))) + string(gen.Valid(t, 3)))
	}
	return c
}}

var c05 = &pbt.Prop{ID: "C05",
	Rule:  "every byte prefix (of texts over 48 bytes: the first 48, the last 6, those near the first boundary and some others) of all class sequences up to the stated length, of all pairs (thorough: triples) of well-known characters, of all short sequences with ill-formed units and of random texts up to 6 KB, with every class and every completion of a partial character as continuation; each prefix is an evaluation; non-trivial case = some prefix decides the first boundary",
	Kinds: []pbtKind{pbt.K(kIncr), pbt.K(kIncrSeq), pbt.K(kIncrKnown), pbt.K(kIncrLong), pbt.K(kGiantIncr)},
	Run: func(r *pbt.Run) {
		for n := 1; n <= r.Pick(4, 5); n++ {
			enumClasses(r, n, func(rs []rune) bool { return pbt.One(r, kIncrSeq, Incr{Data: []byte(string(rs))}) })
		}
		i := 0
		for _, a := range illUnits {
			for _, b := range illUnits {
				for _, c := range illUnits {
					i++
					if r.Mine(i) && !r.Failed() {
						pbt.One(r, kIncrSeq, Incr{Data: []byte(a + b + c)})
					}
				}
			}
		}
		enumKnown(r, r.Pick(2, 3), famous, func(rs []rune) bool { return pbt.One(r, kIncrKnown, Incr{Data: []byte(string(rs))}) })
		pbt.Rapid(r, kIncr, r.N(480000, 6000000))
		pbt.Rapid(r, kIncrLong, r.N(16000, 200000))
		pbt.Rapid(r, kGiantIncr, r.N(320, 9600))
	}}

// ---- C07: cutting and appending

type Cut struct {
	A, B pbt.Blob
}

func (c Cut) Show() string { return show(c.A) + " + " + show(c.B) }

func checkCut(c Text, o *pbt.Obs) error {
	data := []byte(c.Data)
	ends, err := oneShot(data)
	if err != nil {
		return err
	}
	classify(data, ends, o)
	cuts := ends
	if len(cuts) > 24 {
		cuts = append(append([]int{}, cuts[:12]...), cuts[len(cuts)-12:]...)
	}
	buffer := make([]byte, len(data)) // the pieces one after another in one buffer, as if read
	for _, cut := range cuts {
		o.Evals(1)
		head, err := oneShot(buffer[:copy(buffer, data[:cut])])
		if err != nil {
			return err
		}
		tail, err := oneShot(buffer[:copy(buffer, data[cut:])])
		if err != nil {
			return err
		}
		for _, e := range tail {
			head = append(head, cut+e)
		}
		if !eqInts(head, ends) {
			return fmt.Errorf("cut at boundary %d: %w", cut, differ("clusters of the pieces", data, head, ends))
		}
	}
	return nil
}

func checkAppend(c Cut, o *pbt.Obs) error {
	whole := append(append([]byte{}, c.A...), c.B...)
	a, err := oneShot(whole[:len(c.A)]) // the rest is there already, but not to be looked at
	if err != nil {
		return err
	}
	w, err := oneShot(whole)
	if err != nil {
		return err
	}
	classify(whole, w, o)
	inner := a[:max(0, len(a)-1)]
	if len(w) < len(inner) || !eqInts(w[:len(inner)], inner) {
		return fmt.Errorf("appending %s to %s moved a boundary inside it:\n before %s\n after  %s", show(c.B), show(c.A), pieces(c.A, a), pieces(whole, w))
	}
	if len(w) > len(inner) && w[len(inner)] < len(c.A) {
		return fmt.Errorf("appending %s to %s added a boundary inside it:\n before %s\n after  %s", show(c.B), show(c.A), pieces(c.A, a), pieces(whole, w))
	}
	return nil
}

var kCut = &pbt.Kind[Text]{Name: "cut", Check: checkCut, Gen: func(t *rapid.T) Text {
	if rapid.Bool().Draw(t, "valid") {
		return Text{gen.Valid(t, 30)}
	}
	return Text{gen.Bytes(t, 30, true)}
}}
var kCutSeq = &pbt.Kind[Text]{Name: "cut-class-sequence", Check: checkCut, Smaller: smallerText}
var kAppend = &pbt.Kind[Cut]{Name: "append", Check: checkAppend, Gen: func(t *rapid.T) Cut {
	return Cut{gen.Valid(t, 20), gen.Bytes(t, 8, true)}
}}

var kCutKnown = &pbt.Kind[Text]{Name: "cut-known-sequence", Check: checkCut, Smaller: smallerText}
var kCutLong = &pbt.Kind[Text]{Name: "cut-long", Check: checkCut, Gen: func(t *rapid.T) Text { return Text{gen.Long(t, 20000, true, gen.Uniform(t, 2) == 0)} }}
var kAppendLong = &pbt.Kind[Cut]{Name: "append-to-long", Check: checkAppend, Gen: func(t *rapid.T) Cut {
	return Cut{gen.Long(t, 20000, false, true), gen.Bytes(t, 8, true)}
}}

var c07 = &pbt.Prop{ID: "C07",
	Rule:  "all class sequences up to the stated length, all triples of well-known characters and random texts (also ill-formed) up to 20 KB, each cut at every reported boundary (each cut an evaluation); random texts with text appended, and pairs of classes filled up to every buffer length to 1000 (thorough: 6000) bytes and to sizes the code mentions; non-trivial = something was appended, or several clusters, one of them with several characters",
	Kinds: []pbtKind{pbt.K(kCut), pbt.K(kCutSeq), pbt.K(kAppend), pbt.K(kCutKnown), pbt.K(kCutLong), pbt.K(kAppendLong), pbt.K(kGiantCut), pbt.K(kFilled)},
	Run: func(r *pbt.Run) {
		for n := 1; n <= r.Pick(4, 5); n++ {
			enumClasses(r, n, func(rs []rune) bool { return pbt.One(r, kCutSeq, Text{[]byte(string(rs))}) })
		}
		enumKnown(r, r.Pick(3, 4), famous, func(rs []rune) bool { return pbt.One(r, kCutKnown, Text{[]byte(string(rs))}) })
		runFilled(r)
		pbt.Rapid(r, kCut, r.N(480000, 6000000))
		pbt.Rapid(r, kAppend, r.N(720000, 8000000))
		pbt.Rapid(r, kCutLong, r.N(6000, 80000))
		pbt.Rapid(r, kAppendLong, r.N(6000, 80000))
		pbt.Rapid(r, kGiantCut, r.N(320, 9600))
	}}
