// Command tokens checks AllTokens, TokenCount and ScanUTF8Sequences.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"unicode/utf8"

	"pgregory.net/rapid"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"
	v17 "github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// Buffer is Unit repeated Reps times, then Tail.
type Buffer struct {
	Unit pbt.Blob
	Reps int
	Tail pbt.Blob
}

func (b Buffer) bytes() []byte { return append(bytes.Repeat(b.Unit, b.Reps), b.Tail...) }

func (b Buffer) String() string {
	return fmt.Sprintf("%+.60q x%d + %+.60q", []byte(b.Unit), b.Reps, []byte(b.Tail))
}

type Case struct {
	Buffer
	Split string
	N     int    // parameter of the split function
	Next  Buffer // what is scanned next, while the tokens are still in use
}

func (c Case) Show() string { return fmt.Sprintf("%s(%d) over %v", c.Split, c.N, c.Buffer) }

var errSplit = errors.New("verif: split function failed")

// splits makes fresh split functions. Their state, if any, depends on the
// tokens delivered only, not on how often more data had to be asked for.
var splits = map[string]func(n int) bufio.SplitFunc{
	"ScanGraphemeClusters":         func(int) bufio.SplitFunc { return auto.ScanGraphemeClusters },
	"v17.ScanGraphemeClusters":     func(int) bufio.SplitFunc { return v17.ScanGraphemeClusters },
	"ScanUTF8Sequences":            func(int) bufio.SplitFunc { return auto.ScanUTF8Sequences },
	"bufio.ScanBytes":              func(int) bufio.SplitFunc { return bufio.ScanBytes },
	"bufio.ScanRunes":              func(int) bufio.SplitFunc { return bufio.ScanRunes },
	"bufio.ScanWords":              func(int) bufio.SplitFunc { return bufio.ScanWords },
	"bufio.ScanLines":              func(int) bufio.SplitFunc { return bufio.ScanLines },
	"fixed size":                   fixed,
	"everything":                   func(int) bufio.SplitFunc { return whole },
	"skipping":                     skipping,
	"empty tokens":                 emptyTokens,
	"growing size":                 growing,
	"error after":                  errorAfter,
	"final token after":            finalAfter,
	"stop without token after":     stopAfter,
	"fresh tokens":                 fresh,
	"tokens in its own buffer":     ownBuffer,
	"overlapping tokens":           overlapping,
	"negative advance after":       func(n int) bufio.SplitFunc { return badAfter(n, -1) },
	"advance beyond the end after": func(n int) bufio.SplitFunc { return badAfter(n, 1<<30) },
}

var splitNames = []string{"ScanGraphemeClusters", "v17.ScanGraphemeClusters", "ScanUTF8Sequences", "bufio.ScanBytes", "bufio.ScanRunes", "bufio.ScanWords", "bufio.ScanLines",
	"fixed size", "everything", "skipping", "empty tokens", "growing size", "error after", "final token after", "stop without token after", "fresh tokens",
	"tokens in its own buffer", "overlapping tokens", "negative advance after", "advance beyond the end after"}

func take(data []byte, atEOF bool, n int) (int, []byte, error) {
	if len(data) >= n {
		return n, data[:n], nil
	}
	if atEOF && len(data) > 0 {
		return len(data), data, nil
	}
	return 0, nil, nil
}

func whole(data []byte, atEOF bool) (int, []byte, error) {
	if !atEOF || len(data) == 0 {
		return 0, nil, nil
	}
	return len(data), data, nil
}

func fixed(n int) bufio.SplitFunc {
	return func(data []byte, atEOF bool) (int, []byte, error) { return take(data, atEOF, n) }
}

// skipping skips n bytes, then takes one.
func skipping(n int) bufio.SplitFunc {
	skipped := 0
	return func(data []byte, atEOF bool) (int, []byte, error) {
		if len(data) == 0 {
			return 0, nil, nil
		}
		if k := min(len(data), n-skipped); k > 0 {
			skipped += k
			return k, nil, nil
		}
		skipped = 0
		return 1, data[:1], nil
	}
}

// emptyTokens gives an empty token for every n bytes.
func emptyTokens(n int) bufio.SplitFunc {
	odd := false
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := take(data, atEOF, n)
		if tok != nil {
			if odd = !odd; odd {
				tok = tok[:0]
			}
		}
		return adv, tok, err
	}
}

func growing(n int) bufio.SplitFunc {
	k := 0
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := take(data, atEOF, 1+k%n)
		if tok != nil {
			k++
		}
		return adv, tok, err
	}
}

func errorAfter(n int) bufio.SplitFunc {
	k := 0
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := take(data, atEOF, 5)
		if tok != nil {
			if k++; k > n {
				return adv, tok, errSplit
			}
		}
		return adv, tok, err
	}
}

func finalAfter(n int) bufio.SplitFunc {
	k := 0
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := take(data, atEOF, 3)
		if tok != nil {
			if k++; k > n {
				return adv, tok, bufio.ErrFinalToken
			}
		}
		return adv, tok, err
	}
}

func stopAfter(n int) bufio.SplitFunc {
	k := 0
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := take(data, atEOF, 3)
		if tok != nil {
			if k++; k > n {
				return 0, nil, bufio.ErrFinalToken
			}
		}
		return adv, tok, err
	}
}

func fresh(n int) bufio.SplitFunc {
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := take(data, atEOF, n)
		if tok != nil {
			tok = append([]byte("<"), bytes.ToUpper(tok)...)
		}
		return adv, tok, err
	}
}

func ownBuffer(n int) bufio.SplitFunc {
	var buf []byte
	return func(data []byte, atEOF bool) (int, []byte, error) {
		adv, tok, err := take(data, atEOF, n)
		if tok != nil {
			buf = append(append(buf[:0], tok...), '|')
			tok = buf
		}
		return adv, tok, err
	}
}

// overlapping gives tokens of n+1 bytes that begin n bytes apart.
func overlapping(n int) bufio.SplitFunc {
	return func(data []byte, atEOF bool) (int, []byte, error) {
		if len(data) > n {
			return n, data[:n+1], nil
		}
		return take(data, atEOF, n+1)
	}
}

func badAfter(n, adv int) bufio.SplitFunc {
	k := 0
	return func(data []byte, atEOF bool) (int, []byte, error) {
		a, tok, err := take(data, atEOF, 4)
		if tok != nil {
			if k++; k > n {
				return adv, tok, nil
			}
		}
		return a, tok, err
	}
}

// reference is a bufio.Scanner over the buffer, its tokens copied at once.
func reference(data []byte, split bufio.SplitFunc) (tokens [][]byte, err error) {
	sc := bufio.NewScanner(bytes.NewReader(data))
	sc.Split(split)
	for sc.Scan() {
		tokens = append(tokens, append([]byte(nil), sc.Bytes()...))
	}
	return tokens, sc.Err()
}

func compare(got, want [][]byte) error {
	for i := range min(len(got), len(want)) {
		if !bytes.Equal(got[i], want[i]) {
			return fmt.Errorf("token %d is %+.80q, want %+.80q", i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d tokens, want %d", len(got), len(want))
	}
	return nil
}

func check(c Case, o *pbt.Obs) error {
	data := c.bytes()
	orig := bytes.Clone(data)
	split := splits[c.Split]
	want, wantErr := reference(data, split(c.N))
	o.Class(c.Split)
	o.If(len(data) > 4096, "longer than the scanner's first buffer")
	o.If(len(data) > 65536, "longer than the scanner's largest buffer")
	o.If(wantErr != nil, "with an error")
	if wantErr == bufio.ErrTooLong {
		o.Class("token too long")
	}
	if len(want) > 1 {
		o.NonTrivial()
	}

	got, err := auto.AllTokens(data, split(c.N))
	if err != wantErr {
		return fmt.Errorf("AllTokens: error %v, want %v", err, wantErr)
	}
	if err := compare(got, want); err != nil {
		return fmt.Errorf("AllTokens: %v", err)
	}
	n, err := auto.TokenCount(data, split(c.N))
	if err != wantErr {
		return fmt.Errorf("TokenCount: error %v, want %v", err, wantErr)
	}
	if n != len(want) {
		return fmt.Errorf("TokenCount: %d, want %d", n, len(want))
	}
	next := c.Next.bytes()
	wantNext, _ := reference(next, split(c.N))
	gotNext, _ := auto.AllTokens(next, split(c.N))
	if err := compare(gotNext, wantNext); err != nil {
		return fmt.Errorf("AllTokens of a second buffer: %v", err)
	}
	if err := compare(got, want); err != nil {
		return fmt.Errorf("AllTokens: after a second use, %v", err)
	}
	if !bytes.Equal(data, orig) {
		return fmt.Errorf("the buffer was modified")
	}
	if len(data) > 100000 {
		return nil
	}
	// Other tokens of the same buffer, then other text in it.
	for _, what := range []string{"another parameter", "the text backwards in the same place"} {
		k := c.N
		if what == "another parameter" {
			k++
		} else {
			slices.Reverse(data)
		}
		want, wantErr := reference(bytes.Clone(data), split(k))
		n, err := auto.TokenCount(data, split(k))
		if n != len(want) || err != wantErr {
			return fmt.Errorf("TokenCount, used again with %s: %d, error %v; want %d, %v", what, n, err, len(want), wantErr)
		}
		got, err := auto.AllTokens(data, split(k))
		if err != wantErr {
			return fmt.Errorf("AllTokens, used again with %s: error %v, want %v", what, err, wantErr)
		}
		if err := compare(got, want); err != nil {
			return fmt.Errorf("AllTokens, used again with %s: %v", what, err)
		}
	}
	return nil
}

func genUnit(t *rapid.T) []byte {
	switch gen.Uniform(t, 3) {
	case 0:
		return []byte([]string{"word ", "line\n", "a", "é", "\n", "  ", "x y\r\n", "e\u0301", "\U0001f469\u200d\U0001f469 "}[gen.Uniform(t, 9)])
	case 1:
		return gen.Valid(t, 60)
	}
	return gen.Bytes(t, 60, true)
}

// genBuffer draws lengths around the sizes of a scanner's buffers.
func genBuffer(t *rapid.T, many bool) Buffer {
	b := Buffer{Unit: genUnit(t), Tail: genUnit(t), Reps: gen.Uniform(t, 8)}
	if len(b.Unit) == 0 {
		return b
	}
	switch gen.Uniform(t, 9) {
	case 8:
		b.Reps = gen.MinedSize(t, 70000, 1)
		if len(b.Unit)*b.Reps > 1<<17 || gen.Uniform(t, 2) == 0 {
			b.Reps /= len(b.Unit)
		}
	case 0:
		b.Reps = 4096/len(b.Unit) + gen.Uniform(t, 4) - 1
	case 1:
		b.Reps = (4096<<gen.Uniform(t, 5))/len(b.Unit) + gen.Uniform(t, 4) - 1
	case 2:
		b.Reps = gen.Uniform(t, 9000) / len(b.Unit)
	case 3:
		if many && gen.Uniform(t, 6) == 0 {
			b.Reps = gen.Uniform(t, 200000) / len(b.Unit)
			if gen.Uniform(t, 10) == 0 {
				b.Reps *= 20
			}
		}
	}
	b.Reps = max(b.Reps, 0)
	return b
}

var kTokens = &pbt.Kind[Case]{Name: "tokens", Check: check, Gen: func(t *rapid.T) Case {
	c := Case{Buffer: genBuffer(t, true), Split: splitNames[gen.Uniform(t, len(splitNames))]}
	c.N = 1 + gen.Uniform(t, 12)
	switch gen.Uniform(t, 7) {
	case 6:
		c.N = gen.MinedSize(t, 100000, 1)
	case 0:
		c.N = 1 + gen.Uniform(t, 3000)
	case 1:
		if gen.Uniform(t, 4) == 0 {
			c.N = 65536 - 2 + gen.Uniform(t, 4)
		}
	}
	c.Next = Buffer{Unit: pbt.Blob{byte('A' + gen.Uniform(t, 26))}, Reps: gen.Uniform(t, 5000)}
	return c
}}

var c21 = &pbt.Prop{ID: "C21",
	Rule:  "random buffers up to 4 MB (and fixed ones up to 66 MB, thorough 528 MB), many just around the scanner's buffer sizes, with 20 split functions (standard, textseg's, and custom ones that skip, overlap, fail, finish early, keep state or return tokens of their own); tokens compared with those of a bufio.Scanner copied one by one, and again after further calls, also with the text changed in its place; non-trivial = more than one token",
	Kinds: []pbt.AnyKind{pbt.K(kTokens)},
	Run: func(r *pbt.Run) {
		for i, c := range giants(r.Thorough) {
			if r.Mine(i) && !pbt.One(r, kTokens, c) {
				return
			}
		}
		pbt.Rapid(r, kTokens, r.N(32000, 900000))
	}}

// Seq is a byte string, and how a reader delivers it.
type Seq struct {
	Data   pbt.Blob
	Sizes  []int
	Buffer int
}

func (c Seq) Show() string { return fmt.Sprintf("%+q in reads of %v", []byte(c.Data), c.Sizes) }

type chunks struct {
	data  []byte
	sizes []int
	i     int
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	n = copy(p, r.data[:min(n, len(r.data))])
	r.data = r.data[n:]
	return n, nil
}

func seqCall(data []byte, atEOF bool) error {
	adv, tok, err := auto.ScanUTF8Sequences(data, atEOF)
	if err != nil {
		return fmt.Errorf("ScanUTF8Sequences(%+q, %v): error %v", data, atEOF, err)
	}
	if len(data) == 0 || !atEOF && !utf8.FullRune(data) {
		if adv != 0 || tok != nil {
			return fmt.Errorf("ScanUTF8Sequences(%+q, %v) = %d, %+q; want a request for more data", data, atEOF, adv, tok)
		}
		return nil
	}
	_, n := utf8.DecodeRune(data)
	if adv != n || tok == nil || !bytes.Equal(tok, data[:n]) {
		return fmt.Errorf("ScanUTF8Sequences(%+q, %v) = %d, %+q; want %d, %+q", data, atEOF, adv, tok, n, data[:n])
	}
	return nil
}

func checkSeq(c Seq, o *pbt.Obs) error {
	data := []byte(c.Data)
	orig := bytes.Clone(data)
	for i := 0; i < min(len(data), 200); i++ {
		for j := i; j <= min(i+5, len(data)); j++ {
			if err := seqCall(data[i:j], false); err != nil {
				return err
			}
			if err := seqCall(data[i:j], true); err != nil {
				return err
			}
		}
		if err := seqCall(data[i:], i%2 == 0); err != nil {
			return err
		}
	}
	o.If(!utf8.Valid(data), "ill-formed")
	o.If(bytes.Contains(data, []byte("\ufffd")), "contains U+FFFD")
	if len(data) > 1 {
		o.NonTrivial()
	}
	var want []string
	for i, s := 0, string(data); i < len(s); {
		_, n := utf8.DecodeRuneInString(s[i:])
		want = append(want, s[i:i+n])
		i += n
	}
	sc := bufio.NewScanner(&chunks{data: data, sizes: c.Sizes})
	if c.Buffer > 0 {
		sc.Buffer(make([]byte, 0, c.Buffer), 1<<20)
	}
	sc.Split(auto.ScanUTF8Sequences)
	i := 0
	for ; sc.Scan(); i++ {
		if i >= len(want) || sc.Text() != want[i] {
			return fmt.Errorf("streamed token %d is %+q, want %+q", i, sc.Text(), append(want, "no token")[min(i, len(want))])
		}
	}
	if sc.Err() != nil || i != len(want) {
		return fmt.Errorf("streaming gave %d tokens and error %v, want %d", i, sc.Err(), len(want))
	}
	if !bytes.Equal(data, orig) {
		return fmt.Errorf("the input was modified")
	}
	return nil
}

var kSeq = &pbt.Kind[Seq]{Name: "random", Check: checkSeq, Gen: func(t *rapid.T) Seq {
	c := Seq{Data: gen.Bytes(t, 600, true)}
	if gen.Uniform(t, 8) == 0 {
		c.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes")
	}
	if gen.Uniform(t, 8) == 0 {
		c.Data = append(c.Data, "\ufffd"...)
	}
	if gen.Uniform(t, 40) == 0 {
		c.Data = gen.Long(t, 100000, true, false)
		c.Sizes = []int{1000 + gen.Uniform(t, 5000), 1 + gen.Uniform(t, 9)}
		return c
	}
	for range gen.Uniform(t, 5) {
		c.Sizes = append(c.Sizes, 1+gen.Uniform(t, 6))
	}
	if gen.Uniform(t, 2) == 0 {
		c.Buffer = 1 + gen.Uniform(t, 9)
	}
	return c
}}

// Short is all byte strings that begin with Lead, up to four bytes long, the
// later ones drawn from the bytes at which decoding changes.
type Short struct{ Lead byte }

func (c Short) Show() string { return fmt.Sprintf("%02x ...", c.Lead) }

var keyBytes = []byte{0, 'a', 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x91, 0x9f, 0xa0, 0xa1, 0xbd, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff}

func checkShort(c Short, o *pbt.Obs) error {
	o.NonTrivial()
	n := int64(0)
	try := func(b ...byte) error {
		n += 2
		if err := seqCall(b, false); err != nil {
			return err
		}
		return seqCall(b, true)
	}
	if err := try(c.Lead); err != nil {
		return err
	}
	for x := range 256 {
		if err := try(c.Lead, byte(x)); err != nil {
			return err
		}
		for y := range 256 {
			if err := try(c.Lead, byte(x), byte(y)); err != nil {
				return err
			}
		}
	}
	for _, x := range keyBytes {
		for _, y := range keyBytes {
			for _, z := range keyBytes {
				if err := try(c.Lead, x, y, z); err != nil {
					return err
				}
				if err := try(c.Lead, x, y, z, 0x80); err != nil {
					return err
				}
			}
		}
	}
	o.Evals(n)
	return nil
}

var kShort = &pbt.Kind[Short]{Name: "every-short-string", Check: checkShort}

type Block struct{ Lo, Hi rune }

func (c Block) Show() string { return fmt.Sprintf("U+%04X..U+%04X", c.Lo, c.Hi) }

func checkBlock(c Block, o *pbt.Obs) error {
	o.NonTrivial()
	for r := c.Lo; r <= c.Hi; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		s := []byte(string(r) + "a")
		for n := 1; n <= len(s); n++ {
			if err := seqCall(s[:n], false); err != nil {
				return err
			}
			if err := seqCall(s[:n], true); err != nil {
				return err
			}
		}
	}
	o.Evals(int64(c.Hi-c.Lo+1) * 6)
	return nil
}

var kBlock = &pbt.Kind[Block]{Name: "every-scalar", Check: checkBlock, Smaller: func(c Block) []Block {
	if c.Lo == c.Hi {
		return nil
	}
	m := (c.Lo + c.Hi) / 2
	return []Block{{c.Lo, m}, {m + 1, c.Hi}}
}}

var c22 = &pbt.Prop{ID: "C22",
	Rule:  "every byte string up to three bytes and four and five byte ones of key bytes, every scalar value cut at every byte, and random byte strings (valid, ill-formed, wild) with every start and several ends, at and before end of input, and streamed in reads and buffers of varying sizes, and buffers of 2 to 8 GiB that begin with a random byte string; non-trivial = more than one byte",
	Kinds: []pbt.AnyKind{pbt.K(kShort), pbt.K(kBlock), pbt.K(kSeq), pbt.K(kVastBuffer)},
	Run: func(r *pbt.Run) {
		for i := range 256 {
			if r.Mine(i) {
				pbt.One(r, kShort, Short{byte(i)})
			}
		}
		for i := range 0x110000 / 0x400 {
			if r.Mine(i) {
				pbt.One(r, kBlock, Block{rune(i) * 0x400, rune(i)*0x400 + 0x3ff})
			}
		}
		pbt.Rapid(r, kSeq, r.N(80000, 6000000))
		runVastBuffer(r)
	}}

func main() { pbt.Main([]*pbt.Prop{c21, c22, c26}) }
