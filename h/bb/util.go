package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/ref"
)

// Text is a case that is just some bytes.
type Text struct {
	Data pbt.Blob
}

func (c Text) Show() string { return show(c.Data) }

func show(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%+q...(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%+q", b)
}

func smallerText(c Text) []Text {
	var out []Text
	if string(c.Data) == string([]rune(string(c.Data))) { // valid: remove whole characters
		for _, r := range pbt.SmallerRunes([]rune(string(c.Data))) {
			out = append(out, Text{[]byte(string(r))})
		}
		return out
	}
	for _, b := range pbt.SmallerBytes(c.Data) {
		out = append(out, Text{b})
	}
	return out
}

// oneShot segments data with one call per cluster at end of input, holding
// each call to the split-function contract.
func oneShot(data []byte) ([]int, error) {
	var ends []int
	pos := 0
	for pos < len(data) {
		adv, tok, err := textseg.ScanGraphemeClusters(data[pos:], true)
		if err != nil {
			return ends, fmt.Errorf("at byte %d of %s: unexpected error %v", pos, show(data), err)
		}
		if adv <= 0 || adv > len(data)-pos {
			return ends, fmt.Errorf("at byte %d of %s at EOF: advance %d of %d bytes", pos, show(data), adv, len(data)-pos)
		}
		if !bytes.Equal(tok, data[pos:pos+adv]) {
			return ends, fmt.Errorf("at byte %d of %s: advance %d but token %s", pos, show(data), adv, show(tok))
		}
		pos += adv
		ends = append(ends, pos)
	}
	return ends, nil
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// pieces renders data cut at ends.
func pieces(data []byte, ends []int) string {
	var b bytes.Buffer
	pos := 0
	for i, e := range ends {
		if i == 12 && len(ends) > 14 {
			fmt.Fprintf(&b, " ... (%d clusters)", len(ends))
			break
		}
		if i > 0 {
			b.WriteString(" | ")
		}
		if e < pos || e > len(data) {
			fmt.Fprintf(&b, "<bad end %d>", e)
			break
		}
		b.WriteString(show(data[pos:e]))
		pos = e
	}
	return b.String()
}

func differ(what string, data []byte, got, want []int) error {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	if i > 6 && len(data) > 200 {
		from := want[i-1]
		return fmt.Errorf("%s: the first %d clusters (to byte %d) agree, then\n got  %s\n want %s", what, i, from,
			pieces(data[from:], sub(got[i:], from)), pieces(data[from:], sub(want[i:], from)))
	}
	return fmt.Errorf("%s of %s\n got  %s\n want %s", what, show(data), pieces(data, got), pieces(data, want))
}

func sub(ends []int, from int) []int {
	out := make([]int, len(ends))
	for i, e := range ends {
		out[i] = e - from
	}
	return out
}

// expect compares the segmentation of data with the expected cluster ends.
func expect(data []byte, want []int) error {
	got, err := oneShot(data)
	if err != nil {
		return err
	}
	if !eqInts(got, want) {
		return differ("clusters", data, got, want)
	}
	return nil
}

var eof = io.EOF

var errInjected = errors.New("injected read fault")

// chunkReader delivers data in reads of the given sizes, cyclically, then
// its final error, with the last bytes if eofWith.
type chunkReader struct {
	data    []byte
	sizes   []int
	i       int
	eofWith bool
	final   error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, r.final
	}
	n := len(r.data)
	if len(r.sizes) > 0 {
		n = min(n, r.sizes[r.i%len(r.sizes)])
		r.i++
	}
	n = copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eofWith {
		return n, r.final
	}
	return n, nil
}

// stream segments data with a bufio.Scanner. initial < 0 leaves the scanner's
// default buffer.
func stream(r io.Reader, initial, limit int) ([]byte, []int, error) {
	sc := bufio.NewScanner(r)
	if initial >= 0 {
		sc.Buffer(make([]byte, 0, initial), limit)
	}
	sc.Split(textseg.ScanGraphemeClusters)
	var all []byte
	var ends []int
	for sc.Scan() {
		all = append(all, sc.Bytes()...)
		ends = append(ends, len(all))
	}
	return all, ends, sc.Err()
}

// classify records the shape of a text.
func classify(data []byte, ends []int, o *pbt.Obs) {
	multi, prev := false, 0
	for _, e := range ends {
		if n := e - prev; n > 4 || (n > 1 && data[prev] < 0x80) {
			multi = true
		}
		prev = e
	}
	o.If(multi, "has multi-character cluster")
	o.If(len(ends) > 1, "has several clusters")
	o.If(len(data) > 256, "longer than 256 bytes")
	o.If(len(data) > 4096, "longer than 4096 bytes")
	if multi && len(ends) > 1 {
		o.NonTrivial()
	}
}

var u17 = ref.U17
