package main

import (
	"bytes"
	"fmt"
	"strconv"
	"sync"
	"syscall"
	"unicode/utf8"

	"pgregory.net/rapid"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// ---- C21: buffers of many megabytes

// giants have up to so many bytes that a number of bytes or of tokens no longer
// has 24 bits (thorough: 27), with split functions that are quick.
func giants(thorough bool) (out []Case) {
	for _, g := range []struct {
		unit  string
		bytes int
		split string
		n     int
	}{
		{"0123456789abcde\n", 17 << 20, "fixed size", 60000},
		{"line of the text\r\n", 17 << 20, "bufio.ScanLines", 1},
		{"some words ", 17 << 20, "bufio.ScanWords", 1},
		{"\u0301", 17 << 20, "fixed size", 65535},
		{"xy", 66 << 20, "fixed size", 30000},
		{"xyz", 17 << 20, "error after", 300},
		{"0123456789", 33 << 20, "final token after", 8000000},
		{"0123456789", 18 << 20, "bufio.ScanBytes", 1},
	} {
		for k := 0; k == 0 || thorough && k < 2; k++ {
			n := g.bytes << (3 * k)
			if g.n == 1 && k > 0 {
				n = g.bytes * 2
			}
			out = append(out, Case{Buffer: Buffer{Unit: pbt.Blob(g.unit), Reps: n / len(g.unit), Tail: pbt.Blob("last")}, Split: g.split, N: g.n})
		}
	}
	return out
}

// ---- C22: buffers of gigabytes

// VastBuffer is Data at the start of a buffer of Len bytes, the rest of which
// are null characters.
type VastBuffer struct {
	Data pbt.Blob
	Len  int
}

func (c VastBuffer) Show() string {
	return fmt.Sprintf("%+q and null characters, %d bytes", []byte(c.Data), c.Len)
}

// vastBuffer is as good as empty until it is written to.
var vastBuffer = sync.OnceValue(func() []byte {
	n := uint64(1<<33 + 1<<20)
	b, err := syscall.Mmap(-1, 0, int(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		return nil
	}
	return b
})

func checkVastBuffer(c VastBuffer, o *pbt.Obs) error {
	vast := vastBuffer()
	if vast == nil || c.Len < len(c.Data)+4 || c.Len > len(vast) {
		return nil
	}
	copy(vast, c.Data)
	defer clear(vast[:len(c.Data)])
	o.NonTrivial()
	for pos := range c.Data {
		_, want := utf8.DecodeRune(vast[pos : pos+4])
		for _, eof := range []bool{true, false} {
			n, tok, err := auto.ScanUTF8Sequences(vast[pos:c.Len], eof)
			if err != nil || n != want || !bytes.Equal(tok, vast[pos:pos+want]) {
				return fmt.Errorf("%s: at byte %d, atEOF=%v: advance %d, token of %d bytes, error %v; want %d bytes", c.Show(), pos, eof, n, len(tok), err, want)
			}
		}
	}
	return nil
}

var kVastBuffer = &pbt.Kind[VastBuffer]{Name: "vast-buffer", Check: checkVastBuffer, Slow: true, Gen: func(t *rapid.T) VastBuffer {
	var c VastBuffer
	c.Data = gen.Bytes(t, 20, true)
	bits := rapid.SampledFrom([]int{31, 32, 33}).Draw(t, "bits")
	c.Len = int(uint64(1)<<bits) + rapid.IntRange(-8, 64).Draw(t, "more")
	return c
}}

func runVastBuffer(r *pbt.Run) {
	if strconv.IntSize < 64 {
		return // no room for it
	}
	pbt.Rapid(r, kVastBuffer, r.N(8000, 80000))
}
