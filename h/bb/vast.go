package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"sync"
	"syscall"
	"unsafe"

	"pgregory.net/rapid"

	"verif/pbt"
	"verif/pbt/gen"

	"github.com/apparentlymart/go-textseg/v17/textseg"
)

// ---- C09: a cluster of gigabytes

// Vast is Rep over and over, Chunks chunks of it, at the end of which are some
// line feeds instead.
type Vast struct {
	Rep    string
	Chunks int
	Asks   bool // also not at the end of input
}

func (c Vast) Show() string {
	return fmt.Sprintf("%+q x%d, then line feeds", c.Rep, c.Chunks*vastChunk/len(c.Rep))
}

// vastChunk is a multiple of the page size and of each Rep's length.
const vastChunk = 4096 * 64 * 210

// vast maps one file of a chunk again and again: memory for one chunk only.
func vast(rep string, chunks int) (data []byte, done func()) {
	f, err := os.CreateTemp("", "vast")
	pbt.Must(err)
	defer f.Close()
	pbt.Must(os.Remove(f.Name()))
	chunk := make([]byte, vastChunk)
	for n := copy(chunk, rep); n < len(chunk); n *= 2 {
		copy(chunk[n:], chunk[:n])
	}
	_, err = f.Write(chunk)
	pbt.Must(err)
	data, err = syscall.Mmap(-1, 0, chunks*vastChunk, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	pbt.Must(err)
	for i := range chunks {
		addr := uintptr(unsafe.Pointer(unsafe.SliceData(data))) + uintptr(i*vastChunk)
		_, _, e := syscall.RawSyscall6(syscall.SYS_MMAP, addr, vastChunk, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_FIXED|syscall.MAP_NORESERVE, f.Fd(), 0)
		if e != 0 {
			pbt.Must(e)
		}
	}
	for i := range len(rep) {
		data[len(data)-1-i] = '\n'
	}
	return data, func() { pbt.Must(syscall.Munmap(data)) }
}

func checkVast(c Vast, o *pbt.Obs) error {
	// Code that keeps something for each character is to run out of memory on
	// its own, not to take the machine's.
	var old syscall.Rlimit
	pbt.Must(syscall.Getrlimit(syscall.RLIMIT_AS, &old))
	pbt.Must(syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: min(old.Max, 12<<30), Max: old.Max}))
	defer syscall.Setrlimit(syscall.RLIMIT_AS, &old)
	data, done := vast(c.Rep, c.Chunks)
	defer done()
	o.NonTrivial()
	o.If(uint64(len(data)) > 1<<31, "2^31 bytes or more")
	o.If(uint64(len(data)) > 1<<32, "2^32 bytes or more")
	o.If(uint64(len(data)/len(c.Rep)) > 1<<31, "2^31 repetitions or more")
	end := len(data) - len(c.Rep)
	n, tok, err := textseg.ScanGraphemeClusters(data, true)
	if n != end || len(tok) != end || unsafe.SliceData(tok) != unsafe.SliceData(data) && !bytes.Equal(tok, data[:end]) || err != nil {
		return fmt.Errorf("%s: advance %d, token of %d bytes, error %v; want %d bytes", c.Show(), n, len(tok), err, end)
	}
	for ; n < len(data); n++ {
		if k, tok, err := textseg.ScanGraphemeClusters(data[n:], true); k != 1 || string(tok) != "\n" || err != nil {
			return fmt.Errorf("%s: advance %d, token %s, error %v at a line feed after it", c.Show(), k, show(tok), err)
		}
	}
	if c.Asks {
		if n, tok, err := textseg.ScanGraphemeClusters(data[:end], false); n != 0 || tok != nil || err != nil {
			return fmt.Errorf("%s: advance %d, token of %d bytes, error %v before what follows is known", c.Show(), n, len(tok), err)
		}
	}
	return nil
}

var kVast = &pbt.Kind[Vast]{Name: "vast", Check: checkVast, Slow: true, Smaller: func(c Vast) []Vast {
	var out []Vast
	for _, n := range []int{1, c.Chunks / 4, c.Chunks / 2, c.Chunks * 3 / 4, c.Chunks - 1} {
		if n > 0 && n < c.Chunks {
			d := c
			d.Chunks = n
			out = append(out, d)
		}
	}
	return out
}}

var vastReps = []string{"\u0301", "\u200d", "\u0600", "\U0001f3fb", "\u1100", "\u00a9\u200d", "\u0915\u094d", "\U000110bd", "\u0903", "\u1161", "\U0001f600\u200d", "\u11a8", "\u094d\u0301"}

func runVast(r *pbt.Run) {
	if strconv.IntSize < 64 {
		return // no room for it
	}
	off := int(r.Mix(0x7a57) % uint64(len(vastReps)))
	for i := range vastReps {
		if !r.Mine(i) || !r.Thorough && i >= 2 {
			continue
		}
		rep := vastReps[(off+i)%len(vastReps)]
		if !pbt.One(r, kVast, Vast{rep, 1<<31/vastChunk + 1, r.Thorough}) {
			return
		}
		if r.Thorough && !pbt.One(r, kVast, Vast{rep, 1<<32/vastChunk + 1, false}) {
			return
		}
	}
}

// ---- C02: a buffer of gigabytes

// VastBuffer is Data at the start of a buffer of Len bytes, the rest of which
// are null characters.
type VastBuffer struct {
	Data pbt.Blob
	Len  int
}

func (c VastBuffer) Show() string {
	return fmt.Sprintf("%s and null characters, %d bytes", show(c.Data), c.Len)
}

// vastBuffer is as good as empty until it is written to.
var vastBuffer = sync.OnceValue(func() []byte {
	n := uint64(1<<33 + 1<<20)
	b, err := syscall.Mmap(-1, 0, int(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		return nil
	}
	return b
})

func checkVastBuffer(c VastBuffer, o *pbt.Obs) error {
	vast := vastBuffer()
	if vast == nil || c.Len < len(c.Data) || c.Len > len(vast) {
		return nil
	}
	small := append(append([]byte{}, c.Data...), 0, 0, 0, 0, 0, 0, 0, 0)
	copy(vast, c.Data)
	defer clear(vast[:len(c.Data)])
	o.NonTrivial()
	o.If(uint64(c.Len) >= 1<<32, "2^32 bytes or more")
	o.If(uint64(c.Len)&(1<<32-1) < uint64(len(c.Data)), "ends within the text in 32 bits")
	for pos := 0; pos <= len(c.Data); {
		var next int
		for _, eof := range []bool{true, false} {
			n, tok, err := textseg.ScanGraphemeClusters(vast[pos:c.Len], eof)
			if err != nil || n <= 0 || n > len(c.Data)+1-pos || string(tok) != string(vast[pos:pos+n]) {
				return fmt.Errorf("%s: at byte %d, atEOF=%v: advance %d, token of %d bytes, error %v", c.Show(), pos, eof, n, len(tok), err)
			}
			if m, _, _ := textseg.ScanGraphemeClusters(small[pos:], eof); m != n {
				return fmt.Errorf("%s: at byte %d, atEOF=%v: advance %d, but %d if only 8 null characters follow", c.Show(), pos, eof, n, m)
			}
			next = pos + n
		}
		pos = next
	}
	return nil
}

var kVastBuffer = &pbt.Kind[VastBuffer]{Name: "vast-buffer", Check: checkVastBuffer, Slow: true, Gen: func(t *rapid.T) VastBuffer {
	var c VastBuffer
	c.Data = gen.Bytes(t, 40, true)
	bits := rapid.SampledFrom([]int{31, 32, 33}).Draw(t, "bits")
	c.Len = int(uint64(1)<<bits) + rapid.IntRange(-8, 64).Draw(t, "more")
	return c
}, Smaller: func(c VastBuffer) []VastBuffer {
	var out []VastBuffer
	for _, d := range smallerText(Text{c.Data}) {
		out = append(out, VastBuffer{d.Data, c.Len})
	}
	return out
}}

func runVastBuffer(r *pbt.Run) {
	if strconv.IntSize < 64 {
		return // no room for it
	}
	pbt.Rapid(r, kVastBuffer, r.N(8000, 80000))
}
