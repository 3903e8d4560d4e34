package main

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"slices"
	"sync"
	"syscall"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
	"verif/pbt/ref"
)

// ---- C06: purity

type outcome struct {
	adv int
	tok string
	err error
	nil bool
}

func call(data []byte, atEOF bool) outcome {
	adv, tok, err := textseg.ScanGraphemeClusters(data, atEOF)
	return outcome{adv, string(tok), err, tok == nil}
}

func (o outcome) String() string { return fmt.Sprintf("(%d, %+q, %v)", o.adv, o.tok, o.err) }

// model is what the reference says about a call, when it says anything.
func model(data []byte, atEOF bool) (int, bool) {
	if len(data) == 0 {
		return 0, true
	}
	if !ref.InDomain(data) {
		return 0, false
	}
	if atEOF {
		return u17.Ends(data)[0], true
	}
	return 0, false
}

// History is a sequence of calls. Text i of the pool is called, always at the
// same address for Shared calls, elsewhere otherwise.
type History struct {
	Pool []pbt.Blob
	Ops  []HistOp
}
type HistOp struct {
	Text   int
	EOF    bool
	Shared bool
	Cut    int // bytes to leave out at the end
}

func (c History) Show() string {
	s := "texts"
	for _, p := range c.Pool {
		s += " " + show(p)
	}
	return s + fmt.Sprintf(" calls %v", c.Ops)
}

func checkHistory(c History, o *pbt.Obs) error {
	size := 256
	for _, p := range c.Pool {
		size = max(size, len(p))
	}
	shared := make([]byte, 0, size)
	type key struct {
		text string
		eof  bool
	}
	first := map[key]outcome{}
	repeats := 0
	for i, op := range c.Ops {
		text := c.Pool[op.Text%len(c.Pool)]
		text = text[:max(0, len(text)-op.Cut)]
		var buf []byte
		if op.Shared && len(text) <= cap(shared) {
			buf = append(shared[:0], text...) // the same address with other contents
		} else {
			buf = append([]byte("x"), text...)[1:]
		}
		got := call(buf, op.EOF)
		if !bytes.Equal(buf, text) {
			return fmt.Errorf("call %d changed its input from %s to %s", i, show(text), show(buf))
		}
		k := key{string(text), op.EOF}
		if f, ok := first[k]; ok {
			repeats++
			if f != got {
				return fmt.Errorf("call %d on %s, atEOF=%v: returned %v, but %v earlier", i, show(text), op.EOF, got, f)
			}
		}
		first[k] = got
		if want, ok := model(text, op.EOF); ok && got.adv != want {
			return fmt.Errorf("call %d on %s, atEOF=%v, after other calls: returned %v, want %d bytes", i, show(text), op.EOF, got, want)
		}
		o.Evals(1)
	}
	if repeats > 0 && len(first) > 1 {
		o.NonTrivial()
	}
	o.If(repeats > 0, "repeated call after others")
	return nil
}

var kHistory = &pbt.Kind[History]{Name: "history", Check: checkHistory, Gen: func(t *rapid.T) History {
	var c History
	for range rapid.IntRange(1, 3).Draw(t, "texts") {
		c.Pool = append(c.Pool, gen.Bytes(t, 12, true))
	}
	// Close relatives: same length and ends, one character or byte changed.
	for range gen.Uniform(t, 4) {
		v := slices.Clone(c.Pool[gen.Uniform(t, len(c.Pool))])
		if len(v) == 0 {
			continue
		}
		i := gen.Uniform(t, len(v))
		if rapid.Bool().Draw(t, "byte") {
			v[i] ^= byte(1 << gen.Uniform(t, 7))
		} else {
			r := []byte(string(gen.AnyRune(t)))
			copy(v[i:], r)
		}
		c.Pool = append(c.Pool, v)
	}
	n := rapid.IntRange(2, 20).Draw(t, "calls")
	for range n {
		c.Ops = append(c.Ops, HistOp{gen.Uniform(t, len(c.Pool)), rapid.Bool().Draw(t, "eof"), gen.Uniform(t, 4) > 0, max(0, rapid.IntRange(-6, 3).Draw(t, "cut"))})
	}
	return c
}}

// Long-lived state may take effect only from some amount of text on, so these
// histories have clusters of many bytes, seen bit by bit and then replaced.
var kLongHistory = &pbt.Kind[History]{Name: "long-history", Check: checkHistory, Gen: func(t *rapid.T) History {
	var c History
	for range 2 + gen.Uniform(t, 3) {
		piece := []byte(string(gen.Marks(t, 1, 2)))
		if gen.Uniform(t, 3) == 0 {
			piece = gen.Bytes(t, 4, true)
		}
		if len(piece) == 0 {
			piece = []byte("\u0301")
		}
		limit := []int{80, 150, 300, 1200, 5000}[gen.Uniform(t, 5)]
		text := append(gen.Bytes(t, 3, true), bytes.Repeat(piece, 1+gen.Uniform(t, limit)/len(piece))...)
		c.Pool = append(c.Pool, append(text, gen.Bytes(t, 6, true)...))
	}
	for range 2 + gen.Uniform(t, 12) {
		i := gen.Uniform(t, len(c.Pool))
		op := HistOp{i, gen.Uniform(t, 3) == 0, gen.Uniform(t, 8) > 0, 0}
		if gen.Uniform(t, 2) == 0 {
			op.Cut = gen.Uniform(t, len(c.Pool[i])+1)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}}

// Tail: the bytes beyond the slice must not matter, nor be touched.
type Tail struct {
	Data, Tail pbt.Blob
	Lead       int
}

func (c Tail) Show() string {
	return fmt.Sprintf("%s with %s behind it", show(c.Data), show(c.Tail))
}

func checkTail(c Tail, o *pbt.Obs) error {
	exact := append([]byte{}, c.Data...)
	exact = exact[:len(exact):len(exact)]
	back := append(append(bytes.Repeat([]byte{0xcc}, c.Lead), c.Data...), c.Tail...)
	keep := bytes.Clone(back)
	in := back[c.Lead : c.Lead+len(c.Data)]
	if len(c.Tail) > 0 && len(c.Data) > 0 {
		o.NonTrivial()
	}
	for n := 0; n <= min(len(in), 40); n++ {
		for _, eof := range []bool{false, true} {
			o.Evals(1)
			a, b := call(exact[:n:n], eof), call(in[:n], eof)
			if a != b {
				return fmt.Errorf("%s, atEOF=%v: %v when the slice's capacity ends there, %v when %s lies behind it", show(in[:n]), eof, a, b, show(back[c.Lead+n:]))
			}
			if want, ok := model(in[:n], eof); ok && b.adv != want {
				return fmt.Errorf("%s, atEOF=%v: %v, want %d bytes", show(in[:n]), eof, b, want)
			}
		}
	}
	if !bytes.Equal(back, keep) {
		return fmt.Errorf("%s: memory changed from %+q to %+q", c.Show(), keep, back)
	}
	return nil
}

var kTail = &pbt.Kind[Tail]{Name: "behind-the-slice", Check: checkTail, Gen: func(t *rapid.T) Tail {
	c := Tail{Data: gen.Bytes(t, 12, true), Lead: gen.Uniform(t, 10)}
	if rapid.Bool().Draw(t, "cut") && len(c.Data) > 0 {
		c.Data = c.Data[:rapid.IntRange(0, len(c.Data)).Draw(t, "len")]
	}
	switch gen.Uniform(t, 4) {
	case 0:
		c.Tail = bytes.Repeat([]byte{[]byte{0x80, 0xbf, 0xff, 0xcc, 'a'}[gen.Uniform(t, 5)]}, rapid.IntRange(1, 9).Draw(t, "n"))
	case 1:
		c.Tail = []byte(string(gen.Marks(t, 1, 4)))
	default:
		c.Tail = gen.Bytes(t, 6, true)
	}
	return c
}}

// Guarded: the data lies in read-only memory that ends where an inaccessible
// page begins (or begins where one ends).
const pageSize = 4096

var guard struct {
	once sync.Once
	mem  []byte // guard page, data pages, guard page
}

const guardPages = 4

func guardMem() []byte {
	guard.once.Do(func() {
		m, err := syscall.Mmap(-1, 0, (guardPages+2)*pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		pbt.Must(err)
		pbt.Must(syscall.Mprotect(m[:pageSize], syscall.PROT_NONE))
		pbt.Must(syscall.Mprotect(m[(guardPages+1)*pageSize:], syscall.PROT_NONE))
		guard.mem = m
		debug.SetPanicOnFault(true)
	})
	return guard.mem
}

type Guarded struct {
	Data  pbt.Blob
	Front bool // against the guard page in front
}

func (c Guarded) Show() string { return show(c.Data) }

func checkGuarded(c Guarded, o *pbt.Obs) error {
	mem := guardMem()
	debug.SetPanicOnFault(true)
	body := mem[pageSize : (guardPages+1)*pageSize]
	if len(c.Data) > len(body) {
		return nil
	}
	pbt.Must(syscall.Mprotect(body, syscall.PROT_READ|syscall.PROT_WRITE))
	in := body[len(body)-len(c.Data):]
	if c.Front {
		in = body[:len(c.Data)]
	}
	copy(in, c.Data)
	pbt.Must(syscall.Mprotect(body, syscall.PROT_READ))
	if len(c.Data) > 1 {
		o.NonTrivial()
	}
	type res struct {
		ends []int
		err  error
	}
	try := func() (r res) {
		defer func() {
			if p := recover(); p != nil {
				r.err = fmt.Errorf("segmenting %s in read-only memory beside an inaccessible page: %v", show(c.Data), p)
			}
		}()
		r.ends, r.err = oneShot(in)
		for n := 0; n <= min(len(in), 24) && r.err == nil; n++ {
			o.Evals(1)
			if c.Front { // the end of the slice is not at the guard page; its start is
				r.err = notEOF(in[:n])
			} else {
				r.err = notEOF(in[len(in)-n:])
			}
		}
		return
	}
	r := try()
	if r.err != nil {
		return r.err
	}
	want, err := oneShot(c.Data)
	if err != nil {
		return err
	}
	if !eqInts(r.ends, want) {
		return differ("clusters at another address", c.Data, r.ends, want)
	}
	return nil
}

var kGuarded = &pbt.Kind[Guarded]{Name: "guarded-memory", Check: checkGuarded, Gen: func(t *rapid.T) Guarded {
	c := Guarded{Front: gen.Uniform(t, 4) == 3}
	c.Data = gen.Bytes(t, 20, true)
	if rapid.Bool().Draw(t, "cut") && len(c.Data) > 0 {
		c.Data = c.Data[:rapid.IntRange(0, len(c.Data)).Draw(t, "len")]
	}
	return c
}}

// Conc: several goroutines segment texts, shared between them, at once. Built
// with the race detector, an unsynchronised access ends the process.
type Conc struct {
	Texts  []pbt.Blob
	Order  []int // rotated differently for each goroutine
	Gor    int
	Rounds int
}

func (c Conc) Show() string {
	s := fmt.Sprintf("%d goroutines, %d rounds, order %v, texts", c.Gor, c.Rounds, c.Order)
	for _, p := range c.Texts {
		s += " " + show(p)
	}
	return s
}

func checkConc(c Conc, o *pbt.Obs) error {
	want := make([][]int, len(c.Texts))
	for i, tx := range c.Texts {
		e, err := oneShot(tx)
		if err != nil {
			return err
		}
		want[i] = e
		if ref.InDomain(tx) && !eqInts(e, u17.Ends(tx)) {
			return differ("clusters", tx, e, u17.Ends(tx))
		}
	}
	if c.Gor > 1 && len(c.Texts) > 1 {
		o.NonTrivial()
	}
	o.Evals(int64(c.Gor*c.Rounds*len(c.Order)) - 1)
	start := make(chan struct{})
	errs := make([]error, c.Gor)
	var wg sync.WaitGroup
	for g := range c.Gor {
		wg.Go(func() {
			defer func() {
				if p := recover(); p != nil {
					errs[g] = fmt.Errorf("goroutine %d: panic: %v", g, p)
				}
			}()
			<-start
			for range c.Rounds {
				for i := range c.Order {
					x := c.Order[(i+g)%len(c.Order)] % len(c.Texts)
					data := c.Texts[x]
					if (g+i)%3 == 2 {
						data = bytes.Clone(data)
					}
					ends, err := oneShot(data)
					if err == nil && !eqInts(ends, want[x]) {
						err = differ("clusters found while other goroutines were scanning", data, ends, want[x])
					}
					if err == nil && len(data) > 0 {
						err = notEOF(data[:len(data)/2])
					}
					if err != nil {
						errs[g] = err
						return
					}
				}
			}
		})
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

var kConc = &pbt.Kind[Conc]{Name: "concurrent", Check: checkConc, Gen: func(t *rapid.T) Conc {
	c := Conc{Gor: rapid.IntRange(2, 6).Draw(t, "goroutines"), Rounds: rapid.IntRange(1, 4).Draw(t, "rounds")}
	for range rapid.IntRange(1, 4).Draw(t, "texts") {
		x := gen.Bytes(t, 15, true)
		if gen.Uniform(t, 8) == 0 && len(x) > 0 {
			x = bytes.Repeat(x, 1+gen.Uniform(t, 600)/len(x))
		}
		c.Texts = append(c.Texts, x)
	}
	for range rapid.IntRange(1, 8).Draw(t, "order") {
		c.Order = append(c.Order, gen.Uniform(t, len(c.Texts)))
	}
	return c
}}

var c06 = &pbt.Prop{ID: "C06",
	Rule:  "random call histories over a pool of related texts at one address and at others, of up to 5 KB; random data with random bytes behind the slice; data in read-only memory against inaccessible pages; texts shared by concurrent goroutines under the race detector; non-trivial = a repeated call after other ones, bytes behind a non-empty slice, two bytes or more, or two goroutines on several texts",
	Kinds: []pbtKind{pbt.K(kHistory), pbt.K(kLongHistory), pbt.K(kTail), pbt.K(kGuarded), pbt.K(kConc)},
	Run: func(r *pbt.Run) {
		pbt.Rapid(r, kHistory, r.N(72000, 300000))
		pbt.Rapid(r, kLongHistory, r.N(16000, 200000))
		pbt.Rapid(r, kTail, r.N(48000, 200000))
		pbt.Rapid(r, kGuarded, r.N(48000, 200000))
		pbt.Rapid(r, kConc, r.N(36000, 150000))
	}}
