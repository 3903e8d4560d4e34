package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"slices"
	"sync"

	"pgregory.net/rapid"

	auto "github.com/apparentlymart/go-textseg/autoversion/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// ---- C26, with the race detector: uses at the same time, and within each other

// Use is one use of a function, on one of the buffers of the case.
type Use struct {
	What   string
	Split  string
	N      int
	Buffer int
	Sizes  []int // of the reads, for "streamed"
}

// Uses are at the same time, or each within the next one's split function.
type Uses struct {
	Buffers []Buffer
	Uses    []Use
	Nested  bool
	Alone   bool `json:",omitempty"` // how each goes in a process of its own
}

func (c Uses) Show() string {
	how := "at the same time"
	if c.Nested {
		how = "each within the next one's split function"
	}
	return fmt.Sprintf("%s: %v over %v", how, c.Uses, c.Buffers)
}

func (u Use) String() string {
	return fmt.Sprintf("%s of %s(%d) on buffer %d", u.What, u.Split, u.N, u.Buffer)
}

// run does it, on every call of the split function doing within, too.
func (u Use) run(data []byte, within func()) (tokens [][]byte, n int, err error) {
	inner := splits[u.Split](u.N)
	split := inner
	if within != nil {
		split = func(data []byte, atEOF bool) (int, []byte, error) {
			adv, tok, err := inner(data, atEOF)
			within()
			return adv, tok, err
		}
	}
	switch u.What {
	case "AllTokens":
		tokens, err = auto.AllTokens(data, split)
		return tokens, len(tokens), err
	case "TokenCount":
		n, err = auto.TokenCount(data, split)
		return nil, n, err
	}
	sc := bufio.NewScanner(io.Reader(&chunks{data: data, sizes: u.Sizes}))
	sc.Split(split)
	for sc.Scan() {
		tokens = append(tokens, bytes.Clone(sc.Bytes()))
	}
	return tokens, len(tokens), sc.Err()
}

type outcome struct {
	tokens [][]byte
	err    error
}

func (u Use) verify(data []byte, want outcome, within func()) (problem error) {
	defer func() {
		if p := recover(); p != nil {
			problem = fmt.Errorf("%v: panic: %v", u, p)
		}
	}()
	tokens, n, err := u.run(data, within)
	if err != want.err {
		return fmt.Errorf("%v: error %v, want %v", u, err, want.err)
	}
	if n != len(want.tokens) {
		return fmt.Errorf("%v: %d tokens, want %d", u, n, len(want.tokens))
	}
	if u.What != "TokenCount" {
		if err := compare(tokens, want.tokens); err != nil {
			return fmt.Errorf("%v: %v", u, err)
		}
	}
	return nil
}

func checkUses(c Uses, o *pbt.Obs) error {
	bufs := make([][]byte, len(c.Buffers))
	copies := make([][]byte, len(c.Buffers))
	for i, b := range c.Buffers {
		bufs[i] = b.bytes()
		copies[i] = bytes.Clone(bufs[i])
	}
	data := func(u Use) []byte { return bufs[u.Buffer%len(bufs)] }
	// What fails alone as well is not this property's.
	interferes := func(u Use, err error) error {
		if err == nil || c.Alone {
			return err
		}
		if pbt.FailsAlone("C26", "uses", Uses{Buffers: c.Buffers, Uses: []Use{u}, Alone: true}) || os.Getenv("VERIF_ALONE") == "" && !pbt.FailsAlone("C26", "uses", c) {
			return errNotOurs
		}
		return fmt.Errorf("one after the other: %w", err)
	}
	want := make([]outcome, len(c.Uses))
	shared := map[int]bool{}
	for i, u := range c.Uses {
		want[i].tokens, want[i].err = reference(bytes.Clone(data(u)), splits[u.Split](u.N))
		o.Class(u.What)
		if err := interferes(u, u.verify(data(u), want[i], nil)); err == errNotOurs {
			return nil
		} else if err != nil {
			return err
		}
		o.If(shared[u.Buffer], "a buffer used twice")
		shared[u.Buffer] = true
		if len(c.Uses) > 1 && len(want[i].tokens) > 1 {
			o.NonTrivial()
		}
	}
	if c.Nested {
		o.Class("nested")
		// The first one runs within the second, which runs within the third...
		var problems []error
		calls := 0
		var within func(i int) func()
		within = func(i int) func() {
			if i < 0 {
				return nil
			}
			return func() {
				if calls++; calls > 200 {
					return
				}
				if err := c.Uses[i].verify(data(c.Uses[i]), want[i], within(i-1)); err != nil {
					problems = append(problems, err)
				}
			}
		}
		last := len(c.Uses) - 1
		if err := c.Uses[last].verify(data(c.Uses[last]), want[last], within(last-1)); err != nil {
			problems = append(problems, err)
		}
		if len(problems) > 0 {
			return fmt.Errorf("one within the other: %w", problems[0])
		}
	} else {
		o.Class("at the same time")
		start := make(chan struct{})
		problems := make([]error, len(c.Uses))
		var wg sync.WaitGroup
		for i, u := range c.Uses {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for range 2 {
					problems[i] = errors.Join(problems[i], u.verify(data(u), want[i], nil))
				}
			}()
		}
		close(start)
		wg.Wait()
		if err := errors.Join(problems...); err != nil {
			return fmt.Errorf("at the same time: %w", err)
		}
	}
	for i := range bufs {
		if !bytes.Equal(bufs[i], copies[i]) {
			return fmt.Errorf("buffer %d was modified", i)
		}
	}
	// The same space with other text: once more, last first.
	for i := range bufs {
		slices.Reverse(bufs[i])
	}
	for _, u := range slices.Backward(c.Uses) {
		var again outcome
		again.tokens, again.err = reference(bytes.Clone(data(u)), splits[u.Split](u.N))
		err := u.verify(data(u), again, nil)
		if err != nil {
			// That text must be all right alone.
			other := u
			other.Buffer = 0
			b := Buffer{Unit: bytes.Clone(data(u)), Reps: 1}
			if c.Alone || pbt.FailsAlone("C26", "uses", Uses{Buffers: []Buffer{b}, Uses: []Use{other}, Alone: true}) || os.Getenv("VERIF_ALONE") == "" && !pbt.FailsAlone("C26", "uses", c) {
				return nil
			}
			return fmt.Errorf("one after the other, with the buffers reversed: %w", err)
		}
	}
	return nil
}

var errNotOurs = errors.New("fails alone, too")

var kUses = &pbt.Kind[Uses]{Name: "uses", Check: checkUses, Slow: true, Gen: func(t *rapid.T) Uses {
	c := Uses{Nested: gen.Uniform(t, 3) == 0}
	for range 1 + gen.Uniform(t, 3) {
		b := genBuffer(t, false)
		b.Reps = min(b.Reps, 9000/max(len(b.Unit), 1))
		if c.Nested {
			b.Reps = min(b.Reps, 600/max(len(b.Unit), 1))
		}
		c.Buffers = append(c.Buffers, b)
	}
	for range 2 + gen.Uniform(t, 4) {
		u := Use{What: []string{"AllTokens", "TokenCount", "streamed"}[gen.Uniform(t, 3)], Split: splitNames[gen.Uniform(t, len(splitNames))], N: 1 + gen.Uniform(t, 12), Buffer: gen.Uniform(t, len(c.Buffers))}
		if u.What == "streamed" {
			u.Split = splitNames[gen.Uniform(t, 3)]
			u.Sizes = []int{1 + gen.Uniform(t, 50), 1 + gen.Uniform(t, 900)}
		}
		c.Uses = append(c.Uses, u)
	}
	return c
}}

var c26 = &pbt.Prop{ID: "C26",
	Rule:  "AllTokens, TokenCount and scanners using ScanUTF8Sequences and ScanGraphemeClusters of the autoversion package, 2 to 5 uses at the same time in goroutines, on common and separate buffers, or each within the next one's split function, or one after the other in the same space, compared with what each gives alone, under the race detector; non-trivial = two uses or more with several tokens",
	Kinds: []pbt.AnyKind{pbt.K(kUses)},
	Run:   func(r *pbt.Run) { pbt.Rapid(r, kUses, r.N(8000, 240000)) }}
