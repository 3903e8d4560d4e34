package main

import (
	"bufio"
	"fmt"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
	"verif/pbt/ref"
)

// Streams are several texts read through scanners: in turns, each with its own
// buffer, or one after another through one buffer, where a text may be given
// up in the middle.
type Streams struct {
	Texts   []pbt.Blob
	Reads   []int
	EOFWith bool
	Turns   []int // which text's scanner goes on next, cyclically
	Buffer  int   // if positive: the size of the one buffer, and the limit
	Stops   []int // with one buffer: the clusters after which each is given up; -1: never
}

func (c Streams) Show() string {
	s := fmt.Sprintf("reads=%v eofWithData=%v", c.Reads, c.EOFWith)
	if c.Buffer > 0 {
		s += fmt.Sprintf(", one after another in one buffer of %d bytes, given up after %v clusters:", c.Buffer, c.Stops)
	} else {
		s += fmt.Sprintf(", in turns %v:", c.Turns)
	}
	for _, t := range c.Texts {
		s += " " + show(t)
	}
	return s
}

func checkStreams(c Streams, o *pbt.Obs) error {
	if len(c.Texts) == 0 {
		return nil
	}
	var want, got [][]int
	var scs []*bufio.Scanner
	buf := make([]byte, 0, max(1, c.Buffer))
	for _, t := range c.Texts {
		ends, err := oneShot(t)
		if err != nil {
			return err
		}
		if ref.InDomain(t) {
			if m := u17.Ends(t); !eqInts(ends, m) {
				return differ("clusters of the whole text", t, ends, m)
			}
		}
		sc := bufio.NewScanner(&chunkReader{data: t, sizes: c.Reads, eofWith: c.EOFWith, final: eof})
		if c.Buffer > 0 {
			sc.Buffer(buf, c.Buffer)
		}
		sc.Split(textseg.ScanGraphemeClusters)
		want, got, scs = append(want, ends), append(got, nil), append(scs, sc)
	}
	step := func(i int) (bool, error) {
		if !scs[i].Scan() {
			return false, nil
		}
		pos, n := 0, len(got[i])
		if n > 0 {
			pos = got[i][n-1]
		}
		tok := scs[i].Bytes()
		got[i] = append(got[i], pos+len(tok))
		if n >= len(want[i]) || want[i][n] != pos+len(tok) || string(tok) != string(c.Texts[i][pos:want[i][n]]) {
			return false, fmt.Errorf("text %d: cluster %d at byte %d is %s: %w", i, n, pos, show(tok), differ("clusters", c.Texts[i], got[i], want[i]))
		}
		return true, nil
	}
	ended := func(i int) error {
		if err := scs[i].Err(); c.Buffer > 0 && err == bufio.ErrTooLong {
			o.Class("ErrTooLong")
			return nil
		} else if err != nil || len(got[i]) != len(want[i]) {
			return fmt.Errorf("text %d: ended with error %v: %w", i, err, differ("clusters", c.Texts[i], got[i], want[i]))
		}
		return nil
	}
	if c.Buffer > 0 {
		o.Class("one buffer")
		for i := range c.Texts {
			o.If(len(got[max(0, i-1)]) < len(want[max(0, i-1)]), "the text before given up")
			if i > 0 && len(want[i]) > 0 {
				o.NonTrivial()
			}
			for i >= len(c.Stops) || c.Stops[i] < 0 || len(got[i]) < c.Stops[i] {
				more, err := step(i)
				if err != nil {
					return err
				}
				if !more {
					if err := ended(i); err != nil {
						return err
					}
					break
				}
			}
		}
		return nil
	}
	o.Class("in turns")
	done := make([]bool, len(c.Texts))
	left, started := len(c.Texts), 0
	for k := 0; left > 0; k++ {
		i := k % len(c.Texts) // once the turns have all been taken, each in turn
		if k < 4*len(c.Turns) {
			i = c.Turns[k%len(c.Turns)] % len(c.Texts)
		}
		if done[i] {
			continue
		}
		if len(got[i]) == 0 {
			started++
		}
		more, err := step(i)
		if err != nil {
			return err
		}
		if more {
			if started > 1 {
				o.NonTrivial()
			}
			continue
		}
		done[i] = true
		left--
		if err := ended(i); err != nil {
			return err
		}
	}
	return nil
}

var kStreams = &pbt.Kind[Streams]{Name: "several-streams", Check: checkStreams, Gen: func(t *rapid.T) Streams {
	c := Streams{Reads: genReads(t), EOFWith: rapid.Bool().Draw(t, "eofWith")}
	n := 2 + gen.Uniform(t, 2)
	for range n {
		c.Texts = append(c.Texts, gen.Bytes(t, 24, true))
	}
	if gen.Uniform(t, 2) == 0 {
		c.Buffer = 1 + gen.Uniform(t, 24)
		for range n {
			c.Stops = append(c.Stops, gen.Uniform(t, 6)-1)
		}
	} else {
		for range 1 + gen.Uniform(t, 6) {
			c.Turns = append(c.Turns, gen.Uniform(t, n))
		}
	}
	return c
}}
