package main

import (
	"errors"
	"fmt"
	"os"
	"sync"

	"pgregory.net/rapid"

	"verif/pbt"
	"verif/pbt/gen"
)

// ---- C26, with the race detector: files read at the same time

type Together struct {
	Props   []Props
	Vectors []Vectors
	Alone   bool `json:",omitempty"` // how each goes in a process of its own
}

func (c Together) Show() string {
	s := "at the same time"
	for _, p := range c.Props {
		s += ": " + p.Show()
	}
	for _, v := range c.Vectors {
		s += ": " + v.Show()
	}
	return s
}

func checkTogether(c Together, o *pbt.Obs) error {
	// What fails alone as well is not this property's.
	foreign := errors.New("fails alone, too")
	interferes := func(one Together, err error) error {
		if err == nil || c.Alone {
			return err
		}
		one.Alone = true
		if pbt.FailsAlone("C26", "files-at-the-same-time", one) || os.Getenv("VERIF_ALONE") == "" && !pbt.FailsAlone("C26", "files-at-the-same-time", c) {
			return foreign
		}
		return fmt.Errorf("files read one after the other: %w", err)
	}
	for range 2 { // one after the other, and again
		for _, p := range c.Props {
			if err := interferes(Together{Props: []Props{p}}, checkProps(p, new(pbt.Obs))); err == foreign {
				return nil
			} else if err != nil {
				return err
			}
		}
		for _, v := range c.Vectors {
			if err := interferes(Together{Vectors: []Vectors{v}}, checkVectors(v, new(pbt.Obs))); err == foreign {
				return nil
			} else if err != nil {
				return err
			}
		}
	}
	if c.Alone {
		return nil
	}
	o.NonTrivial()
	o.If(len(c.Props) > 1, "several property files")
	o.If(len(c.Vectors) > 1, "several vector files")
	o.If(len(c.Vectors) > 0 && len(c.Props) > 0, "property files and vector files")
	start := make(chan struct{})
	problems := make([]error, len(c.Props)+len(c.Vectors))
	var wg sync.WaitGroup
	do := func(i int, f func(o *pbt.Obs) error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					problems[i] = fmt.Errorf("panic: %v", p)
				}
			}()
			<-start
			problems[i] = f(new(pbt.Obs))
		}()
	}
	for i, p := range c.Props {
		do(i, func(o *pbt.Obs) error { return checkProps(p, o) })
	}
	for i, v := range c.Vectors {
		do(len(c.Props)+i, func(o *pbt.Obs) error { return checkVectors(v, o) })
	}
	close(start)
	wg.Wait()
	if err := errors.Join(problems...); err != nil {
		return fmt.Errorf("files read at the same time: %w", err)
	}
	return nil
}

var kTogether = &pbt.Kind[Together]{Name: "files-at-the-same-time", Check: checkTogether, Slow: true, Gen: func(t *rapid.T) Together {
	var c Together
	for range 2 + gen.Uniform(t, 3) {
		if gen.Uniform(t, 2) == 0 {
			c.Props = append(c.Props, genProps(t))
		} else {
			c.Vectors = append(c.Vectors, genVectors(t))
		}
	}
	return c
}}

var c26 = &pbt.Prop{ID: "C26",
	Rule:  "2 to 4 property and vector files read at the same time by scanners of their own, one after the other and in goroutines, each compared with what it is generated from, under the race detector; every case is non-trivial",
	Kinds: []pbt.AnyKind{pbt.K(kTogether)},
	Run:   func(r *pbt.Run) { pbt.Rapid(r, kTogether, r.N(3000, 100000)) }}
