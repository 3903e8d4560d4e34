package main

import (
	"fmt"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
	"verif/pbt/probe"
	"verif/pbt/ref"
)

// ---- C08: every scalar value

type Char struct {
	Rune rune
}

func (c Char) Show() string { return fmt.Sprintf("U+%04X (%v)", c.Rune, u17[c.Rune]) }

var prober = &probe.Prober{Scan: textseg.ScanGraphemeClusters}

// busy[b] says whether the 64 code points of block b include one with
// properties.
var busy = func() (b [(ref.MaxRune + 1) / 64]bool) {
	for r, p := range u17 {
		if p != 0 {
			b[r/64] = true
		}
	}
	return
}()

func checkChar(c Char, o *pbt.Obs) error {
	o.Evals(int64(probe.Contexts) - 1)
	p := u17[c.Rune]
	if busy[c.Rune/64] {
		o.NonTrivial()
	}
	o.Class(p.String())
	if err := prober.Check(c.Rune, p); err != nil {
		return fmt.Errorf("%w\nit behaves as: %s", err, prober.Deduce(c.Rune))
	}
	return nil
}

var kChar = &pbt.Kind[Char]{Name: "scalar", Check: checkChar}

// kCharText: any character in a richer random context, against the model.
var kCharText = &pbt.Kind[Text]{Name: "scalar-in-text", Check: checkModel, Gen: func(t *rapid.T) Text {
	r := gen.Uniform(t, ref.MaxRune-0x800+1)
	if r >= 0xd800 {
		r += 0x800
	}
	rs := gen.Runes(t, 4)
	i := rapid.IntRange(0, len(rs)).Draw(t, "at")
	return Text{[]byte(string(rs[:i]) + string(rune(r)) + string(rs[i:]))}
}}

// kCharListed: each character with properties of its own in random texts.
var kCharListed = &pbt.Kind[Text]{Name: "listed-in-text", Check: checkModel, Gen: func(t *rapid.T) Text {
	r := listed[gen.Uniform(t, len(listed))]
	rs := gen.Runes(t, 4)
	i := rapid.IntRange(0, len(rs)).Draw(t, "at")
	return Text{[]byte(string(rs[:i]) + string(r) + string(rs[i:]))}
}}
var kCharKnown = &pbt.Kind[Text]{Name: "between-known", Check: checkModel, Smaller: smallerText}

// between are texts that go around a character.
var between = []string{"", "a", "\n", "\u0301", "\u034f", "\u200d", "\u200c", "\ufe0f", "\u0903", "\u0600", "\u0915", "\u094d", "\u0915\u094d", "\u00a9", "\U0001F468\u200d", "\u200d\U0001F469",
	"\U0001F3FD", "\U0001F1E6", "\u1100", "\u1161", "\uac01"}

var c08 = &pbt.Prop{ID: "C08",
	Rule:  "every scalar value in each of the probe contexts, whose boundary patterns tell all property classes apart (each context an evaluation), every listed character between each two of 21 texts, and random characters in random texts; a scalar is non-trivial if its block of 64 has any character with non-default properties, a text as for C01",
	Kinds: []pbtKind{pbt.K(kChar), pbt.K(kCharText), pbt.K(kCharListed), pbt.K(kCharKnown)},
	Run: func(r *pbt.Run) {
		pbt.Must(probe.SelfTest())
		for c := rune(0); c <= ref.MaxRune; c++ {
			if !utf8.ValidRune(c) || !r.Mine(int(c>>6)) {
				continue
			}
			if !pbt.One(r, kChar, Char{c}) {
				return
			}
		}
		r.Note("all 1,112,064 scalar values in %d contexts each", probe.Contexts)
		i := 0
		for _, x := range listed {
			for _, a := range between {
				for _, b := range between {
					if i++; r.Mine(i) && !pbt.One(r, kCharKnown, Text{[]byte(a + string(x) + b)}) {
						return
					}
				}
			}
		}
		pbt.Rapid(r, kCharText, r.N(400000, 6000000))
		pbt.Rapid(r, kCharListed, r.N(800000, 12000000))
	}}
