package main

import (
	"fmt"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// C10 to C15 are each about some of the rules. Beside the constructions that
// belong to each, these kinds look at any text at all: where the first
// difference from the reference model is, the characters on the two sides say
// whose it is. (After the first difference nothing is certain.)

// owner says whether a mistake between the characters of classes l and r
// belongs to the property; wantBreak is what is right there.
type owner func(l, r int, wantBreak bool) bool

func isHangul(c int) bool {
	return c == gen.HL || c == gen.HV || c == gen.HT || c == gen.HLV || c == gen.HLVT
}

var owners = map[string]owner{
	"C10": func(l, r int, _ bool) bool { return l == gen.RI || r == gen.RI },
	"C11": func(l, r int, wantBreak bool) bool {
		return r == gen.EP && (isMark(l) || l == gen.EP) || l == gen.ZWJ && wantBreak
	},
	"C12": func(l, r int, _ bool) bool { return r == gen.Cons && (isMark(l) || l == gen.Cons) },
	"C13": func(l, r int, _ bool) bool { return isHangul(l) || isHangul(r) },
	"C14": func(l, r int, _ bool) bool { return isControl(l) || isControl(r) },
	"C15": func(l, r int, wantBreak bool) bool {
		return !wantBreak && !isControl(l) && (isMark(r) || l == gen.Prep && !isControl(r))
	},
}

func checkOwned(id string) func(c Text, o *pbt.Obs) error {
	owns := owners[id]
	return func(c Text, o *pbt.Obs) error {
		data := []byte(c.Data)
		want := u17.Ends(data)
		k, prev, start := 0, -1, 0
		for pos, r := range string(data) {
			if pos == 0 {
				prev = class(r)
				continue
			}
			wantBreak := want[k] == pos
			cl := class(r)
			if owns(prev, cl, wantBreak) {
				o.NonTrivial()
			}
			prev = cl
			if !wantBreak {
				continue
			}
			k++
		}
		for _, end := range want {
			adv, _, err := textseg.ScanGraphemeClusters(data[start:], true)
			if err != nil || adv <= 0 {
				return nil // C02's
			}
			if start+adv == end {
				start = end
				continue
			}
			at := min(start+adv, end)
			if at >= len(data) || !utf8.RuneStart(data[at]) {
				return nil
			}
			l, _ := utf8.DecodeLastRune(data[:at])
			r, _ := utf8.DecodeRune(data[at:])
			if !owns(class(l), class(r), at == end) {
				o.Class("differs, but this is not its property")
				return nil
			}
			not := ""
			if at != end {
				not = "no "
			}
			return fmt.Errorf("in %s, between U+%04X (%v) and U+%04X (%v) there should be %sboundary\n got  %s ...\n want %s", show(data), l, u17[l], r, u17[r], not,
				show(data[start:start+adv]), pieces(data[start:], sub(want[k0(want, start):], start)))
		}
		return nil
	}
}

// k0 is the index of the cluster that starts at pos.
func k0(ends []int, pos int) int {
	for i, e := range ends {
		if e > pos {
			return i
		}
	}
	return len(ends)
}

type ownedKinds struct{ seq, known, text, free *pbt.Kind[Text] }

func owned(id string) ownedKinds {
	check := checkOwned(id)
	kind := func(name string, g func(t *rapid.T) Text) *pbt.Kind[Text] {
		k := &pbt.Kind[Text]{Name: name, Check: check, Gen: g}
		if g == nil {
			k.Smaller = smallerText
		}
		return k
	}
	return ownedKinds{kind("rule-in-sequence", nil), kind("rule-in-known-sequence", nil), kind("rule-in-text", kText.Gen), kind("rule-in-characters", kFree.Gen)}
}

func (k ownedKinds) kinds() []pbtKind {
	return []pbtKind{pbt.K(k.seq), pbt.K(k.known), pbt.K(k.text), pbt.K(k.free)}
}

func (k ownedKinds) run(r *pbt.Run) {
	for n := 2; n <= r.Pick(4, 6) && !r.Failed(); n++ {
		enumClasses(r, n, func(rs []rune) bool { return pbt.One(r, k.seq, Text{[]byte(string(rs))}) })
	}
	enumKnown(r, 3, famous, func(rs []rune) bool { return pbt.One(r, k.known, Text{[]byte(string(rs))}) })
	pbt.Rapid(r, k.text, r.N(240000, 4000000))
	pbt.Rapid(r, k.free, r.N(360000, 4000000))
}

var own10, own11, own12, own13, own14, own15 = owned("C10"), owned("C11"), owned("C12"), owned("C13"), owned("C14"), owned("C15")
