package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/pbt"
	"verif/pbt/canon"
	"verif/pbt/gen"
)

// ---- C24: canonically equivalent texts

// negated is the one character that Unicode itself treats otherwise than its
// decomposition: U+2194 is a pictograph, U+21AE (U+2194 with a stroke) is not.
const negated = '\u21ae'

// checkCanon: each cluster of the text, decomposed, is a cluster of the text
// decomposed.
func checkCanon(c Text, o *pbt.Obs) error {
	data := strings.ReplaceAll(string(c.Data), string(negated), "")
	whole := canon.NFD(data)
	if whole == data {
		o.Class("decomposed already")
	} else if utf8.RuneCountInString(data) > 1 {
		o.NonTrivial()
	}
	ends, err := oneShot([]byte(data))
	if err != nil {
		return err
	}
	o.If(len(ends) > 1, "several clusters")
	var want []int
	pos, n := 0, 0
	for _, e := range ends {
		n += len(canon.NFD(data[pos:e]))
		want = append(want, n)
		pos = e
	}
	got, err := oneShot([]byte(whole))
	if err != nil {
		return err
	}
	if !eqInts(got, want) {
		return fmt.Errorf("%s and its decomposition are divided differently: %s\n%w", show([]byte(data)), pieces([]byte(data), ends), differ("clusters", []byte(whole), got, want))
	}
	return nil
}

var kCanonEach = &pbt.Kind[Text]{Name: "each-composed", Check: checkCanon, Smaller: smallerText}
var kCanonMarks = &pbt.Kind[Text]{Name: "marks-reordered", Check: checkCanon, Smaller: smallerText}
var kCanon = &pbt.Kind[Text]{Name: "text", Check: checkCanon, Gen: func(t *rapid.T) Text {
	var rs []rune
	for range 1 + gen.Uniform(t, 5) {
		switch gen.Uniform(t, 6) {
		case 0, 1:
			rs = append(rs, canon.Composed[gen.Uniform(t, len(canon.Composed))])
		case 2: // more likely to matter than a letter with an accent
			rs = append(rs, composedOther[gen.Uniform(t, len(composedOther))])
		case 3:
			for range 1 + gen.Uniform(t, 4) {
				rs = append(rs, canon.Marks[gen.Uniform(t, len(canon.Marks))])
			}
		default:
			rs = append(rs, gen.Runes(t, 10)...)
		}
	}
	return Text{[]byte(string(rs))}
}}

// composedOther are those whose decomposition, or that themselves, are more
// than a plain letter with plain marks.
var composedOther = func() (out []rune) {
	for _, c := range canon.Composed {
		plain := class(c) == gen.Other
		for i, r := range canon.Full[c] {
			plain = plain && (i == 0 && class(r) == gen.Other || i > 0 && class(r) == gen.ExtI)
		}
		if !plain {
			out = append(out, c)
		}
	}
	return
}()

// canonContexts are put before and behind a composed character.
var canonContexts = func() (out []string) {
	for _, c := range gen.Classes {
		out = append(out, string(c.Rep))
	}
	for _, s := range []string{"", "\u0915\u094d", "\u0915\u094d\u0300", "\u00a9\u200d", "\u00a9\u0300", "\u0600\u0600", "\U0001f1e6\U0001f1e6", "\u200d\u00a9", "\u094d\u0915", "\u0300\u0915", "\u1161\u11a8", "\u093c\u094d\u0915", "\u0903\u0915", "\u3099", "\u0323", "\u09be", "\u302e", "\uff9e"} {
		out = append(out, s)
	}
	return
}()

var c24 = &pbt.Prop{ID: "C24",
	Rule:  "every character with a canonical decomposition (2,080 and 11,172 Hangul syllables; not U+21AE, see the property) between every two of 36 contexts and next to each well-known character; every two marks of different combining class in reverse order in four contexts; random texts with composed characters and marks out of order; decomposition from pinned Unicode 17 data; non-trivial = the text is not its own decomposition, and longer than a character",
	Kinds: []pbtKind{pbt.K(kCanonEach), pbt.K(kCanonMarks), pbt.K(kCanon)},
	Run: func(r *pbt.Run) {
		i := 0
		do := func(k *pbt.Kind[Text], s string) bool {
			i++
			return !r.Mine(i) || pbt.One(r, k, Text{[]byte(s)})
		}
		all := slices.Clone(canon.Composed)
		for s := rune(0xac00); s <= 0xd7a3; s++ {
			all = append(all, s)
		}
		for _, c := range all {
			s := string(c)
			for n, a := range canonContexts {
				for m, b := range canonContexts {
					if c >= 0xac00 && c <= 0xd7a3 && !r.Thorough && r.Mix(uint64(c)<<16|uint64(n)<<8|uint64(m))%8 != 0 {
						continue
					}
					if !do(kCanonEach, a+s+b) {
						return
					}
				}
			}
			if c < 0xac00 || c > 0xd7a3 || r.Thorough {
				for _, x := range gen.Known {
					if !do(kCanonEach, string(x)+s) || !do(kCanonEach, s+string(x)) {
						return
					}
				}
			}
		}
		for _, a := range canon.Marks {
			for n, b := range canon.Marks {
				if canon.Rank[a] <= canon.Rank[b] {
					continue
				}
				k := n % 4
				for form, s := range [4][2]string{{"a", "\u0915"}, {"\u0915", "\u0915"}, {"\u0915\u094d", "\u0915"}, {"\u00a9", "\u200d\u00a9"}} {
					if form != k && !r.Thorough {
						continue
					}
					if !do(kCanonMarks, s[0]+string(a)+string(b)+s[1]) {
						return
					}
				}
			}
		}
		pbt.Rapid(r, kCanon, r.N(400000, 6000000))
	}}
