// Package gen generates text for the segmentation properties: characters of
// every class of the pinned Unicode data, templates of the constructs the
// rules are about, and ill-formed bytes.
package gen

import (
	"bytes"
	"slices"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/pbt/ref"
)

// Class is a set of scalar values with the same segmentation properties.
type Class struct {
	Name  string
	P     ref.Props
	Rep   rune
	Runes []rune // all members (Other: a broad selection)
	Edges []rune // members next to a character of another class, or at an encoding-length edge
	Known []rune // well-known members, those code is likely to single out
	Mined []rune // those the code being tested mentions
}

// The classes, in a fixed order: simplest first, so that shrinking goes there.
const (
	Other = iota
	CR
	LF
	Control
	ExtI // GCB=Extend, InCB=Extend
	Link // GCB=Extend, InCB=Linker
	ExtN // GCB=Extend, InCB=None (ZWNJ)
	ZWJ
	SM
	Prep
	HL
	HV
	HT
	HLV
	HLVT
	RI
	EP
	Cons
	NumClasses
)

var Classes = build()

func build() [NumClasses]*Class {
	var cs [NumClasses]*Class
	set := func(i int, name string, rep rune, p ref.Props) {
		cs[i] = &Class{Name: name, P: p, Rep: rep}
		if ref.U17[rep] != p {
			panic("gen: bad representative " + name + ": " + ref.U17[rep].String())
		}
	}
	m := ref.MakeProps
	set(Other, "Other", 'a', m(ref.Other, false, ref.INone))
	set(CR, "CR", '\r', m(ref.CR, false, ref.INone))
	set(LF, "LF", '\n', m(ref.LF, false, ref.INone))
	set(Control, "Control", 0, m(ref.Control, false, ref.INone))
	set(ExtI, "Extend", 0x300, m(ref.Extend, false, ref.IExtend))
	set(Link, "Linker", 0x94d, m(ref.Extend, false, ref.ILinker))
	set(ExtN, "ZWNJ", 0x200c, m(ref.Extend, false, ref.INone))
	set(ZWJ, "ZWJ", 0x200d, m(ref.ZWJ, false, ref.IExtend))
	set(SM, "SpacingMark", 0x903, m(ref.SpacingMark, false, ref.INone))
	set(Prep, "Prepend", 0x600, m(ref.Prepend, false, ref.INone))
	set(HL, "L", 0x1100, m(ref.L, false, ref.INone))
	set(HV, "V", 0x1161, m(ref.V, false, ref.INone))
	set(HT, "T", 0x11a8, m(ref.T, false, ref.INone))
	set(HLV, "LV", 0xac00, m(ref.LV, false, ref.INone))
	set(HLVT, "LVT", 0xac01, m(ref.LVT, false, ref.INone))
	set(RI, "RI", 0x1f1e6, m(ref.RI, false, ref.INone))
	set(EP, "ExtPict", 0xa9, m(ref.Other, true, ref.INone))
	set(Cons, "Consonant", 0x915, m(ref.Other, false, ref.IConsonant))
	byP := map[ref.Props]*Class{}
	for _, c := range cs {
		byP[c.P] = c
	}
	edgeCP := map[rune]bool{0x7f: true, 0x80: true, 0x7ff: true, 0x800: true, 0xd7ff: true, 0xe000: true,
		0xffff: true, 0x10000: true, 0x10ffff: true, 0xfffd: true, 0xfeff: true}
	for r := rune(0); r <= ref.MaxRune; r++ {
		if !utf8.ValidRune(r) {
			continue
		}
		p := ref.U17[r]
		c := byP[p]
		if c == nil {
			panic("gen: unclassified properties " + p.String())
		}
		edge := edgeCP[r] || (r > 0 && ref.U17[r-1] != p) || (r < ref.MaxRune && ref.U17[r+1] != p)
		if edge {
			c.Edges = append(c.Edges, r)
		}
		if c != cs[Other] || r < 0x3100 || r%97 == 0 || edge {
			c.Runes = append(c.Runes, r)
		}
	}
	for _, r := range Known {
		c := byP[ref.U17[r]]
		c.Known = append(c.Known, r)
		if slices.Contains(Mined.Runes, r) {
			c.Mined = append(c.Mined, r)
		}
	}
	return cs
}

// Known are the characters that people know of when they write about text
// segmentation, and so those that code is likely to treat by name, and those
// that this code does mention.
var Known = func() []rune {
	out := slices.Clone(wellKnown)
	for _, r := range Mined.Runes {
		if !slices.Contains(out, r) {
			out = append(out, r)
		}
	}
	return out
}()

var wellKnown = []rune{'a', 'e', 'A', 'Z', 'z', ' ', '.', '-', '_', '#', '*', '0', '1', '9', '@', '~',
	0, '\t', '\n', '\v', '\f', '\r', 0x1b, 0x1f, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xa9, 0xad, 0xae, 0xb4, 0xe9, 0xff, 0x100, 0x2bc,
	0x300, 0x301, 0x302, 0x303, 0x308, 0x323, 0x327, 0x338, 0x345, 0x34f, 0x360, 0x36f, 0x483, 0x488, 0x489, 0x591, 0x5b0, 0x5bf,
	0x600, 0x605, 0x610, 0x61c, 0x640, 0x64b, 0x651, 0x670, 0x6dd, 0x70f, 0x890, 0x8e2,
	0x900, 0x902, 0x903, 0x915, 0x924, 0x930, 0x939, 0x93c, 0x93e, 0x93f, 0x940, 0x947, 0x94d, 0x958, 0x995, 0x9a4, 0x9be, 0x9c7, 0x9cd, 0x9d7,
	0xa15, 0xa4d, 0xa95, 0xacd, 0xb15, 0xb3e, 0xb4d, 0xb57, 0xb95, 0xbbe, 0xbcd, 0xbd7, 0xc15, 0xc4d, 0xcb0, 0xcc2, 0xccd, 0xcd5, 0xd15, 0xd3e, 0xd4d, 0xd4e, 0xdca, 0xdcf,
	0xe01, 0xe31, 0xe33, 0xe34, 0xe48, 0xeb3, 0xf40, 0xf71, 0xf7f, 0x1000, 0x102b, 0x102c, 0x1031, 0x1038, 0x1039, 0x103a, 0x1060,
	0x1100, 0x1112, 0x115f, 0x1160, 0x1161, 0x1175, 0x11a7, 0x11a8, 0x11c2, 0x11ff, 0xa960, 0xa97c, 0xac00, 0xac01, 0xac1b, 0xac1c, 0xd55c, 0xd7a3, 0xd7b0, 0xd7c6, 0xd7cb, 0xd7fb,
	0x1714, 0x1734, 0x1780, 0x17b4, 0x17b6, 0x17c6, 0x17d2, 0x180b, 0x180e, 0x180f, 0x1885, 0x1a20, 0x1a60, 0x1ab0, 0x1b05, 0x1b35, 0x1b44, 0x1bab, 0x1ced, 0x1cf7, 0x1dc0,
	0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0x2010, 0x2028, 0x2029, 0x202a, 0x202e, 0x202f, 0x203c, 0x2049, 0x2060, 0x2061, 0x2064, 0x2066, 0x2069, 0x206f,
	0x20d0, 0x20dd, 0x20e3, 0x20f0, 0x2122, 0x2139, 0x2194, 0x21a9, 0x231a, 0x2328, 0x23cf, 0x23e9, 0x24c2, 0x25aa, 0x2600, 0x2614, 0x261d, 0x2640, 0x2642, 0x2695, 0x26a7, 0x26f9, 0x270a, 0x2708, 0x270c, 0x2728, 0x2744, 0x2764, 0x27a1, 0x2b1b, 0x2b50,
	0x2cef, 0x2de0, 0x302a, 0x302e, 0x3030, 0x303d, 0x3042, 0x3099, 0x309a, 0x3164, 0x3297, 0x3299, 0x4e00, 0xa66f, 0xa802, 0xa806, 0xa823, 0xa8b4, 0xa8c4, 0xa953, 0xa9bd, 0xa9c0, 0xaaeb, 0xaaf6, 0xabe3, 0xabed,
	0xe000, 0xf8ff, 0xfb1e, 0xfe00, 0xfe0e, 0xfe0f, 0xfe20, 0xfeff, 0xff9e, 0xff9f, 0xffa0, 0xfff0, 0xfff9, 0xfffb, 0xfffc, 0xfffd, 0xffff,
	0x10000, 0x101fd, 0x110bd, 0x110cd, 0x1133e, 0x1134d, 0x11357, 0x11133, 0x111c0, 0x11235, 0x113b8, 0x113ce, 0x113cf, 0x113d0, 0x113d1, 0x114b0, 0x11930, 0x1193e, 0x1193f, 0x11941, 0x11a33, 0x11a3a, 0x11a84, 0x11d46, 0x11f02, 0x11f41, 0x11f42, 0x1611e, 0x16d63, 0x16d67, 0x16ff0, 0x13430, 0x1343f, 0x13440, 0x1bca0, 0x1d165, 0x1d16d, 0x1d172, 0x1d173, 0x1d17a,
	0x1f004, 0x1f0cf, 0x1f170, 0x1f18e, 0x1f1e5, 0x1f1e6, 0x1f1e7, 0x1f1e8, 0x1f1fa, 0x1f1fe, 0x1f1ff, 0x1f200, 0x1f201, 0x1f260, 0x1f308, 0x1f32b, 0x1f3f3, 0x1f3f4, 0x1f3fa, 0x1f3fb, 0x1f3fc, 0x1f3fd, 0x1f3fe, 0x1f3ff, 0x1f400, 0x1f43b, 0x1f441,
	0x1f466, 0x1f467, 0x1f468, 0x1f469, 0x1f46a, 0x1f476, 0x1f48b, 0x1f4a9, 0x1f525, 0x1f595, 0x1f5e8, 0x1f600, 0x1f602, 0x1f636, 0x1f680, 0x1f692, 0x1f6d1, 0x1f91d, 0x1f926, 0x1f937, 0x1f9b0, 0x1f9b3, 0x1f9d1, 0x1fa70, 0x1faef, 0x1faf1, 0x1faf8, 0x1fbff, 0x1fc00, 0x1fffd,
	0x20000, 0x3ffff, 0xe0000, 0xe0001, 0xe0020, 0xe0062, 0xe0065, 0xe0067, 0xe006e, 0xe007f, 0xe0080, 0xe00ff, 0xe0100, 0xe01ef, 0xe01f0, 0xe0fff, 0xe1000, 0xf0000, 0x10ffff}

// weights: index into this to draw a class.
var weights = func() []int {
	var w []int
	add := func(c, n int) {
		for range n {
			w = append(w, c)
		}
	}
	add(Other, 3)
	add(CR, 1)
	add(LF, 1)
	add(Control, 1)
	add(ExtI, 4)
	add(Link, 3)
	add(ExtN, 1)
	add(ZWJ, 4)
	add(SM, 2)
	add(Prep, 2)
	add(HL, 2)
	add(HV, 2)
	add(HT, 2)
	add(HLV, 2)
	add(HLVT, 2)
	add(RI, 4)
	add(EP, 4)
	add(Cons, 4)
	return w
}()

// Member picks the i-th way to choose a member of class c: the representative
// first, then well-known members, class edges and all members.
func Member(c int, mode, i int) rune {
	cl := Classes[c]
	switch {
	case mode < 3:
		return cl.Rep
	case mode < 6:
		return cl.Known[i%len(cl.Known)]
	case mode < 8:
		return cl.Edges[i%len(cl.Edges)]
	default:
		return cl.Runes[i%len(cl.Runes)]
	}
}

var digit, wide = rapid.IntRange(0, 7), rapid.IntRange(0, 1)

// Uniform draws from 0 to n-1 nearly uniformly; rapid's own integers are much
// more often small.
func Uniform(t *rapid.T, n int) int {
	if n <= 2 {
		if n < 2 {
			return 0
		}
		return wide.Draw(t, "bit")
	}
	x, space := 0, 1
	for m := n - 1; m > 0; m >>= 3 { // digits of n-1, most significant last
		d := digit
		if m < 4 {
			d = lead[m]
		}
		x += space * d.Draw(t, "digit")
		space <<= 3
	}
	return x % n
}

var lead = [4]*rapid.Generator[int]{1: rapid.IntRange(0, 1), 2: rapid.IntRange(0, 2), 3: rapid.IntRange(0, 3)}

// RuneOf draws a member of class c.
func RuneOf(t *rapid.T, c int) rune {
	if len(Classes[c].Runes) == 1 {
		return Classes[c].Rep
	}
	switch mode := Uniform(t, 10); {
	case mode < 3:
		return Classes[c].Rep
	case mode < 6:
		return Classes[c].Known[Uniform(t, len(Classes[c].Known))]
	case mode < 8:
		return Classes[c].Edges[Uniform(t, len(Classes[c].Edges))]
	case mode == 8 && len(Classes[c].Mined) > 0:
		return Classes[c].Mined[Uniform(t, len(Classes[c].Mined))]
	default:
		return Classes[c].Runes[Uniform(t, len(Classes[c].Runes))]
	}
}

// AnyRune draws a character of any class.
func AnyRune(t *rapid.T) rune {
	return RuneOf(t, weights[Uniform(t, len(weights))])
}

// AnyRuneExcept draws a character of a class for which skip is false.
func AnyRuneExcept(t *rapid.T, skip func(class int) bool) rune {
	var w []int
	for _, c := range weights {
		if !skip(c) {
			w = append(w, c)
		}
	}
	return RuneOf(t, w[Uniform(t, len(w))])
}

// OneOf draws from some classes.
func OneOf(t *rapid.T, classes ...int) rune {
	return RuneOf(t, classes[Uniform(t, len(classes))])
}

// Count draws a length: mostly small, sometimes up to big, rarely up to ten
// times that.
func Count(t *rapid.T, lo, small, big int) int {
	n := Uniform(t, 200)
	switch {
	case n < 180 || big <= small:
		return rapid.IntRange(lo, small).Draw(t, "n")
	case n == 199:
		return lo + Uniform(t, big*10)
	case n == 198:
		return max(lo, MinedSize(t, big*10, small))
	default:
		return rapid.IntRange(lo, big).Draw(t, "n")
	}
}

// Marks draws a sequence of extending, joining and spacing characters.
func Marks(t *rapid.T, lo, hi int) []rune {
	n := rapid.IntRange(lo, hi).Draw(t, "marks")
	out := make([]rune, n)
	for i := range out {
		out[i] = OneOf(t, ExtI, ZWJ, Link, SM, ExtN)
	}
	return out
}

// Phrases are real-world constructs.
var Phrases = []string{
	"\U0001F468\u200d\U0001F469\u200d\U0001F467\u200d\U0001F466", "\U0001F469\U0001F3FD\u200d\U0001F680", "\U0001F3F3\ufe0f\u200d\U0001F308", "\U0001F3F4\u200d\u2620\ufe0f",
	"\U0001F3F4\U000E0067\U000E0062\U000E0065\U000E006E\U000E0067\U000E007F", "\U0001F441\ufe0f\u200d\U0001F5E8\ufe0f", "\u2764\ufe0f\u200d\U0001F525", "\U0001F9D1\U0001F3FB\u200d\U0001F91D\u200d\U0001F9D1\U0001F3FF",
	"#\ufe0f\u20e3", "1\u20e3", "*\ufe0f\u20e3", "\u00a9\ufe0f", "\u2122\ufe0e", "\U0001F1FA\U0001F1F8", "\U0001F1EB\U0001F1F7\U0001F1E9\U0001F1EA", "\u270c\U0001F3FF", "\U0001F43B\u200d\u2744\ufe0f",
	"\u0915\u094d\u0937", "\u0915\u094d\u200d\u0937", "\u0915\u094d\u200c\u0937", "\u0915\u093c\u094d\u0937\u093f", "\u0995\u09cd\u09b7", "\u0c15\u0c4d\u0c37", "\u0d15\u0d4d\u0d37", "\u0b95\u0bcd\u0bb7", "\u0dc1\u0dca\u200d\u0dbb\u0dd3", "\u1000\u1039\u1000", "\u1780\u17d2\u1780",
	"\u09b0\u200d\u09cd\u09af", "\u09b0\u09cd\u200d\u09af", "\u09a4\u09cd\u200d", "\u0d28\u0d4d\u200d", "\u0930\u094d\u200d", "\u0cb0\u200d\u0ccd\u0c95", "\u0930\u093c\u094d\u092f", "\u1004\u103a\u1039\u1000", "\u1a20\u1a60\u1a21", "\u1b13\u1b44\u1b13", "\ua9b2\ua9c0\ua98f", "\U00011103\U00011133\U00011103", "\u0f40\u0f90\u0f71", "\u0915\u0951\u094d\u0915", "\u0d4e\u0d15",
	"\u0928\u092e\u0938\u094d\u0924\u0947", "\u0e01\u0e33", "\u0e19\u0e49\u0e33", "\u0ea5\u0eb3", "e\u0301", "o\u0308\u0304", "Z\u0351\u036b\u0343\u036a\u0302", "\u0635\u0651\u064e", "\u05e9\u05b8\u05c1", "\u0600\u0661\u0662", "\u06dd\u0661",
	"\ud55c\uad6d", "\u1112\u1161\u11ab", "\u1100\uac01\u11a8", "\ua960\u1161\ud7cb", "\uac00\u1160", "\u115f\u1160", "\r\n", "\n\r", "\r\r\n", "\t\u0301", "\ufeff", "\u200b\u0301", "\u2028", "\u304b\u3099", "\uff76\uff9e", "a\u00adb", "a\u034f\u0301", "\ufffd",
}

// scripts are the characters with properties of each 128 code points, those of
// rare classes as often as those of the most frequent one.
var scripts = func() (out [][]rune) {
	for b := rune(0); b < 0x110000; b += 128 {
		var by [NumClasses][]rune
		most := 0
		for r := b; r < b+128; r++ {
			if utf8.ValidRune(r) {
				c := classOf(r)
				by[c] = append(by[c], r)
				most = max(most, len(by[c]))
			}
		}
		var rs []rune
		for c, l := range by {
			if n := len(l); n > 0 && c != Other && c != HLV && c != HLVT {
				for i := range max(n, most/3) {
					rs = append(rs, l[i%n])
				}
			}
		}
		if len(rs) == 0 || b >= 0xe0100 {
			continue
		}
		out = append(out, append(rs, by[Other]...))
	}
	return
}()

var byProps = func() map[ref.Props]int {
	m := map[ref.Props]int{}
	for i, c := range Classes {
		m[c.P] = i
	}
	return m
}()

func classOf(r rune) int { return byProps[ref.U17[r]] }

// piece draws one construct.
func piece(t *rapid.T, out []rune) []rune {
	switch Uniform(t, 17) {
	case 16:
		return append(out, MinedRunes(t)...)
	case 14:
		return append(out, []rune(Phrases[Uniform(t, len(Phrases))])...)
	case 15: // characters of one script
		b := scripts[Uniform(t, len(scripts))]
		for range 2 + Uniform(t, 7) {
			switch k := Uniform(t, 12); k {
			case 10:
				out = append(out, 0x200d)
			case 11:
				out = append(out, []rune{0x200c, 'a', 0xfe0f, 0x25cc, 0x1f3fb, 0x20e3}[Uniform(t, 6)])
			default:
				out = append(out, b[Uniform(t, len(b))])
			}
		}
		return out
	}
	k := Uniform(t, 20)
	switch {
	case k < 11:
		return append(out, AnyRune(t))
	case k == 11: // flags
		for range rapid.IntRange(1, 7).Draw(t, "ri") {
			out = append(out, RuneOf(t, RI))
		}
	case k == 12, k == 13: // emoji ZWJ sequence, with or without flaws
		for range rapid.IntRange(1, 4).Draw(t, "ep") {
			out = append(out, RuneOf(t, EP))
			for range rapid.IntRange(0, 2).Draw(t, "ext") {
				out = append(out, OneOf(t, ExtI, Link, ExtN))
			}
			if rapid.IntRange(0, 7).Draw(t, "zwj") > 0 {
				out = append(out, 0x200d)
			}
		}
		out = append(out, RuneOf(t, EP))
	case k == 14, k == 15: // conjunct
		for range rapid.IntRange(1, 3).Draw(t, "cons") {
			out = append(out, RuneOf(t, Cons))
			for range rapid.IntRange(0, 3).Draw(t, "m") {
				out = append(out, OneOf(t, Link, ExtI, ZWJ, Link))
			}
		}
		out = append(out, RuneOf(t, Cons))
	case k == 16: // Hangul
		for range rapid.IntRange(1, 5).Draw(t, "jamo") {
			out = append(out, OneOf(t, HL, HV, HT, HLV, HLVT))
		}
	case k == 17: // prepend run
		for range rapid.IntRange(1, 3).Draw(t, "prep") {
			out = append(out, RuneOf(t, Prep))
		}
		out = append(out, AnyRune(t))
	case k == 18: // repeated character
		c := AnyRune(t)
		for range Count(t, 2, 12, 200) {
			out = append(out, c)
		}
	case k == 19: // marks, then anything
		out = append(append(out, Marks(t, 1, 4)...), AnyRune(t))
	}
	return out
}

// Runes draws a text of pieces.
func Runes(t *rapid.T, big int) []rune {
	var out []rune
	for range Count(t, 0, 8, big) {
		out = piece(t, out)
	}
	return out
}

// Valid draws valid UTF-8 text.
func Valid(t *rapid.T, big int) []byte { return []byte(string(Runes(t, big))) }

// Long draws a text that is one text repeated to a size of some hundreds of
// bytes up to big, with something before and behind it.
func Long(t *rapid.T, big int, wild, valid bool) []byte {
	draw := func(n int) []byte {
		if valid {
			return Valid(t, n)
		}
		return Bytes(t, n, wild)
	}
	size := 100
	for size < big && Uniform(t, 3) > 0 {
		size = min(big, size*4)
	}
	size = size/2 + Uniform(t, size/2+1)
	if Uniform(t, 8) == 0 {
		size = MinedSize(t, big, size)
	}
	out := draw(3)
	for len(out) < size {
		unit := draw(3)
		if Uniform(t, 3) == 0 {
			unit = []byte(string(AnyRune(t)))
		}
		if len(unit) == 0 {
			unit = []byte("a")
		}
		n := 1 + Uniform(t, (size-len(out))/len(unit)+1)
		out = append(out, bytes.Repeat(unit, n)...)
		if n < 4 {
			out = append(out, draw(3)...)
		}
	}
	out = append(out, draw(4)...)
	if !valid && !wild {
		out = Tame(out)
	}
	return out
}

// badBits are ill-formed or unusual byte sequences.
var badBits = [][]byte{
	{0x80}, {0xbf}, {0xff}, {0xfe}, {0xf8}, {0xfc}, {0xc3}, {0xcc}, {0xe2}, {0xf0}, {0xf4},
	{0xe2, 0x80}, {0xf0, 0x9f}, {0xf0, 0x9f, 0x87}, {0xe0, 0xa4}, {0xea, 0xb0}, {0xcc, 'a'},
	{0xc0}, {0xc1}, {0xf5}, {0xf7}, {0xef, 0xbf}, {0xf0, 0x91},
}

// wildBits are structurally complete encodings of no scalar value.
var wildBits = [][]byte{
	{0xc0, 0x80}, {0xc0, 0x8a}, {0xc1, 0xbf}, {0xe0, 0x80, 0x80}, {0xe0, 0x9f, 0xbf}, {0xed, 0xa0, 0x80}, {0xed, 0xbf, 0xbf},
	{0xf0, 0x80, 0x80, 0x80}, {0xf0, 0x8f, 0xbf, 0xbf}, {0xf4, 0x90, 0x80, 0x80}, {0xf5, 0x80, 0x80, 0x80}, {0xf7, 0xbf, 0xbf, 0xbf},
	{0xf7, 0x80, 0x80, 0x80}, {0xf6, 0xbf, 0x80, 0xbf}, {0xe0, 0x8c, 0x80}, {0xf0, 0x80, 0x8d},
}

// Bytes draws text with ill-formed parts. wild also allows overlong,
// surrogate and out-of-range encodings; without it the result is InDomain.
func Bytes(t *rapid.T, big int, wild bool) []byte {
	var out []byte
	for range Count(t, 0, 8, big) {
		k := Uniform(t, 11)
		switch {
		case k == 10:
			out = append(out, MinedBytes(t)...)
		case k < 5:
			out = append(out, string(piece(t, nil))...)
		case k == 5:
			out = append(out, badBits[Uniform(t, len(badBits))]...)
		case k == 6: // a character cut short
			s := string(AnyRune(t))
			out = append(out, s[:rapid.IntRange(0, len(s)-1).Draw(t, "cut")]...)
		case k == 7: // a character's tail
			s := string(AnyRune(t))
			out = append(out, s[rapid.IntRange(0, len(s)-1).Draw(t, "cut"):]...)
		case k == 8:
			out = append(out, byte(Uniform(t, 256)))
		case k == 9:
			if wild {
				out = append(out, wildBits[Uniform(t, len(wildBits))]...)
			} else {
				out = append(out, badBits[Uniform(t, len(badBits))]...)
			}
		}
	}
	if !wild {
		out = Tame(out)
	}
	return out
}

// Tame makes data InDomain by replacing the lead byte of every structurally
// complete encoding of no scalar value by one that only cannot begin
// anything, leaving everything else as it is.
func Tame(data []byte) []byte {
	for i := 0; i < len(data); {
		st, n := ref.FirstUnit(data[i:])
		if st == ref.Complete {
			if r, size := utf8.DecodeRune(data[i:]); r == utf8.RuneError && size == 1 {
				data[i] = 0xff
				n = 1
			}
		} else {
			n = 1
		}
		i += n
	}
	return data
}
