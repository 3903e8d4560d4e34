package gen

import (
	"bytes"
	"math/rand/v2"
	"unicode/utf8"

	"verif/pbt/cov"
)

// memberR is RuneOf for a plain source of random numbers.
func memberR(rnd *rand.Rand, c int) rune {
	cl := Classes[c]
	switch mode := rnd.IntN(10); {
	case mode < 3:
		return cl.Rep
	case mode < 6:
		return cl.Known[rnd.IntN(len(cl.Known))]
	case mode < 8:
		return cl.Edges[rnd.IntN(len(cl.Edges))]
	case mode == 8 && len(cl.Mined) > 0:
		return cl.Mined[rnd.IntN(len(cl.Mined))]
	default:
		return cl.Runes[rnd.IntN(len(cl.Runes))]
	}
}

func anyR(rnd *rand.Rand) rune {
	switch rnd.IntN(12) {
	case 0:
		if len(Mined.Runes) > 0 {
			return Mined.Runes[rnd.IntN(len(Mined.Runes))]
		}
	case 1:
		if cs := cov.Constants(); len(cs) > 0 {
			if c := rune(cs[rnd.IntN(len(cs))]) + rune(rnd.IntN(3)) - 1; utf8.ValidRune(c) {
				return c
			}
		}
	case 2:
		if c := rune(rnd.IntN(0x110000)); utf8.ValidRune(c) {
			return c
		}
	}
	return memberR(rnd, weights[rnd.IntN(len(weights))])
}

// countR is a number up to most: mostly small, now and then one that the code
// mentions or compares something with.
func countR(rnd *rand.Rand, most int) int {
	switch rnd.IntN(32) {
	case 0:
		if len(Mined.Ints) > 0 {
			return min(most, Mined.Ints[rnd.IntN(len(Mined.Ints))]+rnd.IntN(3))
		}
	case 1:
		if cs := cov.Constants(); len(cs) > 0 {
			if c := cs[rnd.IntN(len(cs))]; c < uint64(most) {
				return int(c) + rnd.IntN(3)
			}
		}
	case 2:
		return 1 + rnd.IntN(most)
	case 3:
		return 1 << rnd.IntN(10)
	case 4, 5, 6, 7:
		return 1 + rnd.IntN(24)
	}
	return 1 + rnd.IntN(6)
}

// MutateRunes changes text character by character.
func MutateRunes(most int) func(rnd *rand.Rand, data, other []byte) []byte {
	return func(rnd *rand.Rand, data, other []byte) []byte {
		rs := []rune(string(data))
		for range 1 + rnd.IntN(4)*rnd.IntN(2) {
			rs = mutateRunes(rnd, rs, other, most)
		}
		return []byte(string(rs))
	}
}

func spanR(rnd *rand.Rand, n int) (int, int) {
	if n == 0 {
		return 0, 0
	}
	i := rnd.IntN(n)
	k := 1
	switch rnd.IntN(4) {
	case 0:
		k = 1 + rnd.IntN(n-i)
	case 1:
		k = 1 + rnd.IntN(min(4, n-i))
	}
	return i, i + k
}

func splice[T any](s []T, i, j int, in ...T) []T {
	return append(append(append(make([]T, 0, len(s)+len(in)), s[:i]...), in...), s[j:]...)
}

func mutateRunes(rnd *rand.Rand, rs []rune, other []byte, most int) []rune {
	n := len(rs)
	at := rnd.IntN(n + 1)
	i, j := spanR(rnd, n)
	switch rnd.IntN(15) {
	case 0, 1:
		return splice(rs, at, at, anyR(rnd))
	case 2, 3:
		if n > 0 {
			out := cloneOf(rs)
			out[i] = anyR(rnd)
			return out
		}
	case 4:
		return splice(rs, i, j)
	case 5: // another character of the same class
		if n > 0 {
			out := cloneOf(rs)
			out[i] = memberR(rnd, classOf(rs[i]))
			return out
		}
	case 6: // repeat a span
		span := rs[i:j]
		k := countR(rnd, most)
		var in []rune
		for range k {
			if len(in)+len(span) > most {
				break
			}
			in = append(in, span...)
		}
		return splice(rs, j, j, in...)
	case 7: // repeat a character
		c := anyR(rnd)
		if n > 0 && rnd.IntN(2) == 0 {
			c = rs[i]
		}
		in := make([]rune, min(countR(rnd, most), most))
		for x := range in {
			in[x] = c
		}
		return splice(rs, at, at, in...)
	case 8: // move a span
		span := append([]rune{}, rs[i:j]...)
		rest := splice(rs, i, j)
		at = rnd.IntN(len(rest) + 1)
		return splice(rest, at, at, span...)
	case 9: // the end of another text
		o := []rune(string(other))
		if len(o) > 0 {
			return append(append([]rune{}, rs[:at]...), o[rnd.IntN(len(o)):]...)
		}
	case 10: // part of another text
		o := []rune(string(other))
		a, b := spanR(rnd, len(o))
		return splice(rs, at, at, o[a:b]...)
	case 11:
		return splice(rs, at, at, []rune(Phrases[rnd.IntN(len(Phrases))])...)
	case 12: // a number compared with this character, instead
		ops := cov.Operands()
		if len(ops) > 0 && n > 0 {
			op := ops[rnd.IntN(len(ops))]
			for x := range rs {
				y := (x + i) % n
				for s := range 2 {
					if c := rune(op[1-s]) + rune(rnd.IntN(3)) - 1; uint64(rs[y]) == op[s] && op[1-s] < 0x110000 && utf8.ValidRune(c) {
						out := cloneOf(rs)
						out[y] = c
						return out
					}
				}
			}
		}
		fallthrough
	case 13: // a neighbour
		if n > 0 {
			out := cloneOf(rs)
			c := rs[i] + rune(1-2*rnd.IntN(2))*(1<<(rnd.IntN(8)*rnd.IntN(2)))
			if utf8.ValidRune(c) {
				out[i] = c
			}
			return out
		}
	case 14: // a text or length of the code
		if ss := cov.Strings(); len(ss) > 0 && rnd.IntN(2) == 0 {
			return splice(rs, at, at, []rune(ss[rnd.IntN(len(ss))])...)
		}
		if len(Mined.Strings) > 0 && rnd.IntN(3) == 0 {
			return splice(rs, at, at, []rune(Mined.Strings[rnd.IntN(len(Mined.Strings))])...)
		}
		if need := countR(rnd, most) - len(string(rs)); need > 0 {
			in := make([]rune, need)
			for x := range in {
				in[x] = 'a'
			}
			return splice(rs, at, at, in...)
		}
	}
	return rs
}

func cloneOf[T any](s []T) []T { return append([]T{}, s...) }

// MutateBytes changes text byte by byte, or character by character; tame keeps
// to what checks of ill-formed text are about.
func MutateBytes(most int, tame bool) func(rnd *rand.Rand, data, other []byte) []byte {
	return func(rnd *rand.Rand, data, other []byte) []byte {
		out := data
		for range 1 + rnd.IntN(4)*rnd.IntN(2) {
			if rnd.IntN(3) > 0 && (utf8.Valid(out) || rnd.IntN(8) == 0) {
				out = []byte(string(mutateRunes(rnd, []rune(string(out)), other, most)))
				continue
			}
			out = mutateBytes(rnd, out, other, most)
		}
		if tame {
			out = Tame(bytes.Clone(out))
		}
		return out
	}
}

func mutateBytes(rnd *rand.Rand, b, other []byte, most int) []byte {
	n := len(b)
	at := rnd.IntN(n + 1)
	i, j := spanR(rnd, n)
	char := func() []byte { return []byte(string(anyR(rnd))) }
	aByte := func() byte {
		if cs := cov.Constants(); len(cs) > 0 && rnd.IntN(4) == 0 {
			return byte(cs[rnd.IntN(len(cs))])
		}
		return byte(rnd.IntN(256))
	}
	switch rnd.IntN(12) {
	case 0:
		return splice(b, at, at, aByte())
	case 1:
		if n > 0 {
			out := bytes.Clone(b)
			out[i] = aByte()
			return out
		}
	case 2:
		if n > 0 {
			out := bytes.Clone(b)
			out[i] ^= 1 << rnd.IntN(8)
			return out
		}
	case 3:
		return splice(b, i, j)
	case 4: // a character, or the beginning or end of one
		c := char()
		switch rnd.IntN(3) {
		case 0:
			c = c[:1+rnd.IntN(len(c))]
		case 1:
			c = c[rnd.IntN(len(c)):]
		}
		return splice(b, at, at, c...)
	case 5:
		var in []byte
		for range countR(rnd, most) {
			if len(in)+j-i > most {
				break
			}
			in = append(in, b[i:j]...)
		}
		return splice(b, j, j, in...)
	case 6:
		span := bytes.Clone(b[i:j])
		rest := splice(b, i, j)
		at = rnd.IntN(len(rest) + 1)
		return splice(rest, at, at, span...)
	case 7:
		if len(other) > 0 {
			return append(bytes.Clone(b[:at]), other[rnd.IntN(len(other)):]...)
		}
	case 8:
		x, y := spanR(rnd, len(other))
		return splice(b, at, at, other[x:y]...)
	case 9:
		bits := badBits
		if rnd.IntN(3) == 0 {
			bits = wildBits
		}
		return splice(b, at, at, bits[rnd.IntN(len(bits))]...)
	case 10:
		return splice(b, at, at, char()...)
	case 11:
		if need := countR(rnd, most) - n; need > 0 {
			return splice(b, at, at, bytes.Repeat([]byte{[]byte("a\x80\xff")[rnd.IntN(3)*rnd.IntN(2)]}, min(need, most))...)
		}
	}
	return b
}

// GuideSeeds are texts to begin a guided search with.
func GuideSeeds(valid bool) (out [][]byte) {
	for _, p := range Phrases {
		out = append(out, []byte(p))
	}
	for _, a := range Classes {
		out = append(out, []byte(string(a.Rep)))
		for _, b := range Classes {
			out = append(out, []byte(string(a.Rep)+string(b.Rep)+"a"))
		}
	}
	for _, s := range Mined.Strings {
		if utf8.ValidString(s) || !valid {
			out = append(out, []byte(s))
		}
	}
	if !valid {
		out = append(out, badBits...)
		out = append(out, wildBits...)
	}
	return out
}
