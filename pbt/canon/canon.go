// Package canon is Unicode 17 canonical decomposition.
package canon

import (
	_ "embed"
	"slices"
	"strconv"
	"strings"
)

//go:embed canon17.txt
var data string

// Full is the full decomposition of each character that has one, the Hangul
// syllables apart.
var Full = map[rune][]rune{}

// Rank orders the combining classes; characters of class 0 have none.
var Rank = map[rune]int{}

// Composed are the characters of Full, Marks those of Rank, in order.
var Composed, Marks []rune

func init() {
	num := func(s string) rune {
		n, err := strconv.ParseUint(s, 16, 32)
		if err != nil {
			panic("canon: " + err.Error())
		}
		return rune(n)
	}
	for l := range strings.Lines(data) {
		f := strings.Fields(l)
		switch f[0] {
		case "D":
			c := num(f[1])
			for _, s := range f[2:] {
				Full[c] = append(Full[c], num(s))
			}
			Composed = append(Composed, c)
		case "M":
			n, err := strconv.Atoi(f[3])
			if err != nil {
				panic("canon: " + err.Error())
			}
			for c := num(f[1]); c <= num(f[2]); c++ {
				Rank[c] = n + 1
				Marks = append(Marks, c)
			}
		}
	}
}

// NFD is the canonical decomposition of s, which must be valid UTF-8.
func NFD(s string) string {
	var out []rune
	for _, r := range s {
		switch d := Full[r]; {
		case d != nil:
			out = append(out, d...)
		case r >= 0xac00 && r <= 0xd7a3:
			n := r - 0xac00
			out = append(out, 0x1100+n/588, 0x1161+n%588/28)
			if n%28 != 0 {
				out = append(out, 0x11a7+n%28)
			}
		default:
			out = append(out, r)
		}
	}
	for i := 0; i < len(out); i++ {
		if Rank[out[i]] == 0 {
			continue
		}
		j := i
		for j < len(out) && Rank[out[j]] > 0 {
			j++
		}
		slices.SortStableFunc(out[i:j], func(a, b rune) int { return Rank[a] - Rank[b] })
		i = j
	}
	return string(out)
}
