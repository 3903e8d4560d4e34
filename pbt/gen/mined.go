package gen

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Constants that occur in the code being tested, as a fuzzer takes a
// dictionary from a program: where code treats some character, byte, text or
// length by name, the name is one of these. They only guide the generators;
// what is right does not depend on them.

// Mined are those constants.
var Mined = mine(os.Getenv("REPO"))

type mined struct {
	Ints    []int    // from 0 up
	Runes   []rune   // characters mentioned, and those next to them
	Strings []string // of up to 64 bytes
	leads   []byte
	conts   []byte
}

// minedRunes is limited so that a table in the code doesn't outweigh all else.
const minedRunes = 160

func mine(repo string) (m mined) {
	if repo == "" {
		return
	}
	ints, runes, strs := map[int]bool{}, map[rune]bool{}, map[string]bool{}
	addRune := func(r rune) {
		if utf8.ValidRune(r) {
			runes[r] = true
		}
	}
	addInt := func(v constant.Value, char bool) {
		n, ok := constant.Int64Val(constant.ToInt(v))
		if !ok || n < 0 || n > 1<<40 {
			return
		}
		if !char {
			ints[int(n)] = true
		}
		if n <= unicode.MaxRune && (n >= 0x80 || char) {
			addRune(rune(n) - 1)
			addRune(rune(n))
			addRune(rune(n) + 1)
		}
	}
	addString := func(s string) {
		if len(s) == 0 || len(s) > 64 {
			return
		}
		strs[s] = true
		for _, r := range s {
			if r >= 0x80 && r != utf8.RuneError {
				addRune(r)
			}
		}
	}
	file := func(name string) {
		f, err := parser.ParseFile(token.NewFileSet(), name, nil, parser.SkipObjectResolution)
		if err != nil {
			return
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CompositeLit:
				return len(n.Elts) <= 256 // a table is data
			case *ast.BasicLit:
				v := constant.MakeFromLiteral(n.Value, n.Kind, 0)
				switch n.Kind {
				case token.INT:
					addInt(v, false)
				case token.CHAR:
					addInt(v, true)
				case token.STRING:
					addString(constant.StringVal(v))
				}
			case *ast.BinaryExpr:
				if v := fold(n); v != nil {
					if v.Kind() == constant.String {
						addString(constant.StringVal(v))
					} else {
						addInt(v, false)
					}
				}
			case *ast.SelectorExpr:
				x, ok := n.X.(*ast.Ident)
				if !ok {
					break
				}
				if v, ok := named[x.Name+"."+n.Sel.Name]; ok {
					addInt(constant.MakeInt64(v), false)
				}
				if x.Name == "unicode" {
					for _, tables := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
						if t := tables[n.Sel.Name]; t != nil {
							for _, r := range t.R16[:min(4, len(t.R16))] {
								addRune(rune(r.Lo))
								addRune(rune(r.Hi))
							}
							for _, r := range t.R32[:min(2, len(t.R32))] {
								addRune(rune(r.Lo))
								addRune(rune(r.Hi))
							}
						}
					}
				}
			}
			return true
		})
	}
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		switch {
		case err != nil:
		case d.IsDir() && strings.HasPrefix(d.Name(), "."):
			return fs.SkipDir
		case !d.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go"):
			file(p)
		}
		return nil
	})
	m.Ints = slices.Sorted(maps.Keys(ints))
	m.Runes = slices.Sorted(maps.Keys(runes))
	m.Strings = slices.Sorted(maps.Keys(strs))
	if n := len(m.Runes); n > minedRunes {
		var some []rune
		for i := range minedRunes {
			some = append(some, m.Runes[i*n/minedRunes])
		}
		m.Runes = some
	}
	for _, n := range m.Ints {
		if n >= 0xc0 && n < 0x100 {
			m.leads = append(m.leads, byte(n))
		}
		if n >= 0x80 && n < 0xc0 {
			m.conts = append(m.conts, byte(n))
		}
	}
	return
}

// named are constants of other packages.
var named = map[string]int64{"bufio.MaxScanTokenSize": 64 << 10, "utf8.UTFMax": 4, "utf8.RuneSelf": 0x80, "utf8.MaxRune": unicode.MaxRune, "utf8.RuneError": 0xfffd,
	"unicode.MaxRune": unicode.MaxRune, "unicode.ReplacementChar": 0xfffd, "unicode.MaxASCII": 0x7f, "unicode.MaxLatin1": 0xff,
	"math.MaxInt8": 127, "math.MaxUint8": 255, "math.MaxInt16": 32767, "math.MaxUint16": 65535, "math.MaxInt32": 1<<31 - 1, "math.MaxUint32": 1<<32 - 1}

// fold evaluates what consists of literals only.
func fold(e ast.Expr) constant.Value {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.BasicLit:
		if v := constant.MakeFromLiteral(e.Value, e.Kind, 0); v.Kind() == constant.Int || v.Kind() == constant.String {
			return v
		}
	case *ast.BinaryExpr:
		x, y := fold(e.X), fold(e.Y)
		if x == nil || y == nil || x.Kind() != y.Kind() {
			return nil
		}
		switch e.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(y); ok && n < 64 && x.Kind() == constant.Int {
				return constant.Shift(x, e.Op, uint(n))
			}
		case token.ADD:
			return constant.BinaryOp(x, e.Op, y)
		case token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.Kind() == constant.Int {
				return constant.BinaryOp(x, e.Op, y)
			}
		}
	}
	return nil
}

// MinedRunes draws characters the code mentions, with others between them.
func MinedRunes(t *rapid.T) (out []rune) {
	for range 1 + Uniform(t, 4) {
		switch k := Uniform(t, 6); {
		case k < 3 && len(Mined.Runes) > 0:
			out = append(out, Mined.Runes[Uniform(t, len(Mined.Runes))])
		case k == 3 && len(Mined.Strings) > 0:
			s := Mined.Strings[Uniform(t, len(Mined.Strings))]
			if utf8.ValidString(s) {
				out = append(out, []rune(s)...)
			}
		case k == 4: // a sequence of bytes the code mentions
			if r, _ := utf8.DecodeRune(minedSeq(t)); r != utf8.RuneError {
				out = append(out, r)
			}
		default:
			out = append(out, AnyRune(t))
		}
	}
	return
}

// minedSeq draws what may be a UTF-8 sequence of bytes the code mentions.
func minedSeq(t *rapid.T) []byte {
	lead := byte(0xc2 + Uniform(t, 0xf5-0xc2))
	if n := len(Mined.leads); n > 0 {
		lead = Mined.leads[Uniform(t, n)]
	}
	n := 1
	if lead >= 0xe0 {
		n = 2
	}
	if lead >= 0xf0 {
		n = 3
	}
	out := []byte{lead}
	for range n {
		b := byte(0x80 + Uniform(t, 64))
		if k := len(Mined.conts); k > 0 && Uniform(t, 2) == 0 {
			b = Mined.conts[Uniform(t, k)]
		}
		out = append(out, b)
	}
	return out
}

// MinedBytes draws bytes and texts the code mentions.
func MinedBytes(t *rapid.T) []byte {
	if n := len(Mined.Strings); n > 0 && Uniform(t, 2) == 0 {
		s := Mined.Strings[Uniform(t, n)]
		if len(s) > 1 && Uniform(t, 3) == 0 {
			s = s[:1+Uniform(t, len(s)-1)]
		}
		return []byte(s)
	}
	s := minedSeq(t)
	return s[:1+Uniform(t, len(s))]
}

// MinedSize draws a number near one the code mentions, from 1 to most, or
// returns otherwise.
func MinedSize(t *rapid.T, most, otherwise int) int {
	n, _ := slices.BinarySearch(Mined.Ints, most+1)
	if n == 0 {
		return otherwise
	}
	return min(most, max(1, Mined.Ints[Uniform(t, n)]+Uniform(t, 4)-1))
}

// MinedPoint draws a code point near one the code mentions.
func MinedPoint(t *rapid.T) rune {
	n, _ := slices.BinarySearch(Mined.Ints, unicode.MaxRune+1)
	if k := len(Mined.Runes); k > 0 && (n == 0 || Uniform(t, 2) == 0) {
		return Mined.Runes[Uniform(t, k)]
	}
	if n == 0 {
		return 0
	}
	return rune(min(unicode.MaxRune, max(0, Mined.Ints[Uniform(t, n)]+Uniform(t, 3)-1)))
}

// MinedText is a text the code mentions, or "".
func MinedText(t *rapid.T) string {
	if n := len(Mined.Strings); n > 0 {
		return Mined.Strings[Uniform(t, n)]
	}
	return ""
}
