package pbt

import (
	"hash/fnv"
	"math/rand/v2"
	"time"
	"unicode/utf8"

	"verif/pbt/cov"
)

// Guide is a search guided by what the code being tested executes: texts that
// make it do something new are kept, and further texts are made from those. It
// is deterministic: the same seed, the same texts.
type Guide struct {
	Seeds  [][]byte
	Mutate func(rnd *rand.Rand, data, other []byte) []byte
	Valid  bool // well-formed UTF-8 only
	Max    int  // longest text, in bytes
}

// Guided runs n cases of kind k, made of texts that the guide finds. Where the
// code was built without instrumentation it does nothing.
func Guided[C any](r *Run, k *Kind[C], g Guide, n int, mk func([]byte) C) {
	if r.Failed() || n <= 0 || !cov.Enabled {
		return
	}
	rnd := rand.New(rand.NewPCG(r.nextSeed("guided/"+k.Name), 1))
	var corpus [][]byte
	total := 0
	run := func(data []byte) bool {
		if len(data) > g.Max || g.Valid && !utf8.Valid(data) {
			return true
		}
		c := mk(data)
		var o Obs
		cov.Begin()
		err := eval(r, k, c, &o)
		fresh := cov.End()
		if err != nil {
			data, c, err = shrinkText(r, k, g, data, c, err, mk)
			r.res.Failure = mkFailure(r, k, c, err.Error())
			return false
		}
		r.count(k.Name, &o)
		total += len(data)
		if o.nontrivial {
			h := fnv.New64a()
			h.Write([]byte(k.Name))
			h.Write(data)
			if len(r.hashes) < maxHashes {
				r.hashes[h.Sum64()] = struct{}{}
			}
			r.sample(k.Name, c, &o)
		}
		if fresh {
			corpus = append(corpus, append([]byte{}, data...))
		}
		return true
	}
	for _, s := range g.Seeds {
		if !run(s) {
			return
		}
	}
	if len(corpus) == 0 {
		corpus = append(corpus, []byte("a"))
	}
	pick := func() []byte {
		for try := 0; ; try++ {
			i := rnd.IntN(len(corpus))
			if rnd.IntN(2) == 0 { // one of the latest
				i = len(corpus) - 1 - rnd.IntN(min(len(corpus), 64))
			}
			if len(corpus[i]) <= 24 || try > 20 || rnd.IntN(len(corpus[i])) < 24 {
				return corpus[i]
			}
		}
	}
	for range n {
		if !run(g.Mutate(rnd, pick(), pick())) {
			return
		}
	}
	r.res.Classes["bytes of text"] += int64(total)
	r.res.Classes["edges reached (sum over shards)"] += int64(cov.Edges())
	r.res.Classes["results of comparisons seen (sum over shards)"] += int64(cov.Compared())
	r.res.Classes["texts kept"] += int64(len(corpus))
}

func shrinkText[C any](r *Run, k *Kind[C], g Guide, data []byte, c C, err error, mk func([]byte) C) ([]byte, C, error) {
	deadline := time.Now().Add(15 * time.Second)
	for again := true; again; {
		again = false
		var smaller [][]byte
		if utf8.Valid(data) {
			for _, rs := range SmallerRunes([]rune(string(data))) {
				smaller = append(smaller, []byte(string(rs)))
			}
			if len(data) < 64 { // plain characters
				rs := []rune(string(data))
				for i, x := range rs {
					if x != 'a' {
						rs[i] = 'a'
						smaller = append(smaller, []byte(string(rs)))
						rs[i] = x
					}
				}
			}
		} else {
			smaller = SmallerBytes(data)
		}
		for _, d := range smaller {
			if g.Valid && !utf8.Valid(d) {
				continue
			}
			if time.Now().After(deadline) {
				return data, c, err
			}
			dc := mk(d)
			var o Obs
			if e := eval(r, k, dc, &o); e != nil {
				data, c, err, again = d, dc, e, true
				break
			}
		}
	}
	return data, c, err
}
