package main

import (
	"bytes"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/cov"
	"verif/pbt/gen"
)

// The guided searches: the same oracles on texts found by what the code does
// with them (pbt.Guided). They run in a harness of their own, built with
// instrumentation; a failure is replayed in the ordinary one.

func text(data []byte) Text { return Text{data} }

func guidedText(name string, check func(Text, *pbt.Obs) error, valid, tame bool, most, quick, thorough int) (*pbt.Kind[Text], func(r *pbt.Run)) {
	k := &pbt.Kind[Text]{Name: name, Check: check}
	return k, func(r *pbt.Run) { guide(r, k, valid, tame, most, r.N(quick, thorough), text) }
}

func guide[C any](r *pbt.Run, k *pbt.Kind[C], valid, tame bool, most, n int, mk func([]byte) C) {
	g := pbt.Guide{Seeds: gen.GuideSeeds(valid), Valid: valid, Max: most}
	if valid {
		g.Mutate = gen.MutateRunes(most)
	} else {
		g.Mutate = gen.MutateBytes(most, tame)
	}
	pbt.Guided(r, k, g, n, mk)
}

func addGuided(p *pbt.Prop, name string, check func(Text, *pbt.Obs) error, valid, tame bool, most, quick, thorough int) {
	k, run := guidedText(name, check, valid, tame, most, quick, thorough)
	p.Kinds = append(p.Kinds, pbt.K(k))
	p.Search = run
}

const guidedQuick, guidedThorough = 1600000, 40000000

func init() {
	add := func(p *pbt.Prop, check func(Text, *pbt.Obs) error, valid, tame bool, most int, cost float64) {
		addGuided(p, "guided", check, valid, tame, most, int(guidedQuick/cost), int(guidedThorough/cost))
	}
	add(c01, checkModel, true, false, 1000, 1)
	add(c02, checkPartition, false, false, 400, 4)
	add(c04, checkIllFormed, false, true, 250, 2)
	add(c07, checkCut, false, false, 200, 4)
	for id, p := range map[string]*pbt.Prop{"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15} {
		add(p, checkOwned(id), true, false, 1000, 1)
	}
	add(c24, checkCanon, true, false, 400, 2)

	{
		k := &pbt.Kind[Chunks]{Name: "guided", Check: checkChunks}
		c03.Kinds = append(c03.Kinds, pbt.K(k))
		c03.Search = func(r *pbt.Run) {
			guide(r, k, false, false, 300, r.N(guidedQuick/4, guidedThorough/4), func(b []byte) Chunks {
				reads := []int{1}
				if len(b) > 100 {
					reads = []int{len(b) / 7, 1, 2, 3}
				}
				return Chunks{Data: b, Repeat: 1, Reads: reads, Initial: 4, Slack: -1}
			})
		}
	}
	{
		k := &pbt.Kind[Incr]{Name: "guided", Check: checkIncr}
		c05.Kinds = append(c05.Kinds, pbt.K(k))
		c05.Search = func(r *pbt.Run) {
			guide(r, k, false, false, 300, r.N(guidedQuick/8, guidedThorough/8), func(b []byte) Incr { return Incr{Data: b} })
		}
	}
	{
		k := &pbt.Kind[Guarded]{Name: "guided", Check: checkGuarded}
		c09.Kinds = append(c09.Kinds, pbt.K(k))
		c09.Search = func(r *pbt.Run) {
			guide(r, k, false, false, 600, r.N(guidedQuick/8, guidedThorough/8), func(b []byte) Guarded { return Guarded{Data: b} })
		}
	}
	{
		k := &pbt.Kind[History]{Name: "guided", Check: checkHistory}
		c06.Kinds = append(c06.Kinds, pbt.K(k))
		c06.Search = func(r *pbt.Run) {
			guide(r, k, false, false, 300, r.N(guidedQuick/2, guidedThorough/2), historyOf)
		}
	}
	{
		k := &pbt.Kind[Lin]{Name: "guided", Check: checkLinWork, Slow: true}
		c23.Kinds = append(c23.Kinds, pbt.K(k))
		c23.Search = func(r *pbt.Run) {
			g := pbt.Guide{Max: 120, Mutate: gen.MutateBytes(60, false)}
			for _, h := range linHeads {
				for _, m := range linReps {
					for _, t := range linTails[:2] {
						g.Seeds = append(g.Seeds, []byte(h+"|"+m+"|"+t))
					}
				}
			}
			pbt.Guided(r, k, g, r.N(64000, 4000000), linOf)
		}
	}
}

// historyOf is a history of the text arriving bit by bit in one buffer, then a
// close relative of it at the same address, then each again.
func historyOf(data []byte) History {
	var c History
	rel := bytes.Clone(data)
	if n := len(rel); n > 0 {
		sum := 0
		for _, b := range data {
			sum += int(b)
		}
		rel[sum%n] ^= byte(1 << (sum % 7))
	}
	c.Pool = []pbt.Blob{data, rel}
	for i := range 6 {
		c.Ops = append(c.Ops, HistOp{Shared: true, Cut: len(data) * (5 - i) / 6})
	}
	for _, t := range []int{0, 1, 0, 1, 0} {
		c.Ops = append(c.Ops, HistOp{Text: t, EOF: true, Shared: true})
	}
	return c
}

// linOf reads head|repeated|tail.
func linOf(data []byte) Lin {
	c := Lin{Undecided: len(data)%4 == 3}
	parts := bytes.SplitN(data, []byte("|"), 3)
	switch len(parts) {
	case 1:
		c.Rep = parts[0]
	case 2:
		c.Head, c.Rep = parts[0], parts[1]
	case 3:
		c.Head, c.Rep, c.Tail = parts[0], parts[1], parts[2]
	}
	if len(c.Rep) == 0 {
		c.Rep = []byte("a")
	}
	return c
}

// checkLinWork counts comparisons, if it can, to see whether it is worth
// measuring time.
func checkLinWork(c Lin, o *pbt.Obs) error {
	if cov.Enabled {
		work := func(data []byte) int {
			from := cov.Work()
			for rest := data; len(rest) > 0; {
				n, _, err := textseg.ScanGraphemeClusters(rest, !c.Undecided)
				if err != nil || n <= 0 || n > len(rest) || cov.Work()-from > 4000*len(data) {
					break
				}
				rest = rest[n:]
			}
			return cov.Work() - from
		}
		small, big := c.text(linBase), c.text(8*linBase)
		o.Class("comparisons counted")
		if float64(work(big))/float64(len(big)) < 2.5*(1+float64(work(small))/float64(len(small))) {
			return nil
		}
		o.Class("time measured")
	}
	return checkLin(c, o)
}
