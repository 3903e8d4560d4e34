package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os/exec"

	"pgregory.net/rapid"

	"verif/pbt"
	"verif/pbt/gen"
)

// An independent implementation to compare with: ICU's grapheme cluster
// segmentation as exposed by node's Intl.Segmenter. It takes part only if it
// is there and has Unicode 17 data. A case counts as a violation only when
// ICU and the reference model both contradict the code under test; where ICU
// and the model contradict each other the evidence says so.

const icuScript = `
const seg = new Intl.Segmenter('en', {granularity: 'grapheme'});
console.log(JSON.stringify([process.versions.unicode, process.versions.icu]));
const rl = require('readline').createInterface({input: process.stdin, terminal: false});
rl.on('line', l => {
  const s = JSON.parse(l), out = [];
  let n = 0;
  for (const x of seg.segment(s)) { n += Buffer.byteLength(x.segment, 'utf8'); out.push(n); }
  console.log(JSON.stringify(out));
});
`

type icuProc struct {
	in      *bufio.Writer
	out     *bufio.Scanner
	cmd     *exec.Cmd
	version string
	broken  string
	agreed  int
	modelNo []string // texts on which ICU and the model differ
}

var icu *icuProc

func startICU() *icuProc {
	p := &icuProc{}
	path, err := exec.LookPath("node")
	if err != nil {
		p.broken = "node is not installed"
		return p
	}
	p.cmd = exec.Command(path, "-e", icuScript)
	in, e1 := p.cmd.StdinPipe()
	out, e2 := p.cmd.StdoutPipe()
	if e1 != nil || e2 != nil || p.cmd.Start() != nil {
		p.broken = "node cannot be started"
		return p
	}
	p.in = bufio.NewWriter(in)
	p.out = bufio.NewScanner(out)
	p.out.Buffer(nil, 1<<24)
	var v []string
	if !p.out.Scan() || json.Unmarshal(p.out.Bytes(), &v) != nil || len(v) != 2 {
		p.broken = "node does not answer"
		return p
	}
	p.version = fmt.Sprintf("ICU %s, Unicode %s", v[1], v[0])
	if v[0] != "17.0" {
		p.broken = p.version + " is not Unicode 17.0"
	}
	return p
}

func (p *icuProc) ends(s string) ([]int, bool) {
	if p.broken != "" {
		return nil, false
	}
	b, _ := json.Marshal(s)
	p.in.Write(b)
	p.in.WriteByte('\n')
	var out []int
	if p.in.Flush() != nil || !p.out.Scan() || json.Unmarshal(p.out.Bytes(), &out) != nil {
		p.broken = "node stopped answering"
		return nil, false
	}
	return out, true
}

var kICU = &pbt.Kind[Text]{Name: "differential-icu", Check: func(c Text, o *pbt.Obs) error {
	if icu == nil {
		icu = startICU()
	}
	want, ok := icu.ends(string(c.Data))
	if !ok {
		o.Class("ICU not available")
		return nil
	}
	m := u17.Ends(c.Data)
	if !eqInts(m, want) {
		if len(icu.modelNo) < 5 {
			icu.modelNo = append(icu.modelNo, show(c.Data))
		}
		o.Class("ICU and reference model differ")
		want = m
	} else {
		icu.agreed++
	}
	classify(c.Data, want, o)
	return expect(c.Data, want)
}, Gen: func(t *rapid.T) Text { return Text{gen.Valid(t, 40)} }, Slow: true}

func runICU(r *pbt.Run) {
	pbt.Rapid(r, kICU, r.N(48000, 400000))
	if icu == nil {
		return
	}
	if icu.broken != "" {
		r.Note("no differential run against ICU: %s", icu.broken)
	} else {
		r.Note("%s agreed with the reference model on %d texts of this shard", icu.version, icu.agreed)
	}
	for _, s := range icu.modelNo {
		r.Note("ICU and the reference model differ on %s", s)
	}
	if icu.cmd != nil && icu.cmd.Process != nil {
		icu.cmd.Process.Kill()
		icu.cmd.Wait()
	}
	icu = nil
}
