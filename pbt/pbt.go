// Package pbt runs the property checks: it drives generated cases through
// executable oracles, counts and classifies them, shrinks failures and turns
// the smallest failing case into a replay file that needs no generator.
package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"maps"
	"os"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/pbt/cov"
)

// Obs collects what one evaluated case was like.
type Obs struct {
	nontrivial bool
	classes    []string
	evals      int64 // evaluations beyond the case itself
}

func (o *Obs) NonTrivial()       { o.nontrivial = true }
func (o *Obs) Class(name string) { o.classes = append(o.classes, name) }
func (o *Obs) If(c bool, name string) {
	if c {
		o.classes = append(o.classes, name)
	}
}

// Kind is one form of case of a property with its oracle. Check must be a
// function of the case and the code under test only.
type Kind[C any] struct {
	Name    string
	Check   func(c C, o *Obs) error
	Gen     func(t *rapid.T) C // for Rapid
	Smaller func(c C) []C      // for Enum: candidates simpler than c, best first
	Slow    bool               // a case may legitimately take long: no hang detection
}

type AnyKind interface {
	kindName() string
	replay(raw json.RawMessage) error
	slow() bool
}

func (k *Kind[C]) kindName() string { return k.Name }
func (k *Kind[C]) slow() bool       { return k.Slow }
func (k *Kind[C]) replay(raw json.RawMessage) error {
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		fmt.Println("cannot decode replay case:", err)
		os.Exit(3)
	}
	var o Obs
	return k.safe(c, &o)
}

func (k *Kind[C]) safe(c C, o *Obs) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(harnessError); ok {
				panic(h)
			}
			st := debug.Stack()
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(st))
		}
	}()
	return k.Check(c, o)
}

// harnessError is a failure of the check itself, never of the property.
type harnessError struct{ error }

// Must stops the whole check with an error exit: for harness trouble only.
func Must(err error) {
	if err != nil {
		panic(harnessError{err})
	}
}

func trimStack(st []byte) string {
	lines := strings.Split(string(st), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "go-textseg") || strings.Contains(l, "panic") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Prop is one property: Run explores a shard of its cases.
type Prop struct {
	ID    string
	Rule  string
	Kinds []AnyKind
	Run   func(r *Run)

	// Search, if any, is run instead of Run in a harness that was built to
	// observe the code being tested.
	Search func(r *Run)
}

func K[C any](k *Kind[C]) AnyKind { return k }

type failure struct {
	Prop    string          `json:"property"`
	Kind    string          `json:"kind"`
	Message string          `json:"message"`
	Show    string          `json:"shown,omitempty"`
	Case    json.RawMessage `json:"case"`
}

type result struct {
	Prop        string           `json:"prop"`
	Rule        string           `json:"rule"`
	Evaluations int64            `json:"evaluations"`
	EnumNontriv int64            `json:"enum_nontrivial"`
	Hashes      int64            `json:"hashes"`
	Classes     map[string]int64 `json:"classes"`
	Kinds       map[string]int64 `json:"kinds"`
	Samples     []any            `json:"samples"`
	Notes       []string         `json:"notes"`
	Failure     *failure         `json:"failure,omitempty"`
}

// Run is one shard's exploration.
type Run struct {
	Prop          *Prop
	Seed          uint64
	Shard, Shards int
	Thorough      bool
	Scale         float64
	res           result
	hashes        map[uint64]struct{}
	journal       string
	sub           uint64
	sampled       map[string]int
	early         map[string]any

	mu      sync.Mutex
	cur     func() *failure
	curT    time.Time
	curCPU  time.Duration
	curGen  atomic.Int64
	curSlow bool
}

func (r *Run) Note(format string, a ...any) {
	r.res.Notes = append(r.res.Notes, fmt.Sprintf(format, a...))
}

// N is this shard's share of a number of cases.
func (r *Run) N(quick, thorough int) int {
	n := quick
	if r.Thorough {
		n = thorough
	}
	n = int(float64(n) * r.Scale)
	return max(1, (n+r.Shards-1)/r.Shards)
}

// Pick returns quick or thorough.
func (r *Run) Pick(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Mine says whether this shard handles the i-th item of an enumeration.
func (r *Run) Mine(i int) bool { return i%r.Shards == r.Shard }

func (r *Run) Failed() bool { return r.res.Failure != nil }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func mkFailure[C any](r *Run, k *Kind[C], c C, msg string) *failure {
	raw, err := json.Marshal(c)
	Must(err)
	f := &failure{Prop: r.Prop.ID, Kind: k.Name, Message: msg, Case: raw}
	if s, ok := any(c).(interface{ Show() string }); ok {
		f.Show = s.Show()
	}
	return f
}

// eval runs one case.
func eval[C any](r *Run, k *Kind[C], c C, o *Obs) error {
	r.mu.Lock()
	r.cur = func() *failure { return mkFailure(r, k, c, "") }
	r.curSlow = k.Slow
	r.mu.Unlock()
	r.curGen.Add(1)
	if r.journal != "" {
		b, _ := json.Marshal(mkFailure(r, k, c, "process died"))
		Must(os.WriteFile(r.journal, b, 0o644))
	}
	err := k.safe(c, o)
	r.curGen.Add(1)
	return err
}

func (r *Run) count(kind string, o *Obs) {
	r.res.Evaluations += 1 + o.evals
	r.res.Kinds[kind]++
	for _, cl := range o.classes {
		r.res.Classes[cl]++
	}
}

func (r *Run) sample(kind string, c any, o *Obs) {
	if !o.nontrivial || r.sampled[kind] >= 3 {
		return
	}
	// Skip the first, smallest cases unless there are no others.
	early := r.res.Kinds[kind] < 50
	if _, ok := r.early[kind]; early && ok {
		return
	}
	var v any = c
	if s, ok := c.(interface{ Show() string }); ok {
		v = s.Show()
	}
	b, err := json.Marshal(v)
	if err == nil && len(b) > 600 {
		v = string(b[:600]) + "..."
	}
	sm := map[string]any{"kind": kind, "case": v}
	if early {
		r.early[kind] = sm
		return
	}
	delete(r.early, kind)
	r.sampled[kind]++
	r.res.Samples = append(r.res.Samples, sm)
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

func (r *Run) nextSeed(label string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d/%d", r.Prop.ID, label, r.Seed, r.Shard, r.sub)
	r.sub++
	s := splitmix(h.Sum64())
	if s == 0 {
		s = 1
	}
	return s
}

// Mix derives a number from the seed and i, for enumerations that vary
// representatives deterministically.
func (r *Run) Mix(i uint64) uint64 { return splitmix(splitmix(r.Seed) ^ i) }

type tb struct {
	failed bool
	log    []string
}
type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "prop" }
func (t *tb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (t *tb) Skip(a ...any)             { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.failed = true; panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.failed = true; panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

// Rapid checks n generated cases of kind k and shrinks the first failure.
func Rapid[C any](r *Run, k *Kind[C], n int) {
	if r.Failed() || n <= 0 {
		return
	}
	var harness error
	var lastCase C
	var lastErr error
	failed := false
	var failedAt time.Time
	total := 0
	prop := func(t *rapid.T) {
		c := k.Gen(t)
		if failed && time.Since(failedAt) > 40*time.Second {
			return // enough of shrinking
		}
		total++
		var o Obs
		var err error
		func() {
			defer func() {
				if p := recover(); p != nil {
					if h, ok := p.(harnessError); ok {
						harness = h.error
						return
					}
					panic(p)
				}
			}()
			err = eval(r, k, c, &o)
		}()
		if harness != nil {
			t.Fatalf("harness: %v", harness)
		}
		if err != nil {
			if !failed {
				failedAt = time.Now()
			}
			failed, lastCase, lastErr = true, c, err
			t.Fatalf("%v", firstLine(err.Error()))
		}
		if failed {
			return // shrinking: not an exploration case
		}
		r.count(k.Name, &o)
		if o.nontrivial {
			b, err := json.Marshal(c)
			Must(err)
			h := fnv.New64a()
			h.Write([]byte(k.Name))
			h.Write(b)
			if len(r.hashes) < maxHashes {
				r.hashes[h.Sum64()] = struct{}{} // beyond that, distinct cases go uncounted
			}
			r.sample(k.Name, c, &o)
		}
	}
	flag.Set("rapid.checks", fmt.Sprint(n))
	flag.Set("rapid.seed", fmt.Sprint(r.nextSeed(k.Name)))
	t := &tb{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					panic(p)
				}
			}
		}()
		rapid.Check(t, prop)
	}()
	Must(harness)
	if failed {
		var o Obs
		msg := lastErr.Error()
		if err := k.safe(lastCase, &o); err == nil {
			msg += "\n(not reproduced when the case was run once more on its own)"
		}
		r.res.Failure = mkFailure(r, k, lastCase, msg)
		return
	}
	if t.failed {
		Must(fmt.Errorf("rapid: %s", strings.Join(t.log, "\n")))
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// One evaluates a single enumerated case, which the caller guarantees is
// distinct from all others, and shrinks it greedily if it fails. It returns
// false when exploration should stop.
func One[C any](r *Run, k *Kind[C], c C) bool {
	if r.Failed() {
		return false
	}
	var o Obs
	err := eval(r, k, c, &o)
	if err == nil {
		r.count(k.Name, &o)
		if o.nontrivial {
			r.res.EnumNontriv++
			r.sample(k.Name, c, &o)
		}
		return true
	}
	c, err = shrink(r, k, c, err)
	r.res.Failure = mkFailure(r, k, c, err.Error())
	return false
}

func shrink[C any](r *Run, k *Kind[C], c C, err error) (C, error) {
	deadline := time.Now().Add(15 * time.Second)
	for again := k.Smaller != nil; again; {
		again = false
		for _, d := range k.Smaller(c) {
			if time.Now().After(deadline) {
				return c, err
			}
			var o Obs
			if e := eval(r, k, d, &o); e != nil {
				c, err, again = d, e, true
				break
			}
		}
	}
	return c, err
}

// maxHashes bounds the memory for counting distinct cases.
const maxHashes = 1500000

// Count adds bulk evaluations done inside one case.
func (o *Obs) Evals(n int64) { o.evals += n }

// SmallerBytes gives simpler variants of a byte string: spans removed, then
// bytes simplified.
func SmallerBytes(b []byte) [][]byte {
	var out [][]byte
	for n := len(b); n >= 1; n /= 2 {
		for i := 0; i+n <= len(b); i += n {
			if n == len(b) && n == 0 {
				continue
			}
			out = append(out, append(append([]byte{}, b[:i]...), b[i+n:]...))
		}
		if n == 1 {
			break
		}
	}
	return out
}

// SmallerRunes is SmallerBytes for runes.
func SmallerRunes(b []rune) [][]rune {
	var out [][]rune
	for n := len(b); n >= 1; n /= 2 {
		for i := 0; i+n <= len(b); i += n {
			out = append(out, append(append([]rune{}, b[:i]...), b[i+n:]...))
		}
		if n == 1 {
			break
		}
	}
	return out
}

// Blob is a byte string that marshals readably and exactly.
type Blob []byte

func (b Blob) MarshalJSON() ([]byte, error) {
	return json.Marshal(fmt.Sprintf("%x", []byte(b)))
}
func (b *Blob) UnmarshalJSON(raw []byte) error {
	var s string
	if err := json.Unmarshal(raw, &s); err != nil {
		return err
	}
	out := make([]byte, len(s)/2)
	for i := range out {
		if _, err := fmt.Sscanf(s[2*i:2*i+2], "%02x", &out[i]); err != nil {
			return err
		}
	}
	*b = out
	return nil
}

func (r *Run) watch(out string) {
	var lastGen int64 = -1
	var since time.Time
	var cpu time.Duration
	for {
		time.Sleep(500 * time.Millisecond)
		g := r.curGen.Load()
		if g%2 == 0 || g != lastGen {
			lastGen, since, cpu = g, time.Now(), cpuTime()
			continue
		}
		used := cpuTime() - cpu
		r.mu.Lock()
		slow := r.curSlow
		cur := r.cur
		r.mu.Unlock()
		if slow || used < 20*time.Second || time.Since(since) < 20*time.Second {
			continue
		}
		// A case that normally takes well under a millisecond has used 20
		// seconds of processor time: it does not terminate.
		f := cur()
		f.Message = fmt.Sprintf("does not terminate: one case used %v of processor time without finishing", used.Round(time.Second))
		r.res.Failure = f
		b, _ := json.Marshal(struct {
			Prop    string   `json:"prop"`
			Failure *failure `json:"failure"`
			Evals   int64    `json:"evaluations"`
		}{r.Prop.ID, f, 0})
		os.WriteFile(out, b, 0o644)
		os.Exit(0)
	}
}

// Main is the harness entry point.
func Main(props []*Prop) {
	debug.SetMaxStack(256 << 20)
	var (
		prop    = flag.String("prop", "", "property to check")
		seed    = flag.Uint64("vseed", 1, "seed")
		shard   = flag.Int("shard", 0, "")
		shards  = flag.Int("shards", 1, "")
		tier    = flag.String("tier", "quick", "")
		out     = flag.String("out", "", "result file")
		journal = flag.String("journal", "", "write each case here before running it")
		replay  = flag.String("replay", "", "replay this case file")
		scale   = flag.Float64("scale", 1, "scale case counts (development)")
		list    = flag.Bool("list", false, "list property ids")
	)
	testing.Init()
	flag.Parse()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "8s")
	if *list {
		for _, p := range props {
			fmt.Println(p.ID)
		}
		return
	}
	if *replay != "" {
		doReplay(props, *replay)
		return
	}
	var p *Prop
	for _, q := range props {
		if q.ID == *prop {
			p = q
		}
	}
	if p == nil {
		fmt.Println("no such property:", *prop)
		os.Exit(3)
	}
	r := &Run{Prop: p, Seed: *seed, Shard: *shard, Shards: *shards, Thorough: *tier == "thorough", Scale: *scale,
		hashes: map[uint64]struct{}{}, journal: *journal, sampled: map[string]int{}, early: map[string]any{}}
	r.res = result{Prop: p.ID, Rule: p.Rule, Classes: map[string]int64{}, Kinds: map[string]int64{}}
	if cov.Enabled {
		r.res.Rule = "texts made by mutation of those that made the code do something it had not done before (edges taken, how near the operands of comparisons came); non-trivial as for the other cases"
	}
	if *out != "" {
		go r.watch(*out)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if h, ok := x.(harnessError); ok {
					fmt.Println("HARNESS ERROR:", h.error)
					os.Exit(3)
				}
				panic(x)
			}
		}()
		if cov.Enabled {
			p.Search(r)
		} else {
			p.Run(r)
		}
	}()
	r.curGen.Store(0)
	for _, k := range slices.Sorted(maps.Keys(r.early)) {
		if r.sampled[k] == 0 {
			r.res.Samples = append(r.res.Samples, r.early[k])
		}
	}
	r.res.Hashes = int64(len(r.hashes))
	if *out == "" {
		b, _ := json.MarshalIndent(r.res, "", " ")
		fmt.Println(string(b))
		return
	}
	hs := make([]uint64, 0, len(r.hashes))
	for h := range r.hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	var hb bytes.Buffer
	binary.Write(&hb, binary.LittleEndian, hs)
	if err := os.WriteFile(*out+".hashes", hb.Bytes(), 0o644); err != nil {
		fmt.Println("HARNESS ERROR:", err)
		os.Exit(3)
	}
	b, err := json.Marshal(r.res)
	if err == nil {
		err = os.WriteFile(*out, b, 0o644)
	}
	if err != nil {
		fmt.Println("HARNESS ERROR:", err)
		os.Exit(3)
	}
}

func doReplay(props []*Prop, file string) {
	raw, err := os.ReadFile(file)
	var f failure
	if err == nil {
		err = json.Unmarshal(raw, &f)
	}
	if err != nil {
		fmt.Println("cannot read replay file:", err)
		os.Exit(3)
	}
	for _, p := range props {
		if p.ID != f.Prop {
			continue
		}
		for _, k := range p.Kinds {
			if k.kindName() != f.Kind {
				continue
			}
			if !k.slow() {
				go func() {
					for start := time.Now(); ; time.Sleep(time.Second) {
						if cpuTime() > 20*time.Second && time.Since(start) > 20*time.Second {
							fmt.Println("REPLAY FAIL: does not terminate")
							os.Exit(1)
						}
					}
				}()
			}
			var err error
			func() {
				defer func() {
					if x := recover(); x != nil {
						if h, ok := x.(harnessError); ok {
							fmt.Println("HARNESS ERROR:", h.error)
							os.Exit(3)
						}
						panic(x)
					}
				}()
				err = k.replay(f.Case)
			}()
			if err != nil {
				fmt.Println("REPLAY FAIL:", err)
				os.Exit(1)
			}
			fmt.Println("REPLAY PASS")
			return
		}
	}
	fmt.Println("no such property/kind:", f.Prop, f.Kind)
	os.Exit(3)
}
