// Command e2e checks the table generator from end to end: it runs the
// repository's own generation step in a scratch copy on generated data files,
// compiles segmentation with the table that results, and observes how every
// scalar value is treated.
package main

import (
	"bytes"
	_ "embed"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/pbt"
	"verif/pbt/gen"
	"verif/pbt/probe"
	"verif/pbt/ref"
	"verif/pbt/ucd"
)

//go:embed probe/main.go.txt
var probeSource []byte

//go:embed probe/go.sum.txt
var probeSum []byte

// Environment: REPO is the repository, PBT the directory of module verif/pbt,
// GO the go command.
var repo, pbtDir, goCmd = os.Getenv("REPO"), os.Getenv("PBT"), os.Getenv("GO")

// lab is a scratch copy of the repository.
type lab struct {
	dir       string // everything
	repo      string
	home      string // the generator's
	gendir    string // where the directive is
	directive []string
	generator string // compiled, if the directive has the usual form
	before    map[string][]byte
	env       []string // besides the usual environment
	fixed     []rune   // see hardwired
	fixedDone bool
}

func (l *lab) close() { os.RemoveAll(l.dir) }

var directiveRE = regexp.MustCompile(`(?m)^//go:generate[ \t]+(.*)$`)

func newLab() *lab {
	dir, err := os.MkdirTemp("", "vf-e2e-")
	pbt.Must(err)
	l := &lab{dir: dir, repo: filepath.Join(dir, "repo"), home: filepath.Join(dir, "home")}
	for _, d := range []string{"cache", "tmp"} {
		pbt.Must(os.MkdirAll(filepath.Join(l.home, d), 0o755))
	}
	pbt.Must(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			if d.Name() == ".git" || rel == "autoversion" {
				return fs.SkipDir
			}
			return os.MkdirAll(filepath.Join(l.repo, rel), 0o755)
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if filepath.Ext(p) == ".go" && !strings.HasSuffix(p, "_test.go") && directiveRE.Match(raw) {
			dir := filepath.Join(l.repo, filepath.Dir(rel))
			// The generator of the table is the one next to its data.
			if _, err := os.Stat(filepath.Join(filepath.Dir(p), "ucd")); err == nil {
				l.gendir = dir
				l.directive = append(l.directive, string(directiveRE.FindSubmatch(raw)[1]))
			}
		}
		return os.WriteFile(filepath.Join(l.repo, rel), raw, 0o644)
	}))
	if l.gendir == "" {
		pbt.Must(errors.New("no generation step found in the repository"))
	}
	if len(l.directive) == 1 {
		if f := strings.Fields(l.directive[0]); len(f) == 3 && f[0] == "go" && f[1] == "run" && strings.HasSuffix(f[2], ".go") {
			exe := filepath.Join(dir, "generator")
			if out, err := l.run(l.gendir, goCmd, "build", "-o", exe, f[2]); err == nil {
				l.generator = exe
			} else {
				pbt.Must(fmt.Errorf("the generator does not compile: %s", out))
			}
		}
	}
	p := filepath.Join(dir, "probe")
	pbt.Must(os.Mkdir(p, 0o755))
	pbt.Must(os.WriteFile(filepath.Join(p, "main.go"), probeSource, 0o644))
	pbt.Must(os.WriteFile(filepath.Join(p, "go.sum"), probeSum, 0o644))
	pbt.Must(os.WriteFile(filepath.Join(p, "go.mod"), fmt.Appendf(nil, `module verif/probe

go 1.25

require (
	github.com/apparentlymart/go-textseg/v17 v17.0.0
	verif/pbt v0.0.0
	pgregory.net/rapid v1.3.0
)

replace (
	github.com/apparentlymart/go-textseg/v17 => %s
	verif/pbt => %s
)
`, l.repo, pbtDir), 0o644))
	l.before = l.snapshot()
	return l
}

// errEndless: a command of the code under test has used a hundred times the
// processor time that it should need.
var errEndless = errors.New("does not terminate: still running after 40 s of processor time")

// run executes a command, giving up (as a harness error) after a time far
// beyond what it needs.
func (l *lab) run(dir, name string, args ...string) ([]byte, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOWORK=off", "GOFLAGS=-mod=readonly", "PWD="+dir)
	if name != goCmd {
		// What a generator keeps elsewhere is to be seen, and is not the user's.
		cmd.Env = append(cmd.Env, "HOME="+l.home, "XDG_CACHE_HOME="+l.home+"/cache", "XDG_CONFIG_HOME="+l.home, "TMPDIR="+l.home+"/tmp")
	}
	cmd.Env = append(cmd.Env, l.env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	pbt.Must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	start := time.Now()
	for {
		select {
		case err := <-done:
			return out.Bytes(), err
		case <-time.After(time.Second):
			if name != goCmd && processorTime(cmd.Process.Pid) > 40*time.Second {
				cmd.Process.Kill()
				<-done
				return out.Bytes(), errEndless
			}
			if time.Since(start) > 400*time.Second {
				cmd.Process.Kill()
				pbt.Must(fmt.Errorf("%s %v is still running after 400 s", name, args))
			}
		}
	}
}

// processorTime is what a process of ours has used so far.
func processorTime(pid int) time.Duration {
	raw, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	f := bytes.Fields(raw[bytes.LastIndexByte(raw, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	user, _ := strconv.Atoi(string(f[11]))
	sys, _ := strconv.Atoi(string(f[12]))
	return time.Duration(user+sys) * 10 * time.Millisecond
}

// snapshot is the Go source files of the generated directory.
func (l *lab) snapshot() map[string][]byte {
	m := map[string][]byte{}
	files, err := filepath.Glob(filepath.Join(l.gendir, "*.go"))
	pbt.Must(err)
	for _, f := range files {
		m[f], err = os.ReadFile(f)
		pbt.Must(err)
	}
	return m
}

// restore puts back the original source files.
func (l *lab) restore() {
	for f, now := range l.snapshot() {
		if orig, ok := l.before[f]; !ok {
			pbt.Must(os.Remove(f))
		} else if !bytes.Equal(now, orig) {
			pbt.Must(os.WriteFile(f, orig, 0o644))
		}
	}
	for f, orig := range l.before {
		if _, err := os.Stat(f); err != nil {
			pbt.Must(os.WriteFile(f, orig, 0o644))
		}
	}
}

func (l *lab) changed() bool {
	now := l.snapshot()
	if len(now) != len(l.before) {
		return true
	}
	for f, b := range now {
		if !bytes.Equal(b, l.before[f]) {
			return true
		}
	}
	return false
}

// generate runs the generation step.
func (l *lab) generate() ([]byte, error) {
	if l.generator != "" {
		return l.run(l.gendir, l.generator)
	}
	return l.run(l.gendir, goCmd, "generate", ".")
}

// compile compiles the probe with the present table.
func (l *lab) compile() (exe string, out []byte, err error) {
	exe = filepath.Join(l.dir, "probe.exe")
	out, err = l.run(filepath.Join(l.dir, "probe"), goCmd, "build", "-o", exe, ".")
	return
}

// calibrate makes sure the probe compiles with the committed table, so that a
// later failure to compile is the generated table's.
func (l *lab) calibrate() {
	if _, out, err := l.compile(); err != nil {
		pbt.Must(fmt.Errorf("the probe does not compile with the committed table: %s", out))
	}
}

func tail(b []byte) string {
	s := strings.TrimSpace(string(b))
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

var shared struct {
	sync.Once
	l *lab
}

func theLab() *lab {
	shared.Do(func() {
		shared.l = newLab()
		shared.l.calibrate()
	})
	return shared.l
}

type Case struct{ Set ucd.Set }

func (c Case) Show() string { return c.Set.Show() }

func check(c Case, o *pbt.Obs) error {
	l := theLab()
	l.restore()
	pbt.Must(os.RemoveAll(filepath.Join(l.gendir, "ucd")))
	pbt.Must(c.Set.Write(filepath.Join(l.gendir, "ucd")))
	l.date(c.Set.Style, o)
	want := c.Set.Table()
	np, ni := ucd.DistinctBlocks(want)
	o.NonTrivial()
	out, err := l.generate()
	if errors.Is(err, errEndless) {
		return fmt.Errorf("generation %w", err)
	}
	if c.Set.Fault != "" {
		o.Class(c.Set.Fault)
		if err == nil {
			return fmt.Errorf("generation succeeded although the input is faulty: %s", c.Set.Fault)
		}
		if l.changed() {
			if _, _, err := l.compile(); err == nil {
				return fmt.Errorf("generation failed but left a table all the same, although the input is faulty: %s", c.Set.Fault)
			}
		}
		return nil
	}
	if err != nil {
		if c.Set.Long > 0 {
			o.Class("very long line: refused")
		} else if np+ni <= 200 {
			return fmt.Errorf("generation failed on well-formed data with %d distinct blocks: %v: %s", np, err, tail(out))
		}
		o.If(np+ni > 200, "more blocks than the table can index: refused")
		if l.changed() {
			if _, _, err := l.compile(); err == nil {
				return fmt.Errorf("generation failed but left a table all the same")
			}
		}
		return nil
	}
	o.If(np > 255, "more than 255 distinct blocks: accepted")
	o.If(np <= 255, "table built and probed")
	return l.probe(want, true)
}

// date gives the data files and the table other dates: which is the newer one
// must make no difference.
func (l *lab) date(style uint64, o *pbt.Obs) {
	var then time.Time
	switch style % 4 {
	case 0:
		return
	case 1:
		then = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	case 2:
		then = time.Now().AddDate(1, 0, 0)
	case 3:
		then = time.Unix(0, 0)
	}
	o.Class("data files dated " + then.Format("2006"))
	pbt.Must(filepath.WalkDir(filepath.Join(l.gendir, "ucd"), func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		os.Chtimes(p, then, then) // not if it is a link to nothing
		return nil
	}))
}

// NoSpace is a place where what generation writes does not fit: a device without
// space, a directory that isn't there, or a file system with a few KiB.
type NoSpace struct {
	Set   ucd.Set
	Place string
	KiB   int
}

func (c NoSpace) Show() string { return c.Place + ", " + c.Set.Show() }

// checkFull: a table that cannot be written makes generation fail. The files
// that generation writes on this data are replaced by links to such a place;
// success is right only if they were replaced in turn, by a table, or if it fits.
func checkFull(c NoSpace, o *pbt.Obs) error {
	l := theLab()
	l.restore()
	pbt.Must(os.RemoveAll(filepath.Join(l.gendir, "ucd")))
	pbt.Must(c.Set.Write(filepath.Join(l.gendir, "ucd")))
	if l.generator == "" {
		return nil // go generate would read the files before it writes them
	}
	want := c.Set.Table()
	if out, err := l.generate(); err != nil {
		return fmt.Errorf("generation failed on well-formed data: %v: %s", err, tail(out))
	}
	var written []string
	for f, now := range l.snapshot() {
		if orig, ok := l.before[f]; !ok || !bytes.Equal(now, orig) {
			written = append(written, f)
		}
	}
	if len(written) == 0 {
		return nil
	}
	slices.Sort(written)
	small := filepath.Join(l.dir, "small")
	pbt.Must(os.MkdirAll(small, 0o755))
	size := int64(0)
	for i, f := range written {
		if fi, err := os.Stat(f); err == nil {
			size += fi.Size()
		}
		pbt.Must(os.Remove(f))
		to := "/dev/full"
		switch c.Place {
		case "nowhere":
			to = filepath.Join(l.dir, "not there", "table.go")
		case "small":
			to = filepath.Join(small, fmt.Sprint("table", i, ".go"))
		}
		pbt.Must(os.Symlink(to, f))
	}
	var out []byte
	var err error
	if c.Place == "small" {
		// A file system of our own, seen by this one process only.
		if _, err := l.run(l.gendir, "unshare", "-Urm", "mount", "-t", "tmpfs", "none", small); err != nil {
			o.Class("no small file system to be had")
			for _, f := range written {
				pbt.Must(os.Remove(f))
			}
			return nil
		}
		out, err = l.run(l.gendir, "unshare", "-Urm", "sh", "-c", `mount -t tmpfs -o size=`+fmt.Sprint(c.KiB)+`k none "$1" || exit 3; exec "$2"`, "sh", small, l.generator)
	} else {
		out, err = l.generate()
	}
	o.NonTrivial()
	links := 0
	for _, f := range written {
		if fi, err := os.Lstat(f); err == nil && !fi.Mode().IsRegular() {
			links++
			pbt.Must(os.Remove(f))
		}
	}
	if err != nil {
		o.Class(c.Place + ": refused")
		return nil
	}
	if links > 0 && c.Place == "small" && size <= int64(c.KiB)<<10 {
		o.Class("small: it fits")
		return nil
	}
	if links > 0 {
		return fmt.Errorf("generation succeeded although there was no space for the %d bytes it writes (%s, %d KiB): %s", size, c.Place, c.KiB, tail(out))
	}
	return l.probe(want, true)
}

var kFull = &pbt.Kind[NoSpace]{Name: "no-space", Check: checkFull, Slow: true, Gen: func(t *rapid.T) NoSpace {
	c := NoSpace{Set: kTable.Gen(t).Set}
	c.Place = rapid.SampledFrom([]string{"small", "full", "nowhere", "small"}).Draw(t, "place")
	if c.Place == "small" {
		c.KiB = 4 * (1 + gen.Uniform(t, 12))
	}
	return c
}}

// hardwired is the characters that segmentation treats in the same way
// whatever the table says, say because of a fast path for plain ASCII text.
// They are found with two tables, made from files of the plainest form, that
// give every character (but those the probe itself uses) one and the same
// property. This is needed only to confirm a failure.
func (l *lab) hardwired() []rune {
	if l.fixedDone {
		return l.fixed
	}
	l.fixedDone = true
	seen := map[rune]bool{}
	for _, g := range []ref.GCB{ref.Extend, ref.Prepend} {
		s := ucd.Set{Spans: []ucd.Span{{Lo: 0, Hi: ref.MaxRune, P: ref.MakeProps(g, false, ref.INone)}}, Anchor: true}
		want := s.Table()
		l.restore()
		pbt.Must(os.RemoveAll(filepath.Join(l.gendir, "ucd")))
		pbt.Must(ucd.WritePlain(filepath.Join(l.gendir, "ucd"), want))
		if _, err := l.generate(); err != nil {
			return nil
		}
		exe, _, err := l.compile()
		if err != nil {
			return nil
		}
		out, err := l.run(l.dir, exe, "list", l.props(want))
		if err != nil {
			return nil
		}
		for _, w := range bytes.Fields(out) {
			n, err := strconv.Atoi(string(w))
			if err != nil {
				return nil
			}
			seen[rune(n)] = true
		}
	}
	if len(seen) > ref.MaxRune/5 {
		return nil // that's no special treatment, but a table that is wrong
	}
	for r := range seen {
		l.fixed = append(l.fixed, r)
	}
	return l.fixed
}

func (l *lab) props(t ref.Table) string {
	file := filepath.Join(l.dir, "props")
	raw := make([]byte, len(t))
	for i, p := range t {
		raw[i] = byte(p)
	}
	pbt.Must(os.WriteFile(file, raw, 0o644))
	return file
}

// probe compares how characters are treated with what the table wanted says;
// with confirm, leaving out those whose treatment isn't the table's doing.
func (l *lab) probe(want ref.Table, confirm bool) error {
	exe, out, err := l.compile()
	if err != nil {
		return fmt.Errorf("the generated table does not compile: %s", tail(out))
	}
	out, err = l.run(l.dir, exe, "check", l.props(want))
	if err != nil && confirm {
		kept := exe + ".kept"
		pbt.Must(os.Rename(exe, kept))
		if fixed := l.hardwired(); len(fixed) > 0 {
			want = slices.Clone(want)
			for _, r := range fixed {
				want[r] = 255
			}
			out, err = l.run(l.dir, kept, "check", l.props(want))
		}
	}
	var exit *exec.ExitError
	if err != nil && errors.As(err, &exit) && exit.ExitCode() == 1 {
		return fmt.Errorf("the generated table is wrong: %s", tail(out))
	}
	if err != nil {
		return fmt.Errorf("segmentation with the generated table: %v: %s", err, tail(out))
	}
	return nil
}

var kTable = &pbt.Kind[Case]{Name: "generated-table", Check: check, Slow: true, Gen: func(t *rapid.T) Case {
	for {
		s := ucd.Gen(t, true)
		s.Anchor = true
		if np, ni := ucd.DistinctBlocks(s.Table()); np+ni <= 200 {
			return Case{s}
		}
	}
}}

var kBig = &pbt.Kind[Case]{Name: "many-blocks", Check: check, Slow: true, Gen: func(t *rapid.T) Case {
	s := ucd.Gen(t, true)
	s.Anchor = true
	s.Many = append(s.Many, ucd.Big(t))
	return Case{s}
}}

var kFault = &pbt.Kind[Case]{Name: "faulty-files", Check: check, Slow: true, Gen: func(t *rapid.T) Case {
	s := ucd.Gen(t, true)
	s.Anchor = true
	s.AddFault(t)
	return Case{s}
}}

// Shipped is the case of the repository's own data.
type Shipped struct{ Unicode string }

// checkRegenerated: the shipped data generates a table that is right by the
// data.
func checkRegenerated(c Shipped, o *pbt.Obs) error {
	o.NonTrivial()
	l := newLab()
	defer l.close()
	l.calibrate()
	data, err := ucd.Parse(filepath.Join(l.gendir, "ucd"))
	if err != nil {
		o.Class("the shipped data is not well-formed, skipped: " + err.Error())
		return nil
	}
	if out, err := l.generate(); err != nil {
		return fmt.Errorf("generation failed on the shipped data: %v: %s", err, tail(out))
	}
	o.Evals(ref.MaxRune + 1 - 0x800)
	return l.probe(data, false)
}

var kRegenerated = &pbt.Kind[Shipped]{Name: "shipped-data", Check: checkRegenerated, Slow: true}

func ucdDir() (dir string) {
	pbt.Must(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() && d.Name() == "ucd" {
			dir = p
		}
		return err
	}))
	return
}

// checkData: the shipped data assigns every code point its Unicode 17
// properties.
func checkData(c Shipped, o *pbt.Obs) error {
	o.NonTrivial()
	got, err := ucd.Parse(ucdDir())
	if err != nil {
		return fmt.Errorf("the shipped data cannot be read: %v", err)
	}
	o.Evals(ref.MaxRune + 1)
	for r, p := range ref.U17 {
		if got[r] != p {
			return fmt.Errorf("the shipped data says U+%04X is %v; in Unicode 17.0.0 it is %v", r, got[r], p)
		}
	}
	return nil
}

var kData = &pbt.Kind[Shipped]{Name: "shipped-properties", Check: checkData}

//go:embed pinned.txt
var pinned string

// checkOther: so it does the properties that segmentation does not use, as far
// as the files are there and speak of them.
func checkOther(c Shipped, o *pbt.Obs) error {
	o.NonTrivial()
	dir := ucdDir()
	files := map[string]map[string][]rune{}
	for _, l := range strings.Split(pinned, "\n") {
		f := strings.Split(l, "\t")
		if len(f) != 4 {
			continue
		}
		file, ok := files[f[0]]
		if !ok {
			raw, err := os.ReadFile(filepath.Join(dir, filepath.FromSlash(f[0])))
			if err != nil {
				o.Class("not there: " + f[0])
			}
			file = assigned(string(raw))
			files[f[0]] = file
		}
		set := file[f[1]]
		if len(set) == 0 {
			o.Class("not there: " + f[1])
			continue
		}
		o.Evals(ref.MaxRune + 1)
		h := fnv.New64a()
		for _, r := range set {
			h.Write([]byte{byte(r >> 16), byte(r >> 8), byte(r)})
		}
		if fmt.Sprint(len(set)) != f[2] || fmt.Sprintf("%016x", h.Sum64()) != f[3] {
			return fmt.Errorf("the shipped %s gives %d code points the property %s; they are not the %s of Unicode 17.0.0", f[0], len(set), f[1], f[2])
		}
	}
	return nil
}

// assigned reads which code points, in order, a file gives which properties.
func assigned(text string) map[string][]rune {
	out := map[string][]rune{}
	for _, l := range strings.Split(text, "\n") {
		l, _, _ = strings.Cut(l, "#")
		f := strings.Split(l, ";")
		if len(f) < 2 {
			continue
		}
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		lo, hi, ok := strings.Cut(f[0], "..")
		if !ok {
			hi = lo
		}
		a, err1 := strconv.ParseUint(lo, 16, 32)
		b, err2 := strconv.ParseUint(hi, 16, 32)
		if err1 != nil || err2 != nil || b > ref.MaxRune {
			continue
		}
		name := strings.Join(f[1:], " ")
		for r := a; r <= b; r++ {
			out[name] = append(out[name], rune(r))
		}
	}
	for name, set := range out {
		slices.Sort(set)
		out[name] = slices.Compact(set)
	}
	return out
}

var kOther = &pbt.Kind[Shipped]{Name: "shipped-other-properties", Check: checkOther}

// checkSame: segmentation treats every scalar value alike with the committed
// and with the regenerated table.
func checkSame(c Shipped, o *pbt.Obs) error {
	o.NonTrivial()
	l := newLab()
	defer l.close()
	digest := func(what string) []byte {
		exe, out, err := l.compile()
		if err != nil {
			if what == "committed" {
				pbt.Must(fmt.Errorf("the probe does not compile with the committed table: %s", out))
			}
			return nil
		}
		file := filepath.Join(l.dir, what)
		if _, err := l.run(l.dir, exe, "digest", file); err != nil {
			return nil
		}
		raw, err := os.ReadFile(file)
		pbt.Must(err)
		return raw
	}
	committed := digest("committed")
	if out, err := l.generate(); err != nil {
		return fmt.Errorf("generation failed on the shipped data: %v: %s", err, tail(out))
	}
	o.If(!l.changed(), "regeneration is byte-identical")
	regenerated := digest("regenerated")
	if len(regenerated) != len(committed) || len(committed) == 0 {
		return fmt.Errorf("the committed table segments, the regenerated one does not, or neither (%d and %d bytes of digests)", len(committed), len(regenerated))
	}
	for r := range ref.MaxRune + 1 {
		if a, b := binary.LittleEndian.Uint64(committed[8*r:]), binary.LittleEndian.Uint64(regenerated[8*r:]); a != b {
			return fmt.Errorf("U+%04X is treated differently with the committed and with the regenerated table (Unicode 17: %v)", r, ref.U17[r])
		}
	}
	o.Evals(2 * (ref.MaxRune + 1 - 0x800) * int64(probe.Contexts))
	return nil
}

var kSame = &pbt.Kind[Shipped]{Name: "regenerated-behaviour", Check: checkSame, Slow: true}

var c18 = &pbt.Prop{ID: "C18",
	Rule:  "the repository's generation step run on random sets of data files; the resulting table compiled and every scalar value probed through segmentation; sets with a fault or more blocks than the table can index, which must be refused; a device without space, a directory that is not there or a file system of a few KiB in place of the table; every case is non-trivial",
	Kinds: []pbt.AnyKind{pbt.K(kTable), pbt.K(kBig), pbt.K(kFault), pbt.K(kRegenerated), pbt.K(kFull)},
	Run: func(r *pbt.Run) {
		if r.Shard == 0 {
			pbt.One(r, kRegenerated, Shipped{"17.0.0"})
		}
		pbt.Rapid(r, kFault, r.N(320, 3000))
		pbt.Rapid(r, kFull, r.N(16, 160))
		pbt.Rapid(r, kTable, r.N(64, 900))
		pbt.Rapid(r, kBig, r.N(16, 150))
	}}

var c19 = &pbt.Prop{ID: "C19",
	Rule:  "the property values of every code point in the shipped files against the Unicode 17.0.0 ones (also of the properties that segmentation does not use), and the treatment of every scalar value in every probe context with the committed and the regenerated table; every case is non-trivial",
	Kinds: []pbt.AnyKind{pbt.K(kData), pbt.K(kOther), pbt.K(kSame)},
	Run: func(r *pbt.Run) {
		if r.Shard == 0 {
			pbt.One(r, kData, Shipped{"17.0.0"})
			pbt.One(r, kOther, Shipped{"17.0.0"})
			pbt.One(r, kSame, Shipped{"17.0.0"})
		}
	}}

// Again is a set of data, and other ways of writing it down.
type Again struct {
	Set     ucd.Set
	Styles  []uint64
	Earlier int // what is there where the table goes: see earlier
}

func (c Again) Show() string {
	return fmt.Sprintf("styles %d, %s over %s", c.Styles, c.Set.Show(), earlier[c.Earlier%len(earlier)])
}

var earlier = []string{"the committed table", "the same table", "nothing", "an empty file", "another and longer text", "a table with garbage after it"}

// environments must make no difference. It is never the same day in the two time
// zones, nor the same year for the data files.
var environments = [][]string{
	nil,
	{"GOMAXPROCS=1", "TZ=Pacific/Kiritimati", "LANG=C", "LC_ALL=C"},
	{"GOMAXPROCS=16", "TZ=Etc/GMT+12", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "USER=somebody", "TERM=dumb", "GODEBUG=randautoseed=0"},
}

// files is everything in the scratch repository but the Go source files next to
// the data, and what is in the generator's home directory.
func (l *lab) files() map[string]string {
	m := map[string]string{}
	see := func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() && p != l.gendir {
			if err == nil {
				m[p] = "directory"
			}
			return err
		}
		if d.IsDir() || filepath.Dir(p) == l.gendir && filepath.Ext(p) == ".go" {
			return nil
		}
		raw, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		h := fnv.New64a()
		h.Write(raw)
		m[p] = fmt.Sprintf("%d bytes, %016x", len(raw), h.Sum64())
		return nil
	}
	pbt.Must(filepath.WalkDir(l.repo, see))
	pbt.Must(filepath.WalkDir(l.home, see))
	return m
}

func differs(a, b map[string]string) string {
	for f, v := range a {
		if w, ok := b[f]; !ok {
			return f + " is gone"
		} else if v != w {
			return f + " was " + v + " and is " + w
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok {
			return f + " is new"
		}
	}
	return ""
}

// checkAgain: the same assignments give the same table, byte for byte, whatever
// was there before, and nothing else changes.
func checkAgain(c Again, o *pbt.Obs) error {
	l := theLab()
	l.restore()
	defer l.restore()
	dir := filepath.Join(l.gendir, "ucd")
	write := func(s ucd.Set) map[string]string {
		pbt.Must(os.RemoveAll(dir))
		pbt.Must(s.Write(dir))
		return l.files()
	}
	before := write(c.Set)
	generate := func(i int) ([]byte, error) {
		if l.generator == "" {
			return l.generate()
		}
		l.env = environments[i%len(environments)]
		defer func() { l.env = nil }()
		pbt.Must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			then := time.Now().AddDate(-i, 0, 0)
			return os.Chtimes(p, then, then)
		}))
		return l.generate()
	}
	out, err := generate(0)
	if d := differs(before, l.files()); d != "" {
		return fmt.Errorf("generation changed something besides the table: %s", d)
	}
	o.NonTrivial()
	if err != nil {
		if c.Set.Fault == "" && c.Set.Long == 0 {
			return fmt.Errorf("generation failed on well-formed data: %v: %s", err, tail(out))
		}
		o.Class("refused")
		if l.changed() {
			return fmt.Errorf("generation failed (%s) but changed the table", tail(out))
		}
		return nil
	}
	if c.Set.Fault != "" {
		return nil // C18's business
	}
	first := l.snapshot()
	var written []string
	for f, now := range first {
		if orig, ok := l.before[f]; !ok || !bytes.Equal(now, orig) {
			written = append(written, f)
		}
	}
	slices.Sort(written)
	for i, style := range c.Styles {
		what := "of the same data"
		if i > 0 {
			s := c.Set
			s.Style, s.Long, s.Bulk = style, 0, 0
			s.Each = style%6 == 0
			if style%16 == 3 {
				s.Bulk = 1 + int(style/16%3)
			}
			before = write(s)
			what = fmt.Sprintf("of the same assignments in other lines (style %d)", style)
		}
		if i == len(c.Styles)-1 {
			pbt.Must(os.RemoveAll(dir))
			pbt.Must(ucd.WritePlain(dir, c.Set.Table()))
			before = l.files()
			what = "of the same assignments in the plainest lines"
		}
		over := earlier[c.Earlier%len(earlier)]
		if l.generator == "" {
			over = "the same table" // what is compiled needs it
		}
		for _, f := range written {
			switch over {
			case "the committed table":
				if raw, ok := l.before[f]; ok {
					pbt.Must(os.WriteFile(f, raw, 0o644))
				}
			case "nothing":
				pbt.Must(os.Remove(f))
			case "an empty file":
				pbt.Must(os.WriteFile(f, nil, 0o644))
			case "another and longer text":
				pbt.Must(os.WriteFile(f, bytes.Repeat([]byte("package nothing // "), 20000), 0o644))
			case "a table with garbage after it":
				pbt.Must(os.WriteFile(f, slices.Concat(first[f], []byte("var more = 1\n")), 0o644))
			}
		}
		out, err := generate(i + 1)
		if err != nil {
			return fmt.Errorf("generation %s, over %s, failed: %v: %s", what, over, err, tail(out))
		}
		if d := differs(before, l.files()); d != "" {
			return fmt.Errorf("generation %s, over %s, changed something besides the table: %s", what, over, d)
		}
		now := l.snapshot()
		for f := range first {
			if !bytes.Equal(first[f], now[f]) {
				return fmt.Errorf("generation %s, over %s, gives another %s: %s", what, over, filepath.Base(f), firstDifference(first[f], now[f]))
			}
		}
		for f := range now {
			if _, ok := first[f]; !ok {
				return fmt.Errorf("generation %s, over %s, makes one more file %s", what, over, filepath.Base(f))
			}
		}
		o.Class("over " + over)
	}
	return nil
}

func firstDifference(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) []byte { return x[max(0, i-20):min(len(x), i+40)] }
	return fmt.Sprintf("%d and %d bytes, different from byte %d on: %q and %q", len(a), len(b), i, cut(a), cut(b))
}

var kAgain = &pbt.Kind[Again]{Name: "again", Check: checkAgain, Slow: true, Gen: func(t *rapid.T) Again {
	c := Again{Set: kTable.Gen(t).Set, Earlier: gen.Uniform(t, len(earlier))}
	for range 2 + gen.Uniform(t, 3) {
		c.Styles = append(c.Styles, rapid.Uint64Range(1, 1<<40).Draw(t, "style"))
	}
	return c
}}

var kRefused = &pbt.Kind[Again]{Name: "refused", Check: checkAgain, Slow: true, Gen: func(t *rapid.T) Again {
	return Again{Set: kFault.Gen(t).Set}
}}

// checkAgainShipped: on the shipped data, too.
func checkAgainShipped(c Shipped, o *pbt.Obs) error {
	o.NonTrivial()
	l := newLab()
	defer l.close()
	before := l.files()
	var first map[string][]byte
	for i := range 3 {
		if out, err := l.generate(); err != nil {
			return fmt.Errorf("generation failed on the shipped data: %v: %s", err, tail(out))
		}
		if d := differs(before, l.files()); d != "" {
			return fmt.Errorf("generation changed something besides the table: %s", d)
		}
		now := l.snapshot()
		if i == 0 {
			first = now
		}
		for f := range now {
			if !bytes.Equal(first[f], now[f]) {
				return fmt.Errorf("generation once more on the shipped data gives another %s: %s", filepath.Base(f), firstDifference(first[f], now[f]))
			}
		}
	}
	return nil
}

var kAgainShipped = &pbt.Kind[Shipped]{Name: "again-shipped", Check: checkAgainShipped, Slow: true}

var c25 = &pbt.Prop{ID: "C25",
	Rule:  "the repository's generation step run several times on one random set of assignments, in several environments, over several kinds of earlier file, the assignments written in other lines each time: the table must be the same byte for byte, and every other file of the repository as before; sets with a fault, after which the table must be as before; every case is non-trivial",
	Kinds: []pbt.AnyKind{pbt.K(kAgain), pbt.K(kRefused), pbt.K(kAgainShipped)},
	Run: func(r *pbt.Run) {
		if r.Shard == 0 {
			pbt.One(r, kAgainShipped, Shipped{"17.0.0"})
		}
		pbt.Rapid(r, kAgain, r.N(480, 12000))
		pbt.Rapid(r, kRefused, r.N(240, 4000))
	}}

func main() {
	defer func() {
		if shared.l != nil {
			shared.l.close()
		}
	}()
	pbt.Main([]*pbt.Prop{c18, c19, c25})
}
