package main

import (
	"bytes"
	"fmt"
	"runtime"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"

	"github.com/apparentlymart/go-textseg/v17/textseg"

	"verif/pbt"
	"verif/pbt/gen"
)

// ---- C23: time in proportion to the text, storage that does not grow with it

// Lin is Head + Rep*n + Tail for growing n. It says nothing of what the
// clusters are.
type Lin struct {
	Head, Rep, Tail pbt.Blob
	Undecided       bool // not at the end of input, up to the call that asks for more
}

func (c Lin) Show() string {
	return fmt.Sprintf("%s, %s over and over, %s, undecided %v", show(c.Head), show(c.Rep), show(c.Tail), c.Undecided)
}

func (c Lin) text(size int) []byte {
	var b []byte
	b = append(b, c.Head...)
	b = append(b, bytes.Repeat(c.Rep, max(1, size/len(c.Rep)))...)
	return append(b, c.Tail...)
}

// threadTime is the processor time of this thread.
func threadTime() time.Duration {
	var ts syscall.Timespec
	_, _, e := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, 3 /* CLOCK_THREAD_CPUTIME_ID */, uintptr(unsafe.Pointer(&ts)), 0)
	if e != 0 {
		panic("clock_gettime: " + e.Error())
	}
	return time.Duration(ts.Nano())
}

// cost is what the segmentation of data takes. It stops at the first call that
// ends beyond the limit.
func (c Lin) cost(data []byte, limit time.Duration) (time.Duration, error) {
	from := threadTime()
	for i, rest := 0, data; len(rest) > 0; i++ {
		n, _, err := textseg.ScanGraphemeClusters(rest, !c.Undecided)
		if err != nil || n < 0 || n == 0 && !c.Undecided || n > len(rest) {
			return 0, fmt.Errorf("advance %d, error %v with %s, at the end of input %v", n, err, show(rest), !c.Undecided)
		}
		if n == 0 {
			break
		}
		rest = rest[n:]
		if i%64 == 63 && threadTime()-from > limit {
			break
		}
	}
	return threadTime() - from, nil
}

// least is the least of many measurements.
func (c Lin) least(data []byte, limit time.Duration) (least time.Duration, err error) {
	var all time.Duration
	for i := 0; i < 3 || i < 200 && all < limit; i++ {
		d, err := c.cost(data, time.Hour)
		if err != nil {
			return 0, err
		}
		if all += d; i == 0 || d < least {
			least = d
		}
	}
	return
}

const (
	linBase = 256
	linTop  = 1 << 20
	// A linear scan's cost per byte varies by a few tenths from one size to
	// another; at 4096 times the size a quadratic one's is thousands of times
	// as high.
	linFactor  = 10
	linAtLeast = 20 * time.Millisecond
)

func checkLin(c Lin, o *pbt.Obs) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	small := c.text(linBase)
	base, err := c.least(small, 200*time.Microsecond)
	if err != nil {
		return err
	}
	for size := 4 * linBase; size <= linTop; size *= 4 {
		big := c.text(size)
		for try := 0; ; try++ {
			basePer := float64(base+200*time.Nanosecond) / float64(len(small))
			limit := max(linAtLeast, time.Duration(linFactor*basePer*float64(len(big))))
			d, err := c.cost(big, limit)
			if err != nil {
				return err
			}
			if d <= limit {
				break
			}
			if try == 5 {
				return fmt.Errorf("time grows faster than the text\n%s\n%d bytes take %v, %d bytes take %v or more", c.Show(), len(small), base, len(big), d)
			}
			// Was it the machine?
			b, err := c.least(small, time.Millisecond)
			if err != nil {
				return err
			}
			base = max(base, b)
		}
	}
	o.NonTrivial()
	o.If(c.Undecided, "not at the end of input")
	adv, _, _ := textseg.ScanGraphemeClusters(small, true)
	o.If(adv > len(small)/2, "mostly one cluster")
	o.If(adv <= len(small)/2, "several clusters")
	return nil
}

// checkLinStorage compares what one call allocates for a small and for a big
// cluster.
func checkLinStorage(c Lin, o *pbt.Obs) error {
	call := func(data []byte) uint64 {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		textseg.ScanGraphemeClusters(data, !c.Undecided)
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	small, big := c.text(linBase), c.text(linTop)
	var s, b uint64
	for try := 0; ; try++ {
		s, b = call(small), call(big)
		if b <= 4*s+64<<10 {
			break
		}
		if try == 3 {
			return fmt.Errorf("%s: one call allocates %d bytes of storage with %d bytes of text, %d with %d", c.Show(), s, len(small), b, len(big))
		}
	}
	if adv, _, _ := textseg.ScanGraphemeClusters(big, true); adv > len(big)/2 {
		o.NonTrivial()
	}
	return nil
}

func drawLin(t *rapid.T, one bool) Lin {
	var c Lin
	switch gen.Uniform(t, 5) {
	case 0, 1:
		fams := anyFam
		if one {
			fams = oneCluster
		}
		f := drawFam(t, fams[gen.Uniform(t, len(fams))], 1)
		c.Head, c.Rep, c.Tail = []byte(f.Head), []byte(f.Rep), []byte(f.Tail)
	case 2: // a run of one character
		if gen.Uniform(t, 2) == 0 {
			c.Head = gen.Valid(t, 3)
		}
		c.Rep = []byte(string(gen.AnyRune(t)))
		c.Tail = gen.Valid(t, 3)
	case 3:
		c.Head, c.Rep, c.Tail = gen.Bytes(t, 6, true), gen.Bytes(t, 12, true), gen.Bytes(t, 6, true)
	default:
		c.Head, c.Rep, c.Tail = gen.Bytes(t, 6, false), gen.Long(t, 3000, false, true), gen.Bytes(t, 6, false)
	}
	if len(c.Rep) == 0 {
		c.Rep = []byte("a")
	}
	c.Undecided = gen.Uniform(t, 4) == 0
	return c
}

func smallerLin(c Lin) []Lin {
	var out []Lin
	for _, f := range []func(c *Lin) *pbt.Blob{func(c *Lin) *pbt.Blob { return &c.Head }, func(c *Lin) *pbt.Blob { return &c.Rep }, func(c *Lin) *pbt.Blob { return &c.Tail }} {
		for _, b := range smallerText(Text{*f(&c)}) {
			d := c
			*f(&d) = b.Data
			if len(d.Rep) > 0 {
				out = append(out, d)
			}
		}
	}
	return out
}

var kLin = &pbt.Kind[Lin]{Name: "growing-text", Check: checkLin, Slow: true, Smaller: smallerLin, Gen: func(t *rapid.T) Lin { return drawLin(t, false) }}
var kLinEach = &pbt.Kind[Lin]{Name: "growing-run", Check: checkLin, Slow: true, Smaller: smallerLin}
var kLinStorage = &pbt.Kind[Lin]{Name: "storage", Check: checkLinStorage, Slow: true, Smaller: smallerLin, Gen: func(t *rapid.T) Lin { return drawLin(t, true) }}

// linHeads are put before, linReps repeated, linTails put behind.
var linHeads = []string{"", "a", "\u00a9", "\u0915\u094d", "\U0001f1e6", "\xff"}
var linReps = []string{"a", "\u0301", "\u200d", "\u0903", "\u0600", "\n", "\r", "\r\n", "\u00a9", "\u00a9\u200d", "\U0001f1e6", "\u0915", "\u0915\u094d", "\u094d", "\u1100", "\u1161", "\u11a8", "\uac00", "\uac01", "\x80", "\xff", "\xe2\x82", "\u0000", "\u200b", "\ufffd", "\u4e00", "\U0001f3fb"}
var linTails = []string{"", "a", "\u200d\u00a9", "\u0915", "\xf0\x9f"}

var c23 = &pbt.Prop{ID: "C23",
	Rule:  "one text repeated to 256 B, 1 KiB, 4 KiB and so on up to 1 MiB, segmented at the end of input or as far as it goes before it: processor time per byte at every size against that at 256 B (a failure is 10 times as much, over 20 ms, six times in a row); storage allocated by one call on 1 MiB against 256 B; every one of 27 runs with 6 heads and 5 tails, and random repeated texts, well-formed or not; non-trivial = measured at all sizes, or one cluster of over 512 KiB",
	Kinds: []pbtKind{pbt.K(kLin), pbt.K(kLinEach), pbt.K(kLinStorage)},
	Run: func(r *pbt.Run) {
		i := 0
		for _, h := range linHeads {
			for _, m := range linReps {
				for _, t := range linTails {
					for _, u := range []bool{false, true} {
						if i++; !r.Mine(i) {
							continue
						}
						c := Lin{[]byte(h), []byte(m), []byte(t), u}
						if !pbt.One(r, kLinEach, c) || !pbt.One(r, kLinStorage, c) {
							return
						}
					}
				}
			}
		}
		pbt.Rapid(r, kLin, r.N(800, 20000))
		pbt.Rapid(r, kLinStorage, r.N(800, 20000))
	}}
