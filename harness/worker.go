package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Ctx drives the cases of one property inside a worker process.
type Ctx struct {
	P        *Prop
	Tier     string
	Seed     int64
	shard    int
	shards   int
	from     int
	only     int
	n        int
	w        *bufio.Writer
	pend     stats
	seen     map[uint64]struct{}
	setSeen  map[string]map[uint64]struct{}
	nsamples int
	nviol    int
}

// Thorough tells whether this is a thorough run.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	if f := quickFactor[c.P.ID]; f != 0 {
		return quick * f
	}
	return quick
}

// quickFactor multiplies the cases of the checks whose cases are cheap.
var quickFactor = map[string]int{
	"C01": 2, "C02": 2, "C03": 2, "C04": 2, "C05": 2, "C06": 2, "C08": 4, "C10": 2, "C17": 2, "C26": 2, "C28": 3, "C30": 3, "C31": 2,
}

// T is one case: one execution (or one group of executions) of the real code
// under observation.
type T struct {
	C         *Ctx
	R         *Rand
	N         int
	Label     string
	artifacts map[string]string
	failed    bool
	evals     int
}

func runWorker(p *Prop, tier string, seed int64, shard, shards, from, only int) {
	debug.SetMaxStack(96 << 20)
	if p := os.Getenv("VERIF_PROF"); p != "" {
		pf, _ := os.Create(p)
		pprof.StartCPUProfile(pf)
		defer pprof.StopCPUProfile()
	}
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	f := os.NewFile(3, "events")
	c := &Ctx{P: p, Tier: tier, Seed: seed, shard: shard, shards: shards, from: from, only: only,
		w: bufio.NewWriter(f), seen: map[uint64]struct{}{}, setSeen: map[string]map[uint64]struct{}{}}
	c.reset()
	p.Run(c)
	c.flush()
	fmt.Fprintln(c.w, "E")
	c.w.Flush()
	f.Close()
}

func (c *Ctx) reset() {
	c.pend = stats{Counters: map[string]int64{}, Maxima: map[string]int64{}, Sets: map[string][]uint64{}}
}

func (c *Ctx) flush() {
	b, _ := json.Marshal(&c.pend)
	c.w.WriteString("S ")
	c.w.Write(b)
	c.w.WriteByte('\n')
	c.w.Flush()
	c.reset()
}

// Case runs fn as the next case, if it belongs to this shard.
func (c *Ctx) Case(label string, fn func(t *T)) {
	n := c.n
	c.n++
	if c.only >= 0 {
		if n != c.only {
			return
		}
	} else if n%c.shards != c.shard || n < c.from {
		return
	}
	if c.nviol >= 25 {
		return
	}
	fmt.Fprintf(c.w, "B %d %s\n", n, label)
	c.w.Flush()
	t := &T{C: c, N: n, Label: label, R: newRand(c.P.ID, uint64(c.Seed), uint64(n))}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if e == errStopCase {
					return
				}
				st := string(debug.Stack())
				if panicInLibrary(st) {
					sig := "panic"
					if label != "" {
						sig += ":" + label
					}
					t.Fail(sig, "panic: %v\n%s", e, st)
				} else {
					// The monitor could not digest what the library returned: the
					// library broke an assumption that holds on a correct tree.
					t.Fail("unexpected-result", "the monitor could not interpret the result: %v\n%s", e, st)
				}
			}
		}()
		fn(t)
	}()
	if t.evals == 0 {
		t.evals = 1
	}
	c.pend.Evals += t.evals
	if c.n%64 == 0 || len(c.pend.Distinct) > 4096 {
		c.flush()
	}
}

// panicInLibrary tells whether the innermost frames of a panic, down to the
// first frame of the harness, include the library under test.
func panicInLibrary(st string) bool {
	i := strings.Index(st, "panic(")
	if i >= 0 {
		st = st[i:]
	}
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "main.") {
			return false
		}
		if strings.Contains(l, "hpinc/go3mf") {
			return true
		}
	}
	return false
}

type stopCase struct{}

var errStopCase = stopCase{}

// Fail records a violation.
func (t *T) Fail(sig, format string, args ...interface{}) {
	if t.failed {
		return // one per case is enough
	}
	t.failed = true
	t.C.nviol++
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 16<<10 {
		msg = msg[:16<<10]
	}
	v := violation{Case: t.N, Label: t.Label, Sig: sig, Msg: msg, Artifacts: t.artifacts}
	b, _ := json.Marshal(&v)
	t.C.w.WriteString("V ")
	t.C.w.Write(b)
	t.C.w.WriteByte('\n')
	t.C.w.Flush()
}

// Fatal records a violation and ends the case.
func (t *T) Fatal(sig, format string, args ...interface{}) {
	t.Fail(sig, format, args...)
	panic(errStopCase)
}

// Artifact keeps an input for the replay file.
func (t *T) Artifact(name string, data []byte) {
	if t.artifacts == nil {
		t.artifacts = map[string]string{}
	}
	if len(data) > 256<<10 {
		data = data[:256<<10]
	}
	for _, b := range data {
		if b >= 0x80 || (b < 0x20 && b != '\n' && b != '\t' && b != '\r') {
			t.artifacts[name] = "base64:" + base64.StdEncoding.EncodeToString(data)
			return
		}
	}
	t.artifacts[name] = string(data)
}

// Count adds to a monitor counter.
func (t *T) Count(name string, n int) { t.C.pend.Counters[name] += int64(n) }

// Max keeps a maximum.
func (t *T) Max(name string, n int) {
	if int64(n) > t.C.pend.Maxima[name] {
		t.C.pend.Maxima[name] = int64(n)
	}
}

// Eval counts evaluations inside a case.
func (t *T) Eval(n int) { t.evals += n }

// Distinct counts a distinct, non-trivial case identified by key.
func (t *T) Distinct(key ...interface{}) {
	h := hashOf(key...)
	if _, ok := t.C.seen[h]; ok {
		return
	}
	t.C.seen[h] = struct{}{}
	t.C.pend.Distinct = append(t.C.pend.Distinct, h)
}

// Seen adds a value to a named set of observed states.
func (t *T) Seen(set string, key ...interface{}) {
	h := hashOf(key...)
	m := t.C.setSeen[set]
	if m == nil {
		m = map[uint64]struct{}{}
		t.C.setSeen[set] = m
	}
	if _, ok := m[h]; ok {
		return
	}
	m[h] = struct{}{}
	t.C.pend.Sets[set] = append(t.C.pend.Sets[set], h)
}

// Sample records a written-out case.
func (t *T) Sample(format string, args ...interface{}) {
	if t.C.nsamples >= 2 {
		return
	}
	t.C.nsamples++
	s := fmt.Sprintf(format, args...)
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	t.C.pend.Samples = append(t.C.pend.Samples, s)
}

func hashOf(key ...interface{}) uint64 {
	h := fnv.New64a()
	for _, k := range key {
		switch k := k.(type) {
		case []byte:
			h.Write(k)
		case string:
			h.Write([]byte(k))
		default:
			fmt.Fprintf(h, "%v", k)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// Rand is a small deterministic generator (splitmix64 + xorshift*).
type Rand struct{ s uint64 }

func newRand(id string, seed, n uint64) *Rand {
	h := fnv.New64a()
	h.Write([]byte(id))
	r := &Rand{s: h.Sum64() ^ (seed * 0x9E3779B97F4A7C15) ^ (n * 0xD1B54A32D192ED03)}
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

func (r *Rand) Bool() bool          { return r.U64()&1 == 1 }
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }
func (r *Rand) F64() float64        { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) U32() uint32         { return uint32(r.U64() >> 32) }
func (r *Rand) Pick(s ...string) string {
	return s[r.Intn(len(s))]
}
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64())
	}
	return b
}
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func sortStrings(s []string) { sort.Strings(s) }

// within runs fn in a goroutine of its own and gives up when it does not
// return in time. A panic of fn is reported like one of the case.
func (t *T) within(d time.Duration, what string, fn func()) {
	type result struct {
		val interface{}
		st  string
	}
	done := make(chan *result, 1)
	go func() {
		var res *result
		defer func() { done <- res }()
		defer func() {
			if e := recover(); e != nil {
				res = &result{e, string(debug.Stack())}
			}
		}()
		fn()
	}()
	timer := time.NewTimer(d)
	defer timer.Stop()
	select {
	case r := <-done:
		if r != nil {
			if r.val == errStopCase {
				panic(errStopCase)
			}
			sig := "unexpected-result"
			if panicInLibrary(r.st) {
				sig = "panic:" + t.Label
			}
			t.Fatal(sig, "panic: %v\n%s", r.val, r.st)
		}
	case <-timer.C:
		t.C.nviol = 1000 // one hang is enough: the goroutine is lost
		buf := make([]byte, 64<<10)
		t.Fatal("hang:"+what, "%s did not return within %v\n%s", what, d, buf[:runtime.Stack(buf, true)])
	}
}

// settled waits until the number of goroutines is back to base.
func settled(base int) bool {
	for i := 0; i < 400; i++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		time.Sleep(time.Duration(50*(1+i/20)) * time.Microsecond)
		if i > 200 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	return false
}
