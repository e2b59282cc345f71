// Command check runs one property's monitors against the code in /repo.
//
// The process started by the user is a supervisor: it spawns worker processes
// (this same binary) that execute the library under test, so that a crash, a
// fatal runtime error, a data-race report, memory exhaustion or a hang of the
// code under test is itself an observation and not the end of the check.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is one property with the workload and monitors that decide it.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Race        bool // run the race-detector build
	CPULimit    int  // seconds of worker CPU allowed to a single case (0: default)
	Env         []string
	MaxShards   int
	Run         func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

const exitRace = 66

func main() {
	if os.Getenv("VERIF_COLD") != "" {
		coldMain()
		return
	}
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "", "quick or thorough")
		verif   = flag.String("verif", "/verif", "verif root")
		seed    = flag.Int64("seed", -1, "seed (default VERIF_SEED)")
		worker  = flag.Bool("worker", false, "internal")
		shard   = flag.Int("shard", 0, "internal")
		shards  = flag.Int("shards", 1, "internal")
		from    = flag.Int("from", 0, "internal")
		only    = flag.Int("only", -1, "run a single case")
		replay  = flag.String("replay", "", "replay file")
		list    = flag.Bool("list", false, "list properties")
		needs   = flag.Bool("needrace", false, "exit 0 if the property wants the race build")
		verbose = flag.Bool("v", false, "verbose")
	)
	flag.Parse()
	if *list {
		ids := make([]string, 0)
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, props[id].Race)
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed < 0 {
		*seed = 1
		if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
			*seed = v
		}
	}
	if *replay != "" {
		var rp replayFile
		b, err := os.ReadFile(*replay)
		if err == nil {
			err = json.Unmarshal(b, &rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
			os.Exit(2)
		}
		*prop, *tier, *seed, *only = rp.Property, rp.Tier, rp.Seed, rp.Case
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *needs {
		if p.Race {
			os.Exit(0)
		}
		os.Exit(1)
	}
	if *worker {
		runWorker(p, *tier, *seed, *shard, *shards, *from, *only)
		return
	}
	s := &supervisor{p: p, tier: *tier, seed: *seed, verif: *verif, only: *only, verbose: *verbose}
	os.Exit(s.run())
}

type replayFile struct {
	Property  string            `json:"property"`
	Tier      string            `json:"tier"`
	Seed      int64             `json:"seed"`
	Case      int               `json:"case"`
	Label     string            `json:"label"`
	Signature string            `json:"signature"`
	Message   string            `json:"message"`
	Artifacts map[string]string `json:"artifacts,omitempty"`
	Howto     string            `json:"howto"`
}

type violation struct {
	Case      int
	Label     string
	Sig       string
	Msg       string
	Artifacts map[string]string
}

type stats struct {
	Evals    int
	Counters map[string]int64
	Maxima   map[string]int64
	Distinct []uint64
	Sets     map[string][]uint64
	Samples  []string
}

type supervisor struct {
	p       *Prop
	tier    string
	seed    int64
	verif   string
	only    int
	verbose bool

	mu       sync.Mutex
	viols    []violation
	evals    int
	counters map[string]int64
	maxima   map[string]int64
	distinct map[uint64]struct{}
	sets     map[string]map[uint64]struct{}
	samples  []string
	harness  []string
	deaths   int
}

func (s *supervisor) run() int {
	start := time.Now()
	s.counters = map[string]int64{}
	s.maxima = map[string]int64{}
	s.distinct = map[uint64]struct{}{}
	s.sets = map[string]map[uint64]struct{}{}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if s.p.MaxShards > 0 && shards > s.p.MaxShards {
		shards = s.p.MaxShards
	}
	if s.only >= 0 {
		shards = 1
	}
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s.shard(i, shards)
		}(i)
	}
	wg.Wait()
	wall := time.Since(start).Seconds()

	known := loadKnown(filepath.Join(s.verif, "known_findings.txt"), s.p.ID)
	sort.SliceStable(s.viols, func(i, j int) bool { return s.viols[i].Case < s.viols[j].Case })
	replayDir := filepath.Join(s.verif, "evidence", "replays", s.p.ID)
	reported := map[string]bool{}
	nviol := 0
	for _, v := range s.viols {
		if reported[v.Sig] {
			continue
		}
		reported[v.Sig] = true
		if text, ok := known[v.Sig]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.p.ID, text)
			continue
		}
		nviol++
		if nviol > 10 {
			continue
		}
		os.MkdirAll(replayDir, 0o755)
		path := filepath.Join(replayDir, fmt.Sprintf("%s-%d-case%d.json", s.tier, s.seed, v.Case))
		rf := replayFile{s.p.ID, s.tier, s.seed, v.Case, v.Label, v.Sig, v.Msg, v.Artifacts,
			"/verif/check.sh -replay " + path}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", s.p.ID, path)
		msg := v.Msg
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("  case %d %s [%s]: %s\n", v.Case, v.Label, v.Sig, msg)
	}
	for sig, text := range known {
		if !reported[sig] && s.only < 0 {
			fmt.Printf("NOTE: property=%s known finding not observed in this run: %s\n", s.p.ID, text)
		}
	}
	for _, h := range s.harness {
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", h)
	}
	if s.only < 0 {
		s.writeEvidence(wall, nviol)
	}
	fmt.Printf("property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d violations=%d wall=%.1fs\n",
		s.p.ID, s.tier, s.seed, s.evals, len(s.distinct), nviol, wall)
	if s.verbose {
		keys := make([]string, 0)
		for k := range s.counters {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Println("  ", k, s.counters[k])
		}
	}
	switch {
	case nviol > 0:
		return 1
	case len(s.harness) > 0:
		return 2
	}
	return 0
}

func (s *supervisor) writeEvidence(wall float64, nviol int) {
	cov := map[string]interface{}{
		"evaluations":         s.evals,
		"distinct_nontrivial": len(s.distinct),
		"rule":                s.p.Rule,
		"samples":             s.samples,
	}
	observed := map[string]interface{}{}
	for k, v := range s.counters {
		observed[k] = v
	}
	for k, v := range s.maxima {
		observed["max_"+k] = v
	}
	for k, v := range s.sets {
		observed["distinct_"+k] = len(v)
	}
	cov["observed"] = observed
	ev := map[string]interface{}{
		"property": s.p.ID, "tier": s.tier, "seed": s.seed, "level": s.p.Level,
		"coverage": cov, "assumptions": s.p.Assumptions, "wall_s": wall, "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(s.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(s.verif, "evidence", s.p.ID+".json"), b, 0o644)
}

// loadKnown reads the lines "finding: property=<id> sig=<sig> <text>".
func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			out[strings.TrimPrefix(f[2], "sig=")] = f[3]
		}
	}
	return out
}

func (s *supervisor) shard(i, n int) {
	from := 0
	for deaths := 0; deaths < 6; deaths++ {
		next, again := s.spawn(i, n, from)
		if !again {
			return
		}
		from = next
	}
}

// spawn runs one worker. It returns the case to resume from when the worker
// died in the middle of a case.
func (s *supervisor) spawn(shard, shards, from int) (int, bool) {
	self, _ := os.Executable()
	pr, pw, err := os.Pipe()
	if err != nil {
		s.harnessErr(err.Error())
		return 0, false
	}
	cmd := exec.Command(self, "-worker", "-prop", s.p.ID, "-tier", s.tier, "-seed", fmt.Sprint(s.seed),
		"-shard", fmt.Sprint(shard), "-shards", fmt.Sprint(shards), "-from", fmt.Sprint(from), "-only", fmt.Sprint(s.only))
	cmd.Env = append(os.Environ(), fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d history_size=5", exitRace), "GOTRACEBACK=all")
	if !s.p.Race {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2", "GOGC=400")
	}
	cmd.Env = append(cmd.Env, s.p.Env...)
	cmd.ExtraFiles = []*os.File{pw}
	tail := &tailBuffer{max: 24 << 10}
	cmd.Stderr = tail
	cmd.Stdout = tail
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is tied to the creating thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		pw.Close()
		s.harnessErr(err.Error())
		return 0, false
	}
	pw.Close()

	var (
		mu      sync.Mutex
		cur     = -1
		label   string
		changed = true
		ended   bool
	)
	stop := make(chan struct{})
	hung := ""
	go func() { // hang monitor: CPU time consumed by one case, or no progress at all
		limit := s.p.CPULimit
		if limit == 0 {
			limit = 120
		}
		const idleLimit = 150 * time.Second
		var base, lastCPU float64
		lastMove := time.Now()
		tick := time.NewTicker(500 * time.Millisecond)
		defer tick.Stop()
		for {
			select {
			case <-stop:
				return
			case <-tick.C:
			}
			cpu := procCPU(cmd.Process.Pid)
			mu.Lock()
			if changed {
				changed = false
				base = cpu
				lastMove = time.Now()
			}
			running := cur >= 0
			mu.Unlock()
			if cpu-lastCPU > 0.05 {
				lastMove = time.Now()
			}
			lastCPU = cpu
			if !running {
				continue
			}
			if cpu-base > float64(limit) {
				mu.Lock()
				hung = fmt.Sprintf("no result after %.0f s of CPU time", cpu-base)
				mu.Unlock()
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				cmd.Process.Kill()
				return
			}
			if time.Since(lastMove) > idleLimit {
				mu.Lock()
				hung = "blocked: no progress and no CPU use"
				mu.Unlock()
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				cmd.Process.Kill()
				return
			}
		}
	}()

	rd := bufio.NewReaderSize(pr, 1<<20)
	for {
		line, err := rd.ReadString('\n')
		if len(line) > 1 {
			switch line[0] {
			case 'B':
				f := strings.SplitN(strings.TrimSpace(line), " ", 3)
				mu.Lock()
				cur, _ = strconv.Atoi(f[1])
				label = ""
				if len(f) == 3 {
					label = f[2]
				}
				changed = true
				mu.Unlock()
			case 'V':
				var v violation
				if json.Unmarshal([]byte(line[2:]), &v) == nil {
					s.mu.Lock()
					s.viols = append(s.viols, v)
					s.mu.Unlock()
				}
			case 'H':
				s.harnessErr(strings.TrimSpace(line[2:]))
			case 'S':
				var st stats
				if json.Unmarshal([]byte(line[2:]), &st) == nil {
					s.merge(&st)
				}
			case 'E':
				ended = true
			}
		}
		if err != nil {
			if err != io.EOF {
				s.harnessErr(err.Error())
			}
			break
		}
	}
	werr := cmd.Wait()
	close(stop)
	pr.Close()
	if ended && werr == nil {
		return 0, false
	}
	mu.Lock()
	defer mu.Unlock()
	text := tail.String()
	if cur < 0 {
		s.harnessErr(fmt.Sprintf("worker %d ended before any case: %v\n%s", shard, werr, text))
		return 0, false
	}
	sig := "crash"
	switch {
	case hung != "":
		sig = "hang"
	case strings.Contains(text, "WARNING: DATA RACE"):
		sig = "datarace"
	case strings.Contains(text, "stack overflow"):
		sig = "stack-overflow"
	case strings.Contains(text, "all goroutines are asleep"):
		sig = "deadlock"
	case strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory"):
		sig = "out-of-memory"
	}
	if !strings.Contains(text, "go3mf") && sig == "crash" {
		// A crash with no frame of the library under test is a fault of the harness
		// unless the process was killed from outside (memory guard).
		if !strings.Contains(fmt.Sprint(werr), "signal: killed") {
			s.harnessErr(fmt.Sprintf("worker %d died in case %d without a library frame: %v\n%s", shard, cur, werr, text))
			return cur + 1, true
		}
		sig = "killed"
	}
	if label != "" {
		sig += ":" + label
	}
	msg := fmt.Sprintf("worker process died: %v %s\n%s", werr, hung, text)
	s.mu.Lock()
	s.viols = append(s.viols, violation{Case: cur, Label: label, Sig: sig, Msg: msg})
	s.mu.Unlock()
	return cur + 1, s.only < 0
}

func (s *supervisor) harnessErr(m string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.harness) < 5 {
		s.harness = append(s.harness, m)
	}
}

func (s *supervisor) merge(st *stats) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.evals += st.Evals
	for k, v := range st.Counters {
		s.counters[k] += v
	}
	for k, v := range st.Maxima {
		if v > s.maxima[k] {
			s.maxima[k] = v
		}
	}
	for _, h := range st.Distinct {
		s.distinct[h] = struct{}{}
	}
	for k, hs := range st.Sets {
		m := s.sets[k]
		if m == nil {
			m = map[uint64]struct{}{}
			s.sets[k] = m
		}
		for _, h := range hs {
			m[h] = struct{}{}
		}
	}
	for _, x := range st.Samples {
		if len(s.samples) < 4 {
			s.samples = append(s.samples, x)
		}
	}
}

func procCPU(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	t := string(b)
	if i := strings.LastIndexByte(t, ')'); i >= 0 {
		f := strings.Fields(t[i+1:])
		if len(f) > 13 {
			u, _ := strconv.ParseFloat(f[11], 64)
			sy, _ := strconv.ParseFloat(f[12], 64)
			return (u + sy) / 100
		}
	}
	return 0
}

// tailBuffer keeps the head and the tail of what is written to it.
type tailBuffer struct {
	mu   sync.Mutex
	max  int
	head []byte
	tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if room := t.max/2 - len(t.head); room > 0 {
		k := room
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > t.max/2 {
		t.tail = append([]byte(nil), t.tail[len(t.tail)-t.max/2:]...)
	}
	return n, nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}
