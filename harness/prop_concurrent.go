package main

import (
	"archive/zip"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hpinc/go3mf"
)

func init() {
	register(&Prop{ID: "C12", Race: true, Level: "exploration", Rule: "one evaluation is one decode of a package with 1 to 24 child parts in a schedule shaped by the readers of the parts (random chunks, delays, lock step, forced order of completion), under the race detector; distinct_nontrivial counts distinct orders in which the parts of a package were completed",
		Assumptions: []string{
			"the schedules are those the Go scheduler produces under the injected delays, barriers and GOMAXPROCS values",
			"parts are identified by a comment at their start",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(420, 9000); i++ {
				c.Case("decode", concurrentDecode)
			}
			for i := 0; i < c.N(520, 12000); i++ {
				c.Case("broken", concurrentBroken)
			}
			for i := 0; i < c.N(120, 2000); i++ {
				c.Case("unopenable", concurrentUnopenable)
			}
			for i := 0; i < c.N(60, 1500); i++ {
				c.Case("decoders", concurrentDecoders)
			}
			for i := 0; i < c.N(72, 1600); i++ {
				c.Case("cold", concurrentCold)
			}
		}})
}

// schedule shapes how the bytes of the parts of one package arrive.
type schedule struct {
	kind  string
	seed  uint64
	order map[string]int // forced order of completion
	fail  map[string]int // part -> bytes after which reading it fails

	mu     sync.Mutex
	opened map[string]int
	done   []string
	done1  map[string]bool
	closed int
	active int32
	maxAct int32

	gate    chan struct{} // lock step: replaced at each step
	arrived int
	n       int
	reads   int64
	doneCh  []chan struct{}
}

func newSchedule(r *Rand, names []string) *schedule {
	s := &schedule{seed: r.U64(), opened: map[string]int{}, done1: map[string]bool{}, fail: map[string]int{}, gate: make(chan struct{}), n: len(names)}
	s.kind = r.Pick("free", "chunks", "delays", "lockstep", "order", "order", "burst")
	s.order = map[string]int{}
	for i, k := range r.Perm(len(names)) {
		s.order[names[k]] = i
		s.doneCh = append(s.doneCh, make(chan struct{}))
		_ = i
	}
	return s
}

var errInjected = errors.New("injected read failure")

// partReader is the data of one part, arriving as the schedule wants.
type partReader struct {
	s     *schedule
	name  string
	r     io.Reader
	rnd   *Rand
	n     int
	fail  int
	first bool
	ended bool
	rank  int
}

func (s *schedule) open(r io.Reader) io.ReadCloser {
	head := make([]byte, 120)
	n, _ := io.ReadFull(r, head)
	head = head[:n]
	name := ""
	if i := bytes.Index(head, []byte("<!--part ")); i >= 0 {
		if j := bytes.Index(head[i:], []byte("-->")); j >= 0 {
			name = string(head[i+len("<!--part ") : i+j])
		}
	}
	s.mu.Lock()
	s.opened[name]++
	k := s.opened[name]
	fail, ok := s.fail[name]
	if !ok {
		fail = -1
	}
	rank, ok := s.order[name]
	if !ok {
		rank = -1
	}
	s.mu.Unlock()
	a := atomic.AddInt32(&s.active, 1)
	for {
		o := atomic.LoadInt32(&s.maxAct)
		if a <= o || atomic.CompareAndSwapInt32(&s.maxAct, o, a) {
			break
		}
	}
	return &partReader{s: s, name: name, r: io.MultiReader(bytes.NewReader(head), r), rnd: newRand(name, s.seed, uint64(k)), fail: fail, first: true, rank: rank}
}

func (p *partReader) Read(b []byte) (int, error) {
	s := p.s
	atomic.AddInt64(&s.reads, 1)
	limit := len(b)
	switch s.kind {
	case "chunks":
		limit = p.rnd.Range(1, 700)
		if p.rnd.P(1, 3) {
			runtime.Gosched()
		}
	case "delays":
		limit = p.rnd.Range(1, 3000)
		if p.rnd.P(1, 2) {
			time.Sleep(time.Duration(p.rnd.Intn(300)) * time.Microsecond)
		}
	case "lockstep":
		limit = p.rnd.Range(200, 2500)
		s.step()
	case "order":
		if p.first && p.rank > 0 {
			select {
			case <-s.doneCh[p.rank-1]:
			case <-time.After(40 * time.Millisecond):
			}
		}
		limit = p.rnd.Range(100, 4096)
	case "burst":
		if p.first {
			s.step()
		}
	}
	p.first = false
	if limit > len(b) {
		limit = len(b)
	}
	if p.fail >= 0 && p.n+limit > p.fail {
		limit = p.fail - p.n
		if limit <= 0 {
			p.end()
			return 0, fmt.Errorf("part %s: %w", p.name, errInjected)
		}
	}
	n, err := p.r.Read(b[:limit])
	p.n += n
	if err != nil {
		p.end()
	}
	return n, err
}

// step makes the readers meet before each of them goes on.
func (s *schedule) step() {
	s.mu.Lock()
	g := s.gate
	s.arrived++
	if s.arrived >= int(atomic.LoadInt32(&s.active)) {
		s.arrived = 0
		s.gate = make(chan struct{})
		close(g)
		s.mu.Unlock()
		return
	}
	s.mu.Unlock()
	select {
	case <-g:
	case <-time.After(2 * time.Millisecond):
		s.mu.Lock()
		if s.gate == g {
			s.arrived = 0
			s.gate = make(chan struct{})
			close(g)
		}
		s.mu.Unlock()
	}
}

func (p *partReader) end() {
	if p.ended {
		return
	}
	p.ended = true
	s := p.s
	atomic.AddInt32(&s.active, -1)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.done = append(s.done, p.name)
	if p.rank >= 0 && !s.done1[p.name] {
		s.done1[p.name] = true
		close(s.doneCh[p.rank])
	}
}

func (p *partReader) Close() error {
	p.end()
	p.s.mu.Lock()
	p.s.closed++
	p.s.mu.Unlock()
	return nil
}

// mark puts the name of the part where the schedule finds it.
func mark(doc []byte, name string) []byte {
	m := []byte("<!--part " + name + "-->")
	if bytes.HasPrefix(doc, []byte("<?xml")) {
		i := bytes.Index(doc, []byte("?>")) + 2
		return append(append(append([]byte(nil), doc[:i]...), m...), doc[i:]...)
	}
	return append(m, doc...)
}

// manyParts generates a model with n child parts.
func manyParts(r *Rand, n int) *go3mf.Model {
	o := anyGen(r)
	o.Childs = true
	return genModelParts(r, o, n)
}

func genModelParts(r *Rand, o genOpt, n int) *go3mf.Model {
	m := genModel(r, o)
	if m.Childs == nil {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	paths := childPaths(m)
	for i := 0; len(m.Childs) < n; i++ {
		c := new(go3mf.ChildModel)
		if len(paths) > 0 && r.P(4, 5) {
			c = cloneModel(m).Childs[paths[r.Intn(len(paths))]]
			for j, ob := range c.Resources.Objects {
				ob.Name = fmt.Sprintf("part %d object %d", i, j)
				ob.PartNumber = fmt.Sprint(r.Intn(1000))
			}
			for k := r.Intn(12); k > 0; k-- {
				c.Resources.Objects = append(c.Resources.Objects, &go3mf.Object{ID: uint32(500 + k + i), Name: fmt.Sprintf("extra %d", r.Intn(1e6)),
					Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: uint32(1 + r.Intn(9))}}}})
			}
		}
		m.Childs[fmt.Sprintf("/3D/part%02d.model", i)] = c
	}
	for len(m.Childs) > n {
		p := childPaths(m)
		delete(m.Childs, p[r.Intn(len(p))])
	}
	return m
}

func childPaths(m *go3mf.Model) (out []string) {
	for k := range m.Childs {
		out = append(out, k)
	}
	sortStrings(out)
	return
}

func dupRels(r *Rand, rels []pkgRel) []pkgRel {
	n := len(rels)
	for i := 0; i < n; i++ {
		if r.P(1, 4) {
			d := rels[i]
			d.id = fmt.Sprintf("dup%d", i)
			rels = append(rels, d)
		}
	}
	if r.P(1, 4) {
		rels = append(rels, pkgRel{"self", relModel, "/3D/3dmodel.model"})
	}
	for i, k := range r.Perm(len(rels)) {
		rels[i], rels[k] = rels[k], rels[i]
	}
	for i := range rels {
		rels[i].id = fmt.Sprintf("r%d", i)
	}
	return rels
}

// hookedPackage builds a package whose model parts are read through readHook.
func hookedPackage(r *Rand, root []byte, childs map[string][]byte, atts ...[]byte) []byte {
	p := pkgPart{name: "/3D/3dmodel.model", ct: ctModel, data: mark(root, "/3D/3dmodel.model")}
	parts := []pkgPart{}
	for _, k := range sortedStr(childs) {
		p.rels = append(p.rels, pkgRel{"", relModel, k})
		parts = append(parts, pkgPart{name: k, ct: ctModel, data: mark(childs[k], k)})
	}
	p.rels = dupRels(r, p.rels)
	if r.Bool() {
		// the relationships of a child are not followed
		i := r.Intn(len(parts))
		parts[i].rels = []pkgRel{{"back", relModel, "/3D/3dmodel.model"}, {"sib", relModel, parts[r.Intn(len(parts))].name}}
	}
	for i, b := range atts {
		name := fmt.Sprintf("/Att/a%d.bin", i)
		p.rels = append(p.rels, pkgRel{fmt.Sprintf("att%d", i), go3mf.RelTypePrintTicket, name})
		parts = append(parts, pkgPart{name: name, ct: "application/x-own", data: b})
	}
	return buildPackageMethod([]pkgRel{{"r0", relModel, "/3D/3dmodel.model"}}, append([]pkgPart{p}, parts...), hookedMethod)
}

// attachmentsDiffer compares the attachments of a package of hookedPackage.
func attachmentsDiffer(m *go3mf.Model, atts [][]byte) string {
	got := attachmentData(m)
	if len(got) != len(atts) || len(m.Attachments) != len(atts) {
		return fmt.Sprintf("%d attachments of %d", len(m.Attachments), len(atts))
	}
	for i, b := range atts {
		if a := got[fmt.Sprintf("/att/a%d.bin", i)]; !bytes.Equal(a.data, b) || a.ct != "application/x-own" {
			return fmt.Sprintf("attachment %d (%s): %d bytes in the package, %d different bytes decoded", i, a.ct, len(b), len(a.data))
		}
	}
	return ""
}

func randParts(r *Rand) int { return []int{1, 2, 3, 5, 8, 13, 24}[r.Intn(7)] }

type concurrentInput struct {
	pkg  []byte
	dump []string
	all  []string
	atts [][]byte
}

func concurrentPackage(t *T) *concurrentInput {
	n := randParts(t.R)
	m := manyParts(t.R, n)
	root, childs, exts, _ := serialize(t.R, m, style{noise: 3}, 0)
	want := *m
	want.Extensions = exts
	in := &concurrentInput{dump: expectedDump(&want, -1), all: childPaths(m)}
	for k := t.R.Intn(4) * t.R.Intn(2); k > 0; k-- {
		in.atts = append(in.atts, t.R.Bytes([]int{0, 1, 200, 33000, 100000}[t.R.Intn(5)]))
	}
	in.pkg = hookedPackage(t.R, root, childs, in.atts...)
	return in
}

func withProcs(r *Rand, fn func()) {
	old := runtime.GOMAXPROCS([]int{1, 2, 3, 4, 8}[r.Intn(5)])
	defer runtime.GOMAXPROCS(old)
	fn()
}

// checkDecode decodes and compares everything the schedule observed.
func (in *concurrentInput) check(t *T, s *schedule, strict bool) {
	got, err := decode(in.pkg, strict)
	if err != nil {
		t.Fatal("decode-error", "schedule %s: a valid package does not decode: %v", s.kind, err)
	}
	gd := actualDump(got)
	if d := diffLines(in.dump, gd); d != "" {
		t.Fatal("concurrent:"+diffSig(in.dump, gd), "schedule %s: the model is not the one the parts describe\n%s", s.kind, d)
	}
	if d := attachmentsDiffer(got, in.atts); d != "" {
		t.Fatal("attachments", "schedule %s: %s", s.kind, d)
	}
}

func (in *concurrentInput) opens(t *T, s *schedule, times int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, p := range append(in.all, "/3D/3dmodel.model") {
		if s.opened[p] != times {
			t.Fatal("opened", "part %s was opened %d times in %d decodes", p, s.opened[p], times)
		}
	}
	if s.closed != (len(in.all)+1)*times {
		t.Fatal("closed", "%d of %d part streams were closed", s.closed, (len(in.all)+1)*times)
	}
}

func concurrentDecode(t *T) {
	in := concurrentPackage(t)
	t.Artifact("package.3mf", in.pkg)
	defer func(h func(io.Reader) io.ReadCloser) { readHook = h }(readHook)
	base := runtime.NumGoroutine()
	for k := 0; k < 3; k++ {
		s := newSchedule(t.R, in.all)
		readHook = s.open
		withProcs(t.R, func() {
			t.within(60*time.Second, "decode", func() { in.check(t, s, t.R.Bool()) })
		})
		in.opens(t, s, 1)
		t.observe(s, in)
	}
	t.Eval(3)
	if !settled(base) {
		t.Fatal("goroutine-leak", "goroutines are left behind: %d before, %d after", base, runtime.NumGoroutine())
	}
}

func (t *T) observe(s *schedule, in *concurrentInput) {
	t.Count("schedule_"+s.kind, 1)
	t.Count("parts_decoded", len(in.all)+1)
	t.Count("part_reads", int(s.reads))
	t.Max("parts_open_at_once", int(s.maxAct))
	if len(s.done) > 1 {
		// completion order in terms of the rank of the parts in the package
		idx := map[string]int{}
		for i, p := range in.all {
			idx[p] = i
		}
		var o []string
		for _, p := range s.done {
			o = append(o, fmt.Sprint(idx[p]))
		}
		k := fmt.Sprint(len(in.all), " ", strings.Join(o, ","))
		t.Seen("completion_orders", k)
		t.Distinct(k)
		t.Sample("schedule %s, completion order of %d children: %s", s.kind, len(in.all), strings.Join(o, ","))
	}
}

func concurrentDecoders(t *T) {
	k := t.R.Range(2, 4)
	var ins []*concurrentInput
	for i := 0; i < k; i++ {
		ins = append(ins, concurrentPackage(t))
	}
	same := t.R.P(1, 3) // the same bytes, decoded by several decoders
	if same {
		for i := range ins {
			ins[i] = ins[0]
		}
	}
	defer func(h func(io.Reader) io.ReadCloser) { readHook = h }(readHook)
	names := map[string]bool{}
	var all []string
	for _, in := range ins {
		for _, p := range in.all {
			if !names[p] {
				names[p] = true
				all = append(all, p)
			}
		}
	}
	s := newSchedule(t.R, all)
	for s.kind == "order" {
		s = newSchedule(t.R, all)
	}
	readHook = s.open
	fails := make([]string, k)
	withProcs(t.R, func() {
		t.within(120*time.Second, "decoders", func() {
			var wg sync.WaitGroup
			for i := range ins {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					got, err := decode(ins[i].pkg, true)
					if err != nil {
						fails[i] = err.Error()
						return
					}
					fails[i] = diffLines(ins[i].dump, actualDump(got)) + attachmentsDiffer(got, ins[i].atts)
				}(i)
			}
			wg.Wait()
		})
	})
	for i, f := range fails {
		if f != "" {
			t.Artifact("package.3mf", ins[i].pkg)
			t.Fatal("decoders", "decoding at the same time as others: %s", f)
		}
	}
	if same {
		ins[0].opens(t, s, k)
	}
	t.Eval(k)
	t.Count("decoders_at_once", k)
}

// concurrentBroken breaks some of the parts.
func concurrentBroken(t *T) {
	n := randParts(t.R)
	m := manyParts(t.R, n)
	root, childs, _, _ := serialize(t.R, m, style{}, 0)
	all := childPaths(m)
	strict := t.R.Bool()
	broken := map[string]string{}
	count := 1
	if n > 1 && t.R.Bool() {
		count = t.R.Range(2, n)
	}
	fail := map[string]int{}
	for _, i := range t.R.Perm(n)[:count] {
		p := all[i]
		doc := childs[p]
		kind := t.R.Pick("unclosed", "attribute", "read", "read", "checksum")
		switch kind {
		case "unclosed":
			j := bytes.LastIndex(doc, []byte("</"))
			if j < 0 {
				j = len(doc) - 1
			}
			doc = append(append([]byte(nil), doc[:j]...), []byte("</mismatch>")...)
		case "attribute":
			// two objects with wrong identifiers at the end of the resources
			bad := fmt.Sprintf(`<model xmlns="%s"><resources><object id="x%d" type="model"><mesh/></object><object id="y%d"/></resources></model>`, nsCore, i, i)
			doc = []byte(bad)
		case "read", "checksum":
			fail[p] = t.R.Intn(len(doc) + 1)
		}
		if kind == "checksum" {
			kind = "read"
		}
		childs[p] = doc
		broken[p] = kind
	}
	pkg := hookedPackage(t.R, root, childs)
	t.Artifact("package.3mf", pkg)
	defer func(h func(io.Reader) io.ReadCloser) { readHook = h }(readHook)

	// what each broken part says when it is the only one
	want := map[string]string{}
	for p, kind := range broken {
		if kind == "read" {
			continue
		}
		s := &schedule{kind: "free", opened: map[string]int{}, done1: map[string]bool{}, fail: map[string]int{}}
		readHook = s.open
		one := hookedPackage(t.R, root, map[string][]byte{p: childs[p]})
		_, err := decode(one, strict)
		if err == nil {
			t.Fatal("broken-accepted", "the broken part %s (%s) decodes", p, kind)
		}
		want[err.Error()] = p
	}
	base := runtime.NumGoroutine()
	for k := 0; k < 3; k++ {
		s := newSchedule(t.R, all)
		s.fail = fail
		readHook = s.open
		var err error
		var got *go3mf.Model
		withProcs(t.R, func() {
			t.within(60*time.Second, "decode", func() { got, err = decode(pkg, strict) })
		})
		_ = got
		switch {
		case err == nil:
			t.Fatal("broken-accepted", "schedule %s: a package with broken parts %v decodes without an error", s.kind, broken)
		case errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded):
			t.Fatal("own-cancellation", "schedule %s: the error is a cancellation nobody asked for: %v (broken parts %v)", s.kind, err, broken)
		case errors.Is(err, errInjected):
			ok := false
			for p := range fail {
				ok = ok || strings.Contains(err.Error(), "part "+p+":")
			}
			if !ok {
				t.Fatal("wrong-part", "the error %v is not of a broken part", err)
			}
			t.Count("errors_read", 1)
		default:
			if _, ok := want[err.Error()]; !ok {
				t.Fatal("wrong-error", "schedule %s: the error is of none of the broken parts: %v\nexpected one of %v", s.kind, err, want)
			}
			t.Count("errors_content", 1)
		}
		t.Count("schedule_"+s.kind, 1)
		t.Count("parts_broken", len(broken))
		s.mu.Lock()
		t.Seen("broken_outcomes", s.kind, len(all), len(broken), len(s.done), err.Error())
		t.Distinct("broken", s.kind, len(all), strings.Join(s.done, ","))
		for p, c := range s.opened {
			if c > 1 {
				t.Fatal("opened", "part %s was opened %d times", p, c)
			}
		}
		s.mu.Unlock()
	}
	t.Eval(3)
	if !settled(base) {
		t.Fatal("goroutine-leak", "goroutines are left behind: %d before, %d after", base, runtime.NumGoroutine())
	}
}

// concurrentUnopenable decodes packages with parts that cannot be opened, over
// and over in the same process: nothing they leave behind may stop later ones.
func concurrentUnopenable(t *T) {
	n := randParts(t.R)
	m := manyParts(t.R, n)
	root, childs, _, _ := serialize(t.R, m, style{}, 0)
	good := multiPackage(root, childs, t.R.Bool())
	all := childPaths(m)
	bad := map[string]bool{}
	for _, i := range t.R.Perm(n)[:t.R.Range(1, n)] {
		bad[strings.ToLower(strings.TrimPrefix(all[i], "/"))] = true
	}
	zr, err := zip.NewReader(bytes.NewReader(good), int64(len(good)))
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	var broken []int64
	header := t.R.Bool()
	for _, f := range zr.File {
		h := f.FileHeader
		name := strings.ToLower(f.Name)
		if bad[name] && !header {
			h.Method = 77
		}
		w, err := zw.CreateRaw(&h)
		if err != nil {
			panic(err)
		}
		r, _ := f.OpenRaw()
		io.Copy(w, r)
	}
	zw.Close()
	pkg := b.Bytes()
	zr, err = zip.NewReader(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		panic(err)
	}
	for _, f := range zr.File {
		if !bad[strings.ToLower(f.Name)] {
			continue
		}
		off, err := f.DataOffset()
		if err != nil {
			panic(err)
		}
		broken = append(broken, int64(bytes.LastIndex(pkg[:off], []byte("PK\x03\x04"))))
	}
	if header { // the signature of the local header
		for _, o := range broken {
			pkg[o] = 'X'
		}
	}
	if len(broken) != len(bad) {
		panic(fmt.Sprint("parts not found: ", bad))
	}
	t.Artifact("package.3mf", pkg)
	strict := t.R.Bool()
	withProcs(t.R, func() {
		t.within(60*time.Second, "decode", func() {
			for k := 0; k < 3; k++ {
				_, err := decode(pkg, strict)
				if !errors.Is(err, zip.ErrAlgorithm) && !errors.Is(err, zip.ErrFormat) {
					t.Fatal("unopenable", "%d of %d parts cannot be opened, and the error is %v", len(bad), n, err)
				}
			}
			if _, err := decode(good, strict); err != nil {
				t.Fatal("after-unopenable", "after a package that cannot be opened a good one fails: %v", err)
			}
		})
	})
	t.Eval(4)
	t.Count("parts_unopenable", len(bad))
}
