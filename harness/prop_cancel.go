package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
)

func init() {
	register(&Prop{ID: "C13", Level: "fault_enumeration", Rule: "one evaluation is one decode cancelled at one position (enumerated over the bytes of the parts and of the STL files), before it starts, or never; distinct_nontrivial counts distinct (kind of input, kind of cancellation, position) with more input left than the library may still read",
		Assumptions: []string{
			fmt.Sprintf("soon means within %d bytes of each part and %d bytes of an STL file being read (the library checks the context every 1000 tokens or lines); single tokens of the inputs are at most 200 bytes", cancelBound, cancelBoundSTL),
			"when less than that is left the call may still succeed, with the complete result",
			"attachments and the directory of the package are read before the model parts and are not interrupted",
		},
		Run: func(c *Ctx) {
			n := c.N(60, 600)
			for kind := range cancelDocs {
				for k := 0; k < n; k++ {
					kind, k := kind, k
					c.Case("root", func(t *T) { cancelRoot(t, kind, k, n) })
				}
			}
			for i := 0; i < c.N(500, 4000); i++ {
				c.Case("childs", cancelChilds)
			}
			for i := 0; i < c.N(500, 3000); i++ {
				c.Case("before", cancelBefore)
			}
			for i := 0; i < c.N(500, 3000); i++ {
				c.Case("never", cancelNever)
			}
			for kind := range cancelSTLs {
				for k := 0; k < 2*n; k++ {
					kind, k := kind, k
					c.Case("stl", func(t *T) { cancelSTL(t, kind, k, 2*n) })
				}
			}
		}})
}

const cancelBound = 96 << 10 // four times what is observed

const cancelBoundSTL = 160 << 10

// how the context ends
type ender struct {
	kind string
	ctx  context.Context
	end  func()
	want error
}

func newEnder(r *Rand) *ender {
	e := &ender{kind: r.Pick("cancel", "cancel", "parent", "deadline", "value")}
	switch e.kind {
	case "cancel":
		ctx, c := context.WithCancel(context.Background())
		e.ctx, e.end, e.want = ctx, c, context.Canceled
	case "parent":
		p, c := context.WithCancel(context.Background())
		ctx, c2 := context.WithTimeout(p, time.Hour)
		_ = c2
		e.ctx, e.end, e.want = ctx, c, context.Canceled
	case "value":
		p, c := context.WithCancel(context.Background())
		e.ctx, e.end, e.want = context.WithValue(p, struct{}{}, 1), c, context.Canceled
	case "deadline":
		// the deadline passes while a read is in progress
		ctx := &manualCtx{done: make(chan struct{})}
		e.ctx, e.end, e.want = ctx, ctx.expire, context.DeadlineExceeded
	}
	return e
}

// manualCtx is a context whose deadline passes when the monitor says so.
type manualCtx struct {
	done chan struct{}
	once sync.Once
	over int32
}

func (c *manualCtx) Deadline() (time.Time, bool)       { return time.Now().Add(time.Hour), true }
func (c *manualCtx) Done() <-chan struct{}             { return c.done }
func (c *manualCtx) Value(key interface{}) interface{} { return nil }
func (c *manualCtx) Err() error {
	if atomic.LoadInt32(&c.over) == 1 {
		return context.DeadlineExceeded
	}
	return nil
}
func (c *manualCtx) expire() {
	c.once.Do(func() {
		atomic.StoreInt32(&c.over, 1)
		close(c.done)
		time.Sleep(10 * time.Millisecond) // contexts derived from this one follow in another goroutine
	})
}

// tripwire counts what is read from every part and ends the context at one byte.
type tripwire struct {
	mu     sync.Mutex
	part   string
	at     int
	end    func()
	ended  bool
	after  map[string]int
	total  map[string]int
	late   int32 // reads after the call has returned
	closed int32
	chunk  int
}

type tripReader struct {
	w    *tripwire
	name string
	r    io.Reader
}

func (w *tripwire) open(r io.Reader) io.ReadCloser {
	head := make([]byte, 120)
	n, _ := io.ReadFull(r, head)
	head = head[:n]
	name := ""
	if i := bytes.Index(head, []byte("<!--part ")); i >= 0 {
		if j := bytes.Index(head[i:], []byte("-->")); j >= 0 {
			name = string(head[i+len("<!--part ") : i+j])
		}
	}
	return &tripReader{w, name, io.MultiReader(bytes.NewReader(head), r)}
}

func (p *tripReader) Read(b []byte) (int, error) {
	w := p.w
	if atomic.LoadInt32(&w.closed) == 1 {
		atomic.AddInt32(&w.late, 1)
	}
	if w.chunk > 0 && len(b) > w.chunk {
		b = b[:w.chunk]
	}
	n, err := p.r.Read(b)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.total == nil {
		w.total, w.after = map[string]int{}, map[string]int{}
	}
	w.total[p.name] += n
	if w.ended {
		w.after[p.name] += n
	} else if p.name == w.part && w.total[p.name] >= w.at {
		w.ended = true
		w.end()
	}
	return n, err
}

func (p *tripReader) Close() error { return nil }

// documents with many small tokens
var cancelDocs = []string{"vertices", "triangles", "unknown", "comments", "text", "segments", "metadata", "objects", "pis", "nested"}

func cancelDoc(r *Rand, kind string, size int) []byte {
	var b bytes.Buffer
	b.WriteString(`<?xml version="1.0"?><model xmlns="` + nsCore + `" xmlns:u="http://example.com/u" xmlns:s="http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"><resources>`)
	rep := func(f string, args ...func() interface{}) {
		for b.Len() < size {
			var v []interface{}
			for _, a := range args {
				v = append(v, a())
			}
			fmt.Fprintf(&b, f, v...)
		}
	}
	num := func() interface{} { return r.Intn(1000) }
	switch kind {
	case "vertices":
		b.WriteString(`<object id="1"><mesh><vertices>`)
		rep(`<vertex x="%d" y="%d.5" z="-%d"/>`, num, num, num)
		b.WriteString(`</vertices></mesh></object>`)
	case "triangles":
		b.WriteString(`<object id="1"><mesh><triangles>`)
		rep(`<triangle v1="%d" v2="%d" v3="%d"></triangle>`, num, num, num)
		b.WriteString(`</triangles></mesh></object>`)
	case "unknown":
		rep(`<u:e a="%d">%d</u:e>`, num, num)
	case "comments":
		rep(`<!-- %d -->`+"\n", num)
	case "pis":
		rep(`<?pi %d?>`, num)
	case "text":
		rep(`<u:e/> ignored text %d `, num)
	case "segments":
		b.WriteString(`<s:slicestack id="1"><s:slice ztop="1"><s:vertices>`)
		for i := 0; i < 1000; i++ {
			fmt.Fprintf(&b, `<s:vertex x="%d" y="%d"/>`, r.Intn(1000), i)
		}
		b.WriteString(`</s:vertices><s:polygon startv="0">`)
		rep(`<s:segment v2="%d"/>`, num)
		b.WriteString(`</s:polygon></s:slice></s:slicestack>`)
	case "metadata":
		b.WriteString(`<object id="1"><metadatagroup>`)
		rep(`<metadata name="u:k%d">%d</metadata>`, num, num)
		b.WriteString(`</metadatagroup></object>`)
	case "objects":
		i := 0
		rep(`<object id="%d" name="o%d"><components><component objectid="%d"/></components></object>`, func() interface{} { i++; return i }, num, num)
	case "nested":
		n := 0
		for b.Len() < size/2 {
			b.WriteString("<u:n>")
			n++
		}
		for i := 0; i < n; i++ {
			b.WriteString("</u:n>")
		}
	}
	b.WriteString(`</resources><build/></model>`)
	return b.Bytes()
}

type cancelInput struct {
	pkg  []byte
	size map[string]int
}

func cancelPackage(root []byte, childs map[string][]byte) *cancelInput {
	in := &cancelInput{size: map[string]int{}}
	p := pkgPart{name: "/3D/3dmodel.model", ct: ctModel, data: mark(root, "/3D/3dmodel.model")}
	var parts []pkgPart
	for _, k := range sortedStr(childs) {
		p.rels = append(p.rels, pkgRel{"", relModel, k})
		parts = append(parts, pkgPart{name: k, ct: ctModel, data: mark(childs[k], k)})
	}
	parts = append([]pkgPart{p}, parts...)
	for _, p := range parts {
		in.size[p.name] = len(p.data)
	}
	in.pkg = buildPackageMethod([]pkgRel{{"r0", relModel, "/3D/3dmodel.model"}}, parts, hookedMethod)
	return in
}

func (in *cancelInput) decode(t *T, ctx context.Context, w *tripwire, strict bool) (*go3mf.Model, error) {
	defer func(h func(io.Reader) io.ReadCloser) { readHook = h }(readHook)
	readHook = w.open
	base := runtime.NumGoroutine()
	m := new(go3mf.Model)
	var err error
	t.within(60*time.Second, "decode", func() {
		d := go3mf.NewDecoder(bytes.NewReader(in.pkg), int64(len(in.pkg)))
		d.Strict = strict
		err = d.DecodeContext(ctx, m)
	})
	atomic.StoreInt32(&w.closed, 1)
	if !settled(base) {
		t.Fatal("goroutine-leak", "goroutines are left behind: %d before, %d after", base, runtime.NumGoroutine())
	}
	if n := atomic.LoadInt32(&w.late); n > 0 {
		t.Fatal("late-reads", "%d reads after the call had returned", n)
	}
	return m, err
}

func (in *cancelInput) plain(t *T) []string {
	m, err := in.decode(t, context.Background(), &tripwire{part: "none"}, true)
	if err != nil {
		t.Fatal("decode-error", "a valid package does not decode: %v", err)
	}
	return actualDump(m)
}

// verdict judges a decode whose context ended at a position of a part.
func (in *cancelInput) verdict(t *T, e *ender, w *tripwire, m *go3mf.Model, err error, must bool, where string) {
	worst := 0
	for p, n := range w.after {
		if n > worst {
			worst = n
		}
		if n > cancelBound && e.kind != "deadline" {
			t.Fatal("not-prompt", "%s: %d bytes of part %s were read after the context had ended", where, n, p)
		}
	}
	t.Max("bytes_read_after_"+e.kind, worst)
	if err == nil {
		if must {
			t.Fatal("ignored", "%s: the decode succeeded although its context had ended", where)
		}
		if d := diffLines(in.plain(t), actualDump(m)); d != "" {
			t.Fatal("partial", "%s: a cancelled decode returned an incomplete model without an error\n%s", where, d)
		}
		t.Count("completed_anyway", 1)
		return
	}
	if !errors.Is(err, e.want) {
		t.Fatal("error", "%s: the error is %v and not %v", where, err, e.want)
	}
	t.Count("stopped_"+e.kind, 1)
}

func cancelRoot(t *T, kind, k, n int) {
	size := t.R.Range(700<<10, 1400<<10)
	doc := cancelDoc(t.R, cancelDocs[kind], size)
	in := cancelPackage(doc, nil)
	if k%6 == 0 { // in lenient mode with a fault before the cancellation
		doc = bytes.Replace(doc, []byte("<resources>"), []byte(`<resources><object id="bad"/>`), 1)
		in = cancelPackage(doc, nil)
	}
	at := len(doc) * k / n
	e := newEnder(t.R)
	w := &tripwire{part: "/3D/3dmodel.model", at: at, end: e.end, chunk: []int{0, 64, 1000}[t.R.Intn(3)]}
	m, err := in.decode(t, e.ctx, w, k%6 != 0)
	left := in.size["/3D/3dmodel.model"] - w.total["/3D/3dmodel.model"] + w.after["/3D/3dmodel.model"]
	where := fmt.Sprintf("%s document of %d bytes, %s at byte %d", cancelDocs[kind], len(doc), e.kind, at)
	if k%6 == 0 && err == nil {
		t.Fatal("error", "%s: faults and the cancellation were both forgotten", where)
	}
	if k%6 == 0 && left <= cancelBound && !errors.Is(err, e.want) {
		return // the end of the document came first
	}
	in.verdict(t, e, w, m, err, left > cancelBound, where)
	if left > cancelBound {
		t.Distinct("root", kind, e.kind, k)
	}
	t.Seen("positions", kind, at)
	t.Sample("%s: error %v, %d bytes read afterwards", where, err, w.after["/3D/3dmodel.model"])
}

func cancelChilds(t *T) {
	n := t.R.Range(1, 6)
	childs := map[string][]byte{}
	for i := 0; i < n; i++ {
		size := t.R.Range(2000, 40000)
		if t.R.P(1, 2) {
			size = t.R.Range(400<<10, 700<<10)
		}
		childs[fmt.Sprintf("/3D/c%d.model", i)] = cancelDoc(t.R, cancelDocs[t.R.Intn(len(cancelDocs))], size)
	}
	root := cancelDoc(t.R, "vertices", t.R.Range(1000, 400<<10))
	in := cancelPackage(root, childs)
	p := sortedStr(childs)[t.R.Intn(n)]
	e := newEnder(t.R)
	w := &tripwire{part: p, at: t.R.Intn(in.size[p]), end: e.end, chunk: []int{0, 64, 1000}[t.R.Intn(3)]}
	m, err := in.decode(t, e.ctx, w, t.R.Bool())
	where := fmt.Sprintf("%d children, %s at byte %d of %d of %s", n, e.kind, w.at, in.size[p], p)
	// the root comes after the children: it must not be decoded any more
	if e.kind != "deadline" && w.after["/3D/3dmodel.model"] > 4096 && err == nil {
		t.Fatal("ignored", "%s: the root part was decoded after the cancellation", where)
	}
	in.verdict(t, e, w, m, err, true, where)
	t.Distinct("childs", n, p, w.at/1000, e.kind)
	t.Seen("child_positions", in.size[p], w.at)
}

func cancelBefore(t *T) {
	e := newEnder(t.R)
	e.end()
	if t.R.P(1, 3) {
		ctx, c := context.WithDeadline(context.Background(), time.Now().Add(-time.Second))
		defer c()
		e = &ender{kind: "past", ctx: ctx, want: context.DeadlineExceeded}
	}
	o := anyGen(t.R)
	o.Childs = t.R.Bool()
	m := genModel(t.R, o)
	root, childs, _, _ := serialize(t.R, m, style{}, 0)
	if t.R.P(1, 3) {
		root = cancelDoc(t.R, cancelDocs[t.R.Intn(len(cancelDocs))], 600<<10)
	}
	in := cancelPackage(root, childs)
	w := &tripwire{part: "none", ended: true, at: math.MaxInt32}
	got, err := in.decode(t, e.ctx, w, t.R.Bool())
	in.verdict(t, e, w, got, err, true, fmt.Sprintf("%s before the start, %d parts", e.kind, len(childs)+1))
	t.Distinct("before", e.kind, len(childs), len(root))
}

func cancelNever(t *T) {
	o := anyGen(t.R)
	o.Childs = t.R.P(2, 3)
	m := genModel(t.R, o)
	root, childs, _, _ := serialize(t.R, m, style{}, 0)
	in := cancelPackage(root, childs)
	want := in.plain(t)
	e := newEnder(t.R)
	w := &tripwire{part: "none", chunk: []int{0, 64}[t.R.Intn(2)]}
	got, err := in.decode(t, e.ctx, w, true)
	if err != nil {
		t.Fatal("spurious", "a decode whose context is alive fails: %v", err)
	}
	if t.R.Bool() {
		e.end() // too late to matter
		time.Sleep(time.Duration(t.R.Intn(300)) * time.Microsecond)
	}
	if d := diffLines(want, actualDump(got)); d != "" {
		t.Fatal("effect", "a context that is alive changes the result\n%s", d)
	}
	e.end()
	t.Count("alive_contexts", 1)
	t.Distinct("never", strings.Join(want, "\n"))
}

var cancelSTLs = []string{"binary", "ascii", "ascii-crlf", "ascii-noise"}

func stlInput(r *Rand, kind string, size int) []byte {
	var b bytes.Buffer
	v := func() float32 { return float32(r.Intn(2000)) / 8 }
	if kind == "binary" {
		b.Write(make([]byte, 80))
		n := size / 50
		binary.Write(&b, binary.LittleEndian, uint32(n))
		for i := 0; i < n; i++ {
			binary.Write(&b, binary.LittleEndian, [12]float32{0, 0, 1, v(), v(), v(), v(), v(), v(), v(), v(), v()})
			b.Write([]byte{0, 0})
		}
		return b.Bytes()
	}
	nl := "\n"
	if kind == "ascii-crlf" {
		nl = "\r\n"
	}
	b.WriteString("solid x" + nl)
	for b.Len() < size {
		if kind == "ascii-noise" {
			fmt.Fprintf(&b, "comment %d"+nl+nl, r.Intn(100))
			continue
		}
		fmt.Fprintf(&b, "facet normal 0 0 1"+nl+"outer loop"+nl)
		for k := 0; k < 3; k++ {
			fmt.Fprintf(&b, "vertex %g %g %g"+nl, v(), v(), v())
		}
		b.WriteString("endloop" + nl + "endfacet" + nl)
	}
	b.WriteString("endsolid" + nl)
	return b.Bytes()
}

func cancelSTL(t *T, kind, k, n int) {
	size := t.R.Range(500<<10, 900<<10)
	small := k%5 == 4
	if small {
		size = t.R.Range(400, 20000)
	}
	data := stlInput(t.R, cancelSTLs[kind], size)
	at := len(data) * k / n
	e := newEnder(t.R)
	w := &tripwire{at: at, end: e.end, chunk: []int{0, 64, 1000}[t.R.Intn(3)]}
	where := fmt.Sprintf("%s STL of %d bytes, %s at byte %d", cancelSTLs[kind], len(data), e.kind, at)
	mode := "during"
	if small {
		mode = "before"
		e.end()
		w.ended = true
	}
	if k%7 == 6 {
		mode = "never"
		w.at = math.MaxInt32
		if small {
			e = newEnder(t.R)
			w = &tripwire{at: math.MaxInt32}
		}
	}
	m := new(go3mf.Model)
	var err error
	base := runtime.NumGoroutine()
	t.within(60*time.Second, "stl", func() {
		err = stl.NewDecoder(&tripReader{w, "", bytes.NewReader(data)}).DecodeContext(e.ctx, m)
	})
	atomic.StoreInt32(&w.closed, 1)
	if !settled(base) {
		t.Fatal("goroutine-leak", "goroutines are left behind")
	}
	left := len(data) - w.total[""] + w.after[""]
	if n := w.after[""]; n > cancelBoundSTL {
		t.Fatal("not-prompt", "%s: %d bytes were read after the context had ended", where, n)
	}
	t.Max("stl_bytes_read_after_cancellation", w.after[""])
	switch {
	case mode == "never" || (err == nil && mode != "before" && left <= cancelBoundSTL):
		if err != nil {
			t.Fatal("spurious", "%s: %v", where, err)
		}
		p := new(go3mf.Model)
		if err := stl.NewDecoder(bytes.NewReader(data)).Decode(p); err != nil {
			t.Fatal("decode-error", "%v", err)
		}
		if d := diffLines(actualDump(p), actualDump(m)); d != "" {
			t.Fatal("effect", "%s: the context changed the result\n%s", where, d)
		}
	case err == nil:
		t.Fatal("ignored", "%s (%s): the decode succeeded", where, mode)
	case !errors.Is(err, e.want):
		t.Fatal("error", "%s: the error is %v and not %v", where, err, e.want)
	default:
		if len(m.Resources.Objects) != 0 || len(m.Build.Items) != 0 {
			t.Fatal("partial", "%s: a cancelled import added an object", where)
		}
		t.Count("stl_stopped_"+e.kind, 1)
	}
	t.Distinct("stl", kind, mode, e.kind, k)
}
