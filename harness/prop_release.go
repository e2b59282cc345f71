package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/xml"
	"errors"
	"fmt"
	"image/color"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/importer/stl"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
)

func init() {
	register(&Prop{ID: "C31", Level: "exploration",
		Rule: "one evaluation is one decode, encode, import or use of a file, with one outcome (a result, a fault, a cancellation), whose parts, descriptors, goroutines and uses of the caller's readers and writers were followed from the call until after its return; distinct_nontrivial counts distinct (operation, outcome, parts opened, position of the fault)",
		Assumptions: []string{
			"what runs on after the call gets two seconds to stop and to close what it has open",
			"parts that the OPC package of the dependencies reads for itself (content types, relationships) are not followed",
			fmt.Sprintf("memory is kept when the live heap grows by more than %d bytes and a twentieth of the input, over many different inputs", releaseSlack),
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(2500, 40000); i++ {
				c.Case("package", releasePackage)
			}
			for i := 0; i < c.N(500, 8000); i++ {
				c.Case("encode", releaseEncode)
			}
			for i := 0; i < c.N(300, 5000); i++ {
				c.Case("files", releaseFiles)
			}
			for i := 0; i < c.N(300, 5000); i++ {
				c.Case("stl", releaseSTL)
			}
			for i := 0; i < c.N(5, 40); i++ {
				for _, k := range releaseKinds {
					k := k
					c.Case("memory", func(t *T) { releaseMemory(t, k) })
				}
			}
		}})
}

const releaseSlack = 128 << 10

// ledger follows what was opened and what is used.
type ledger struct {
	mu     sync.Mutex
	open   map[string]int // parts that are open
	opened int
	closed int
	again  []string // closed twice
	after  []string // used after they were closed
	done   bool
	late   []string // used after the end of the call
	theirs []string // closed although they belong to the caller
}

func (l *ledger) use(what string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.done && len(l.late) < 5 {
		l.late = append(l.late, what)
	}
}

func (l *ledger) finish() {
	l.mu.Lock()
	l.done = true
	l.mu.Unlock()
}

func (l *ledger) pending() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.list()
}

func (l *ledger) list() (out []string) {
	for k, n := range l.open {
		if n > 0 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// ledgerPart is an open part.
type ledgerPart struct {
	l      *ledger
	name   string
	r      io.Reader
	closed bool
}

// wrap follows the part that is read from r; fault, when given, makes it fail.
func (l *ledger) wrap(r io.Reader, fault func(name string, r io.Reader) io.Reader) io.ReadCloser {
	head := make([]byte, 120)
	n, _ := io.ReadFull(r, head)
	head = head[:n]
	name := "?"
	if i := bytes.Index(head, []byte("<!--part ")); i >= 0 {
		if j := bytes.Index(head[i:], []byte("-->")); j >= 0 {
			name = string(head[i+len("<!--part ") : i+j])
		}
	}
	var rr io.Reader = io.MultiReader(bytes.NewReader(head), r)
	if fault != nil {
		rr = fault(name, rr)
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.open == nil {
		l.open = map[string]int{}
	}
	l.open[name]++
	l.opened++
	return &ledgerPart{l: l, name: name, r: rr}
}

func (p *ledgerPart) Read(b []byte) (int, error) {
	p.l.use("part " + p.name)
	p.l.mu.Lock()
	if p.closed && len(p.l.after) < 5 {
		p.l.after = append(p.l.after, p.name)
	}
	p.l.mu.Unlock()
	return p.r.Read(b)
}

func (p *ledgerPart) Close() error {
	p.l.mu.Lock()
	defer p.l.mu.Unlock()
	if !p.closed {
		p.closed = true
		p.l.open[p.name]--
		p.l.closed++
	}
	return nil
}

// own is a reader, a writer or a stream of the caller.
type own struct {
	l    *ledger
	what string
	r    io.Reader
	at   io.ReaderAt
	w    io.Writer
	gone bool
}

var errGone = errors.New("the input is gone")

func (o *own) Read(p []byte) (int, error) {
	o.l.use(o.what)
	return o.r.Read(p)
}

func (o *own) ReadAt(p []byte, off int64) (int, error) {
	o.l.use(o.what)
	o.l.mu.Lock()
	gone := o.gone
	o.l.mu.Unlock()
	if gone {
		return 0, errGone
	}
	return o.at.ReadAt(p, off)
}

func (o *own) Write(p []byte) (int, error) {
	o.l.use(o.what)
	return o.w.Write(p)
}

func (o *own) Close() error {
	o.l.mu.Lock()
	o.l.theirs = append(o.l.theirs, o.what)
	o.l.mu.Unlock()
	return nil
}

// judge looks at the ledger after the call has returned.
func (l *ledger) judge(t *T, base int, where string) {
	l.finish()
	if !settled(base) {
		t.Fatal("goroutines", "%s: goroutines are left behind: %d before, %d after", where, base, runtime.NumGoroutine())
	}
	if left := l.pending(); len(left) > 0 {
		for i := 0; i < 200 && len(l.pending()) > 0; i++ {
			time.Sleep(10 * time.Millisecond)
		}
		if left = l.pending(); len(left) > 0 {
			t.Fatal("left-open", "%s: %d of %d parts opened were not closed: %s", where, l.opened-l.closed, l.opened, strings.Join(left, ", "))
		}
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	switch {
	case len(l.late) > 0:
		t.Fatal("used-later", "%s: used after the call had returned: %s", where, strings.Join(l.late, ", "))
	case len(l.after) > 0:
		t.Fatal("used-closed", "%s: read after it was closed: %s", where, strings.Join(l.after, ", "))
	case len(l.theirs) > 0:
		t.Fatal("closed-theirs", "%s: closed, although they belong to the caller: %s", where, strings.Join(l.theirs, ", "))
	}
	t.Count("parts_opened_and_closed", l.closed)
}

// hookAll writes a package again with all the parts read through readHook.
func hookAll(pkg []byte) []byte {
	z, err := zip.NewReader(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		panic(err)
	}
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for _, f := range z.File {
		h := &zip.FileHeader{Name: f.Name, Method: zip.Deflate}
		if f.Name != "[Content_Types].xml" && !strings.HasSuffix(f.Name, ".rels") {
			h.Method = hookedMethod
		}
		r, err := f.Open()
		if err != nil {
			panic(err)
		}
		data, err := io.ReadAll(r)
		if err != nil {
			panic(err)
		}
		r.Close()
		e, err := w.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		e.Write(data)
	}
	w.Close()
	return buf.Bytes()
}

// releaseInput is a package with marked parts.
func releaseInput(t *T) (pkg []byte, names []string, atts map[string][]byte) {
	r := t.R
	o := anyGen(r)
	o.Childs, o.Size = r.P(2, 3), r.Range(1, 4)
	root, childs, _, _ := serialize(r, genModel(r, o), randStyle(r), 0)
	if r.P(1, 3) {
		root = cancelDoc(r, cancelDocs[r.Intn(len(cancelDocs))], r.Range(1000, 200<<10))
	}
	p := pkgPart{name: "/3D/3dmodel.model", ct: ctModel, data: mark(root, "/3D/3dmodel.model")}
	var parts []pkgPart
	for _, k := range sortedStr(childs) {
		d := childs[k]
		if r.P(1, 4) {
			d = cancelDoc(r, cancelDocs[r.Intn(len(cancelDocs))], r.Range(1000, 200<<10))
		}
		p.rels = append(p.rels, pkgRel{"", relModel, k})
		parts = append(parts, pkgPart{name: k, ct: ctModel, data: mark(d, k)})
	}
	atts = map[string][]byte{}
	rels := []pkgRel{{"r0", relModel, "/3D/3dmodel.model"}}
	for i := r.Intn(4); i > 0; i-- {
		n := fmt.Sprintf("/Own/a%d.bin", i)
		atts[n] = append([]byte("<!--part "+n+"-->"), r.Bytes([]int{0, 10, 3000, 100000}[r.Intn(4)])...)
		parts = append(parts, pkgPart{name: n, ct: "application/octet-stream", data: atts[n]})
		rel := pkgRel{"", r.Pick(relTexture, relMust, "http://x/y"), n}
		switch k := r.Intn(3); {
		case k == 0:
			rels = append(rels, rel)
		case k == 1 && len(childs) > 0:
			parts[0].rels = append(parts[0].rels, rel)
		default:
			p.rels = append(p.rels, rel)
		}
	}
	parts = append([]pkgPart{p}, parts...)
	for i, q := range parts {
		names = append(names, q.name)
		if q.ct == ctModel && r.P(1, 8) { // a broken part
			switch d := q.data; r.Intn(4) {
			case 0:
				parts[i].data = d[:len(d)*r.Range(1, 9)/10]
			case 1:
				parts[i].data = bytes.Replace(d, []byte("</model>"), []byte("</wrong>"), 1)
			case 2:
				parts[i].data = bytes.Replace(d, []byte("<resources>"), []byte(`<resources><object id="bad"/>`), 1)
			default:
				parts[i].data = append(d[:len(d):len(d)], "<unclosed"...)
			}
			t.Count("broken_parts", 1)
		}
	}
	return hookAll(buildPackage(rels, parts, true)), names, atts
}

// releasePackage decodes packages, with all kinds of ends.
func releasePackage(t *T) {
	r := t.R
	pkg, names, atts := releaseInput(t)
	l := new(ledger)
	e := newEnder(r)
	outcome := r.Pick("plain", "plain", "fault", "fault", "cancel", "cancel", "before")
	at, part := r.Intn(1+r.Intn(60000)), names[r.Intn(len(names))]
	mode := r.Pick("with-data", "separate", "transient")
	if outcome == "before" {
		e.end()
	}
	var once sync.Once
	fault := func(name string, rd io.Reader) io.Reader {
		if name != part {
			return rd
		}
		switch outcome {
		case "fault":
			data, _ := io.ReadAll(rd)
			if at > len(data) {
				at = len(data)
			}
			return &faultyReader{data: data, at: at, mode: mode, err: injected(t.R)}
		case "cancel":
			return &endsAt{rd, at, func() { once.Do(e.end) }}
		}
		return rd
	}
	defer func(h func(io.Reader) io.ReadCloser) { readHook = h }(readHook)
	readHook = func(rd io.Reader) io.ReadCloser { return l.wrap(rd, fault) }
	in := &own{l: l, what: "the package", at: bytes.NewReader(pkg)}
	m := new(go3mf.Model)
	var err error
	strict := r.Bool()
	base := runtime.NumGoroutine()
	t.within(60*time.Second, "decode", func() {
		d := go3mf.NewDecoder(in, int64(len(pkg)))
		d.Strict = strict
		if outcome == "plain" && r.Bool() {
			err = d.Decode(m)
		} else {
			err = d.DecodeContext(e.ctx, m)
		}
	})
	where := fmt.Sprintf("decode of a package with the parts %v, strict %v, outcome %s (%s, byte %d of %s, %s): error %v", names, strict, outcome, e.kind, at, part, mode, err)
	l.judge(t, base, where)
	t.Eval(1)
	t.Count("decodes_"+outcome, 1)
	if err != nil {
		t.Count("decodes_with_error", 1)
	}
	// What was decoded does not need the input any more.
	l.mu.Lock()
	in.gone, l.done = true, false
	opened := l.opened
	l.mu.Unlock()
	for i := range m.Attachments {
		a := &m.Attachments[i]
		b, e2 := io.ReadAll(a.Stream)
		if want, ok := atts[a.Path]; e2 != nil || (ok && err == nil && !bytes.Equal(b, want)) {
			t.Fatal("attachment", "%s: the attachment %s has %d bytes instead of %d when the input is gone (%v)", where, a.Path, len(b), len(want), e2)
		}
		t.Count("attachments_read_later", 1)
		a.Stream = bytes.NewReader(b)
	}
	if err == nil {
		m.Validate()
		m.BoundingBox()
		if e2 := go3mf.NewEncoder(io.Discard).Encode(m); e2 != nil && errors.Is(e2, errGone) {
			t.Fatal("encode-later", "%s: the model cannot be encoded when the input is gone: %v", where, e2)
		}
	}
	if l.opened != opened {
		t.Fatal("opened-later", "%s: parts were opened when the model was used", where)
	}
	e.end()
	t.Distinct("package", outcome, e.kind, mode, len(names), part, at/1000, opened, strict)
	t.Sample("%s; %d parts opened, %d closed", where, l.opened, l.closed)
}

// endsAt does something when a byte is read.
type endsAt struct {
	r   io.Reader
	at  int
	end func()
}

func (e *endsAt) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if e.at -= n; e.at <= 0 {
		e.end()
	}
	return n, err
}

// releaseEncode encodes to writers that belong to the caller.
func releaseEncode(t *T) {
	r := t.R
	m := bigModel(r, []int{0, 3000, 60000}[r.Intn(3)])
	rewind(m)
	l := new(ledger)
	outcome := r.Pick("plain", "write", "stream", "asset")
	fw := &faultyWriter{at: -1}
	if outcome == "write" {
		fw.at, fw.mode, fw.err = r.Intn(r.Range(1, 50000)), r.Pick("permanent", "transient"), injected(r)
	}
	for i := range m.Attachments {
		a := &m.Attachments[i]
		b, _ := io.ReadAll(a.Stream)
		a.Stream = &own{l: l, what: "the stream of " + a.Path, r: bytes.NewReader(b)}
		if outcome == "stream" && i == len(m.Attachments)/2 {
			a.Stream = &own{l: l, what: "the stream of " + a.Path, r: &faultyReader{data: b, at: r.Intn(len(b) + 1), mode: "with-data", err: injected(r)}}
		}
	}
	if outcome == "asset" {
		m.Resources.Assets = append(m.Resources.Assets, &failingAsset{injected(r), r.Intn(3)})
	}
	var err error
	base := runtime.NumGoroutine()
	t.within(60*time.Second, "encode", func() {
		err = go3mf.NewEncoder(&own{l: l, what: "the writer", w: fw}).Encode(m)
	})
	l.finish()
	n := fw.buf.Len()
	where := fmt.Sprintf("encode of %d bytes with %d attachments, outcome %s: error %v", n, len(m.Attachments), outcome, err)
	var streams []string
	for _, w := range l.theirs { // streams may be closed by who consumes them
		if w == "the writer" {
			streams = append(streams, w)
		}
	}
	l.theirs = streams
	l.judge(t, base, where)
	if fw.buf.Len() != n {
		t.Fatal("used-later", "%s: %d bytes were written after the call had returned", where, fw.buf.Len()-n)
	}
	t.Eval(1)
	t.Count("encodes_"+outcome, 1)
	t.Distinct("encode", outcome, n, len(m.Attachments))
}

// descriptors counts the open descriptors of the process that refer to files of a directory.
func descriptors(dir string) (n int) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(s, dir) {
			n++
		}
	}
	return
}

// releaseFiles follows the descriptors of the files that the library opens.
func releaseFiles(t *T) {
	r := t.R
	dir, err := os.MkdirTemp("", "verif-release")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	var hist []string
	check := func(want int) {
		if n := descriptors(dir); n > want {
			for i := 0; i < 100 && descriptors(dir) > want; i++ {
				time.Sleep(10 * time.Millisecond)
			}
			if n = descriptors(dir); n > want {
				t.Fatal("descriptors", "%d files are open, %d were expected:\n%s", n, want, strings.Join(hist, "\n"))
			}
		}
		t.Eval(1)
		t.Max("open_files", want)
	}
	name := func() string { return filepath.Join(dir, fmt.Sprintf("f%d.3mf", r.Intn(4))) }
	type file struct {
		r *go3mf.ReadCloser
		w *go3mf.WriteCloser
	}
	var open []file
	base := runtime.NumGoroutine()
	for k := r.Range(4, 20); k > 0; k-- {
		switch r.Intn(7) {
		case 0: // create a good file
			n, m := name(), bigModel(r, r.Intn(2)*5000)
			rewind(m)
			w, err := go3mf.CreateWriter(n)
			hist = append(hist, fmt.Sprintf("CreateWriter %s: %v", n, err))
			if err != nil {
				t.Fatal("create", "%s", strings.Join(hist, "\n"))
			}
			if r.P(1, 4) {
				m.Resources.Assets = append(m.Resources.Assets, &failingAsset{injected(r), 1})
			}
			hist = append(hist, fmt.Sprintf("Encode: %v", w.Encode(m)))
			if r.Bool() {
				hist = append(hist, fmt.Sprintf("Close: %v", w.Close()))
			} else {
				open = append(open, file{w: w})
			}
		case 1: // a file that is no package, or none any more
			n := name()
			var b []byte
			if r.Bool() {
				b = r.Bytes(r.Intn(3000))
			} else if old, err := os.ReadFile(n); err == nil {
				b = old[:r.Intn(len(old)+1)]
			}
			if err := os.WriteFile(n, b, 0600); err != nil {
				panic(err)
			}
			hist = append(hist, fmt.Sprintf("%s replaced by %d bytes", n, len(b)))
		case 2, 3: // open, decode some times
			n := name()
			rd, err := go3mf.OpenReader(n)
			hist = append(hist, fmt.Sprintf("OpenReader %s: %v", n, err))
			if err != nil {
				break
			}
			for i := r.Intn(3); i > 0; i-- {
				rd.Strict = r.Bool()
				m := new(go3mf.Model)
				hist = append(hist, fmt.Sprintf("Decode: %v", rd.Decode(m)))
			}
			if r.P(2, 3) {
				hist = append(hist, fmt.Sprintf("Close: %v", rd.Close()))
			} else {
				open = append(open, file{r: rd})
			}
		case 4: // names that cannot be opened
			n := r.Pick(filepath.Join(dir, "missing.3mf"), filepath.Join(dir, "no", "a.3mf"), dir, "")
			if rd, err := go3mf.OpenReader(n); err == nil {
				err = rd.Decode(new(go3mf.Model))
				hist = append(hist, fmt.Sprintf("OpenReader %s and Decode: %v", n, err))
				if err == nil {
					t.Fatal("decode", "a file that is none is decoded:\n%s", strings.Join(hist, "\n"))
				}
				rd.Close()
			}
			if w, err := go3mf.CreateWriter(filepath.Join(dir, "no", "a.3mf")); err == nil {
				w.Close()
				t.Fatal("create", "CreateWriter creates a file in a missing folder")
			}
			if _, err := go3mf.CreateWriter(dir); err == nil {
				t.Fatal("create", "CreateWriter creates a folder")
			}
		default: // close one of the open ones
			if len(open) == 0 {
				break
			}
			i := r.Intn(len(open))
			f := open[i]
			open = append(open[:i], open[i+1:]...)
			if f.r != nil {
				err = f.r.Close()
			} else {
				err = f.w.Close()
			}
			hist = append(hist, fmt.Sprintf("Close: %v", err))
			if err != nil {
				t.Fatal("close", "Close fails:\n%s", strings.Join(hist, "\n"))
			}
			t.Count("files_closed", 1)
		}
		check(len(open))
	}
	for _, f := range open {
		if f.r != nil {
			f.r.Close()
		} else {
			f.w.Close()
		}
	}
	check(0)
	if !settled(base) {
		t.Fatal("goroutines", "goroutines are left behind:\n%s", strings.Join(hist, "\n"))
	}
	t.Distinct("files", strings.Join(hist, "|"))
}

// releaseSTL imports from readers that belong to the caller.
func releaseSTL(t *T) {
	r := t.R
	data := stlInput(r, cancelSTLs[r.Intn(len(cancelSTLs))], r.Range(100, 100000))
	l := new(ledger)
	e := newEnder(r)
	outcome := r.Pick("plain", "cut", "fault", "cancel", "before")
	at := r.Intn(len(data))
	var rd io.Reader = bytes.NewReader(data)
	switch outcome {
	case "cut":
		rd = bytes.NewReader(data[:at])
	case "fault":
		rd = &faultyReader{data: data, at: at, mode: "separate", err: injected(r)}
	case "cancel":
		rd = &endsAt{rd, at, e.end}
	case "before":
		e.end()
	}
	var err error
	base := runtime.NumGoroutine()
	t.within(60*time.Second, "stl", func() {
		err = stl.NewDecoder(&own{l: l, what: "the reader", r: rd}).DecodeContext(e.ctx, new(go3mf.Model))
	})
	l.judge(t, base, fmt.Sprintf("import of %d bytes, outcome %s at %d: error %v", len(data), outcome, at, err))
	e.end()
	t.Eval(1)
	t.Count("imports_"+outcome, 1)
	t.Distinct("stl", outcome, len(data), at/100)
}

var releaseKinds = []string{"decode", "unmarshal", "encode", "stl", "validate", "mesh", "text", "errors", "broken", "cancelled"}

func liveHeap() uint64 {
	var ms runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	return ms.HeapAlloc
}

// releaseMemory repeats an operation with inputs that have nothing in common.
func releaseMemory(t *T, kind string) {
	r := t.R
	word := func() string { return fmt.Sprintf("w%x", r.U64()>>(4*uint(r.Intn(13)))) }
	run := func() int { return releaseOp(r, kind, word) }
	for i := 0; i < 4; i++ {
		run()
	}
	total, goal := 0, 6<<20
	base, before := runtime.NumGoroutine(), liveHeap()
	n := 0
	for ; total < goal; n++ {
		total += run()
	}
	if !settled(base) {
		t.Fatal("goroutines", "%s: goroutines are left behind", kind)
	}
	after := liveHeap()
	grown := int(int64(after) - int64(before))
	for i := 0; i < 20 && grown > releaseSlack+total/20; i++ { // finalizers and timers
		time.Sleep(50 * time.Millisecond)
		after = liveHeap()
		grown = int(int64(after) - int64(before))
	}
	if grown > releaseSlack+total/20 {
		t.Fatal("memory:"+kind, "%d operations (%s) on %d bytes of different inputs, whose results were all dropped, leave %d bytes", n, kind, total, grown)
	}
	if grown > 0 {
		t.Max("heap_growth_"+kind, grown)
	}
	t.Eval(n)
	t.Count("memory_operations_"+kind, n)
	t.Distinct("memory", kind, n, total)
}

func releaseDoc(r *Rand, word func() string, n int) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, `<?xml version="1.0"?><model xmlns="%s" xmlns:%s="http://%s" xmlns:u="http://%s/%s" xml:lang="%s"><metadata name="%s">%s</metadata><resources>`, nsCore, word(), word(), word(), word(), word(), word(), word())
	for b.Len() < n {
		fmt.Fprintf(&b, `<u:%s %s="%s" u:%s="%s">%s<%s/></u:%s>`, "a", word(), word(), word(), word(), word(), word(), "a")
		fmt.Fprintf(&b, `<u:%s/><object id="%d" name="%s" partnumber="%s" u:%s="%s"><mesh><vertices><vertex x="%g" y="%g" z="%g"/></vertices></mesh></object>`, word(), r.Range(1, 1<<30), word(), word(), word(), word(), r.F64(), r.F64(), r.F64())
		fmt.Fprintf(&b, `<basematerials id="%d"><base name="%s" displaycolor="#%06x"/></basematerials>`, r.Range(1, 1<<30), word(), r.Intn(1<<24))
	}
	b.WriteString(`</resources><build/></model>`)
	return b.Bytes()
}

// releaseOp runs an operation on a new input and returns how many bytes it had.
func releaseOp(r *Rand, kind string, word func() string) int {
	switch kind {
	case "decode", "broken", "cancelled":
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		p := pkgPart{name: "/3D/" + word() + ".model", ct: ctModel, data: releaseDoc(r, word, 20000)}
		parts := []pkgPart{}
		for i := 0; i < 3; i++ {
			c := pkgPart{name: "/3D/" + word() + ".model", ct: ctModel, data: releaseDoc(r, word, 20000)}
			a := pkgPart{name: "/" + word() + "/" + word() + ".bin", ct: "x/" + word(), data: r.Bytes(5000)}
			if kind == "broken" && i == 1 {
				c.data = bytes.Replace(c.data, []byte("</model>"), []byte("</"+word()+">"), 1)
			}
			p.rels = append(p.rels, pkgRel{word(), relModel, c.name}, pkgRel{word(), "http://" + word(), a.name})
			parts = append(parts, c, a)
		}
		pkg := buildPackage([]pkgRel{{word(), relModel, p.name}}, append([]pkgPart{p}, parts...), true)
		if kind == "cancelled" {
			cancel()
		}
		d := go3mf.NewDecoder(bytes.NewReader(pkg), int64(len(pkg)))
		d.Strict = r.Bool()
		m := new(go3mf.Model)
		if err := d.DecodeContext(ctx, m); (err == nil) != (kind == "decode") {
			panic(fmt.Sprint(kind, ": ", err))
		}
		return len(pkg)
	case "unmarshal":
		d := releaseDoc(r, word, 60000)
		m := new(go3mf.Model)
		if err := go3mf.UnmarshalModel(d, m); err != nil {
			panic(err)
		}
		m.Validate()
		m.ValidateCoherency()
		m.BoundingBox()
		return len(d)
	case "encode":
		m := &go3mf.Model{Path: "/3D/" + word() + ".model", Language: word()}
		m.Extensions = []go3mf.Extension{{Namespace: "http://" + word(), LocalName: word()}}
		for i := 0; i < 300; i++ {
			m.Metadata = append(m.Metadata, go3mf.Metadata{Name: xml.Name{Local: word()}, Value: word()})
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(r.Range(1, 1<<30)), Name: word(), PartNumber: word(), Mesh: new(go3mf.Mesh)})
			m.Resources.Assets = append(m.Resources.Assets, &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: []xml.Token{
				xml.StartElement{Name: xml.Name{Space: m.Extensions[0].Namespace, Local: word()}, Attr: []xml.Attr{{Name: xml.Name{Local: word()}, Value: word()}}}}}})
			u := m.Resources.Assets[len(m.Resources.Assets)-1].(*go3mf.UnknownAsset)
			u.Token = append(u.Token, xml.EndElement{Name: u.Token[0].(xml.StartElement).Name})
		}
		for i := 0; i < 4; i++ {
			p := "/" + word() + "/" + word() + ".bin"
			m.Attachments = append(m.Attachments, go3mf.Attachment{Path: p, ContentType: "x/" + word(), Stream: bytes.NewReader(r.Bytes(5000))})
			m.Relationships = append(m.Relationships, go3mf.Relationship{ID: word(), Path: p, Type: "http://" + word()})
		}
		var b bytes.Buffer
		if err := go3mf.NewEncoder(&b).Encode(m); err != nil {
			panic(err)
		}
		x, err := go3mf.MarshalModel(m)
		if err != nil {
			panic(err)
		}
		return b.Len() + len(x)
	case "stl":
		d := stlInput(r, r.Pick("binary", "ascii", "ascii-crlf"), 40000)
		if bytes.HasPrefix(d, []byte("solid x")) {
			d = bytes.Replace(d, []byte("solid x"), []byte("solid "+word()), 1)
		}
		for i := 0; i < 3; i++ {
			if i == 1 {
				d = d[:len(d)-30]
			}
			stl.NewDecoder(bytes.NewReader(d)).Decode(new(go3mf.Model))
		}
		return 3 * len(d)
	case "validate":
		m := new(go3mf.Model)
		for i := 0; i < 500; i++ {
			o := &go3mf.Object{ID: uint32(r.Range(1, 1<<30)), Name: word(), Mesh: new(go3mf.Mesh)}
			for j := 0; j < 4; j++ {
				o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(r.F64()), float32(r.F64()), float32(r.F64())})
				o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, go3mf.Triangle{V1: uint32(r.Intn(5)), V2: uint32(r.Intn(5)), V3: uint32(r.Intn(5))})
			}
			m.Resources.Objects = append(m.Resources.Objects, o)
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: uint32(r.Range(1, 1<<30)), Metadata: go3mf.MetadataGroup{Metadata: []go3mf.Metadata{{Name: xml.Name{Local: word()}}}}})
		}
		m.Validate()
		m.ValidateCoherency()
		m.BoundingBox()
		m.Resources.UnusedID()
		for _, o := range m.Resources.Objects {
			m.FindObject("", o.ID)
			m.Resources.FindObject(o.ID + 1)
		}
		return 500 * 200
	case "mesh":
		mb := go3mf.NewMeshBuilder(new(go3mf.Mesh))
		for i := 0; i < 5000; i++ {
			mb.AddVertex(go3mf.Point3D{float32(r.F64()), float32(r.F64()), float32(r.F64())})
		}
		return 5000 * 12
	case "text":
		for i := 0; i < 500; i++ {
			spec.ParseRGBA(fmt.Sprintf("#%08x", r.Intn(1<<32)))
			spec.ParseRGBA(word())
			spec.ParseMatrix(fmt.Sprintf("%g 0 0 0 1 0 %g 0 1 0 0 0", r.F64(), r.F64()))
			_ = spec.FormatRGBA(color.RGBA{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), 255})
			u := uuid.New()
			uuid.Validate(u)
			uuid.Validate(word())
			_ = go3mf.Identity().Translate(float32(r.F64()), 0, 0).String()
		}
		return 500 * 150
	case "errors":
		var err error
		for i := 0; i < 300; i++ {
			e := specerr.WrapIndex(specerr.NewMissingFieldError(word()), word(), i)
			err = specerr.Append(err, specerr.WrapPath(e, word(), "/"+word()))
			errors.Is(err, io.EOF)
		}
		_ = err.Error()
		return 300 * 100
	}
	panic(kind)
}
