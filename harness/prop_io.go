package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"image/color"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
	"github.com/hpinc/go3mf/spec"
)

func init() {
	register(&Prop{ID: "C24", Level: "fault_enumeration",
		Rule: "one evaluation is one encode or decode during which one fault was injected (a failing or short write, a failing, short or corrupted read, a failing attachment) and the error returned was judged; distinct_nontrivial counts the distinct (input, kind of fault, position) for which the library really ran into the fault",
		Assumptions: []string{
			"single faults; a fault counts only when the call that fails was really made",
			"the parts of the container that the OPC package of the dependencies reads (content types and relationships) may hide a fault behind the data they need, when the result is complete",
			"errors that an implementation of Marshaler returns about its own content are no I/O",
			"a text STL has no length: cuts between two facets cannot be told from its end",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(60, 600); i++ {
				i := i
				c.Case("write", func(t *T) { ioWrite(t, c.N(30, 80), false) })
				if i%60 == 0 {
					c.Case("write-every", func(t *T) { ioWrite(t, 0, true) })
				}
			}
			for i := 0; i < c.N(150, 2000); i++ {
				c.Case("attachment", ioAttachment)
			}
			for i := 0; i < c.N(100, 1500); i++ {
				c.Case("asset", ioAsset)
			}
			for i := 0; i < c.N(100, 1500); i++ {
				i := i
				c.Case("read", func(t *T) { ioRead(t, i%10 == 0) })
			}
			for i := 0; i < c.N(16, 300); i++ {
				c.Case("truncated", ioTruncated)
			}
			for i := 0; i < c.N(100, 1500); i++ {
				c.Case("corrupted", ioCorrupted)
			}
			for i := 0; i < c.N(200, 4000); i++ {
				i := i
				c.Case("part", func(t *T) { ioPart(t, i%10 == 0) })
			}
			for i := 0; i < c.N(100, 2500); i++ {
				i := i
				c.Case("stl", func(t *T) { ioSTL(t, i) })
			}
			for i := 0; i < c.N(20, 100); i++ {
				c.Case("files", ioFiles)
			}
		}})
}

// ioError is a fault of ours.
type ioError struct{ n int }

func (e *ioError) Error() string { return fmt.Sprintf("injected fault %d", e.n) }

// injected makes the error of a fault, sometimes a misleading one.
func injected(r *Rand) error {
	base := &ioError{r.Intn(1000)}
	switch r.Intn(6) {
	case 0:
		return fmt.Errorf("%w: %v", base, io.EOF)
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return &os.PathError{Op: "read", Path: "x", Err: base}
	case 3:
		return io.ErrClosedPipe
	case 4: // matches io.EOF, but it is not io.EOF
		return fmt.Errorf("connection lost: %w", io.EOF)
	}
	return base
}

// blames tells whether an error reports the fault.
func blames(err, fault error) bool {
	return errors.Is(err, fault) || (err != nil && strings.Contains(err.Error(), fault.Error()))
}

func bigModel(r *Rand, size int) *go3mf.Model {
	o := anyGen(r)
	o.Package, o.Childs = true, r.P(2, 3)
	o.Size = []int{1, 3, 6}[r.Intn(3)]
	m := genModel(r, o)
	if size > 0 { // data that does not compress
		for i := r.Range(1, 3); i > 0; i-- {
			b := make([]byte, r.Intn(size))
			for j := range b {
				b[j] = byte(r.Intn(256))
			}
			p := fmt.Sprintf("/Metadata/big%d.bin", i)
			m.Attachments = append(m.Attachments, go3mf.Attachment{Path: p, ContentType: "application/octet-stream", Stream: bytes.NewReader(b)})
			m.Relationships = append(m.Relationships, go3mf.Relationship{Path: p, Type: go3mf.RelTypeMustPreserve})
		}
	}
	return m
}

// bigMeshes gives the model and its children objects and materials of many bytes, so that the faults
// happen within the model parts.
func bigMeshes(r *Rand, m *go3mf.Model) {
	res := []*go3mf.Resources{&m.Resources}
	for _, p := range sortedKeys(m.Childs) {
		res = append(res, &m.Childs[p].Resources)
	}
	for _, rs := range res {
		for i := r.Intn(4); i > 0; i-- {
			if r.P(1, 3) {
				b := &go3mf.BaseMaterials{ID: 90000 + uint32(i)}
				for j := r.Range(1000, 5000); j > 0; j-- {
					b.Materials = append(b.Materials, go3mf.Base{Name: fmt.Sprintf("%x", r.U64()), Color: color.RGBA{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), 255}})
				}
				rs.Assets = append(rs.Assets, b)
				continue
			}
			o := &go3mf.Object{ID: 90000 + uint32(i), Mesh: new(go3mf.Mesh)}
			for j := r.Range(2000, 12000); j > 0; j-- {
				o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(r.F64()), float32(r.F64()) * 1e4, float32(r.F64()) * 50})
			}
			rs.Objects = append(rs.Objects, o)
		}
	}
}

// faultyWriter fails when the byte at is to be written.
type faultyWriter struct {
	buf   bytes.Buffer
	at    int
	mode  string
	err   error
	fired bool
	calls int
	after int // calls after the fault
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.fired {
		w.after++
	}
	if w.mode == "permanent" && w.fired {
		return 0, w.err
	}
	if w.at >= 0 && !w.fired && w.at < w.buf.Len()+len(p) {
		w.fired = true
		n := w.at - w.buf.Len()
		if n < 0 {
			n = 0
		}
		w.buf.Write(p[:n])
		if w.mode == "short" {
			return n, nil
		}
		if w.mode == "all-or-nothing" { // the data is gone, nothing is known of it
			return 0, w.err
		}
		return n, w.err
	}
	return w.buf.Write(p)
}

func ioEncode(m *go3mf.Model, w io.Writer) error {
	rewind(m)
	defer rewind(m)
	return go3mf.NewEncoder(w).Encode(m)
}

func ioWrite(t *T, n int, every bool) {
	size := 40000
	if every {
		size = 600
	}
	m := bigModel(t.R, size)
	if !every && t.R.P(1, 6) {
		bigMeshes(t.R, m)
		n /= 3
		t.Count("models_with_big_parts", 1)
	}
	if every {
		m.Resources.Assets, m.Childs = nil, nil
		if len(m.Resources.Objects) > 1 {
			m.Resources.Objects = m.Resources.Objects[:1]
		}
	}
	plain := &faultyWriter{at: -1}
	if err := ioEncode(m, plain); err != nil {
		t.Fatal("encode-error", "a valid model is not encoded: %v", err)
	}
	total := plain.buf.Len()
	t.Max("write_calls", plain.calls)
	var at []int
	if every {
		for k := 0; k < total; k += 1 + total/1500 {
			at = append(at, k)
		}
	} else {
		at = append(at, 0, total-1, total-22)
		for k := 4096; k < total; k += 4096 * (1 + total/200000) {
			at = append(at, k-1, k, k+1)
		}
		for i := 0; i < n; i++ {
			at = append(at, t.R.Intn(total))
		}
	}
	for _, k := range at {
		w := &faultyWriter{at: k, mode: t.R.Pick("permanent", "transient", "short", "all-or-nothing"), err: injected(t.R)}
		err := ioEncode(m, w)
		t.Eval(1)
		if !w.fired { // the order of the parts changes the size
			if err != nil {
				t.Fatal("spurious", "the writer never failed, but the encode did: %v", err)
			}
			t.Count("faults_not_reached", 1)
			continue
		}
		t.Count("writes_failed_"+w.mode, 1)
		if err == nil && w.mode == "short" {
			// a caller can go on with the rest
			got, err := decode(w.buf.Bytes(), true)
			if err != nil {
				t.Fatal("write-short", "only a part of a write was accepted at byte %d of about %d and the package is damaged: %v", k, total, err)
			}
			if d := complete(got, expectedDump(m, 4), attachmentData(got)); d != "" {
				t.Fatal("write-short", "only a part of a write was accepted at byte %d of about %d and the package is not complete\n%s", k, total, d)
			}
			t.Count("short_writes_continued", 1)
			continue
		}
		if err == nil {
			t.Fatal("write-ignored", "the write of byte %d of about %d failed (%s: %v) and the encode succeeded", k, total, w.mode, w.err)
		}
		t.Max("write_calls_after_fault", w.after)
		if w.mode == "short" {
			w.err = io.ErrShortWrite
		}
		if !blames(err, w.err) {
			t.Fatal("write-error", "the write of byte %d of about %d failed (%s: %v) and the error is %v", k, total, w.mode, w.err, err)
		}
		t.Distinct("write", total, w.mode, k)
		t.Sample("encode of %d bytes, write of byte %d fails (%s: %v): error %v", total, k, w.mode, w.err, err)
	}
}

// faultyReader fails after k bytes.
type faultyReader struct {
	data  []byte
	pos   int
	at    int
	mode  string
	err   error
	fired bool
}

func (f *faultyReader) Read(p []byte) (int, error) {
	if f.fired && f.mode == "stuck" {
		return 0, nil
	}
	if f.fired && f.mode != "transient" {
		return 0, f.err
	}
	if f.at >= 0 && !f.fired && f.pos+len(p) >= f.at {
		n := copy(p, f.data[f.pos:f.at])
		f.pos += n
		if f.mode == "separate" && n > 0 {
			return n, nil // the error comes with the next call
		}
		f.fired = true
		if f.mode == "stuck" {
			return n, nil
		}
		return n, f.err
	}
	if f.pos == len(f.data) {
		return 0, io.EOF
	}
	n := copy(p, f.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *faultyReader) Close() error { return nil }

func ioAttachment(t *T) {
	m := bigModel(t.R, []int{1, 3000, 60000}[t.R.Intn(3)])
	if len(m.Attachments) == 0 {
		return
	}
	a := &m.Attachments[t.R.Intn(len(m.Attachments))]
	data := attachmentData(m)[strings.ToLower(a.Path)].data
	at := []int{0, len(data)}
	for i := 0; i < 6; i++ {
		at = append(at, t.R.Intn(len(data)+1))
	}
	good := a.Stream
	for _, k := range at {
		f := &faultyReader{data: data, at: k, mode: t.R.Pick("with-data", "separate", "transient"), err: injected(t.R)}
		a.Stream = io.Reader(f)
		if t.R.P(1, 4) {
			a.Stream = iotest.OneByteReader(f)
		}
		w := &faultyWriter{at: -1}
		err := ioEncode(m, w)
		a.Stream = good
		t.Eval(1)
		if !f.fired {
			t.Fatal("unread", "attachment %s was not read to the end, and the encode gave %v", a.Path, err)
		}
		if err == nil {
			t.Fatal("attachment-ignored", "reading attachment %s failed at byte %d of %d (%s: %v) and the encode succeeded", a.Path, k, len(data), f.mode, f.err)
		}
		if !blames(err, f.err) {
			t.Fatal("attachment-error", "reading attachment %s failed at byte %d of %d (%s: %v) and the error is %v", a.Path, k, len(data), f.mode, f.err, err)
		}
		t.Count("attachments_failed", 1)
		t.Distinct("attachment", len(data), f.mode, k)
	}
}

// failingAsset is a resource that cannot be written.
type failingAsset struct {
	err   error
	parts int
}

func (f *failingAsset) XMLName() xml.Name {
	return xml.Name{Space: "http://example.com/v", Local: "thing"}
}
func (f *failingAsset) Identify() uint32 { return 77777 }
func (f *failingAsset) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
	st := xml.StartElement{Name: f.XMLName()}
	for i := 0; i < f.parts; i++ {
		x.EncodeToken(st)
		x.EncodeToken(st.End())
	}
	return f.err
}

// ioAsset encodes models with a resource that fails.
func ioAsset(t *T) {
	m := bigModel(t.R, []int{1, 3000}[t.R.Intn(2)])
	f := &failingAsset{injected(t.R), []int{0, 1, 500}[t.R.Intn(3)]}
	rs := []*go3mf.Resources{&m.Resources}
	for _, p := range sortedKeys(m.Childs) {
		rs = append(rs, &m.Childs[p].Resources)
	}
	for i, r := range rs {
		good := r.Assets
		at := t.R.Intn(len(good) + 1)
		r.Assets = append(append(append([]go3mf.Asset(nil), good[:at]...), f), good[at:]...)
		err := ioEncode(m, &faultyWriter{at: -1})
		r.Assets = good
		t.Eval(1)
		if err == nil {
			t.Fatal("asset-ignored", "a resource of the part %d of %d failed (%v) and the encode succeeded", i, len(rs), f.err)
		}
		if !blames(err, f.err) {
			t.Fatal("asset-error", "a resource failed with %v and the error is %v", f.err, err)
		}
		if i == 0 { // and without package
			if i := t.R.Intn(2); i == 0 {
				r.Assets = append(append([]go3mf.Asset(nil), good...), f)
			} else {
				r.Assets = append([]go3mf.Asset{f}, good...)
			}
			_, err := go3mf.MarshalModel(m)
			r.Assets = good
			if err == nil || !blames(err, f.err) {
				t.Fatal("asset-marshal", "a resource failed with %v and the error of MarshalModel is %v", f.err, err)
			}
		}
		t.Count("assets_failed", 1)
		t.Distinct("asset", i, at, f.parts, len(good))
	}
}

// span is where the data of an entry of a package lies.
type span struct {
	name     string
	from, to int
}

func spans(pkg []byte) (out []span) {
	z, err := zip.NewReader(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		panic(err)
	}
	for _, f := range z.File {
		o, err := f.DataOffset()
		if err != nil {
			panic(err)
		}
		out = append(out, span{"/" + f.Name, int(o), int(o) + int(f.CompressedSize64)})
	}
	return out
}

// faultyAt is a file with a defect.
type faultyAt struct {
	data  []byte
	mode  string
	at    int // a byte that cannot be read
	call  int // or a call that fails
	err   error
	mu    sync.Mutex
	calls int
	fired bool
	where int // offset of the first call that failed
	off   bool
}

func (f *faultyAt) ReadAt(p []byte, off int64) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls++
	n := 0
	if int(off) < len(f.data) {
		n = copy(p, f.data[off:])
	}
	fail := func(k int) (int, error) {
		if !f.fired {
			f.fired, f.where = true, int(off)
		}
		if k < 0 {
			k = 0
		}
		for i := k; i < len(p); i++ {
			p[i] = 0xa5
		}
		return k, f.err
	}
	if !f.off {
		switch f.mode {
		case "sector": // one byte cannot be read, ever
			if int(off) <= f.at && f.at < int(off)+len(p) {
				return fail(f.at - int(off))
			}
		case "sector-nothing":
			if int(off) <= f.at && f.at < int(off)+len(p) {
				return fail(0)
			}
		case "call": // one call fails
			if f.calls == f.call {
				return fail(0)
			}
		case "call-partial":
			if f.calls == f.call {
				return fail(n / 2)
			}
		case "gone": // everything fails from a call on
			if f.calls >= f.call {
				return fail(0)
			}
		case "shrunk": // the file was truncated meanwhile
			if f.calls > f.call && int(off)+len(p) > f.at {
				if k := f.at - int(off); k < len(p) {
					e := f.err
					f.err = io.EOF
					defer func() { f.err = e }()
					return fail(k)
				}
			}
		}
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// ioPackage is a package with all that is reachable in it, and how it decodes.
func ioPackage(t *T, store bool) (pkg []byte, want []string, atts map[string]attData) {
	m := bigModel(t.R, []int{0, 2000, 20000}[t.R.Intn(3)])
	pkg, err := encode(m, 4)
	if err != nil {
		t.Fatal("encode-error", "a valid model is not encoded: %v", err)
	}
	if store { // the same, not compressed
		pkg = recompress(pkg, zip.Store)
	}
	got, err := decode(pkg, true)
	if err != nil {
		t.Fatal("decode-error", "a valid package does not decode: %v", err)
	}
	return pkg, actualDump(got), attachmentData(got)
}

func recompress(pkg []byte, method uint16) []byte {
	z, err := zip.NewReader(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		panic(err)
	}
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			panic(err)
		}
		h := &zip.FileHeader{Name: f.Name, Method: method}
		if method == hookedMethod && !strings.HasSuffix(f.Name, ".model") {
			h.Method = zip.Deflate
		}
		x, _ := w.CreateHeader(h)
		io.Copy(x, r)
		r.Close()
	}
	w.Close()
	return b.Bytes()
}

// complete tells whether a model is the whole content of the package.
func complete(m *go3mf.Model, want []string, atts map[string]attData) string {
	if d := diffLines(want, actualDump(m)); d != "" {
		return d
	}
	got := attachmentData(m)
	for k, a := range atts {
		if g, ok := got[k]; !ok || !bytes.Equal(g.data, a.data) {
			return fmt.Sprintf("attachment %s: %d of %d bytes", a.path, len(g.data), len(a.data))
		}
	}
	return ""
}

// container tells whether an offset is one of those only the OPC package reads.
func container(ss []span, at int) bool {
	for _, s := range ss {
		if s.from <= at && at < s.to {
			return strings.HasSuffix(s.name, ".rels") || strings.HasSuffix(s.name, "[Content_Types].xml")
		}
	}
	return true // headers and directory
}

func ioRead(t *T, every bool) {
	pkg, want, atts := ioPackage(t, t.R.Bool())
	ss := spans(pkg)
	run := func(f *faultyAt) {
		d := go3mf.NewDecoder(f, int64(len(pkg)))
		d.Strict = t.R.Bool()
		m := new(go3mf.Model)
		var err error
		t.within(30*time.Second, "decode", func() { err = d.Decode(m) })
		t.Eval(1)
		where := fmt.Sprintf("%s fault at byte %d or call %d of a package of %d bytes, fault %v, strict %v", f.mode, f.at, f.call, len(pkg), f.err, d.Strict)
		if !f.fired {
			if err != nil {
				t.Fatal("spurious", "%s: nothing failed, but the decode did: %v", where, err)
			}
			if d := complete(m, want, atts); d != "" {
				t.Fatal("incomplete", "%s: nothing failed, but the model is not complete\n%s", where, d)
			}
			t.Count("faults_not_reached", 1)
			return
		}
		at := f.where
		if strings.HasPrefix(f.mode, "sector") {
			at = f.at
		}
		if err == nil {
			t.Artifact("package.3mf", pkg)
			if !container(ss, at) && f.mode != "shrunk" {
				t.Fatal("read-ignored", "%s: a read failed and the decode succeeded", where)
			}
			if d := complete(m, want, atts); d != "" {
				t.Fatal("read-incomplete", "%s: a read failed and the decode returned an incomplete model without an error\n%s", where, d)
			}
			t.Count("hidden_by_the_container", 1)
			return
		}
		if f.mode != "shrunk" && !blames(err, f.err) {
			t.Fatal("read-error", "%s: the error is %v", where, err)
		}
		t.Count("reads_failed_"+f.mode, 1)
		t.Distinct("read", len(pkg), f.mode, f.at, f.call)
		t.Sample("%s: error %v", where, err)
		// the same decoder works once the file does
		if t.R.P(1, 3) {
			f.off = true
			m = new(go3mf.Model)
			if err := d.Decode(m); err != nil {
				t.Fatal("not-recovered", "%s: the file is fine again, but not the decoder: %v", where, err)
			}
			if d := complete(m, want, atts); d != "" {
				t.Fatal("recovered-incomplete", "%s: the file is fine again, but the model is not complete\n%s", where, d)
			}
			t.Count("recovered", 1)
		}
	}
	plain := &faultyAt{data: pkg}
	run(plain)
	t.Max("read_calls", plain.calls)
	for k := 1; k <= plain.calls; k++ {
		run(&faultyAt{data: pkg, mode: t.R.Pick("call", "call-partial", "gone"), call: k, at: -1, err: injected(t.R)})
	}
	var at []int
	if every {
		for k := 0; k < len(pkg); k += 1 + len(pkg)/3000 {
			at = append(at, k)
		}
	}
	for _, s := range ss { // the ends of the parts
		if s.from < s.to {
			at = append(at, s.from, s.to-1, t.R.Range(s.from, s.to-1))
		}
	}
	for i := 0; i < 20; i++ {
		at = append(at, t.R.Intn(len(pkg)))
	}
	for _, k := range at {
		f := &faultyAt{data: pkg, mode: t.R.Pick("sector", "sector-nothing", "shrunk"), at: k, err: injected(t.R)}
		if f.mode == "shrunk" {
			f.call = t.R.Range(3, plain.calls)
		}
		run(f)
	}
}

// ioTruncated cuts packages after every byte.
func ioTruncated(t *T) {
	pkg, want, atts := ioPackage(t, t.R.Bool())
	step := 1 + len(pkg)/1500
	for n := 0; n < len(pkg); n += step {
		if n > len(pkg)-64 {
			step = 1
		}
		for _, size := range []int{n, len(pkg)} { // known and unknown to the caller
			d := go3mf.NewDecoder(bytes.NewReader(pkg[:n]), int64(size))
			d.Strict = t.R.Bool()
			m := new(go3mf.Model)
			if err := d.Decode(m); err == nil {
				if size != n && n > len(pkg)-6 && complete(m, want, atts) == "" {
					continue // the last bytes are zeroes
				}
				t.Artifact("package.3mf", pkg[:n])
				t.Fatal("truncated", "the first %d bytes of a package of %d are accepted", n, len(pkg))
			}
			t.Eval(1)
		}
		t.Distinct("truncated", len(pkg), n)
	}
	t.Count("packages_truncated", 1)
}

// ioCorrupted changes bits of the data of the parts.
func ioCorrupted(t *T) {
	pkg, want, atts := ioPackage(t, t.R.Bool())
	for _, s := range spans(pkg) {
		if s.from == s.to || container([]span{s}, s.from) {
			continue
		}
		at := []int{s.from, s.to - 1}
		for i := 0; i < 12; i++ {
			at = append(at, t.R.Range(s.from, s.to-1))
		}
		for _, k := range at {
			b := append([]byte(nil), pkg...)
			b[k] ^= 1 << uint(t.R.Intn(8))
			what := "bit"
			if t.R.P(1, 3) {
				what = "zeroes"
				for i := k; i < s.to && i < k+t.R.Range(1, 64); i++ {
					b[i] = 0
				}
			}
			if bytes.Equal(b, pkg) {
				continue
			}
			m, err := decode(b, t.R.Bool())
			t.Eval(1)
			if err == nil {
				if d := complete(m, want, atts); d != "" {
					t.Artifact("package.3mf", b)
					t.Fatal("corrupted", "%s changed at byte %d of the data of %s (%d to %d) were not noticed\n%s", what, k, s.name, s.from, s.to, d)
				}
				t.Count("without_effect", 1) // padding bits
				continue
			}
			t.Count("corruptions_"+what, 1)
			t.Distinct("corrupted", len(pkg), k, b[k])
		}
	}
}

// ioPart makes the decompressor of one model part fail.
func ioPart(t *T, every bool) {
	o := anyGen(t.R)
	o.Childs = t.R.P(2, 3)
	o.Size = t.R.Range(1, 5)
	m := genModel(t.R, o)
	root, childs, _, _ := serialize(t.R, m, randStyle(t.R), 0)
	lenient := t.R.Bool()
	if lenient && t.R.Bool() { // with a fault of another kind before
		root = bytes.Replace(root, []byte("<resources>"), []byte(`<resources><object id="bad"/>`), 1)
	}
	if t.R.Bool() { // the end of the part is not content
		root = append(root, []byte("\n<!-- the end "+strings.Repeat("x", t.R.Intn(9000))+" -->\n")...)
	}
	in := cancelPackage(root, childs)
	names := []string{"/3D/3dmodel.model"}
	names = append(names, sortedStr(childs)...)
	for _, name := range names {
		size := in.size[name]
		at := []int{0, 1, size - 1, size}
		for i := 0; i < 8; i++ {
			at = append(at, t.R.Intn(size))
		}
		if every && name == names[0] {
			at = nil
			for k := 0; k <= size; k += 1 + size/2000 {
				at = append(at, k)
			}
		}
		for _, k := range at {
			fault := injected(t.R)
			mode := t.R.Pick("with-data", "separate", "transient", "eof", "stuck")
			if mode == "stuck" {
				fault = io.ErrNoProgress
			}
			if mode == "eof" {
				fault = io.EOF
			}
			fired := false
			func() {
				defer func(h func(io.Reader) io.ReadCloser) { readHook = h }(readHook)
				var mu sync.Mutex
				readHook = func(r io.Reader) io.ReadCloser {
					mu.Lock()
					defer mu.Unlock()
					data, _ := io.ReadAll(r)
					f := &faultyReader{data: data, at: -1, mode: mode, err: fault}
					if bytes.Contains(data, []byte("<!--part "+name+"-->")) {
						f.at = k
						return &notify{f, &fired}
					}
					return f
				}
				d := go3mf.NewDecoder(bytes.NewReader(in.pkg), int64(len(in.pkg)))
				d.Strict = !lenient
				var err error
				t.within(30*time.Second, "decode", func() { err = d.Decode(new(go3mf.Model)) })
				t.Eval(1)
				where := fmt.Sprintf("part %s of %d bytes failed at byte %d (%s: %v), lenient %v", name, size, k, mode, fault, lenient)
				if mode == "eof" && k == size {
					return
				}
				if err == nil {
					t.Artifact("package.3mf", in.pkg)
					t.Fatal("part-ignored", "%s and the decode succeeded (read so far: %v)", where, fired)
				}
				if !fired {
					t.Count("other_error_first", 1) // the decode stopped at an error of the children
					return
				}
				if mode == "eof" {
					fault = io.ErrUnexpectedEOF
					// cut inside of a token the syntax is wrong as well
					if !errors.Is(err, fault) && errClass(err) != "syntax" {
						t.Fatal("part-error", "%s and the error is %v", where, err)
					}
				} else if !errors.Is(err, fault) {
					t.Artifact("package.3mf", in.pkg)
					t.Fatal("part-error", "%s and the error is %v", where, err)
				}
				t.Count("parts_failed_"+mode, 1)
				t.Distinct("part", name, size, mode, k)
			}()
		}
	}
}

type notify struct {
	*faultyReader
	flag *bool
}

func (n *notify) Read(p []byte) (int, error) {
	k, err := n.faultyReader.Read(p)
	if n.fired {
		*n.flag = true
	}
	return k, err
}

// ioSTL makes the reader of an STL file fail at every byte.
func ioSTL(t *T, i int) {
	kind := []string{"binary", "ascii", "ascii-crlf", "ascii-noise"}[i%4]
	data := stlInput(t.R, kind, []int{1, 400, 2000, 30000}[t.R.Intn(4)])
	step := 1 + len(data)/300
	for k := 0; k <= len(data); k += step {
		for _, mode := range []string{"with-data", "separate", "transient", "stuck"} {
			f := &faultyReader{data: data, at: k, mode: mode, err: injected(t.R)}
			if mode == "stuck" {
				if kind == "binary" {
					continue // waits for ever, as io.ReadFull does
				}
				f.err = io.ErrNoProgress
			}
			if kind == "binary" && k == len(data) {
				continue // all that was announced is there
			}
			m := new(go3mf.Model)
			var r io.Reader = f
			if t.R.P(1, 4) {
				r = iotest.HalfReader(f)
			}
			err := stl.NewDecoder(r).Decode(m)
			t.Eval(1)
			if !f.fired {
				t.Fatal("stl-unread", "%s file of %d bytes: the reader fails at byte %d, which was never read; error %v", kind, len(data), k, err)
			}
			if err == nil {
				t.Artifact("file.stl", data)
				t.Fatal("stl-ignored", "%s file of %d bytes: the read of byte %d failed (%s: %v) and the import succeeded", kind, len(data), k, mode, f.err)
			}
			if mode == "transient" && kind != "binary" && !blames(err, f.err) {
				t.Fatal("stl-error", "%s file of %d bytes: the read of byte %d failed (%s: %v) and the error is %v", kind, len(data), k, mode, f.err, err)
			}
			if mode != "transient" && !blames(err, f.err) {
				t.Fatal("stl-error", "%s file of %d bytes: the read of byte %d failed (%s: %v) and the error is %v", kind, len(data), k, mode, f.err, err)
			}
			if len(m.Resources.Objects) != 0 || len(m.Build.Items) != 0 {
				t.Fatal("stl-partial", "%s file of %d bytes: the read of byte %d failed and the model has %d objects", kind, len(data), k, len(m.Resources.Objects))
			}
			t.Count("stl_reads_failed", 1)
			t.Distinct("stl", kind, len(data), mode, k)
		}
	}
}

// ioFiles uses real files, inside of a directory of its own.
func ioFiles(t *T) {
	dir, err := os.MkdirTemp("", "verif-io")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	expect := func(what string, err error) {
		t.Eval(1)
		if err == nil {
			t.Fatal("file-ignored", "%s: no error", what)
		}
		t.Count("file_faults", 1)
	}
	m := bigModel(t.R, 30000)
	name := filepath.Join(dir, "model.3mf")
	if t.R.P(3, 4) {
		// The file exists, and what it had must not show through.
		old := bytes.Repeat([]byte("old "), t.R.Intn(1<<20))
		if t.R.Bool() {
			var b bytes.Buffer
			if err := go3mf.NewEncoder(&b).Encode(bigModel(t.R, 60000+t.R.Intn(100000))); err != nil {
				t.Fatal("create", "%v", err)
			}
			old = b.Bytes()
		}
		if err := os.WriteFile(name, old, 0600); err != nil {
			panic(err)
		}
		t.Count("overwritten_files", 1)
	}
	w, err := go3mf.CreateWriter(name)
	if err != nil {
		t.Fatal("create", "%v", err)
	}
	rewind(m)
	if err = w.Encode(m); err == nil {
		err = w.Close()
	}
	rewind(m)
	if err != nil {
		t.Fatal("create", "%v", err)
	}
	expect("closing twice", w.Close())
	r, err := go3mf.OpenReader(name)
	if err != nil {
		t.Fatal("open", "%v", err)
	}
	got := new(go3mf.Model)
	if err := r.Decode(got); err != nil {
		t.Fatal("open", "%v", err)
	}
	want, atts := actualDump(got), attachmentData(got)
	if d := diffLines(expectedDump(m, 4), want); d != "" {
		t.Fatal("open", "the file does not have the model\n%s", d)
	}
	if err := r.Close(); err != nil {
		t.Fatal("open", "%v", err)
	}
	expect("decoding a closed file", r.Decode(new(go3mf.Model)))
	expect("closing twice", r.Close())

	_, err = go3mf.OpenReader(filepath.Join(dir, "missing.3mf"))
	expect("opening a missing file", err)
	_, err = go3mf.CreateWriter(filepath.Join(dir, "missing", "model.3mf"))
	expect("creating a file in a missing directory", err)
	_, err = go3mf.CreateWriter(dir)
	expect("creating over a directory", err)
	if r, err := go3mf.OpenReader(dir); err == nil {
		err = r.Decode(new(go3mf.Model))
		r.Close()
		expect("decoding a directory", err)
	}
	if w, err := go3mf.CreateWriter("/dev/full"); err == nil { // no space left
		rewind(m)
		err = w.Encode(m)
		w.Close()
		rewind(m)
		expect("encoding to a full device", err)
		t.Count("full_device", 1)
	}
	w, err = go3mf.CreateWriter(filepath.Join(dir, "closed.3mf"))
	if err != nil {
		t.Fatal("create", "%v", err)
	}
	w.Close()
	expect("encoding to a closed file", w.Encode(m))
	rewind(m)
	// a file cut while it is open
	data, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	for i := 0; i < 8; i++ {
		cut := filepath.Join(dir, "cut.3mf")
		n := t.R.Intn(len(data))
		os.WriteFile(cut, data, 0o600)
		if t.R.Bool() {
			os.Truncate(cut, int64(n))
		}
		r, err := go3mf.OpenReader(cut)
		if err != nil {
			continue
		}
		os.Truncate(cut, int64(n))
		m := new(go3mf.Model)
		err = r.Decode(m)
		r.Close()
		expect(fmt.Sprintf("decoding a file cut after %d of %d bytes", n, len(data)), err)
		t.Distinct("file", len(data), n)
	}
	// a file that is replaced by a longer one does not mix both
	if r, err = go3mf.OpenReader(name); err == nil {
		m := new(go3mf.Model)
		err := r.Decode(m)
		r.Close()
		if err != nil {
			t.Fatal("open", "%v", err)
		}
		if d := complete(m, want, atts); d != "" {
			t.Fatal("open", "%s", d)
		}
	}
	t.Distinct("files", len(data))
}
