package main

import (
	"bytes"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/materials"
)

type attData struct {
	path, ct string
	data     []byte
}

// attachmentData reads the attachments of a model without consuming them.
func attachmentData(m *go3mf.Model) map[string]attData {
	out := map[string]attData{}
	for _, a := range m.Attachments {
		var b []byte
		switch s := a.Stream.(type) {
		case *bytes.Reader:
			b = make([]byte, s.Size())
			s.ReadAt(b, 0)
		case *bytes.Buffer:
			b = append([]byte(nil), s.Bytes()...)
		default:
			b, _ = io.ReadAll(s)
		}
		out[strings.ToLower(a.Path)] = attData{a.Path, a.ContentType, b}
	}
	return out
}

// rewind puts the streams of the attachments back to their start.
func rewind(m *go3mf.Model) {
	for _, a := range m.Attachments {
		if s, ok := a.Stream.(io.Seeker); ok {
			s.Seek(0, io.SeekStart)
		}
	}
}

// expectedRels says which relationships a part must have after a round trip.
func expectedRels(explicit []go3mf.Relationship, implied []go3mf.Relationship, byPathOnly bool, there func(string) bool) []string {
	var out []go3mf.Relationship
	has := func(r go3mf.Relationship) bool {
		for _, o := range out {
			if o.Path == r.Path && (byPathOnly || o.Type == r.Type) {
				return true
			}
		}
		return false
	}
explicit:
	for _, r := range explicit {
		for _, o := range out {
			if o.Path == r.Path && o.Type == r.Type {
				continue explicit // written once
			}
		}
		out = append(out, r)
	}
	for _, r := range implied {
		if !has(r) {
			out = append(out, r)
		}
	}
	var keys []string
	for _, r := range out {
		if r.Type != go3mf.RelType3DModel && there(r.Path) {
			keys = append(keys, fmt.Sprintf("%s %s id=%s", r.Path, r.Type, r.ID))
		}
	}
	sort.Strings(keys)
	return keys
}

func actualRels(rels []go3mf.Relationship, want []string) []string {
	var keys []string
	explicit := map[string]bool{}
	for _, w := range want {
		explicit[w] = true
	}
	for _, r := range rels {
		k := fmt.Sprintf("%s %s id=%s", r.Path, r.Type, r.ID)
		if !explicit[k] { // the identifier was not chosen by the caller
			if r.ID == "" {
				k += "<no id>"
			} else {
				k = fmt.Sprintf("%s %s id=", r.Path, r.Type)
			}
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func impliedRels(rs *go3mf.Resources) []go3mf.Relationship {
	var out []go3mf.Relationship
	for _, a := range rs.Assets {
		if t, ok := a.(*materials.Texture2D); ok {
			out = append(out, go3mf.Relationship{Path: t.Path, Type: materials.RelTypeTexture3D})
		}
	}
	for _, o := range rs.Objects {
		if o.Thumbnail != "" {
			out = append(out, go3mf.Relationship{Path: o.Thumbnail, Type: go3mf.RelTypeThumbnail})
		}
	}
	return out
}

func skipPackage(p string) bool {
	return strings.HasPrefix(p, "Model.Attachments") || strings.HasPrefix(p, "Model.Relationships") ||
		strings.HasPrefix(p, "Model.RootRelationships") || (strings.HasPrefix(p, "Model.Childs[") && strings.Contains(p, "].Relationships"))
}

// expectedDump is what decoding the encoding of m must give.
func expectedDump(m *go3mf.Model, prec int) []string {
	n := normalize(m)
	n.Path = m.PathOrDefault()
	q := quantPrec(prec)
	return dumpModel(n, dumpOpt{quant: q, mat: q, skip: skipPackage})
}

func actualDump(m *go3mf.Model) []string {
	return dumpModel(m, dumpOpt{skip: skipPackage})
}

// encode runs the real encoder on a fresh buffer.
func encode(m *go3mf.Model, prec int) ([]byte, error) {
	var b bytes.Buffer
	e := go3mf.NewEncoder(&b)
	e.FloatPrecision = prec
	rewind(m)
	err := e.Encode(m)
	rewind(m)
	return b.Bytes(), err
}

func decode(b []byte, strict bool) (*go3mf.Model, error) {
	d := go3mf.NewDecoder(bytes.NewReader(b), int64(len(b)))
	d.Strict = strict
	m := new(go3mf.Model)
	err := d.Decode(m)
	return m, err
}

// comparePackage compares relationships and attachments. It returns "" or a
// signature and a message.
func comparePackage(orig *go3mf.Model, atts map[string]attData, got *go3mf.Model) (string, string) {
	rootImplied := []go3mf.Relationship{}
	if orig.Thumbnail != "" {
		rootImplied = append(rootImplied, go3mf.Relationship{Path: orig.Thumbnail, Type: go3mf.RelTypeThumbnail})
	}
	models := map[string]bool{strings.ToLower(orig.PathOrDefault()): true}
	toChilds := []go3mf.Relationship{}
	for p := range orig.Childs {
		models[strings.ToLower(p)] = true
		toChilds = append(toChilds, go3mf.Relationship{Path: p, Type: go3mf.RelType3DModel})
	}
	resolve := func(from, to string) string {
		if !strings.HasPrefix(to, "/") {
			to = path.Dir(from) + "/" + to
		}
		return strings.ToLower(path.Clean(to))
	}
	there := func(from string) func(string) bool {
		return func(p string) bool {
			p = resolve(from, p)
			_, ok := atts[p]
			return ok || models[p]
		}
	}
	want := expectedRels(orig.RootRelationships, rootImplied, false, there("/"))
	if d := diffLines(want, actualRels(got.RootRelationships, want)); d != "" {
		return "rootrels", "root relationships differ\n" + d
	}
	reach := map[string]bool{}
	add := func(from string, ks []string) {
		for _, k := range ks {
			reach[resolve(from, k[:strings.IndexByte(k, ' ')])] = true
		}
	}
	add("/", want)
	want = expectedRels(orig.Relationships, append(toChilds, impliedRels(&orig.Resources)...), true, there(orig.PathOrDefault()))
	if d := diffLines(want, actualRels(got.Relationships, want)); d != "" {
		return "modelrels", "model relationships differ\n" + d
	}
	add(orig.PathOrDefault(), want)
	for p, c := range orig.Childs {
		want = expectedRels(c.Relationships, impliedRels(&c.Resources), true, there(p))
		gc := got.Childs[p]
		if gc == nil {
			return "childs", "child " + p + " lost"
		}
		if d := diffLines(want, actualRels(gc.Relationships, want)); d != "" {
			return "childrels", "relationships of " + p + " differ\n" + d
		}
		add(p, want)
	}
	gatts := attachmentData(got)
	if len(gatts) != len(got.Attachments) {
		return "attachment-dup", fmt.Sprintf("%d attachments decoded, %d distinct", len(got.Attachments), len(gatts))
	}
	for k, a := range atts {
		g, ok := gatts[k]
		if !reach[k] {
			continue
		}
		if !ok {
			return "attachment-lost", "attachment " + a.path + " lost"
		}
		if g.path != a.path || g.ct != a.ct {
			return "attachment-meta", fmt.Sprintf("attachment %s (%s) came back as %s (%s)", a.path, a.ct, g.path, g.ct)
		}
		if !bytes.Equal(g.data, a.data) {
			return "attachment-data", fmt.Sprintf("attachment %s: %d bytes written, %d different bytes read", a.path, len(a.data), len(g.data))
		}
	}
	for k := range gatts {
		if !reach[k] || models[k] {
			return "attachment-extra", "attachment " + k + " appeared from nowhere"
		}
	}
	return "", ""
}

// roundTrip encodes m, decodes the bytes in strict mode and compares.
func roundTrip(t *T, m *go3mf.Model, prec int) (*go3mf.Model, []byte) {
	want := expectedDump(m, prec)
	atts := attachmentData(m)
	before := dumpModel(m, dumpOpt{})
	b, err := encode(m, prec)
	if err != nil {
		t.Fatal("encode-error", "encoding a valid model failed: %v\n%s", err, strings.Join(want, "\n"))
	}
	t.Artifact("package.3mf", b)
	if x := rootXML(b, m.PathOrDefault()); x != nil {
		t.Artifact("root.xml", x)
	}
	if d := diffLines(before, dumpModel(m, dumpOpt{})); d != "" {
		t.Fatal("encode-mutates:"+diffSig(before, dumpModel(m, dumpOpt{})), "encoding changed the model\n%s", d)
	}
	got, err := decode(b, true)
	if err != nil {
		t.Fatal("redecode-error", "the encoded package does not decode: %v", err)
	}
	gd := actualDump(got)
	if d := diffLines(want, gd); d != "" {
		t.Fatal("roundtrip:"+diffSig(want, gd), "decode(encode(m)) differs from m (precision %d)\n%s", prec, d)
	}
	if sig, msg := comparePackage(m, atts, got); sig != "" {
		t.Fatal("roundtrip:"+sig, "%s", msg)
	}
	t.Count("model_facts_compared", len(want))
	t.Max("model_facts_in_one_model", len(want))
	t.Count("packages_round_tripped", 1)
	if len(want) > 25 {
		t.Distinct(strings.Join(want, "\n"))
	}
	return got, b
}

// marshalTrip does the same for the in-memory root part entry points.
func marshalTrip(t *T, m *go3mf.Model) {
	n := *m
	n.Childs, n.Path = nil, ""
	want := expectedDump(&n, 4)
	b, err := go3mf.MarshalModel(&n)
	if err != nil {
		t.Fatal("marshal-error", "MarshalModel: %v", err)
	}
	t.Artifact("model.xml", b)
	got := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(b, got); err != nil {
		t.Fatal("unmarshal-error", "UnmarshalModel: %v", err)
	}
	got.Path = got.PathOrDefault()
	gd := actualDump(got)
	if d := diffLines(want, gd); d != "" {
		t.Fatal("marshal:"+diffSig(want, gd), "UnmarshalModel(MarshalModel(m)) differs from m\n%s", d)
	}
	t.Count("parts_marshal_tripped", 1)
}
