package main

import (
	"bytes"
	"encoding/xml"
	"io"
	"os"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/hpinc/go3mf"
)

func init() {
	register(&Prop{ID: "C27", Level: "exploration",
		Rule: "one evaluation is one document that was decoded, encoded, decoded, encoded and decoded again, with the models and the bytes of the model parts compared; distinct_nontrivial counts distinct accepted documents with more than 12 facts",
		Assumptions: []string{
			"documents are well formed, every prefix is declared and no name has two colons; characters are the ones XML allows and numbers are finite",
			"documents that state what the format cannot store are skipped and counted: an object with mesh and components, a triangle of an object with properties whose pid is 0, a metadata name with a prefix the root does not declare, a path that is no URI",
			"the properties of objects without mesh and the indices of triangles without property group have no meaning and are ignored",
			"the first encoding may round numbers and declare name spaces in place; the bytes are compared from the first encoding on when it did neither, else from the second on",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(4000, 60000); i++ {
				c.Case("written", stableWritten)
			}
			for i := 0; i < c.N(8000, 120000); i++ {
				c.Case("mutated", stableMutated)
			}
			for i := 0; i < c.N(8000, 120000); i++ {
				c.Case("bytes", stableBytes)
			}
			for i := 0; i < c.N(300, 6000); i++ {
				c.Case("package", stablePackage)
			}
			for i := 0; i < c.N(4000, 60000); i++ {
				c.Case("dense", stableDense)
			}
			for i := 0; i < c.N(2000, 40000); i++ {
				c.Case("layout", func(t *T) { stable(t, layoutGen(t, false).data, stablePrec(t.R)) })
			}
			for i := 0; i < 2; i++ {
				i := i
				c.Case("files", func(t *T) {
					b, err := os.ReadFile([]string{"/repo/testdata/cube.3mf", "/repo/testdata/super_boogoku_tiny.3mf"}[i])
					if err != nil {
						return
					}
					stable(t, b, 4)
				})
			}
		}})
}

// modelParts are the model parts of a package.
func modelParts(t *T, pkg []byte) map[string][]byte {
	z, err := zipEntries(pkg)
	if err != nil {
		t.Fatal("zip", "the package written is no ZIP: %v", err)
	}
	for k := range z {
		if strings.HasSuffix(k, ".rels") || strings.HasSuffix(k, "[Content_Types].xml") {
			delete(z, k)
		}
	}
	return z
}

// stable decodes, encodes, decodes, encodes and decodes a package, and so on.
func stable(t *T, pkg []byte, prec int) bool {
	m1, err := decode(pkg, true)
	if err != nil {
		t.Count("rejected", 1)
		return false
	}
	t.Artifact("package.3mf", pkg)
	if !storable(t, m1) {
		return false
	}
	exactly := expectedDump(m1, -1)
	want := expectedDump(m1, prec)
	atts := attachmentData(m1)
	p1, err := encode(m1, prec)
	if err != nil {
		if strings.Contains(err.Error(), "relationship target") && !plainPaths(m1) {
			t.Count("skipped_bad_uri", 1)
			return false
		}
		t.Fatal("encode", "an accepted document cannot be saved: %v", err)
	}
	saved := rootXML(p1, m1.PathOrDefault())
	t.Artifact("saved.xml", saved)
	save := func(m *go3mf.Model, which string) []byte {
		p, err := encode(m, prec)
		if err != nil {
			t.Fatal("encode", "the document of the %s encoding cannot be saved: %v", which, err)
		}
		return p
	}
	load := func(p []byte, which string) *go3mf.Model {
		m, err := decode(p, true)
		if err != nil {
			t.Fatal("unreadable", "an accepted document is unreadable after the %s encoding: %v", which, err)
		}
		unmeaning(m)
		return m
	}
	m2 := load(p1, "first")
	d2 := actualDump(m2)
	if d := diffLines(want, d2); d != "" {
		t.Fatal("changed:"+diffSig(want, d2), "saving an accepted document changed it\n%s", d)
	}
	if sig, d := comparePackage(m1, atts, m2); sig != "" {
		t.Fatal(sig, "saving an accepted document changed it\n%s", d)
	}
	atts = attachmentData(m2) // encoding reads the streams
	p2 := save(m2, "first")
	m3 := load(p2, "second")
	if d := diffLines(d2, actualDump(m3)); d != "" {
		t.Fatal("changed2", "saving a document twice changed it\n%s", d)
	}
	if sig, d := comparePackage(m2, atts, m3); sig != "" {
		t.Fatal(sig, "saving a document twice changed it\n%s", d)
	}
	same := func(a, b map[string][]byte, which string) {
		for k := range a {
			if _, ok := b[k]; !ok {
				t.Fatal("parts", "part %s is missing in the %s encoding", k, which)
			}
			if !bytes.Equal(a[k], b[k]) {
				t.Fatal("bytes", "part %s differs in the %s encoding\n%s\n%s", k, which, a[k], b[k])
			}
		}
		if len(a) != len(b) {
			t.Fatal("parts", "the %s encoding has %d parts, the one before %d", which, len(b), len(a))
		}
	}
	// The first encoding can round numbers and declare name spaces where they
	// are used, the ones after that have nothing left to change.
	e1, e2 := modelParts(t, p1), modelParts(t, p2)
	settledDoc := diffLines(exactly, want) == ""
	for _, x := range e1 {
		if bytes.Contains(x, []byte(" xmlns:ns")) || bytes.Contains(x, []byte(` xmlns=""`)) {
			settledDoc = false
		}
	}
	if settledDoc {
		same(e1, e2, "second")
		t.Count("same_at_once", 1)
	} else {
		same(e2, modelParts(t, save(m3, "second")), "third")
		t.Count("same_after_one", 1)
	}
	t.Count("accepted", 1)
	if len(d2) > 12 {
		t.Distinct(pkg)
	}
	return true
}

// plainPaths tells whether the paths of a model are certainly valid.
func plainPaths(m *go3mf.Model) bool {
	for _, l := range actualDump(m) {
		if v := pathFact.FindStringSubmatch(l); v != nil && v[2] != "" && !plainPath.MatchString(v[2]) {
			return false
		}
	}
	return true
}

var (
	plainPath = regexp.MustCompile(`^(/[A-Za-z0-9_.-]+)+$`)
	pathFact  = regexp.MustCompile(`(?i)(path|thumbnail) = "(.*)"`)
)

// declared tells whether all the prefixes of a document are declared.
func declared(doc []byte) bool {
	d := xml.NewDecoder(bytes.NewReader(doc))
	stack := []map[string]bool{{"": true, "xml": true, "xmlns": true}}
	for {
		tok, err := d.RawToken()
		if err != nil {
			return err == io.EOF
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			in := stack[len(stack)-1]
			for _, a := range tok.Attr {
				if a.Name.Space == "xmlns" && !in[a.Name.Local] {
					up := in
					in = map[string]bool{a.Name.Local: true}
					for k := range up {
						in[k] = true
					}
				}
			}
			stack = append(stack, in)
			ok := in[tok.Name.Space] && !strings.Contains(tok.Name.Local, ":")
			for _, a := range tok.Attr {
				ok = ok && in[a.Name.Space] && !strings.Contains(a.Name.Local, ":")
			}
			if !ok {
				return false
			}
		case xml.EndElement:
			if len(stack) == 1 {
				return false
			}
			stack = stack[:len(stack)-1]
		}
	}
}

// controls finds the characters that are not allowed in XML, in the quoted
// strings of a dump.
var controls = regexp.MustCompile(`(^|[^\\])(\\\\)*\\(x|a|b|f|v|u000|ufff[ef])|= .*(NaN|Inf)`)

// unmeaning drops what has no meaning in the format and no place in a part.
func unmeaning(m *go3mf.Model) {
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			if o.Mesh == nil {
				o.PID, o.PIndex = 0, 0
				continue
			}
			for i := range o.Mesh.Triangles.Triangle {
				if tr := &o.Mesh.Triangles.Triangle[i]; tr.PID == 0 {
					tr.P1, tr.P2, tr.P3 = 0, 0, 0
				}
			}
		}
	})
}

// storable tells whether the format can store a model.
func storable(t *T, m *go3mf.Model) bool {
	unmeaning(m)
	prefixes := map[string]bool{"": true}
	for _, e := range m.Extensions {
		prefixes[e.LocalName] = true
	}
	why := ""
	mds := func(mds []go3mf.Metadata) {
		for _, md := range mds {
			if !prefixes[md.Name.Space] {
				why = "undeclared_prefix"
			}
		}
	}
	mds(m.Metadata)
	for _, it := range m.Build.Items {
		mds(it.Metadata.Metadata)
	}
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			mds(o.Metadata.Metadata)
			if o.Mesh != nil && o.Components != nil {
				why = "mesh_and_components"
			}
			if o.Mesh != nil && o.PID != 0 {
				for i := range o.Mesh.Triangles.Triangle {
					if o.Mesh.Triangles.Triangle[i].PID == 0 {
						why = "zero_pid" // which is not an identifier
					}
				}
			}
		}
	})
	if why == "" {
		for _, l := range actualDump(m) {
			if controls.MatchString(l) || strings.IndexFunc(l, func(r rune) bool { return r < ' ' || r == 0xfffe || r == 0xffff }) >= 0 {
				why = "characters_or_numbers"
				break
			}
		}
	}
	if why != "" {
		t.Count("skipped_"+why, 1)
	}
	return why == ""
}

func stablePrec(r *Rand) int { return []int{4, 4, -1, 0, 2, 6, 9}[r.Intn(7)] }

func stableWritten(t *T) {
	o := anyGen(t.R)
	o.Childs = t.R.P(1, 3)
	m := genModel(t.R, o)
	root, childs, _, _ := serialize(t.R, m, randStyle(t.R), []int{0, 0, 20}[t.R.Intn(3)])
	t.Artifact("root.xml", root)
	prec := stablePrec(t.R)
	if o.Beams && prec < 4 {
		prec = -1 // a radius must not round to zero
	}
	stable(t, multiPackage(root, childs, t.R.Bool()), prec)
}

func stableMutated(t *T) {
	o := anyGen(t.R)
	o.Unknown = t.R.P(1, 4)
	o.Childs = t.R.P(1, 6)
	m := genModel(t.R, o)
	s := &ser{r: t.R, plain: true}
	st := style{canon: t.R.Bool(), noise: []int{0, 10}[t.R.Intn(2)]}
	tree := s.model(m)
	mutateTree(t.R, tree, t)
	x, _, _ := render(t.R, tree, m.Extensions, st)
	childs := map[string][]byte{}
	for _, p := range sortedKeys(m.Childs) {
		n := s.child(m, p)
		if t.R.Bool() {
			mutateTree(t.R, n, t)
		}
		cx, _, _ := render(t.R, n, m.Extensions, st)
		childs[p] = []byte(cx)
	}
	t.Artifact("root.xml", []byte(x))
	stable(t, multiPackage([]byte(x), childs, true), -1)
}

func stableBytes(t *T) {
	o := anyGen(t.R)
	m := genModel(t.R, o)
	x, _, _, _ := serialize(t.R, m, style{canon: t.R.Bool()}, 0)
	bits := append(append([]string{}, xmlBits...), hostileVals...)
	d := mutateBytes(t.R, x, bits)
	t.Artifact("root.xml", d)
	if !utf8.Valid(d) || !declared(d) {
		t.Count("not_well_formed", 1)
		return
	}
	stable(t, singlePackage(d), -1)
}

func stablePackage(t *T) {
	o := anyGen(t.R)
	o.Package, o.Childs = true, t.R.Bool()
	m := genModel(t.R, o)
	pkg, err := encode(m, -1)
	if err != nil {
		t.Fatal("encode", "%v", err)
	}
	prec := stablePrec(t.R)
	if o.Beams && prec < 4 {
		prec = -1
	}
	stable(t, pkg, prec)
}

// stableDense starts with a document of a model with all kinds of faults which
// are no faults of the document.
func stableDense(t *T) {
	m := denseModel(t.R, true)
	m.Attachments = nil
	for p := range m.Childs {
		if strings.EqualFold(p, m.PathOrDefault()) {
			delete(m.Childs, p)
		}
	}
	root, childs, _, _ := serialize(t.R, m, randStyle(t.R), 0)
	t.Artifact("root.xml", root)
	stable(t, multiPackage(root, childs, t.R.Bool()), -1)
}
