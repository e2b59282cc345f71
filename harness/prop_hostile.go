package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/production"
)

func init() {
	register(&Prop{ID: "C11", Level: "exploration", CPULimit: 60,
		Rule: "one evaluation is one hostile package or document decoded (strict and lenient) and, when a model comes out, validated, measured, walked, searched and encoded; distinct_nontrivial counts distinct inputs that got past the ZIP and package layers",
		Assumptions: []string{
			fmt.Sprintf("memory is bounded by %d bytes allocated per byte of uncompressed input plus %d MB for each operation", allocFactor, allocBase>>20),
			"60 s of CPU time for a single case is a hang: the inputs take milliseconds when they behave",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(5000, 150000); i++ {
				c.Case("tree", hostileTree)
			}
			for i := 0; i < c.N(2500, 80000); i++ {
				c.Case("bytes", hostileBytes)
			}
			for i := 0; i < c.N(2500, 80000); i++ {
				c.Case("package", hostilePackage)
			}
			for i := 0; i < c.N(2500, 80000); i++ {
				c.Case("dense", hostileDense)
			}
			for i := 0; i < c.N(len(bombs), len(bombs)); i++ {
				i := i
				c.Case("bomb-"+bombs[i].name, func(t *T) { hostileBomb(t, bombs[i].build, 1) })
			}
			if c.Thorough() {
				for i := range bombs {
					i := i
					c.Case("bigbomb-"+bombs[i].name, func(t *T) { hostileBomb(t, bombs[i].build, 6) })
				}
			}
		}})
}

const (
	allocFactor = 2000
	allocBase   = 24 << 20
)

// metered runs fn and checks what it allocated against the size of the input.
func metered(t *T, what string, size int, fn func()) {
	a := allocated()
	fn()
	used := allocated() - a
	factor, base := uint64(allocFactor), uint64(allocBase)
	if what == "decode" || what == "unmarshal" {
		factor, base = 400, 8<<20
	}
	if used > factor*uint64(size)+base {
		t.Fatal("memory:"+what, "%s allocated %d bytes for an input of %d bytes", what, used, size)
	}
	if size > 20000 {
		t.Max("bytes_allocated_per_input_byte_in_"+what, int(used/uint64(size)))
	}
}

// exercise runs everything a program does with a model it has decoded.
func exercise(t *T, m *go3mf.Model, size int) {
	metered(t, "bounding-box", size, func() { m.BoundingBox() })
	metered(t, "validate", size, func() {
		if err := m.Validate(); err != nil {
			_ = err.Error()
			t.Count("models_invalid", 1)
		} else {
			t.Count("models_valid", 1)
		}
	})
	metered(t, "coherency", size, func() {
		m.ValidateCoherency()
	})
	metered(t, "walk", size, func() {
		m.WalkObjects(func(p string, o *go3mf.Object) error {
			if o.Mesh != nil {
				o.Mesh.BoundingBox()
			}
			m.FindObject(p, o.ID)
			return nil
		})
		m.WalkAssets(func(p string, a go3mf.Asset) error {
			m.FindAsset(p, a.Identify())
			a.XMLName()
			if x, ok := a.(interface{ Len() int }); ok {
				x.Len()
			}
			return nil
		})
		m.Resources.UnusedID()
		for _, c := range m.Childs {
			c.Resources.UnusedID()
		}
		for _, it := range m.Build.Items {
			m.FindObject(it.ObjectPath(), it.ObjectID)
		}
	})
	// every part written needs a compressor, which is about 1 MB
	parts := (2 + len(m.Childs) + len(m.Attachments)) * ((2 << 20) / allocFactor)
	metered(t, "encode", size+parts, func() {
		e := go3mf.NewEncoder(io.Discard)
		if err := e.Encode(m); err != nil {
			t.Count("encode_errors", 1)
		}
		if _, err := go3mf.MarshalModel(m); err != nil {
			t.Count("marshal_errors", 1)
		}
	})
	metered(t, "uuids", size, func() { production.SetMissingUUIDs(m) })
	t.Count("models_exercised", 1)
}

// hostileDense feeds models with all kinds of faults.
func hostileDense(t *T) {
	m := denseModel(t.R, true)
	m.Attachments = nil
	exercise(t, cloneModel(m), 100000)
	delete(m.Childs, m.PathOrDefault())
	root, childs, _, _ := serialize(t.R, m, randStyle(t.R), 0)
	t.Artifact("root.xml", root)
	size := len(root)
	for _, c := range childs {
		size += len(c)
	}
	class, _ := feed(t, multiPackage(root, childs, t.R.Bool()), size)
	t.Sample("%s -> %s", root, class)
	t.Distinct(string(root))
}

// feed decodes a package in both modes. size is the uncompressed size.
func feed(t *T, pkg []byte, size int) (string, *go3mf.Model) {
	if size < len(pkg) {
		size = len(pkg)
	}
	class := ""
	var last *go3mf.Model
	for _, strict := range []bool{true, false} {
		m := new(go3mf.Model)
		var err error
		metered(t, "decode", size, func() {
			d := go3mf.NewDecoder(bytes.NewReader(pkg), int64(len(pkg)))
			d.Strict = strict
			err = d.Decode(m)
		})
		t.Eval(1)
		if err != nil {
			_ = err.Error()
		}
		class = errClass(err)
		t.Seen("outcomes", class)
		t.Count("outcome_"+strings.SplitN(class, ":", 2)[0], 1)
		var list *specerr.List
		var se *specerr.Error
		if err == nil || (!strict && (errors.As(err, &list) || errors.As(err, &se))) {
			exercise(t, m, size)
			last = m
		}
	}
	return class, last
}

func errClass(err error) string {
	if err == nil {
		return "accepted"
	}
	var pe *specerr.ParseAttrError
	if errors.As(err, &pe) {
		return "attribute:" + pe.Name
	}
	s := err.Error()
	if i := strings.IndexAny(s, "0123456789<\"'"); i > 0 {
		s = s[:i]
	}
	if len(s) > 40 {
		s = s[:40]
	}
	return "rejected:" + s
}

var hostileNames = []string{"model", "resources", "build", "item", "object", "mesh", "vertices", "vertex", "triangles", "triangle", "components", "component", "metadata", "metadatagroup", "basematerials", "base",
	"colorgroup", "color", "texture2d", "texture2dgroup", "tex2coord", "compositematerials", "composite", "multiproperties", "multi", "slicestack", "sliceref", "slice", "polygon", "segment", "beamlattice", "beams", "beam", "beamsets", "beamset", "ref", "thing"}
var hostileAttrs = []string{"id", "pid", "pindex", "p1", "p2", "p3", "v1", "v2", "v3", "x", "y", "z", "u", "v", "objectid", "transform", "name", "type", "unit", "UUID", "path", "slicestackid", "slicepath", "meshresolution", "ztop", "zbottom", "startv", "color", "displaycolor",
	"matid", "matindices", "values", "pids", "pindices", "blendmethods", "texid", "radius", "minlength", "clippingmode", "clippingmesh", "representationmesh", "cap", "cap1", "r1", "r2", "index", "identifier", "requiredextensions", "lang", "thumbnail", "preserve", "partnumber", "xmlns", "contenttype"}
var hostileVals = []string{"", "0", "1", "2", "3", "4", "5", "4294967295", "4294967296", "-1", "1e39", "NaN", "Inf", "-Inf", "1e-46", "3.4e38", "x", "/3D/3dmodel.model", "/", "//", "../..", "a:b", ":", "a:", ":a", "#FFFFFF", "#", "1 0 0 0 1 0 0 0 1 0 0 0", "0 0 0 0 0 0 0 0 0 0 0 0",
	"NaN NaN NaN NaN NaN NaN NaN NaN NaN NaN NaN NaN", "1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38 1e38", "1 1 1 1 1 1", "0 4294967295 7", "mix multiply", "true", "other", "surface", "lowres", "inside", "hemisphere", "\n", " ", "p m s u0", "%zz", "/3D/%2e%2e/x", "http://h/p?q#f"}

func allNodes(n *node) (out []*node) {
	n.walk(func(x *node) { out = append(out, x) })
	return
}

func cloneTree(n *node) *node {
	c := *n
	c.attrs = append([]nattr(nil), n.attrs...)
	c.kids = nil
	c.parent = nil
	for _, k := range n.kids {
		c.add(cloneTree(k))
	}
	return &c
}

func removeKid(n *node) {
	p := n.parent
	for i, k := range p.kids {
		if k == n {
			p.kids = append(p.kids[:i:i], p.kids[i+1:]...)
			return
		}
	}
}

func insertKid(p, k *node, i int) {
	p.kids = append(p.kids, nil)
	copy(p.kids[i+1:], p.kids[i:])
	p.kids[i] = k
	k.parent = p
}

func inside(n, p *node) bool {
	for ; p != nil; p = p.parent {
		if p == n {
			return true
		}
	}
	return false
}

// mutateTree makes a document that is still XML but means something else.
func mutateTree(r *Rand, root *node, t *T) {
	for k := []int{1, 1, 2, 3, 5, 10}[r.Intn(6)]; k > 0; k-- {
		ns := allNodes(root)
		n := ns[r.Intn(len(ns))]
		op := r.Intn(14)
		t.Count(fmt.Sprintf("mutation_%02d", op), 1)
		switch op {
		case 0:
			if n.parent != nil {
				removeKid(n)
			}
		case 1: // repeat
			if n.parent != nil {
				for c := r.Range(1, 4); c > 0; c-- {
					insertKid(n.parent, cloneTree(n), r.Intn(len(n.parent.kids)+1))
				}
			}
		case 2: // move somewhere else
			p := ns[r.Intn(len(ns))]
			if n.parent != nil && !inside(n, p) {
				removeKid(n)
				insertKid(p, n, r.Intn(len(p.kids)+1))
			}
		case 3: // copy somewhere else
			p := ns[r.Intn(len(ns))]
			insertKid(p, cloneTree(n), r.Intn(len(p.kids)+1))
		case 4:
			n.name = r.Pick(hostileNames...)
		case 5:
			n.ns = r.Pick(nsCore, nsMat, nsBeam, nsSli, nsProd, "http://example.com/foreign", "")
			if n.parent == nil {
				n.ns = nsCore
			}
		case 6, 7, 8:
			if len(n.attrs) > 0 {
				n.attrs[r.Intn(len(n.attrs))].val = r.Pick(hostileVals...)
			}
		case 9:
			if len(n.attrs) > 0 {
				i := r.Intn(len(n.attrs))
				n.attrs = append(n.attrs[:i:i], n.attrs[i+1:]...)
			}
		case 10:
			n.attrs = append(n.attrs, nattr{r.Pick("", "", "", nsProd, nsSli, nsMat, nsBeam, nsCore, "http://example.com/foreign", nsXMLs), r.Pick(hostileAttrs...), r.Pick(hostileVals...), 0})
		case 11:
			n.kids = append(n.kids, &node{isText: true, text: r.Pick(hostileVals...), foreign: true, parent: n})
		case 12: // swap ids
			n2 := ns[r.Intn(len(ns))]
			if len(n.attrs) > 0 && len(n2.attrs) > 0 {
				i, j := r.Intn(len(n.attrs)), r.Intn(len(n2.attrs))
				n.attrs[i].val, n2.attrs[j].val = n2.attrs[j].val, n.attrs[i].val
			}
		case 13: // an element where it does not belong
			e := el(r.Pick(nsCore, nsMat, nsBeam, nsSli, nsProd), r.Pick(hostileNames...), -1)
			for c := r.Intn(4); c > 0; c-- {
				e.attrs = append(e.attrs, nattr{"", r.Pick(hostileAttrs...), r.Pick(hostileVals...), 0})
			}
			insertKid(n, e, r.Intn(len(n.kids)+1))
		}
	}
}

func hostileTree(t *T) {
	o := anyGen(t.R)
	o.Unknown = t.R.P(1, 4)
	o.Childs = t.R.P(1, 4)
	m := genModel(t.R, o)
	s := &ser{r: t.R, plain: true}
	st := style{canon: t.R.Bool(), noise: []int{0, 10}[t.R.Intn(2)]}
	rootTree := s.model(m)
	mutateTree(t.R, rootTree, t)
	x, _, _ := render(t.R, rootTree, m.Extensions, st)
	t.Artifact("root.xml", []byte(x))
	size := len(x)
	var pkg []byte
	if len(m.Childs) == 0 {
		pkg = singlePackage([]byte(x))
	} else {
		childs := map[string][]byte{}
		for _, p := range sortedKeys(m.Childs) {
			n := s.child(m, p)
			if t.R.Bool() {
				mutateTree(t.R, n, t)
			}
			cx, _, _ := render(t.R, n, m.Extensions, st)
			childs[p] = []byte(cx)
			size += len(cx)
			t.Artifact(p, childs[p])
		}
		pkg = multiPackage([]byte(x), childs, false)
	}
	class, _ := feed(t, pkg, size)
	if len(m.Childs) == 0 {
		metered(t, "unmarshal", size, func() {
			g := new(go3mf.Model)
			if go3mf.UnmarshalModel([]byte(x), g) == nil {
				exercise(t, g, size)
			}
		})
	}
	t.Sample("%s -> %s", x, class)
	t.Distinct(x)
}

func mutateBytes(r *Rand, d []byte, bits []string) []byte {
	d = append([]byte(nil), d...)
	for e := []int{1, 1, 2, 4, 8, 30}[r.Intn(6)]; e > 0 && len(d) > 0; e-- {
		p := r.Intn(len(d))
		switch r.Intn(7) {
		case 0:
			d[p] ^= 1 << uint(r.Intn(8))
		case 1:
			d[p] = byte(r.U64())
		case 2:
			q := p + r.Intn(40)
			if q > len(d) {
				q = len(d)
			}
			d = append(d[:p:p], d[q:]...)
		case 3:
			q := p + r.Intn(200)
			if q > len(d) {
				q = len(d)
			}
			at := r.Intn(len(d))
			d = append(d[:at:at], append(append([]byte(nil), d[p:q]...), d[at:]...)...)
		case 4:
			if r.P(1, 4) {
				d = d[:p]
			}
		default:
			d = append(d[:p:p], append([]byte(bits[r.Intn(len(bits))]), d[p:]...)...)
		}
	}
	return d
}

func hostileBytes(t *T) {
	o := anyGen(t.R)
	m := genModel(t.R, o)
	x, _, _, _ := serialize(t.R, m, randStyle(t.R), 0)
	bits := append(append([]string{}, xmlBits...), hostileVals...)
	d := mutateBytes(t.R, x, bits)
	t.Artifact("root.xml", d)
	class, _ := feed(t, singlePackage(d), len(d))
	metered(t, "unmarshal", len(d), func() {
		g := new(go3mf.Model)
		if go3mf.UnmarshalModel(d, g) == nil {
			exercise(t, g, len(d))
		}
	})
	t.Sample("%s -> %s", d, class)
	t.Distinct(d)
}

// hostilePackage attacks the package layer.
func hostilePackage(t *T) {
	r := t.R
	o := anyGen(r)
	o.Package, o.Childs, o.Size = r.Bool(), r.Bool(), 2
	m := genModel(r, o)
	pkg, err := encode(m, -1)
	if err != nil {
		return
	}
	ent, err := zipEntries(pkg)
	if err != nil {
		panic(err)
	}
	mode := r.Intn(4)
	if mode == 0 { // bytes of the container
		d := mutateBytes(r, pkg, []string{"PK\x01\x02", "PK\x03\x04", "PK\x05\x06", "\x00\x00\x00\x00", "\xff\xff\xff\xff", "[Content_Types].xml", "_rels/.rels", "3D/", "../"})
		size := 0
		for _, e := range ent {
			size += len(e)
		}
		t.Artifact("package.3mf", d)
		class, _ := feed(t, d, size*3+len(d))
		if !strings.HasPrefix(class, "rejected:zip") {
			t.Distinct(d)
		}
		return
	}
	var names []string
	for k := range ent {
		names = append(names, k)
	}
	sortStrings(names)
	type entry struct {
		name string
		data []byte
	}
	var list []entry
	for _, k := range names {
		list = append(list, entry{k, ent[k]})
	}
	relTargets := []string{"/3D/3dmodel.model", "3dmodel.model", "/", "", ".", "..", "../../../etc/passwd", "//h/x", "http://h/x", "/3D/missing.model", "/_rels/.rels", "/[Content_Types].xml", "/3D/_rels/3dmodel.model.rels", "%", "/3D/%33dmodel.model", "/3d/3DMODEL.MODEL", "\\x", "/a b", "/\x01", "mailto:a", "?", "#", "/3D/"}
	for _, p := range sortedKeys(m.Childs) {
		relTargets = append(relTargets, p)
	}
	for k := r.Range(1, 5); k > 0 && len(list) > 0; k-- {
		i := r.Intn(len(list))
		switch r.Intn(7) {
		case 0:
			list = append(list[:i:i], list[i+1:]...)
		case 1:
			list = append(list, list[i])
		case 2:
			list = append(list, entry{r.Pick("x", "3D/", "/abs", "../up", "3D/3dmodel.model/x", "a//b", "_rels/x.rels", "3D/_rels/x.model.rels", "[Content_Types].xml/[0].piece", "", "3d/3dmodel.MODEL", "3D/a.", "3D/%20", "3D/\\b", strings.Repeat("a/", 200)), list[i].data})
		case 3, 4:
			for j := range list {
				if strings.HasSuffix(list[j].name, ".rels") && (r.Bool() || j == i) {
					var rels []pkgRel
					for c := r.Intn(6); c > 0; c-- {
						rels = append(rels, pkgRel{r.Pick("", "a", "a", "b"), r.Pick(relModel, relModel, relModel, "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail", "http://x/y", ""), r.Pick(relTargets...)})
					}
					list[j].data = relsXML(rels)
				}
			}
		case 5: // a child relates back to the root and to the others
			for _, p := range append(sortedKeys(m.Childs), "/3D/3dmodel.model") {
				j := strings.LastIndexByte(p, '/')
				list = append(list, entry{strings.TrimPrefix(p[:j]+"/_rels"+p[j:]+".rels", "/"), relsXML([]pkgRel{{"a", relModel, r.Pick(relTargets...)}, {"b", relModel, r.Pick(relTargets...)}, {"c", "http://x/y", r.Pick(relTargets...)}})})
			}
		default:
			list[i].data = mutateBytes(r, list[i].data, append(xmlBits, "Target", "ContentType", "Override", "Default", "Extension=\"\"", "PartName"))
		}
	}
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	size := 0
	for _, e := range list {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		if r.P(1, 30) {
			h.Method = zip.Store
		}
		w, err := z.CreateHeader(h)
		if err != nil {
			return
		}
		if strings.HasSuffix(e.name, "/") {
			continue
		}
		w.Write(e.data)
		size += len(e.data)
	}
	z.Close()
	t.Artifact("package.3mf", buf.Bytes())
	class, _ := feed(t, buf.Bytes(), size*2) // an attachment related twice is not read twice, but the parts list is
	t.Sample("%d entries -> %s", len(list), class)
	if !strings.HasPrefix(class, "rejected:zip") && !strings.HasPrefix(class, "rejected:opc") {
		t.Distinct(buf.Bytes())
	}
}

type bomb struct {
	name  string
	build func(n int) ([]byte, map[string][]byte)
}

func doc(exts string, body func(b *strings.Builder)) []byte {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?><model xmlns="` + nsCore + `" ` + exts + `>`)
	body(&b)
	b.WriteString(`</model>`)
	return []byte(b.String())
}

func resDoc(exts, build string, body func(b *strings.Builder)) []byte {
	return doc(exts, func(b *strings.Builder) {
		b.WriteString("<resources>")
		body(b)
		b.WriteString("</resources><build>" + build + "</build>")
	})
}

const (
	xm = `xmlns:m="` + nsMat + `"`
	xs = `xmlns:s="` + nsSli + `"`
	xb = `xmlns:b="` + nsBeam + `"`
	xp = `xmlns:p="` + nsProd + `"`
	xu = `xmlns:u="http://example.com/u"`
)

// one builds a single document.
func one(f func(n int) []byte) func(n int) ([]byte, map[string][]byte) {
	return func(n int) ([]byte, map[string][]byte) { return f(n), nil }
}

func times(b *strings.Builder, n int, s string) {
	for i := 0; i < n; i++ {
		b.WriteString(s)
	}
}

// bombs are inputs made to grow something faster than their size.
var bombs = []bomb{
	{"deep-unknown", one(func(n int) []byte {
		return doc(xu, func(b *strings.Builder) { times(b, 20000*n, "<u:a>"); times(b, 20000*n, "</u:a>") })
	})},
	{"deep-ignored", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) { times(b, 20000*n, "<a>"); times(b, 20000*n, "</a>") })
	})},
	{"deep-known", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) {
			times(b, 5000*n, "<resources><object><mesh>")
			times(b, 5000*n, "</mesh></object></resources>")
		})
	})},
	{"deep-namespaces", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) {
			for i := 0; i < 3000*n; i++ {
				fmt.Fprintf(b, `<u%d:a xmlns:u%d="http://example.com/%d">`, i, i, i)
			}
			for i := 3000*n - 1; i >= 0; i-- {
				fmt.Fprintf(b, `</u%d:a>`, i)
			}
		})
	})},
	{"many-attributes", one(func(n int) []byte {
		var b strings.Builder
		for i := 0; i < 5000*n; i++ {
			fmt.Fprintf(&b, ` a%d="v"`, i)
		}
		return doc(b.String(), func(b *strings.Builder) {})
	})},
	{"many-attribute-namespaces", one(func(n int) []byte {
		var b strings.Builder
		for i := 0; i < 1500*n; i++ {
			fmt.Fprintf(&b, ` xmlns:n%d="http://example.com/%d" n%d:a="v"`, i, i, i)
		}
		return resDoc("", "<item"+b.String()+"/>", func(b *strings.Builder) {})
	})},
	{"repeated-attribute", one(func(n int) []byte {
		return resDoc(xm, "", func(b *strings.Builder) {
			b.WriteString("<m:multiproperties")
			times(b, 3000*n, ` pids="1 2 3" blendmethods="mix"`)
			b.WriteString("/>")
		})
	})},
	{"long-attribute", one(func(n int) []byte {
		return doc(`thumbnail="`+strings.Repeat("a", 300000*n)+`"`, func(b *strings.Builder) {})
	})},
	{"long-name", one(func(n int) []byte {
		return doc(xu, func(b *strings.Builder) {
			for i := 0; i < 30; i++ {
				b.WriteString("<u:" + strings.Repeat("b", 9000*n+i) + "/>")
			}
		})
	})},
	{"long-text", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) {
			b.WriteString(`<metadata name="Title">`)
			times(b, 60000*n, "&amp;")
			b.WriteString(`</metadata>`)
		})
	})},
	{"text-pieces", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) {
			b.WriteString(`<metadata name="Title">`)
			times(b, 20000*n, "a<!-- -->")
			b.WriteString(`</metadata>`)
		})
	})},
	{"unknown-text-pieces", one(func(n int) []byte {
		return doc(xu, func(b *strings.Builder) {
			b.WriteString(`<u:a>`)
			times(b, 20000*n, "a<!-- -->")
			b.WriteString(`</u:a>`)
		})
	})},
	{"comments", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) { times(b, 30000*n, "<!--a-->") })
	})},
	{"big-comment", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) { b.WriteString("<!--" + strings.Repeat("- ", 200000*n) + "-->") })
	})},
	{"big-pi", one(func(n int) []byte {
		return doc("", func(b *strings.Builder) { b.WriteString("<?a " + strings.Repeat("? ", 200000*n) + "?>") })
	})},
	{"cdata", one(func(n int) []byte {
		return doc(xu, func(b *strings.Builder) {
			b.WriteString("<u:a>")
			times(b, 10000*n, "<![CDATA[]]]]>")
			b.WriteString("</u:a>")
		})
	})},
	{"metadata", one(func(n int) []byte {
		return doc(xu, func(b *strings.Builder) { times(b, 4000*n, `<metadata name="u:x"/>`) })
	})},
	{"repeated-triangles", one(func(n int) []byte {
		return resDoc("", "", func(b *strings.Builder) {
			b.WriteString(`<object id="1"><mesh><vertices>`)
			times(b, 5000, `<vertex/>`)
			b.WriteString(`</vertices>`)
			times(b, 5000*n, `<triangles/>`)
			b.WriteString(`</mesh></object>`)
		})
	})},
	{"repeated-meshes", one(func(n int) []byte {
		return resDoc("", "", func(b *strings.Builder) {
			b.WriteString(`<object id="1">`)
			times(b, 8000*n, `<mesh><vertices><vertex/></vertices><triangles/></mesh>`)
			b.WriteString(`</object>`)
		})
	})},
	{"big-mesh", one(func(n int) []byte {
		return resDoc("", `<item objectid="1"/>`, func(b *strings.Builder) {
			b.WriteString(`<object id="1"><mesh><vertices>`)
			times(b, 30000*n, `<vertex x="1" y="2" z="3"/>`)
			b.WriteString(`</vertices><triangles>`)
			times(b, 60000*n, `<triangle v1="0" v2="1" v3="2"/>`)
			b.WriteString(`</triangles></mesh></object>`)
		})
	})},
	{"fan", one(func(n int) []byte { // every triangle has the same edge
		return resDoc("", `<item objectid="1"/>`, func(b *strings.Builder) {
			b.WriteString(`<object id="1"><mesh><vertices>`)
			times(b, 8000*n, `<vertex x="1" y="2" z="3"/>`)
			b.WriteString(`</vertices><triangles>`)
			for i := 2; i < 8000*n; i++ {
				fmt.Fprintf(b, `<triangle v1="0" v2="1" v3="%d"/>`, i)
			}
			b.WriteString(`</triangles></mesh></object>`)
		})
	})},
	{"component-doubling", one(func(n int) []byte {
		return resDoc("", `<item objectid="60"/>`, func(b *strings.Builder) {
			b.WriteString(`<object id="1"><mesh><vertices><vertex x="1"/></vertices></mesh></object>`)
			for i := 2; i <= 60; i++ {
				fmt.Fprintf(b, `<object id="%d"><components><component objectid="%d"/><component objectid="%d"/></components></object>`, i, i-1, i-1)
			}
		})
	})},
	{"component-chain", one(func(n int) []byte {
		return resDoc("", `<item objectid="`+fmt.Sprint(3000*n)+`"/>`, func(b *strings.Builder) {
			b.WriteString(`<object id="1"><mesh><vertices><vertex x="1"/></vertices></mesh></object>`)
			for i := 2; i <= 3000*n; i++ {
				fmt.Fprintf(b, `<object id="%d"><components><component objectid="%d"/></components></object>`, i, i-1)
			}
		})
	})},
	{"component-cycles", one(func(n int) []byte {
		return resDoc("", `<item objectid="1"/><item objectid="7"/>`, func(b *strings.Builder) {
			for i := 1; i <= 40; i++ {
				fmt.Fprintf(b, `<object id="%d"><components>`, i)
				for j := 1; j <= 40; j++ {
					fmt.Fprintf(b, `<component objectid="%d"/>`, j)
				}
				b.WriteString(`</components></object>`)
			}
		})
	})},
	{"slice-transform-doubling", one(func(n int) []byte {
		return resDoc(xs, `<item objectid="60"/><item objectid="2" transform="2 0 0 0 1 0 0 0 1 0 0 0"/>`, func(b *strings.Builder) {
			b.WriteString(`<s:slicestack id="100"><s:slice ztop="1"/></s:slicestack><object id="1" s:slicestackid="100"><mesh><vertices><vertex x="1"/></vertices></mesh></object>`)
			for i := 2; i <= 60; i++ {
				fmt.Fprintf(b, `<object id="%d" s:slicestackid="100"><components><component objectid="%d"/><component objectid="%d"/></components></object>`, i, i-1, i-1)
			}
		})
	})},
	{"slice-refs", one(func(n int) []byte {
		return resDoc(xs, ``, func(b *strings.Builder) {
			for i := 1; i <= 60; i++ {
				fmt.Fprintf(b, `<s:slicestack id="%d">`, i)
				for j := 1; j <= 60; j++ {
					fmt.Fprintf(b, `<s:sliceref slicestackid="%d" slicepath="/3D/3dmodel.model"/>`, j)
				}
				b.WriteString(`</s:slicestack>`)
			}
		})
	})},
	{"slice-vertices", one(func(n int) []byte {
		return resDoc(xs, ``, func(b *strings.Builder) {
			b.WriteString(`<s:slicestack id="1"><s:slice ztop="1"><s:vertices>`)
			times(b, 10000*n, `<s:vertex/>`)
			b.WriteString(`</s:vertices>`)
			times(b, 5000*n, `<s:polygon><s:segment/></s:polygon>`)
			b.WriteString(`</s:slice></s:slicestack>`)
		})
	})},
	{"objects", one(func(n int) []byte {
		return resDoc("", "", func(b *strings.Builder) { times(b, 3000*n, `<object/>`) })
	})},
	{"items", one(func(n int) []byte {
		return resDoc("", strings.Repeat("<item/>", 20000*n), func(b *strings.Builder) {})
	})},
	{"boxed-items", one(func(n int) []byte {
		return resDoc("", strings.Repeat(`<item objectid="1"/>`, 5000*n), func(b *strings.Builder) {
			b.WriteString(`<object id="1"><components><component objectid="1"/><component objectid="2"/></components></object><object id="2"><mesh><vertices><vertex x="1"/></vertices></mesh></object>`)
		})
	})},
	{"beams", one(func(n int) []byte {
		return resDoc(xb, "", func(b *strings.Builder) {
			b.WriteString(`<object id="1"><mesh><b:beamlattice><b:beams>`)
			times(b, 20000*n, `<b:beam/>`)
			b.WriteString(`</b:beams><b:beamsets>`)
			times(b, 3000*n, `<b:beamset><b:ref/></b:beamset>`)
			b.WriteString(`</b:beamsets></b:beamlattice></mesh></object>`)
		})
	})},
	{"materials", one(func(n int) []byte {
		return resDoc(xm, "", func(b *strings.Builder) {
			times(b, 800*n, `<m:colorgroup id="1"><m:color color="#000000"/></m:colorgroup><m:texture2dgroup id="2" texid="1"><m:tex2coord/></m:texture2dgroup><m:compositematerials id="3" matid="1" matindices="0 1"><m:composite values="1 1"/></m:compositematerials><m:multiproperties id="4" pids="1 1 3"><m:multi pindices="9 9 9"/></m:multiproperties>`)
		})
	})},
	{"list-elements", one(func(n int) []byte { // a long list and many elements that have none
		return resDoc(xm, "", func(b *strings.Builder) {
			list := strings.Repeat("1 ", 6000*n)
			fmt.Fprintf(b, `<m:compositematerials id="3" matid="1" matindices="%s">`, list)
			times(b, 6000*n, `<m:composite/>`)
			fmt.Fprintf(b, `</m:compositematerials><m:multiproperties id="4" pids="%s" blendmethods="%s">`, list, strings.Repeat("mix ", 6000*n))
			times(b, 6000*n, `<m:multi/>`)
			b.WriteString(`</m:multiproperties>`)
		})
	})},
	{"self-reference", one(func(n int) []byte {
		return resDoc(xm+xs+` `+xb, `<item objectid="9"/>`, func(b *strings.Builder) {
			b.WriteString(`<m:multiproperties id="1" pids="1 1"><m:multi pindices="0 0"/></m:multiproperties><m:compositematerials id="2" matid="2" matindices="0"><m:composite values="1"/></m:compositematerials><m:texture2dgroup id="3" texid="3"><m:tex2coord/></m:texture2dgroup>` +
				`<object id="9" pid="9"><mesh><vertices><vertex/></vertices><b:beamlattice radius="1" minlength="1" clippingmode="inside" clippingmesh="9" representationmesh="9"/></mesh><components><component objectid="9"/></components></object>`)
		})
	})},
	{"multi-references", one(func(n int) []byte { // each group names all the others
		return resDoc(xm, ``, func(b *strings.Builder) {
			var ids strings.Builder
			for i := 1; i <= 120; i++ {
				fmt.Fprintf(&ids, "%d ", i)
			}
			for i := 1; i <= 120; i++ {
				fmt.Fprintf(b, `<m:multiproperties id="%d" pids="%s"><m:multi pindices="%s"/></m:multiproperties>`, i, ids.String(), ids.String())
			}
		})
	})},
	{"many-children", func(n int) ([]byte, map[string][]byte) {
		childs := map[string][]byte{}
		var cs strings.Builder
		for i := 0; i < 150*n; i++ {
			p := fmt.Sprintf("/3D/c%d.model", i)
			childs[p] = resDoc(xp, "", func(b *strings.Builder) {
				fmt.Fprintf(b, `<object id="1"><components><component objectid="1" p:path="/3D/c%d.model"/></components></object>`, (i+1)%(150*n))
			})
			fmt.Fprintf(&cs, `<component objectid="1" p:path="%s"/>`, p)
		}
		return resDoc(xp, `<item objectid="1"/>`, func(b *strings.Builder) {
			b.WriteString(`<object id="1"><components>` + cs.String() + `</components></object>`)
		}), childs
	}},
}

func hostileBomb(t *T, build func(n int) ([]byte, map[string][]byte), n int) {
	root, childs := build(n)
	size := len(root)
	for _, c := range childs {
		size += len(c)
	}
	t.Artifact("root.xml", root)
	var class string
	if len(childs) > 0 {
		class, _ = feed(t, multiPackage(root, childs, false), size)
	} else {
		class, _ = feed(t, singlePackage(root), size)
		metered(t, "unmarshal", size, func() { go3mf.UnmarshalModel(root, new(go3mf.Model)) })
	}
	t.Seen("bomb_outcomes", class)
	t.Distinct(root)
}
