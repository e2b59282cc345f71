package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"mime"
	"net/url"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
)

func init() {
	register(&Prop{ID: "C30", Level: "exploration",
		Rule: "one evaluation is one model encoded into a package which is then read without the library: as a ZIP archive, as an OPC package and as XML documents compared element by element with the documents the model stands for, and, for valid models, checked against grammars of the specifications; distinct_nontrivial counts distinct models with more than 25 facts",
		Assumptions: []string{
			"archive/zip and encoding/xml (raw tokens; name spaces are resolved by the monitor) read what a conforming consumer reads",
			"the trees (harness/ser.go) and the grammars (harness/prop_conform.go) follow the core, materials, slice, beam lattice and production specifications; a model-level thumbnail attribute, which the library writes, is accepted",
			"lists that are empty in the model may be written as empty lists",
			"relationships to parts the package does not have are not checked",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(4000, 120000); i++ {
				c.Case("any", conformAny)
			}
			for i := 0; i < c.N(1500, 60000); i++ {
				c.Case("valid", conformValid)
			}
			for i := 0; i < c.N(700, 20000); i++ {
				c.Case("written", conformWritten)
			}
		}})
}

func conformAny(t *T) {
	o := anyGen(t.R)
	o.Package, o.Childs = t.R.Bool(), t.R.Bool()
	o.Unknown = t.R.P(1, 3)
	o.Wide = true
	conform(t, genModel(t.R, o), false)
}

func conformValid(t *T) {
	conform(t, validModel(t.R, validOpt{mat: t.R.Bool(), sli: t.R.Bool(), beam: t.R.Bool(), prod: t.R.Bool(), noVendor: true}), true)
}

func conformWritten(t *T) {
	conform(t, decodeWritten(t, genModel(t.R, anyGen(t.R))), false)
}

func conform(t *T, m *go3mf.Model, valid bool) {
	prec := precFor(t.R)
	atts := attachmentData(m)
	b, err := encode(m, prec)
	if err != nil {
		t.Fatal("encode-error", "encoding a valid model failed: %v", err)
	}
	t.Artifact("package.3mf", b)
	parts := conPackage(t, m, atts, b)
	n := normalize(m)
	conPart(t, n, "", parts[strings.ToUpper(m.PathOrDefault())], prec, valid)
	for _, p := range sortedKeys(m.Childs) {
		conPart(t, n, p, parts[strings.ToUpper(conResolve(m.PathOrDefault(), p))], prec, valid)
	}
	if t.R.P(1, 4) {
		doc, err := go3mf.MarshalModel(m)
		if err != nil {
			t.Fatal("marshal-error", "marshalling a valid model failed: %v", err)
		}
		conPart(t, n, "", doc, 4, valid)
		t.Count("marshalled", 1)
	}
	t.Count("packages", 1)
	t.Count("parts", len(parts))
	t.Eval(1)
	if d := expectedDump(m, prec); len(d) > 25 {
		t.Distinct(strings.Join(d, "\n"))
	}
}

// conResolve gives the part a reference of a part leads to.
func conResolve(from, to string) string {
	if !strings.HasPrefix(to, "/") {
		to = path.Join(path.Dir(from), to)
	}
	return path.Clean(to)
}

const (
	conModelType = "application/vnd.ms-package.3dmanufacturing-3dmodel+xml"
	conRelsType  = "application/vnd.openxmlformats-package.relationships+xml"
	conRel3D     = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
	conRelThumb  = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
	conRelTex    = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dtexture"
	conNSTypes   = "http://schemas.openxmlformats.org/package/2006/content-types"
	conNSRels    = "http://schemas.openxmlformats.org/package/2006/relationships"
)

// conPackage reads the package and checks the container. It returns the
// entries by their upper-case part names.
func conPackage(t *T, m *go3mf.Model, atts map[string]attData, b []byte) map[string][]byte {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		t.Fatal("zip", "the package is no ZIP archive: %v", err)
	}
	parts, names := map[string][]byte{}, map[string]string{}
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			t.Fatal("zip", "%s cannot be opened: %v", f.Name, err)
		}
		data, err := io.ReadAll(r)
		if err != nil {
			t.Fatal("zip", "%s cannot be read: %v", f.Name, err)
		}
		if f.Method != zip.Store && f.Method != zip.Deflate || f.Flags&1 != 0 {
			t.Fatal("zip", "%s is stored with method %d, flags %x", f.Name, f.Method, f.Flags)
		}
		k := "/" + f.Name
		u, err := url.Parse(k)
		if err != nil || strings.HasPrefix(f.Name, "/") || strings.Contains(f.Name, `\`) || path.Clean(k) != k {
			t.Fatal("part-name", "%q is no name of a part", f.Name)
		}
		if f.Name != "[Content_Types].xml" {
			k = u.Path
		}
		k = strings.ToUpper(k)
		if _, ok := parts[k]; ok {
			t.Fatal("part-twice", "there are two entries called %s", f.Name)
		}
		parts[k], names[k] = data, "/"+f.Name
	}
	// content types
	ct, ok := parts["/[CONTENT_TYPES].XML"]
	if !ok {
		t.Fatal("content-types", "there is no [Content_Types].xml")
	}
	types := conTree(t, "[Content_Types].xml", ct)
	if types.ns != conNSTypes || types.name != "Types" {
		t.Fatal("content-types", "[Content_Types].xml has the root {%s}%s", types.ns, types.name)
	}
	defaults, overrides := map[string]string{}, map[string]string{}
	for _, k := range types.kids {
		if k.isText {
			continue
		}
		var into map[string]string
		var key string
		switch k.name {
		case "Default":
			into, key = defaults, strings.ToUpper(conAttr(k, "Extension"))
		case "Override":
			into, key = overrides, strings.ToUpper(conAttr(k, "PartName"))
			if u, err := url.Parse(key); err == nil {
				key = u.Path
			}
			if _, ok := parts[key]; !ok {
				t.Fatal("content-types", "there is a content type for %s, but no such part", key)
			}
		default:
			t.Fatal("content-types", "[Content_Types].xml has an element %s", k.name)
		}
		if _, ok := into[key]; ok || key == "" {
			t.Fatal("content-types", "there are two content types for %q", key)
		}
		into[key] = conAttr(k, "ContentType")
	}
	ctOf := func(k string) string {
		if c, ok := overrides[k]; ok {
			return c
		}
		if e := path.Ext(k); e != "" {
			return defaults[e[1:]]
		}
		return ""
	}
	// what there must be
	want := map[string]string{}
	want[strings.ToUpper(m.PathOrDefault())] = conModelType
	for p := range m.Childs {
		want[strings.ToUpper(conResolve(m.PathOrDefault(), p))] = conModelType
	}
	for _, a := range atts {
		k := conKey(a.path)
		want[k] = a.ct
		if data, ok := parts[k]; !ok || !bytes.Equal(data, a.data) {
			t.Fatal("attachment-data", "the attachment %s is not in the package as it was given", a.path)
		}
	}
	for k, c := range want {
		if _, ok := parts[k]; !ok {
			t.Fatal("part-lost", "there is no part %s", k)
		}
		if !conSameType(ctOf(k), c) {
			t.Fatal("content-type", "%s has the content type %q instead of %q", k, ctOf(k), c)
		}
	}
	for k := range parts {
		if _, ok := want[k]; ok || k == "/[CONTENT_TYPES].XML" {
			continue
		}
		if !strings.HasSuffix(k, ".RELS") {
			t.Fatal("part-extra", "there is a part %s", names[k])
		}
		if !conSameType(ctOf(k), conRelsType) {
			t.Fatal("content-type", "%s has the content type %q", names[k], ctOf(k))
		}
		of := path.Join(path.Dir(path.Dir(k)), strings.TrimSuffix(path.Base(k), ".RELS"))
		if _, ok := parts[of]; !ok && of != "/" {
			t.Fatal("rels-alone", "%s belongs to no part", names[k])
		}
	}
	// relationships
	root := []go3mf.Relationship{{Type: conRel3D, Path: m.PathOrDefault()}}
	root = append(root, m.RootRelationships...)
	if m.Thumbnail != "" {
		root = append(root, go3mf.Relationship{Type: conRelThumb, Path: m.Thumbnail})
	}
	n := conRels(t, "/", parts, root, false)
	if n > 1 {
		t.Fatal("start-parts", "the package has %d 3D models to start with", n)
	}
	rels := append([]go3mf.Relationship(nil), m.Relationships...)
	for p := range m.Childs {
		rels = append(rels, go3mf.Relationship{Type: conRel3D, Path: p})
	}
	conRels(t, m.PathOrDefault(), parts, append(rels, conImplied(&m.Resources)...), true)
	for p, c := range m.Childs {
		conRels(t, conResolve(m.PathOrDefault(), p), parts, append(append([]go3mf.Relationship(nil), c.Relationships...), conImplied(&c.Resources)...), true)
	}
	return parts
}

func conKey(p string) string {
	if u, err := url.Parse(p); err == nil {
		p = u.Path
	}
	return strings.ToUpper(p)
}

func conSameType(a, b string) bool {
	if a == b {
		return true
	}
	ta, pa, err := mime.ParseMediaType(a)
	tb, pb, err2 := mime.ParseMediaType(b)
	return err == nil && err2 == nil && ta == tb && fmt.Sprint(pa) == fmt.Sprint(pb)
}

func conImplied(rs *go3mf.Resources) []go3mf.Relationship {
	out := impliedRels(rs)
	for i := range out {
		if out[i].Type != go3mf.RelTypeThumbnail {
			out[i].Type = conRelTex
		} else {
			out[i].Type = conRelThumb
		}
	}
	return out
}

// conRels checks the relationships of a part. With byPath an implied
// relationship is not needed when there is another one to the same part.
func conRels(t *T, of string, parts map[string][]byte, want []go3mf.Relationship, byPath bool) (models int) {
	k := strings.ToUpper(conKey(path.Join(path.Dir(of), "_rels", path.Base(of)+".rels")))
	if of == "/" {
		k = "/_RELS/.RELS"
	}
	data, ok := parts[k]
	have, paths := map[string]int{}, map[string]bool{}
	if ok {
		tree := conTree(t, k, data)
		if tree.ns != conNSRels || tree.name != "Relationships" {
			t.Fatal("rels", "%s has the root {%s}%s", k, tree.ns, tree.name)
		}
		ids := map[string]bool{}
		for _, r := range tree.kids {
			if r.isText {
				continue
			}
			id := conAttr(r, "Id")
			if r.name != "Relationship" || id == "" || ids[id] {
				t.Fatal("rel-id", "%s has an element %s with the identifier %q, used before: %v", k, r.name, id, ids[id])
			}
			ids[id] = true
			if md := conAttr(r, "TargetMode"); md != "" && md != "Internal" {
				t.Fatal("rel-mode", "%s has a target with mode %q", k, md)
			}
			to := conKey(conResolve(of, conAttr(r, "Target")))
			if conAttr(r, "Type") == conRel3D {
				models++
			}
			have[conAttr(r, "Type")+" "+to]++
			paths[to] = true
		}
	}
	wanted := map[string]bool{}
	for _, w := range want {
		to := conKey(conResolve(of, w.Path))
		wanted[w.Type+" "+to] = true
		if _, ok := parts[to]; !ok {
			continue
		}
		if have[w.Type+" "+to] == 0 && !(byPath && w.Type != conRel3D && paths[to]) {
			t.Fatal("rel-lost", "%s has no relationship of the type %s to %s", of, w.Type, w.Path)
		}
	}
	for h := range have {
		if !wanted[h] {
			t.Fatal("rel-extra", "%s has a relationship %s", of, h)
		}
	}
	t.Count("relationships", len(have))
	return
}

func conAttr(n *node, name string) string {
	for _, a := range n.attrs {
		if a.ns == "" && a.name == name {
			return a.val
		}
	}
	return ""
}

// conTree reads an XML document the way a strict reader with name spaces does.
func conTree(t *T, what string, data []byte) *node {
	bad := func(f string, a ...interface{}) {
		t.Artifact("part.xml", data)
		t.Fatal("xml", "%s: %s", what, fmt.Sprintf(f, a...))
	}
	d := xml.NewDecoder(bytes.NewReader(data))
	d.Strict = true
	type open struct {
		n     *node
		name  xml.Name
		binds map[string]string
	}
	var stack []open
	var root *node
	lookup := func(p string) (string, bool) {
		if p == "xml" {
			return nsXMLs, true
		}
		for i := len(stack) - 1; i >= 0; i-- {
			if ns, ok := stack[i].binds[p]; ok {
				return ns, ns != "" || p == ""
			}
		}
		return "", p == ""
	}
	for {
		from := d.InputOffset()
		tok, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			bad("%v", err)
		}
		switch x := tok.(type) {
		case xml.StartElement:
			raw := data[from:d.InputOffset()]
			var q byte
			for _, c := range raw {
				switch {
				case q == 0 && (c == '"' || c == '\''):
					q = c
				case q == c:
					q = 0
				case q != 0 && (c == '\n' || c == '\t' || c == '\r'):
					bad("the line end or tab in an attribute is read as a space: %q", raw)
				}
			}
			o := open{n: &node{idx: -1}, name: x.Name, binds: map[string]string{}}
			for _, a := range x.Attr {
				p := ""
				switch {
				case a.Name.Space == "xmlns":
					p = a.Name.Local
					if a.Value == "" {
						bad("the prefix %s is declared empty", p)
					}
				case a.Name.Space == "" && a.Name.Local == "xmlns":
				default:
					continue
				}
				if _, ok := o.binds[p]; ok {
					bad("the prefix %q is declared twice in %q", p, raw)
				}
				o.binds[p] = a.Value
			}
			if root != nil && len(stack) == 0 {
				bad("there are two root elements")
			}
			stack = append(stack, o)
			var ok bool
			if o.n.ns, ok = lookup(x.Name.Space); !ok {
				bad("the prefix of <%s:%s> is not declared", x.Name.Space, x.Name.Local)
			}
			o.n.name = x.Name.Local
			seen := map[string]bool{}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				ns := ""
				if a.Name.Space != "" {
					if ns, ok = lookup(a.Name.Space); !ok {
						bad("the prefix of the attribute %s:%s is not declared", a.Name.Space, a.Name.Local)
					}
				}
				if seen[ns+" "+a.Name.Local] {
					bad("the attribute {%s}%s appears twice in %q", ns, a.Name.Local, raw)
				}
				seen[ns+" "+a.Name.Local] = true
				o.n.attrs = append(o.n.attrs, nattr{ns, a.Name.Local, a.Value, 0})
			}
			if root == nil {
				root = o.n
				for p, ns := range o.binds { // kept for the extensions
					o.n.kids = append(o.n.kids, &node{isText: true, foreign: true, name: p, ns: ns})
				}
			} else {
				stack[len(stack)-2].n.add(o.n)
			}
		case xml.EndElement:
			if len(stack) == 0 || stack[len(stack)-1].name != x.Name {
				bad("unexpected </%s>", x.Name.Local)
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) == 0 {
				if len(bytes.TrimSpace(x)) > 0 {
					bad("text outside of the root")
				}
				continue
			}
			p := stack[len(stack)-1].n
			if l := len(p.kids); l > 0 && p.kids[l-1].isText && !p.kids[l-1].foreign {
				p.kids[l-1].text += string(x)
			} else {
				p.kids = append(p.kids, &node{isText: true, text: string(x)})
			}
		case xml.ProcInst:
			if x.Target == "xml" && strings.Contains(string(x.Inst), "encoding") && !strings.Contains(strings.ToUpper(string(x.Inst)), `"UTF-8"`) {
				bad("the document says %q", x.Inst)
			}
		case xml.Directive:
			bad("there is a %q", x) // the core specification forbids DTDs
		}
	}
	if len(stack) > 0 || root == nil {
		bad("the document ends early")
	}
	return root
}

// conPart compares a model part with what the model says it is.
func conPart(t *T, n *go3mf.Model, child string, data []byte, prec int, valid bool) {
	what := child
	if child == "" {
		what = n.PathOrDefault()
	}
	t.Artifact("part.xml", data)
	got := conTree(t, what, data)
	x := n
	if child != "" {
		c := n.Childs[child]
		x = &go3mf.Model{Units: n.Units, Language: n.Language, Extensions: n.Extensions, AnyAttr: n.AnyAttr, Resources: c.Resources, Any: c.Any}
	}
	binds := map[string]string{}
	for len(got.kids) > 0 && got.kids[0].isText && got.kids[0].foreign {
		binds[got.kids[0].name] = got.kids[0].ns
		got.kids = got.kids[1:]
	}
	for _, e := range n.Extensions {
		if binds[e.LocalName] != e.Namespace {
			t.Fatal("extension-prefix", "%s: the prefix %q of the extension %s stands for %q", what, e.LocalName, e.Namespace, binds[e.LocalName])
		}
	}
	min := (&ser{r: t.R, plain: true}).model(x)
	max := (&ser{r: t.R, plain: true, all: true}).model(x)
	c := &conCompare{t: t, what: what, q: quantPrec(prec)}
	c.element(min, max, got)
	t.Count("elements", c.elements)
	t.Count("attributes", c.attrs)
	if valid {
		conGrammar(t, what, got)
	}
}

type conCompare struct {
	t               *T
	what            string
	q               func(float32) float32
	elements, attrs int
}

func conPath(n *node) string {
	s := n.name
	if n.parent != nil {
		i := 0
		for _, k := range n.parent.kids {
			if k == n {
				break
			}
			if !k.isText && k.name == n.name {
				i++
			}
		}
		s = conPath(n.parent) + "/" + s
		return fmt.Sprintf("%s[%d]", s, i)
	}
	return "/" + s
}

func (c *conCompare) fail(sig string, n *node, f string, a ...interface{}) {
	c.t.Fatal(sig, "%s%s: %s", c.what, conPath(n), fmt.Sprintf(f, a...))
}

func conFind(n *node, a nattr) (nattr, bool) {
	for _, x := range n.attrs {
		if x.ns == a.ns && x.name == a.name {
			return x, true
		}
	}
	return nattr{}, false
}

func (c *conCompare) element(min, max, got *node) {
	c.elements++
	if got.ns != min.ns || got.name != min.name {
		c.fail("element", got, "instead of {%s}%s there is {%s}%s", min.ns, min.name, got.ns, got.name)
	}
	for _, a := range min.attrs {
		if a.name == "thumbnail" && min.name == "model" || a.ns == "xmlns" || a.ns == "" && a.name == "xmlns" {
			continue
		}
		if _, ok := conFind(got, a); !ok {
			c.fail("attr-lost:"+min.name+"@"+a.name, got, "the attribute {%s}%s=%q is not written", a.ns, a.name, a.val)
		}
	}
	for _, a := range got.attrs {
		c.attrs++
		w, ok := conFind(max, a)
		if !ok {
			c.fail("attr-extra:"+min.name+"@"+a.name, got, "there is an attribute {%s}%s=%q", a.ns, a.name, a.val)
		}
		if !c.same(w, a.val) {
			c.fail("attr-value:"+min.name+"@"+a.name, got, "the attribute {%s}%s is %q instead of %q", a.ns, a.name, a.val, w.val)
		}
	}
	ks, kx, kg := conKids(min), conKids(max), conKids(got)
	for i := range ks {
		if i >= len(kg) {
			c.fail("content-lost:"+min.name, got, "%d of %d pieces of content are written", len(kg), len(ks))
		}
		switch {
		case ks[i].isText != kg[i].isText:
			c.fail("content:"+min.name, got, "content %d is %q%s instead of %q%s", i, kg[i].text, kg[i].name, ks[i].text, ks[i].name)
		case ks[i].isText:
			if ks[i].text != kg[i].text {
				c.fail("text:"+min.name, got, "the text is %q instead of %q", kg[i].text, ks[i].text)
			}
		default:
			c.element(ks[i], kx[i], kg[i])
		}
	}
	if len(kg) > len(ks) {
		c.fail("content-extra:"+min.name, got, "there is more content: %q%s", kg[len(ks)].text, kg[len(ks)].name)
	}
}

// conKids leaves formatting out.
func conKids(n *node) []*node {
	var out []*node
	for _, k := range n.kids {
		if k.isText && strings.TrimSpace(k.text) == "" && n.name != "metadata" {
			continue
		}
		if !k.isText && len(k.attrs)+len(k.kids) == 0 && (k.ns == nsBeam && k.name == "beamsets" || k.ns == nsSli && k.name == "vertices") {
			continue // empty ones mean the same as none
		}
		out = append(out, k)
	}
	if n.ns == nsSli && n.name == "slicestack" {
		sort.SliceStable(out, func(i, j int) bool { return out[i].name > out[j].name }) // references first
	}
	return out
}

var conNumber = regexp.MustCompile(`^[+-]?(([0-9]+(\.[0-9]+)?)|(\.[0-9]+))([eE][+-]?[0-9]+)?$`)

func (c *conCompare) number(want, got string) bool {
	w, err := strconv.ParseFloat(want, 32)
	g, err2 := strconv.ParseFloat(got, 32)
	if err != nil || err2 != nil || !conNumber.MatchString(got) {
		return false
	}
	return c.q(float32(w)) == float32(g)
}

func (c *conCompare) same(want nattr, got string) bool {
	switch want.kind {
	case 'f', 'F':
		return c.number(want.val, got)
	case 'g', 'm':
		w, g := strings.Fields(want.val), strings.Split(got, " ")
		if len(w) == 0 && got == "" {
			return true
		}
		if len(w) != len(g) {
			return false
		}
		for i := range w {
			if !c.number(w[i], g[i]) {
				return false
			}
		}
		return true
	case 'c':
		return conColor(want.val) == conColor(got)
	}
	if want.ns == "" && want.name == "preserve" {
		return want.val == got || (want.val == "1" || want.val == "true") == (got == "1" || got == "true")
	}
	if want.ns == "" && want.name == "requiredextensions" {
		w, g := strings.Fields(want.val), strings.Split(got, " ")
		sort.Strings(w)
		sort.Strings(g)
		return strings.Join(w, " ") == strings.Join(g, " ")
	}
	return want.val == got
}

func conColor(s string) string {
	s = strings.ToUpper(s)
	if len(s) == 7 {
		s += "FF"
	}
	return s
}

// conGrammar is what the schemas of the specifications say about the elements:
// the attributes with their types (! for required ones) and the content, a
// sequence of names with ? * or +. "any" stands for elements of other
// name spaces, (a|b) for a choice and # for text.
var conSchemas = map[string]map[string][2]string{
	nsCore: {
		"model":         {"unit:unit thumbnail:string requiredextensions:string", "metadata* resources build any*"},
		"metadata":      {"name:name! preserve:boolean type:string", "#"},
		"metadatagroup": {"", "metadata+"},
		"resources":     {"", "(basematerials|any)* object*"},
		"basematerials": {"id:id!", "base+"},
		"base":          {"name:string! displaycolor:color!", ""},
		"object":        {"id:id! type:objecttype thumbnail:uri partnumber:string name:string pid:id pindex:index", "metadatagroup? (mesh|components)"},
		"mesh":          {"", "vertices triangles any*"},
		"vertices":      {"", "vertex*"},
		"vertex":        {"x:number! y:number! z:number!", ""},
		"triangles":     {"", "triangle*"},
		"triangle":      {"v1:index! v2:index! v3:index! pid:id p1:index p2:index p3:index", ""},
		"components":    {"", "component*"},
		"component":     {"objectid:id! transform:matrix", ""},
		"build":         {"", "item*"},
		"item":          {"objectid:id! transform:matrix partnumber:string", "metadatagroup?"},
	},
	nsMat: {
		"texture2d":          {"id:id! path:uri! contenttype:texturetype! tilestyleu:tile tilestylev:tile filter:filter", ""},
		"colorgroup":         {"id:id!", "color+"},
		"color":              {"color:color!", ""},
		"texture2dgroup":     {"id:id! texid:id!", "tex2coord+"},
		"tex2coord":          {"u:number! v:number!", ""},
		"compositematerials": {"id:id! matid:id! matindices:indices!", "composite+"},
		"composite":          {"values:numbers!", ""},
		"multiproperties":    {"id:id! pids:ids! blendmethods:blends", "multi+"},
		"multi":              {"pindices:indices!", ""},
	},
	nsSli: {
		"slicestack": {"id:id! zbottom:number", "sliceref* slice*"},
		"sliceref":   {"slicestackid:id! slicepath:uri!", ""},
		"slice":      {"ztop:number!", "vertices? polygon*"},
		"vertices":   {"", "vertex*"},
		"vertex":     {"x:number! y:number!", ""},
		"polygon":    {"startv:index!", "segment+"},
		"segment":    {"v2:index! pid:id p1:index p2:index", ""},
	},
	nsBeam: {
		"beamlattice": {"minlength:positive! radius:positive! clippingmode:clip clippingmesh:id representationmesh:id cap:cap", "beams beamsets?"},
		"beams":       {"", "beam*"},
		"beam":        {"v1:index! v2:index! r1:positive r2:positive cap1:cap cap2:cap", ""},
		"beamsets":    {"", "beamset*"},
		"beamset":     {"name:string identifier:string", "ref*"},
		"ref":         {"index:index!", ""},
	},
}

// conForeign are the attributes extensions define for core elements.
var conForeign = map[string]string{
	nsXMLs + " model":     "lang:string",
	nsProd + " build":     "UUID:uuid",
	nsProd + " item":      "UUID:uuid path:uri",
	nsProd + " object":    "UUID:uuid",
	nsProd + " component": "UUID:uuid path:uri",
	nsSli + " object":     "slicestackid:id meshresolution:resolution",
}

const conNum = `[+-]?(([0-9]+(\.[0-9]+)?)|(\.[0-9]+))([eE][+-]?[0-9]+)?`

var conTypes = map[string]*regexp.Regexp{}

func init() {
	for k, v := range map[string]string{
		"string": `(?s).*`, "uri": `/.*[^/]`, "name": `[^\s:]+(:[^\s:]+)?`, "boolean": "true|false|1|0",
		"unit": "micron|millimeter|centimeter|inch|foot|meter", "objecttype": "model|support|solidsupport|surface|other",
		"id": `[1-9][0-9]{0,9}`, "index": `0|[1-9][0-9]{0,9}`, "number": conNum, "positive": `\+?(([0-9]+(\.[0-9]+)?)|(\.[0-9]+))([eE][+-]?[0-9]+)?`,
		"color": `#[0-9A-Fa-f]{6}([0-9A-Fa-f]{2})?`, "matrix": conNum + `( ` + conNum + `){11}`,
		"numbers": conNum + `( ` + conNum + `)*`, "ids": `[1-9][0-9]{0,9}( [1-9][0-9]{0,9})*`, "indices": `([0-9]+( [0-9]+)*)?`,
		"texturetype": "image/png|image/jpeg", "tile": "wrap|mirror|clamp|none", "filter": "auto|linear|nearest",
		"blends": "((mix|multiply)( (mix|multiply))*)?", "clip": "none|inside|outside", "cap": "sphere|hemisphere|butt",
		"uuid": `[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}`, "resolution": "fullres|lowres",
	} {
		conTypes[k] = regexp.MustCompile(`^(` + v + `)$`)
	}
	for _, els := range conSchemas {
		for _, d := range els {
			for _, p := range strings.Fields(d[1]) {
				conContent(p)
			}
		}
	}
}

// conContent splits a piece of a sequence into names and bounds.
func conContent(p string) (names []string, min, max int) {
	min, max = 1, 1
	switch p[len(p)-1] {
	case '?':
		min = 0
	case '*':
		min, max = 0, 1<<31
	case '+':
		max = 1 << 31
	default:
		p += " "
	}
	p = strings.Trim(p[:len(p)-1], "()")
	return strings.Split(p, "|"), min, max
}

func conGrammar(t *T, what string, root *node) {
	rules := 0
	root.walk(func(n *node) {
		els, ok := conSchemas[n.ns]
		if !ok {
			return
		}
		fail := func(f string, a ...interface{}) {
			t.Fatal("grammar:"+n.name, "%s%s: %s", what, conPath(n), fmt.Sprintf(f, a...))
		}
		d, ok := els[n.name]
		if !ok {
			fail("no specification has such an element")
		}
		check := func(ns, decl string) {
			left := map[string]string{}
			for _, f := range strings.Fields(decl) {
				i := strings.IndexByte(f, ':')
				left[f[:i]] = f[i+1:]
			}
			for _, a := range n.attrs {
				if a.ns != ns {
					continue
				}
				typ, ok := left[a.name]
				if !ok {
					fail("no specification has the attribute {%s}%s", ns, a.name)
				}
				delete(left, a.name)
				if !conTypes[strings.TrimSuffix(typ, "!")].MatchString(a.val) {
					fail("the attribute %s=%q is no %s", a.name, a.val, strings.TrimSuffix(typ, "!"))
				}
				rules++
			}
			for _, a := range sortedKeysOf(left) {
				if strings.HasSuffix(left[a], "!") {
					fail("the attribute %s is required", a)
				}
			}
		}
		check("", d[0])
		spaces := map[string]bool{}
		for _, a := range n.attrs {
			if a.ns == "" || spaces[a.ns] {
				continue
			}
			spaces[a.ns] = true
			if decl, ok := conForeign[a.ns+" "+n.name]; ok {
				check(a.ns, decl)
			} else if conSchemas[a.ns] != nil || a.ns == nsProd {
				fail("no specification has the attribute {%s}%s", a.ns, a.name)
			}
		}
		if d[1] == "#" {
			for _, k := range n.kids {
				if !k.isText {
					fail("there is an element %s", k.name)
				}
			}
			return
		}
		kids := conKids(n)
		i := 0
		for _, p := range strings.Fields(d[1]) {
			names, min, max := conContent(p)
			count := 0
			for ; i < len(kids) && count < max; i++ {
				ok := false
				for _, name := range names {
					ok = ok || !kids[i].isText && (kids[i].ns == n.ns && kids[i].name == name || name == "any" && kids[i].ns != n.ns && kids[i].ns != "")
				}
				if !ok {
					break
				}
				count++
			}
			if count < min {
				fail("there are %d of %s", count, p)
			}
			rules++
		}
		if i < len(kids) {
			fail("%s%q is not allowed as content %d", kids[i].name, kids[i].text, i)
		}
	})
	t.Count("grammar_rules_applied", rules)
}

func sortedKeysOf(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
