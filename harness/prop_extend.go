package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/spec"
)

// The extensions below are what a user of the library registers. Their
// decoders, encoders and validators are the monitors: they note what the
// library does with them.
const (
	nsRecA = "http://verif.test/recorder/a"
	nsRecB = "http://verif.test/recorder/b" // validates
	relRec = "http://verif.test/rel"
)

func init() {
	register(&Prop{ID: "C32", Race: true, Level: "exploration", Rule: "one evaluation is one registered extension element or attribute group, or one call of a validator, whose calls by the library were compared with what the document or the model says; distinct_nontrivial counts distinct documents with five or more of them",
		Assumptions: []string{
			"elements of extensions stand where the library looks for them: in model, resources and mesh; attributes on the core elements that keep attributes of other name spaces",
			"values given to decoders are only valid during the call",
			"declarations of name spaces may or may not be among the attributes",
		},
		Run: func(c *Ctx) {
			registerRecorders()
			for i := 0; i < c.N(1500, 40000); i++ {
				c.Case("extend", extendCase)
			}
			for i := 0; i < c.N(700, 20000); i++ {
				c.Case("faults", extendFaults)
			}
			for i := 0; i < c.N(700, 20000); i++ {
				c.Case("validate", extendValidate)
			}
			for i := 0; i < c.N(60, 2000); i++ {
				c.Case("concurrent", extendConcurrent)
			}
		}})
}

var recOnce sync.Once

func registerRecorders() {
	recOnce.Do(func() {
		spec.Register(nsRecA, recSpec{nsRecA})
		spec.Register(nsRecB, recValidSpec{recSpec{nsRecB}})
	})
}

type recSpec struct{ ns string }

type recValidSpec struct{ recSpec }

type recErr struct{ what string }

func (e *recErr) Error() string { return "recorder: " + e.what }

// recNode is an element of a recorder extension.
type recNode struct {
	name    xml.Name
	attrs   []xml.Attr
	items   []interface{} // string, *recNode or xml.Token of a kind "tok"
	started int
	ended   int
	misuse  string
	written int32
}

func (n *recNode) note(what string, a ...interface{}) {
	if n.misuse == "" {
		n.misuse = n.name.Local + ": " + fmt.Sprintf(what, a...)
	}
}

func (n *recNode) attr(name string) (string, bool) {
	for _, a := range n.attrs {
		if a.Name.Space == "" && a.Name.Local == name {
			return a.Value, true
		}
	}
	return "", false
}

func isDecl(n xml.Name) bool {
	return n.Space == "xmlns" || n.Space == "http://www.w3.org/2000/xmlns/" || (n.Space == "" && n.Local == "xmlns")
}

// recElement is the value kept in the model.
type recElement struct{ *recNode }

func (e *recElement) XMLName() xml.Name { return e.name }
func (e *recElement) Identify() uint32 {
	s, _ := e.attr("id")
	v, _ := strconv.ParseUint(s, 10, 32)
	return uint32(v)
}

func (e *recElement) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	atomic.AddInt32(&e.written, 1)
	if p, ok := e.attr("rel"); ok {
		x.AddRelationship(spec.Relationship{Path: p, Type: relRec})
	}
	e.write(x)
	return nil
}

func (n *recNode) write(x spec.Encoder) {
	s := xml.StartElement{Name: n.name, Attr: append([]xml.Attr(nil), n.attrs...)}
	if len(n.items) == 0 && len(n.name.Local)%2 == 0 {
		x.SetAutoClose(true)
		x.EncodeToken(s)
		x.SetAutoClose(false)
		return
	}
	x.EncodeToken(s)
	for _, it := range n.items {
		switch it := it.(type) {
		case string:
			x.EncodeToken(xml.CharData(it))
		case *recNode:
			it.write(x)
		default:
			x.EncodeToken(it)
		}
	}
	x.EncodeToken(s.End())
}

// recBare is a value which is no resource.
type recBare struct{ e *recElement }

func (e recBare) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	return e.e.Marshal3MF(x, start)
}

type recGroup struct {
	ns     string
	parent xml.Name
	attrs  []string
}

func (g *recGroup) Namespace() string { return g.ns }

func (g *recGroup) Unmarshal3MFAttr(a spec.XMLAttr) error {
	if a.Name.Space != g.ns {
		g.attrs = append(g.attrs, "FOREIGN "+a.Name.Space)
	}
	g.attrs = append(g.attrs, a.Name.Local+"="+string(a.Value))
	if strings.HasPrefix(string(a.Value), "bad ") {
		return &recErr{string(a.Value)}
	}
	return nil
}

func (g *recGroup) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	if start.Name.Local != g.parent.Local {
		g.attrs = append(g.attrs, "WRITTEN ON "+start.Name.Local)
	}
	for _, a := range g.attrs {
		i := strings.IndexByte(a, '=')
		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: g.ns, Local: a[:i]}, Value: a[i+1:]})
	}
	return nil
}

func (s recSpec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
	return &recGroup{ns: s.ns, parent: parent}
}

func (s recSpec) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
	if strings.HasPrefix(name.Local, "nil") {
		return nil
	}
	e := &recElement{&recNode{name: name}}
	if name.Space != s.ns {
		e.note("offered to the extension %s", s.ns)
	}
	var el interface{} = e
	if strings.HasPrefix(name.Local, "opq") {
		el = 7
	} else if strings.HasPrefix(name.Local, "bare") {
		el = recBare{e}
	}
	switch {
	case strings.HasPrefix(name.Local, "leaf"):
		return &recLeaf{e.recNode, el}
	case strings.HasPrefix(name.Local, "tok"):
		return &recTok{recLeaf{e.recNode, el}}
	case strings.HasPrefix(name.Local, "dry"):
		return &recDry{recLeaf{e.recNode, el}}
	}
	return &recTree{recDry{recLeaf{e.recNode, el}}}
}

// recLeaf wants neither children nor text.
type recLeaf struct {
	n  *recNode
	el interface{}
}

func (d *recLeaf) Element() interface{} { return d.el }

func (d *recLeaf) Start(attrs []spec.XMLAttr) error {
	d.n.started++
	if d.n.started > 1 || d.n.ended > 0 || len(d.n.items) > 0 {
		d.n.note("started %d times", d.n.started)
	}
	for _, a := range attrs {
		if !isDecl(a.Name) {
			d.n.attrs = append(d.n.attrs, xml.Attr{Name: a.Name, Value: string(a.Value)})
		}
	}
	if v, ok := d.n.attr("fail"); ok {
		return &recErr{v}
	}
	return nil
}

func (d *recLeaf) End() {
	d.n.ended++
	if d.n.ended > 1 || d.n.started != 1 {
		d.n.note("ended %d times, started %d times", d.n.ended, d.n.started)
	}
}

func (d *recLeaf) in(what string) {
	if d.n.started != 1 || d.n.ended != 0 {
		d.n.note("%s outside of the element (started %d, ended %d)", what, d.n.started, d.n.ended)
	}
}

// recTok keeps the tokens.
type recTok struct{ recLeaf }

func (d *recTok) AppendToken(t xml.Token) {
	d.in("token")
	switch t := t.(type) {
	case xml.StartElement:
		s := xml.StartElement{Name: t.Name}
		for _, a := range t.Attr {
			if !isDecl(a.Name) {
				s.Attr = append(s.Attr, a)
			}
		}
		d.n.items = append(d.n.items, s)
	default:
		d.n.items = append(d.n.items, xml.CopyToken(t))
	}
}

// recDry wants children only.
type recDry struct{ recLeaf }

func (d *recDry) Child(name xml.Name) (int, spec.ElementDecoder) {
	d.in("child")
	if strings.HasPrefix(name.Local, "nil") {
		return -1, nil
	}
	k := &recNode{name: name}
	d.n.items = append(d.n.items, k)
	l := recLeaf{n: k}
	switch {
	case strings.HasPrefix(name.Local, "leaf"):
		return 3, &l
	case strings.HasPrefix(name.Local, "tok"):
		return -1, &recTok{l}
	case strings.HasPrefix(name.Local, "dry"):
		return -1, &recDry{l}
	}
	return len(d.n.items), &recTree{recDry{l}}
}

// recTree wants everything.
type recTree struct{ recDry }

func (d *recTree) CharData(b []byte) {
	d.in("text")
	d.n.items = append(d.n.items, string(b))
}

// lines describes what was recorded.
func (n *recNode) String() string {
	var b strings.Builder
	n.text(&b)
	return b.String()
}

func recAttrs(b *strings.Builder, as []xml.Attr) {
	var l []string
	for _, a := range as {
		l = append(l, fmt.Sprintf("{%s}%s=%q", a.Name.Space, a.Name.Local, a.Value))
	}
	sort.Strings(l)
	b.WriteString(strings.Join(l, " "))
}

func (n *recNode) text(b *strings.Builder) {
	fmt.Fprintf(b, "<{%s}%s ", n.name.Space, n.name.Local)
	recAttrs(b, n.attrs)
	b.WriteString(">")
	var run string
	flush := func() {
		if strings.Trim(run, " \t\r\n") != "" {
			fmt.Fprintf(b, "%q", run)
		}
		run = ""
	}
	for _, it := range n.items {
		switch it := it.(type) {
		case string:
			run += it
			continue
		case xml.CharData:
			run += string(it)
			continue
		}
		flush()
		switch it := it.(type) {
		case *recNode:
			it.text(b)
		case xml.StartElement:
			fmt.Fprintf(b, "<{%s}%s ", it.Name.Space, it.Name.Local)
			recAttrs(b, it.Attr)
			b.WriteString(">")
		case xml.EndElement:
			fmt.Fprintf(b, "</{%s}%s>", it.Name.Space, it.Name.Local)
		default:
			fmt.Fprintf(b, "%T", it)
		}
	}
	flush()
	fmt.Fprintf(b, "</{%s}%s>", n.name.Space, n.name.Local)
}

func (n *recNode) each(f func(*recNode)) {
	f(n)
	for _, it := range n.items {
		if k, ok := it.(*recNode); ok {
			k.each(f)
		}
	}
}

// --- the documents

var recParents = map[string]bool{"model": true, "build": true, "item": true, "metadatagroup": true, "resources": true, "basematerials": true, "base": true,
	"object": true, "mesh": true, "vertices": true, "triangles": true, "triangle": true, "components": true, "component": true}

type recDoc struct {
	r      *Rand
	want   []string
	values int
	nextID int
	rels   map[string][]string // part to targets
	atts   []go3mf.Attachment
	wantID map[string][]uint32 // part to identifiers of resources
}

func recNS(r *Rand) string { return r.Pick(nsRecA, nsRecA, nsRecB) }

func (d *recDoc) words() string {
	if d.r.P(1, 60) {
		return strings.Repeat("long ", 1+d.r.Intn(900))
	}
	return d.r.Pick("x", "some text", "a<b>&\"c'", "two\nlines", "  padded ", "]]>", "7")
}

// tree makes an element and what the recorder has to see of it.
func (d *recDoc) tree(ns, kind string, depth int) *node {
	r := d.r
	n := &node{ns: ns, name: kind + r.Pick("", "1", "Two", ".x", "_é"), idx: -1, holds: true, foreign: true}
	for _, a := range []string{"a", "b", "name", "x", "v1", "path", "uuid", "pid"} {
		if r.P(1, 6) {
			sp := ""
			if r.P(1, 5) {
				sp = r.Pick(ns, nsProd, "http://example.com/foreign", nsRecB)
			}
			n.attrs = append(n.attrs, nattr{sp, a, d.words(), 0})
		}
	}
	if r.P(1, 20) {
		for i := r.Intn(40); i > 0; i-- {
			n.attrs = append(n.attrs, nattr{"", fmt.Sprint("many", i), fmt.Sprint(i), 0})
		}
	}
	k := 0
	if depth < 4 {
		k = r.Intn(4)
		if r.P(1, 60) {
			k, depth = r.Intn(300), 3
		}
	}
	for ; k > 0; k-- {
		if r.P(1, 3) && (len(n.kids) == 0 || !n.kids[len(n.kids)-1].isText) {
			n.add(&node{isText: true, text: d.words(), foreign: true})
			continue
		}
		cns, ck := ns, r.Pick("tree", "tree", "leaf", "tok", "dry", "nil")
		if r.P(1, 4) {
			// called like something of the core specification
			cns, ck = r.Pick(nsCore, nsCore, nsMat, nsBeam, ns, nsRecB), r.Pick("object", "mesh", "vertex", "model", "metadata", "resources", "build", "triangle", "item", "beamlattice")
		}
		n.add(d.tree(cns, ck, depth+1))
	}
	return n
}

// expected is the recording of a node by a decoder of the kind of its name.
func expectedRec(n *node) *recNode {
	e := &recNode{name: xml.Name{Space: n.ns, Local: n.name}}
	for _, a := range n.attrs {
		e.attrs = append(e.attrs, xml.Attr{Name: xml.Name{Space: a.ns, Local: a.name}, Value: a.val})
	}
	leaf, tok, dry := strings.HasPrefix(n.name, "leaf"), strings.HasPrefix(n.name, "tok"), strings.HasPrefix(n.name, "dry")
	for _, k := range n.kids {
		switch {
		case leaf:
		case tok:
			e.items = append(e.items, tokensOf(k)...)
		case k.isText:
			if !dry {
				e.items = append(e.items, k.text)
			}
		case strings.HasPrefix(k.name, "nil"):
		default:
			e.items = append(e.items, expectedRec(k))
		}
	}
	return e
}

func tokensOf(n *node) (out []interface{}) {
	if n.isText {
		return []interface{}{xml.CharData(n.text)}
	}
	s := xml.StartElement{Name: xml.Name{Space: n.ns, Local: n.name}}
	for _, a := range n.attrs {
		s.Attr = append(s.Attr, xml.Attr{Name: xml.Name{Space: a.ns, Local: a.name}, Value: a.val})
	}
	out = append(out, s)
	for _, k := range n.kids {
		out = append(out, tokensOf(k)...)
	}
	return append(out, s.End())
}

// place puts elements and attributes of the extensions into the tree of a part.
func (d *recDoc) place(root *node, part string, rate int) {
	r := d.r
	insert := func(n, k *node) {
		i := r.Intn(len(n.kids) + 1)
		n.kids = append(n.kids, nil)
		copy(n.kids[i+1:], n.kids[i:])
		n.kids[i] = k
		k.parent = n
	}
	var nodes []*node
	root.walk(func(n *node) { nodes = append(nodes, n) })
	for _, n := range nodes {
		if n.foreign || n.ns != nsCore {
			continue
		}
		if n.name == "model" || n.name == "resources" || n.name == "mesh" {
			for k := r.Intn(4); k > 0 && r.P(2, rate); k-- {
				kind := r.Pick("tree", "tree", "tree", "leaf", "tok", "dry", "nil", "opq", "bare")
				x := d.tree(recNS(r), kind, 0)
				if n.name == "resources" && (kind != "opq" && kind != "bare" && kind != "nil") && r.P(2, 3) {
					d.nextID++
					id := 1000000 + d.nextID
					x.attrs = append(x.attrs, nattr{"", "id", fmt.Sprint(id), 0})
					d.wantID[part] = append(d.wantID[part], uint32(id))
				}
				if n.name != "resources" && kind == "bare" || kind == "tree" {
					if r.P(1, 5) && d.rels != nil {
						p := fmt.Sprintf("/Other/rec%d.bin", len(d.atts))
						d.atts = append(d.atts, go3mf.Attachment{Path: p, ContentType: "application/x-rec", Stream: bytes.NewReader([]byte(p))})
						x.attrs = append(x.attrs, nattr{"", "rel", p, 0})
						d.rels[part] = append(d.rels[part], p)
					}
				}
				insert(n, x)
			}
		}
		if recParents[n.name] && r.P(1, rate) && !(n.name == "metadatagroup" && len(n.kids) == 0) {
			ns := recNS(r)
			for k := 1 + r.Intn(3); k > 0; k-- {
				n.attrs = append(n.attrs, nattr{ns, fmt.Sprintf("at%d", k), d.words(), 0})
			}
			if r.P(1, 4) {
				n.attrs = append(n.attrs, nattr{nsRecB + nsRecA[len(nsRecA)-2:], "at", "near", 0}, nattr{recNS(r), "at9", d.words(), 0})
			}
		}
	}
}

// expect lists what a part has to give.
func (d *recDoc) expect(part string, root *node) {
	var visit func(n *node, loc string)
	attrs := func(n *node, loc string) {
		for _, ns := range []string{nsRecA, nsRecB} {
			var l []string
			for _, a := range n.attrs {
				if a.ns == ns {
					l = append(l, a.name+"="+a.val)
				}
			}
			if len(l) > 0 {
				sort.Strings(l)
				d.want = append(d.want, fmt.Sprintf("%s @%s of %s %q", loc, ns, n.name, l))
				d.values++
			}
		}
	}
	visit = func(n *node, loc string) {
		if n.name != "model" || part == "" {
			attrs(n, loc)
		}
		count := map[string]int{}
		anys, assets := 0, 0
		for _, k := range n.kids {
			if k.isText {
				continue
			}
			if k.ns == nsRecA || k.ns == nsRecB {
				kind := strings.TrimRight(k.name[:3], "")
				rec := expectedRec(k)
				if n.name == "resources" {
					if kind == "nil" {
						continue
					}
					if kind == "opq" || kind == "bar" {
						var b strings.Builder
						tk := &recNode{name: rec.name}
						tk.items = tokensOf(k)
						tk.text(&b)
						d.want = append(d.want, fmt.Sprintf("%s/asset[%d] unknown %s", loc, assets, b.String()))
					} else {
						d.want = append(d.want, fmt.Sprintf("%s/asset[%d] %s", loc, assets, rec))
					}
					assets++
					d.values++
				} else if n.name == "model" || n.name == "mesh" {
					if kind == "nil" || kind == "opq" {
						continue
					}
					d.want = append(d.want, fmt.Sprintf("%s/any[%d] %s", loc, anys, rec))
					anys++
					d.values++
				}
				continue
			}
			if k.foreign && k.ns == nsCore {
				continue // futureelement
			}
			if n.name == "resources" && !(k.ns == nsCore && k.name == "object") {
				assets++
			}
			if k.foreign || k.ns != nsCore {
				continue
			}
			if part != "" && k.name == "build" {
				continue
			}
			l := loc + "/" + k.name
			switch k.name {
			case "object", "basematerials", "base", "triangle", "item", "component":
				l = fmt.Sprintf("%s[%d]", l, count[k.name])
			}
			count[k.name]++
			if recParents[k.name] {
				visit(k, l)
			}
		}
	}
	visit(root, part+"/model")
}

// found lists what the recorders in a model saw.
func recFound(m *go3mf.Model) (out []string, els map[string][]*recNode) {
	els = map[string][]*recNode{}
	part := ""
	attrs := func(loc string, as spec.AnyAttr) {
		for _, a := range as {
			if g, ok := a.(*recGroup); ok {
				l := append([]string(nil), g.attrs...)
				sort.Strings(l)
				name := g.parent.Local
				if g.parent.Space != nsCore {
					name = g.parent.Space + " " + name
				}
				out = append(out, fmt.Sprintf("%s @%s of %s %q", loc, g.ns, name, l))
			}
		}
	}
	element := func(loc string, n *recNode) {
		els[part] = append(els[part], n)
		out = append(out, loc+" "+n.String())
		n.each(func(k *recNode) {
			if k.misuse != "" {
				out = append(out, loc+" MISUSE "+k.misuse)
			}
			if k.started != 1 || k.ended != 1 {
				out = append(out, fmt.Sprintf("%s MISUSE %s: started %d times, ended %d times", loc, k.name.Local, k.started, k.ended))
			}
		})
	}
	any := func(loc string, as spec.Any) {
		i := 0
		for _, a := range as {
			switch a := a.(type) {
			case *recElement:
				element(fmt.Sprintf("%s/any[%d]", loc, i), a.recNode)
				i++
			case recBare:
				element(fmt.Sprintf("%s/any[%d]", loc, i), a.e.recNode)
				i++
			}
		}
	}
	res := func(loc string, rs *go3mf.Resources) {
		loc += "/resources"
		attrs(loc, rs.AnyAttr)
		nb := 0
		for i, a := range rs.Assets {
			switch a := a.(type) {
			case *recElement:
				element(fmt.Sprintf("%s/asset[%d]", loc, i), a.recNode)
			case *go3mf.UnknownAsset:
				if n := a.XMLName(); n.Space == nsRecA || n.Space == nsRecB {
					tk := &recNode{name: n}
					for _, t := range a.Token {
						if s, ok := t.(xml.StartElement); ok {
							c := xml.StartElement{Name: s.Name}
							for _, at := range s.Attr {
								if !isDecl(at.Name) {
									c.Attr = append(c.Attr, at)
								}
							}
							t = c
						}
						tk.items = append(tk.items, t)
					}
					out = append(out, fmt.Sprintf("%s/asset[%d] unknown %s", loc, i, tk))
				}
			case *go3mf.BaseMaterials:
				l := fmt.Sprintf("%s/basematerials[%d]", loc, nb)
				nb++
				attrs(l, a.AnyAttr)
				for j, b := range a.Materials {
					attrs(fmt.Sprintf("%s/base[%d]", l, j), b.AnyAttr)
				}
			}
		}
		for i, o := range rs.Objects {
			l := fmt.Sprintf("%s/object[%d]", loc, i)
			attrs(l, o.AnyAttr)
			attrs(l+"/metadatagroup", o.Metadata.AnyAttr)
			if o.Mesh != nil {
				attrs(l+"/mesh", o.Mesh.AnyAttr)
				any(l+"/mesh", o.Mesh.Any)
				attrs(l+"/mesh/vertices", o.Mesh.Vertices.AnyAttr)
				attrs(l+"/mesh/triangles", o.Mesh.Triangles.AnyAttr)
				for j := range o.Mesh.Triangles.Triangle {
					attrs(fmt.Sprintf("%s/mesh/triangles/triangle[%d]", l, j), o.Mesh.Triangles.Triangle[j].AnyAttr)
				}
			}
			if o.Components != nil {
				attrs(l+"/components", o.Components.AnyAttr)
				for j, c := range o.Components.Component {
					attrs(fmt.Sprintf("%s/components/component[%d]", l, j), c.AnyAttr)
				}
			}
		}
	}
	attrs("/model", m.AnyAttr)
	any("/model", m.Any)
	attrs("/model/build", m.Build.AnyAttr)
	for i, it := range m.Build.Items {
		l := fmt.Sprintf("/model/build/item[%d]", i)
		attrs(l, it.AnyAttr)
		attrs(l+"/metadatagroup", it.Metadata.AnyAttr)
	}
	res("/model", &m.Resources)
	for _, p := range sortedKeys(m.Childs) {
		part = p
		any(p+"/model", m.Childs[p].Any)
		res(p+"/model", &m.Childs[p].Resources)
	}
	return
}

type recPackage struct {
	*recDoc
	root   []byte
	childs map[string][]byte
	pkg    []byte
	trees  map[string]*node
	m      *go3mf.Model
}

func newRecPackage(t *T, rate int, change func(*recPackage)) *recPackage {
	r := t.R
	o := anyGen(r)
	o.Childs = r.P(1, 2)
	m := genModel(r, o)
	for _, ns := range []string{nsRecA, nsRecB} {
		if r.P(2, 3) {
			m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: ns, LocalName: "rec" + ns[len(ns)-1:], IsRequired: r.P(1, 4)})
		}
	}
	p := &recPackage{recDoc: &recDoc{r: r, rels: map[string][]string{}, wantID: map[string][]uint32{}}, trees: map[string]*node{}, childs: map[string][]byte{}, m: m}
	s := &ser{r: r}
	p.trees[""] = s.model(m)
	for _, c := range sortedKeys(m.Childs) {
		p.trees[c] = s.child(m, c)
	}
	parts := append([]string{""}, sortedKeys(m.Childs)...)
	for _, c := range parts {
		p.place(p.trees[c], c, rate)
	}
	if change != nil {
		change(p)
	}
	st := randStyle(r)
	for _, c := range parts {
		p.expect(c, p.trees[c])
		if rt := []int{0, 8, 30}[r.Intn(3)]; rt > 0 {
			s.noise(p.trees[c], rt)
		}
		x, _, _ := render(r, p.trees[c], m.Extensions, st)
		t.Artifact("part"+c+".xml", []byte(x))
		if c == "" {
			p.root = []byte(x)
		} else {
			p.childs[c] = []byte(x)
		}
	}
	if len(p.childs) > 0 {
		p.pkg = multiPackage(p.root, p.childs, r.Bool())
	} else {
		p.pkg = singlePackage(p.root)
	}
	return p
}

func diffSets(want, got []string) string {
	want, got = append([]string(nil), want...), append([]string(nil), got...)
	sort.Strings(want)
	sort.Strings(got)
	return diffLines(want, got)
}

func extendCase(t *T) {
	p := newRecPackage(t, []int{3, 3, 8, 30}[t.R.Intn(4)], nil)
	strict := t.R.P(3, 4)
	m, err := decode(p.pkg, strict)
	if err != nil {
		t.Fatal("decode-error", "a package with registered extensions does not decode (strict=%v): %v", strict, err)
	}
	got, els := recFound(m)
	if d := diffSets(p.want, got); d != "" {
		t.Fatal("recorded", "the registered extensions did not see what the document says:\n%s", d)
	}
	t.Eval(p.values)
	t.Count("values_recorded", p.values)
	if p.values >= 5 {
		t.Distinct(p.root, strings.Join(p.want, "\n"))
	}
	for _, l := range els {
		for _, n := range l {
			t.Seen("kinds", n.name.Local[:3])
		}
	}
	for part, ids := range p.wantID {
		for _, id := range ids {
			a, ok := m.FindAsset(part, id)
			if e, is := a.(*recElement); !ok || !is || e.Identify() != id {
				t.Fatal("find-asset", "FindAsset(%q, %d) gives %T %v", part, id, a, ok)
			}
		}
	}
	// The extensions write themselves, once each.
	prec := t.R.Range(2, 9)
	m.Attachments = append(m.Attachments, p.atts...)
	b, err := encode(m, prec)
	if err != nil {
		t.Fatal("encode-error", "a model with registered extensions does not encode: %v", err)
	}
	for part, l := range els {
		for _, n := range l {
			if n.written != 1 {
				t.Fatal("written", "the element %s of the part %q was asked %d times to write itself", n.name.Local, part, n.written)
			}
		}
	}
	if after, _ := recFound(m); diffSets(got, after) != "" {
		t.Fatal("write-attrs", "encoding asked the extension for attributes of another element:\n%s", diffSets(got, after))
	}
	t.Artifact("encoded.3mf", b)
	m2, err := decode(b, true)
	if err != nil {
		t.Fatal("decode2", "what was encoded does not decode: %v", err)
	}
	got2, _ := recFound(m2)
	if d := diffSets(p.want, got2); d != "" {
		t.Fatal("round-trip", "the registered extensions did not see again what they wrote:\n%s", d)
	}
	// and their relationships are those of the part
	rel := func(rs []go3mf.Relationship) (l []string) {
		for _, r := range rs {
			if r.Type == relRec {
				l = append(l, r.Path)
			}
		}
		return
	}
	check := func(part string, rs []go3mf.Relationship) {
		if d := diffSets(p.rels[part], rel(rs)); d != "" {
			t.Fatal("relationships", "the part %q does not have the relationships added by the extension:\n%s", part, d)
		}
		t.Count("relationships", len(p.rels[part]))
	}
	check("", m2.Relationships)
	for c, cm := range m2.Childs {
		check(c, cm.Relationships)
	}
	// alone
	if len(m.Childs) == 0 {
		var m3 go3mf.Model
		if err := go3mf.UnmarshalModel(p.root, &m3); err != nil {
			t.Fatal("unmarshal-error", "UnmarshalModel: %v", err)
		}
		got3, _ := recFound(&m3)
		if d := diffSets(p.want, got3); d != "" {
			t.Fatal("unmarshal", "UnmarshalModel does not give the registered extensions what the document says:\n%s", d)
		}
	}
}

var recIndex = regexp.MustCompile(`\[\d+\]`)

// extendFaults: the errors of an extension are reported where they are.
func extendFaults(t *T) {
	r := t.R
	var wants []string // text|xpath without indices, in document order
	bad := ""
	p := newRecPackage(t, 3, func(p *recPackage) {
		parts := append([]string{""}, sortedKeys(p.m.Childs)...)
		bad = parts[r.Intn(len(parts))]
		p.rels = nil
		n := 0
		rate := []int{2, 5, 20}[r.Intn(3)]
		var visit func(n *node, rec bool)
		visit = func(k *node, rec bool) {
			switch {
			case rec:
				if r.P(1, rate) {
					n++
					k.attrs = append(k.attrs, nattr{"", "fail", fmt.Sprint("bad element ", n), 0})
					wants = append(wants, fmt.Sprintf("recorder: bad element %d|%s", n, recIndex.ReplaceAllString(k.xpath(), "")))
				}
			case k.ns == nsCore && !k.foreign && recParents[k.name] && !(k.name == "model" && bad != "") && r.P(1, rate):
				// one error per element
				had := false
				for i := range k.attrs {
					had = had || k.attrs[i].ns == nsRecA
				}
				if !had {
					n++
					k.attrs = append(k.attrs, nattr{nsRecA, "wrong", fmt.Sprint("bad attribute ", n), 0})
					wants = append(wants, fmt.Sprintf("recorder: bad attribute %d|%s", n, recIndex.ReplaceAllString(k.xpath(), "")))
				}
			}
			for _, c := range k.kids {
				if c.isText {
					continue
				}
				switch {
				case rec:
					if !strings.HasPrefix(k.name, "leaf") && !strings.HasPrefix(k.name, "tok") && !strings.HasPrefix(c.name, "nil") {
						visit(c, true)
					}
				case c.ns == nsRecA || c.ns == nsRecB:
					if strings.HasPrefix(c.name, "nil") || strings.HasPrefix(c.name, "opq") || strings.HasPrefix(c.name, "bare") && k.name == "resources" {
						continue
					}
					if k.name == "model" || k.name == "resources" || k.name == "mesh" {
						visit(c, true)
					}
				case c.ns == nsCore && !c.foreign && !(bad != "" && c.name == "build"):
					visit(c, false)
				}
			}
		}
		visit(p.trees[bad], false)
	})
	m, err := decode(p.pkg, false)
	var got []string
	for _, e := range flatten(err) {
		var w *specerr.Error
		if !errors.As(e, &w) {
			t.Fatal("fault-type", "the error of an extension arrives as %T %v", e, e)
		}
		var re *recErr
		if !errors.As(e, &re) {
			t.Fatal("fault-type", "%v is no error of an extension", e)
		}
		if w.Path != "" && w.Path != bad && !(bad == "" && w.Path == m.PathOrDefault()) {
			t.Fatal("fault-part", "the error %v has the part %q, want %q", e, w.Path, bad)
		}
		got = append(got, re.Error()+"|"+recIndex.ReplaceAllString(w.XPath(), ""))
	}
	if d := diffLines(wants, got); d != "" {
		t.Fatal("faults", "the errors of the extensions are not those of the document (part %q):\n%s", bad, d)
	}
	t.Eval(len(wants))
	t.Count("faults", len(wants))
	if bad == "" || len(wants) == 0 {
		rec, _ := recFound(m)
		if d := diffSets(p.want, rec); d != "" {
			t.Fatal("recorded-faults", "errors of extensions change what the extensions see:\n%s", d)
		}
	}
	_, err = decode(p.pkg, true)
	fl := flatten(err)
	if len(wants) == 0 {
		if err != nil {
			t.Fatal("strict", "strict: %v", err)
		}
		return
	}
	var re *recErr
	var w *specerr.Error
	if len(fl) != 1 || !errors.As(fl[0], &re) || !errors.As(fl[0], &w) || re.Error()+"|"+recIndex.ReplaceAllString(w.XPath(), "") != wants[0] {
		t.Fatal("strict", "strict: %v, want %s", err, wants[0])
	}
	if len(wants) >= 3 {
		t.Distinct(p.root, strings.Join(wants, "\n"))
	}
}

// --- validators

type valLog struct {
	mu    sync.Mutex
	calls []string
	fail  map[interface{}]*recErr
}

var valLogs sync.Map // *go3mf.Model to *valLog

func (s recValidSpec) Validate(model interface{}, path string, element interface{}) error {
	l, ok := valLogs.Load(model)
	if !ok {
		return nil
	}
	v := l.(*valLog)
	v.mu.Lock()
	defer v.mu.Unlock()
	v.calls = append(v.calls, fmt.Sprintf("%q %T %p", path, element, element))
	if e := v.fail[element]; e != nil {
		return e
	}
	return nil
}

func extendValidate(t *T) {
	r := t.R
	p := newRecPackage(t, 4, nil)
	m, err := decode(p.pkg, false)
	if err != nil {
		t.Fatal("decode-error", "%v", err)
	}
	if r.P(1, 4) {
		m.Path = r.Pick("", "/3D/other.model", "/3D/3dmodel.model")
	}
	n := 0
	for _, e := range m.Extensions {
		if e.Namespace == nsRecB {
			n++
		}
	}
	v := &valLog{fail: map[interface{}]*recErr{}}
	var want, wantErr []string
	add := func(path string, el interface{}, epath, xpath string) {
		bad := r.P(1, 6)
		if bad {
			v.fail[el] = &recErr{fmt.Sprint("fault ", len(v.fail))}
		}
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprintf("%q %T %p", path, el, el))
			if bad {
				wantErr = append(wantErr, fmt.Sprintf("%s|%s|%s", v.fail[el].what, epath, xpath))
			}
		}
	}
	add(m.Path, m, "", "/model")
	res := func(path, epath string, rs *go3mf.Resources) {
		seen := map[interface{}]bool{}
		for i, a := range rs.Assets {
			if !seen[a] {
				add(path, a, epath, fmt.Sprintf("/model/resources/%s[%d]", a.XMLName().Local, i))
				seen[a] = true
			}
		}
		for i, o := range rs.Objects {
			add(path, o, epath, fmt.Sprintf("/model/resources/object[%d]", i))
		}
	}
	res(m.PathOrDefault(), "", &m.Resources)
	for _, c := range sortedKeys(m.Childs) {
		res(c, c, &m.Childs[c].Resources)
	}
	valLogs.Store(m, v)
	err = m.Validate()
	valLogs.Delete(m)
	if d := diffSets(want, v.calls); d != "" {
		t.Fatal("validators", "the validator of the extension (declared %d times) was not asked once for the model, each resource and each object:\n%s", n, d)
	}
	var got []string
	for _, e := range flatten(err) {
		var re *recErr
		var w *specerr.Error
		if errors.As(e, &re) && errors.As(e, &w) {
			got = append(got, fmt.Sprintf("%s|%s|%s", re.what, w.Path, w.XPath()))
		}
	}
	if d := diffSets(wantErr, got); d != "" {
		t.Fatal("validator-errors", "the errors of the validator are not those of Validate:\n%s", d)
	}
	t.Eval(len(want))
	t.Count("validator_calls", len(want))
	t.Count("validator_errors", len(wantErr))
	if len(wantErr) > 0 {
		t.Distinct(p.root, strings.Join(wantErr, "\n"))
	}
}

var recFresh int64

// extendConcurrent decodes at the same time, while further extensions are registered.
func extendConcurrent(t *T) {
	r := t.R
	n := r.Range(2, 6)
	ps := make([]*recPackage, n)
	for i := range ps {
		ps[i] = newRecPackage(t, 4, nil)
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.Intn(4)]))
	msgs := make([]string, n)
	stop := make(chan struct{})
	var reg, wg sync.WaitGroup
	reg.Add(1)
	go func() {
		defer reg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			spec.Register(fmt.Sprintf("http://verif.test/fresh/%d", atomic.AddInt64(&recFresh, 1)%50), recSpec{"fresh"})
			spec.Load(nsRecA)
			runtime.Gosched()
		}
	}()
	for i := range ps {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				m, err := decode(ps[i].pkg, true)
				if err != nil {
					msgs[i] = err.Error()
					return
				}
				got, _ := recFound(m)
				if d := diffSets(ps[i].want, got); d != "" {
					msgs[i] = d
					return
				}
				m.Validate()
				if _, err := encode(m, 4); err != nil && len(ps[i].atts) == 0 {
					msgs[i] = err.Error()
					return
				}
			}
		}()
	}
	wg.Wait()
	close(stop)
	reg.Wait()
	for i, s := range msgs {
		if s != "" {
			t.Fatal("concurrent", "decoder %d of %d: %s", i, n, s)
		}
		t.Eval(ps[i].values * 3)
	}
	t.Count("concurrent_decodes", 3*n)
}
