package main

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// This file writes 3MF model parts from a model, independently of the encoder
// of the library. First a tree of elements is built from the meaning of the
// model, then the tree is rendered with any of the spellings XML allows.

// nattr is an attribute. kind tells how its value is typed:
// u/U required/optional unsigned, f/F float, e optional enumeration that
// reports errors, m matrix, c colour, i UUID, l list of unsigned, g list of
// floats, 0 anything else.
type nattr struct {
	ns, name, val string
	kind          byte
}

type node struct {
	ns, name string
	idx      int // index the library reports for the element, -1 for none
	attrs    []nattr
	kids     []*node
	text     string
	isText   bool
	parent   *node
	top      string // container of the model this element belongs to
	holds    bool   // foreign elements are part of the model here
	numeric  bool   // every attribute without namespace must be a number
	foreign  bool   // content of an extension nobody registered
	skipAttr bool   // attributes of other namespaces are ignored here
}

func (n *node) add(k *node) *node {
	k.parent = n
	if k.top == "" {
		k.top = n.top
	}
	n.kids = append(n.kids, k)
	return k
}

func (n *node) set(name, val string, kind byte) {
	n.attrs = append(n.attrs, nattr{"", name, val, kind})
}

func (n *node) xpath() string {
	s := n.name
	if n.idx >= 0 {
		s = fmt.Sprintf("%s[%d]", s, n.idx)
	}
	if n.parent == nil {
		return "/" + s
	}
	return n.parent.xpath() + "/" + s
}

func (n *node) walk(f func(*node)) {
	f(n)
	for _, k := range n.kids {
		if !k.isText {
			k.walk(f)
		}
	}
}

// ser builds the tree. Defaults are written or omitted at random.
type ser struct {
	r     *Rand
	plain bool // shortest spelling of numbers, defaults omitted
	all   bool // all the attributes, also those with default values
}

func (s *ser) explicit() bool { return s.all || !s.plain && s.r.P(1, 3) }

// num renders a float in one of the spellings that parse back to it.
func (s *ser) num(f float32) string {
	short := strconv.FormatFloat(float64(f), 'g', -1, 32)
	if s.plain {
		return strconv.FormatFloat(float64(f), 'f', -1, 32)
	}
	var v string
	switch s.r.Intn(8) {
	case 0:
		v = strconv.FormatFloat(float64(f), 'e', -1, 32)
	case 1:
		v = strconv.FormatFloat(float64(f), 'E', 12, 64)
	case 2:
		v = strconv.FormatFloat(float64(f), 'f', -1, 64)
	case 3:
		v = strconv.FormatFloat(float64(f), 'f', -1, 32)
		if strings.Contains(v, ".") {
			v += "000"
		} else {
			v += "."
		}
	case 4:
		v = strconv.FormatFloat(float64(f), 'f', -1, 32)
		if f >= 0 {
			v = "+" + v
		}
	case 5:
		v = strconv.FormatFloat(float64(f), 'f', -1, 32)
		if strings.HasPrefix(v, "0.") {
			v = v[1:]
		} else if f > 0 {
			v = "00" + v
		}
	case 6:
		v = strconv.FormatFloat(float64(f), 'g', 17, 64)
	default:
		v = short
	}
	if p, err := strconv.ParseFloat(v, 32); err != nil || float32(p) != f {
		return short
	}
	return v
}

func (s *ser) uint(u uint32) string {
	v := strconv.FormatUint(uint64(u), 10)
	if !s.plain && s.r.P(1, 12) {
		v = "00" + v
	}
	return v
}

func (s *ser) sep() string {
	if s.plain {
		return " "
	}
	return s.r.Pick(" ", " ", " ", "  ", "\t", "\n", "\r\n ")
}

func (s *ser) join(p []string) string {
	var b strings.Builder
	for i, x := range p {
		if i > 0 {
			b.WriteString(s.sep())
		}
		b.WriteString(x)
	}
	return b.String()
}

func (s *ser) uints(us []uint32) string {
	p := make([]string, len(us))
	for i, u := range us {
		p[i] = s.uint(u)
	}
	return s.join(p)
}

func (s *ser) matrix(m go3mf.Matrix) string {
	p := make([]string, 0, 12)
	for _, i := range []int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14} {
		p = append(p, s.num(m[i]))
	}
	return s.join(p)
}

func (s *ser) color(c color.RGBA) string {
	v := fmt.Sprintf("#%02X%02X%02X", c.R, c.G, c.B)
	if c.A != 255 || s.explicit() {
		v += fmt.Sprintf("%02X", c.A)
	}
	if !s.plain {
		b := []byte(v)
		for i := range b {
			if b[i] >= 'A' && b[i] <= 'F' && s.r.Bool() {
				b[i] += 'a' - 'A'
			}
		}
		v = string(b)
	}
	return v
}

func (s *ser) anyAttr(n *node, as spec.AnyAttr) {
	for _, a := range as {
		switch a := a.(type) {
		case *spec.UnknownAttrs:
			for _, x := range a.Attr {
				n.attrs = append(n.attrs, nattr{x.Name.Space, x.Name.Local, x.Value, 0})
			}
		case *production.BuildAttr:
			s.prod(n, a.UUID, "")
		case *production.ItemAttr:
			s.prod(n, a.UUID, a.Path)
		case *production.ComponentAttr:
			s.prod(n, a.UUID, a.Path)
		case *production.ObjectAttr:
			s.prod(n, a.UUID, "")
		case *slices.ObjectAttr:
			n.attrs = append(n.attrs, nattr{nsSli, "slicestackid", s.uint(a.SliceStackID), 'u'})
			if a.MeshResolution != 0 || s.explicit() {
				n.attrs = append(n.attrs, nattr{nsSli, "meshresolution", []string{"fullres", "lowres"}[a.MeshResolution], 'e'})
			}
		default:
			panic(fmt.Sprintf("ser: %T", a))
		}
	}
}

func (s *ser) prod(n *node, uuid, path string) {
	if uuid != "" {
		n.attrs = append(n.attrs, nattr{nsProd, "UUID", uuid, 'i'})
	}
	if path != "" {
		n.attrs = append(n.attrs, nattr{nsProd, "path", path, 0})
	}
}

func tokenTree(ts []xml.Token) *node {
	var stack []*node
	for _, t := range ts {
		switch t := t.(type) {
		case xml.StartElement:
			n := &node{ns: t.Name.Space, name: t.Name.Local, idx: -1, holds: true, foreign: true}
			for _, a := range t.Attr {
				n.attrs = append(n.attrs, nattr{a.Name.Space, a.Name.Local, a.Value, 0})
			}
			if len(stack) > 0 {
				stack[len(stack)-1].add(n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			if len(stack) == 1 {
				return stack[0]
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			p := stack[len(stack)-1]
			if l := len(p.kids); l > 0 && p.kids[l-1].isText {
				p.kids[l-1].text += string(t)
			} else {
				p.add(&node{isText: true, text: string(t), foreign: true})
			}
		}
	}
	return stack[0]
}

func (s *ser) any(n *node, as spec.Any) {
	for _, a := range as {
		switch a := a.(type) {
		case *spec.UnknownTokens:
			n.add(tokenTree(a.Token))
		case *beamlattice.BeamLattice:
			s.beamLattice(n, a)
		default:
			panic(fmt.Sprintf("ser: %T", a))
		}
	}
}

func el(ns, name string, idx int) *node { return &node{ns: ns, name: name, idx: idx} }

func (s *ser) metadata(n *node, mds []go3mf.Metadata) {
	for i, md := range mds {
		k := n.add(el(nsCore, "metadata", i))
		k.skipAttr = true
		if n.parent == nil {
			k.top = fmt.Sprintf("Model.Metadata[%d]", i)
		}
		name := md.Name.Local
		if md.Name.Space != "" {
			name = md.Name.Space + ":" + name
		}
		k.set("name", name, 0)
		if md.Type != "" {
			k.set("type", md.Type, 0)
		}
		if md.Preserve {
			k.set("preserve", s.r.Pick("1", "true", "true"), 0)
		} else if s.explicit() {
			k.set("preserve", s.r.Pick("0", "false"), 0)
		}
		if md.Value != "" {
			k.add(&node{isText: true, text: md.Value})
		}
	}
}

func (s *ser) metadataGroup(n *node, mg go3mf.MetadataGroup) {
	if len(mg.Metadata) == 0 && len(mg.AnyAttr) == 0 {
		return
	}
	k := n.add(el(nsCore, "metadatagroup", -1))
	s.anyAttr(k, mg.AnyAttr)
	s.metadata(k, mg.Metadata)
}

func (s *ser) model(m *go3mf.Model) *node {
	n := el(nsCore, "model", -1)
	n.holds, n.top = true, "Model"
	if m.Units != 0 || s.explicit() {
		n.set("unit", []string{"millimeter", "micron", "centimeter", "inch", "foot", "meter"}[m.Units], 'e')
	}
	if m.Language != "" || s.explicit() {
		n.attrs = append(n.attrs, nattr{nsXMLs, "lang", m.Language, 0})
	}
	if m.Thumbnail != "" {
		n.set("thumbnail", m.Thumbnail, 0)
	}
	var req []string
	for _, e := range m.Extensions {
		if e.IsRequired {
			req = append(req, e.LocalName)
		}
	}
	if len(req) > 0 {
		n.set("requiredextensions", s.join(req), 0)
	}
	s.anyAttr(n, m.AnyAttr)
	s.metadata(n, m.Metadata)
	s.resources(n, &m.Resources, "Model.Resources")
	b := n.add(el(nsCore, "build", -1))
	b.top = "Model.Build"
	s.anyAttr(b, m.Build.AnyAttr)
	for i, it := range m.Build.Items {
		k := b.add(el(nsCore, "item", i))
		k.top = fmt.Sprintf("Model.Build.Items[%d]", i)
		k.set("objectid", s.uint(it.ObjectID), 'u')
		s.transform(k, it.Transform)
		if it.PartNumber != "" {
			k.set("partnumber", it.PartNumber, 0)
		}
		s.anyAttr(k, it.AnyAttr)
		s.metadataGroup(k, it.Metadata)
	}
	s.any(n, m.Any)
	return n
}

func (s *ser) child(m *go3mf.Model, path string) *node {
	n := el(nsCore, "model", -1)
	n.holds, n.top = true, "Model.Childs["+path+"]"
	c := m.Childs[path]
	if !s.plain && s.r.P(1, 4) {
		// What only the root says; the consumer ignores it elsewhere.
		s.rootOnly(n, m)
	}
	s.resources(n, &c.Resources, n.top+".Resources")
	if s.r.Bool() {
		b := n.add(el(nsCore, "build", -1))
		if !s.plain && s.r.P(1, 4) {
			if s.r.P(1, 3) {
				b.attrs = append(b.attrs, nattr{nsProd, "UUID", "00000000-0000-4000-8000-000000000000", 0})
			}
			for i := s.r.Intn(3); i >= 0; i-- {
				k := b.add(el(nsCore, "item", i))
				k.set("objectid", s.r.Pick("1", "2", "77"), 0)
				if s.r.Bool() {
					k.set("partnumber", "not built", 0)
				}
				if s.r.P(1, 3) {
					k.set("transform", "2 0 0 0 2 0 0 0 2 1 1 1", 0)
				}
				if s.r.P(1, 3) {
					g := k.add(el(nsCore, "metadatagroup", -1))
					g.add(el(nsCore, "metadata", 0)).set("name", "Title", 0)
				}
			}
		}
	}
	s.any(n, c.Any)
	return n
}

// rootOnly gives the document of a child part the attributes and metadata that
// only mean something in the root.
func (s *ser) rootOnly(n *node, m *go3mf.Model) {
	if s.r.Bool() {
		n.set("unit", s.r.Pick("inch", "micron", "millimeter", "meter"), 0)
	}
	if s.r.Bool() {
		n.attrs = append(n.attrs, nattr{nsXMLs, "lang", s.r.Pick("xx-XX", "", "child"), 0})
	}
	if s.r.P(1, 3) {
		n.set("thumbnail", "/Metadata/child.png", 0)
	}
	if len(m.Extensions) > 0 && s.r.P(1, 3) {
		n.set("requiredextensions", m.Extensions[s.r.Intn(len(m.Extensions))].LocalName, 0)
	}
	for i := s.r.Intn(4); i > 0; i-- {
		k := n.add(el(nsCore, "metadata", i))
		k.set("name", s.r.Pick("Title", "Designer", "Copyright", "x:y", "CreationDate"), 0)
		if s.r.Bool() {
			k.set("preserve", "true", 0)
		}
		if s.r.Bool() {
			k.add(&node{isText: true, text: "of the child"})
		}
	}
}

func (s *ser) transform(k *node, m go3mf.Matrix) {
	if m != (go3mf.Matrix{}) && m != go3mf.Identity() {
		k.set("transform", s.matrix(m), 'm')
	} else if s.explicit() {
		k.set("transform", s.matrix(go3mf.Identity()), 'm')
	}
}

func (s *ser) resources(n *node, rs *go3mf.Resources, top string) {
	k := n.add(el(nsCore, "resources", -1))
	k.holds, k.top = true, top
	s.anyAttr(k, rs.AnyAttr)
	// objects and the other resources may be interleaved
	i, j := 0, 0
	for i < len(rs.Assets) || j < len(rs.Objects) {
		if j >= len(rs.Objects) || (i < len(rs.Assets) && (s.plain || s.r.P(2, 3))) {
			s.asset(k, rs.Assets[i], i, fmt.Sprintf("%s.Assets[%d]", top, i))
			i++
		} else {
			s.object(k, rs.Objects[j], j, fmt.Sprintf("%s.Objects[%d]", top, j))
			j++
		}
	}
}

func (s *ser) asset(n *node, a go3mf.Asset, i int, top string) {
	var k *node
	mk := func(ns, name string, id uint32) *node {
		k = n.add(el(ns, name, i))
		k.top = top
		k.set("id", s.uint(id), 'u')
		k.skipAttr = ns != nsCore
		return k
	}
	leaf := func(name string, j int) *node {
		c := k.add(el(k.ns, name, j))
		c.skipAttr = true
		return c
	}
	switch a := a.(type) {
	case *unkAsset:
		t := tokenTree(a.Token)
		t.top, t.idx = top, i
		n.add(t)
	case *go3mf.UnknownAsset:
		t := tokenTree(a.Token)
		t.top, t.idx = top, i
		n.add(t)
	case *go3mf.BaseMaterials:
		mk(nsCore, "basematerials", a.ID)
		s.anyAttr(k, a.AnyAttr)
		for j, b := range a.Materials {
			c := k.add(el(nsCore, "base", j))
			c.set("name", b.Name, 0)
			c.set("displaycolor", s.color(b.Color), 'c')
			s.anyAttr(c, b.AnyAttr)
		}
	case *materials.ColorGroup:
		mk(nsMat, "colorgroup", a.ID)
		for j, c := range a.Colors {
			leaf("color", j).set("color", s.color(c), 'c')
		}
	case *materials.Texture2DGroup:
		mk(nsMat, "texture2dgroup", a.ID)
		k.set("texid", s.uint(a.TextureID), 'u')
		for j, c := range a.Coords {
			l := leaf("tex2coord", j)
			l.numeric = true
			l.set("u", s.num(c[0]), 'f')
			l.set("v", s.num(c[1]), 'f')
		}
	case *materials.Texture2D:
		mk(nsMat, "texture2d", a.ID)
		k.set("path", a.Path, 0)
		k.set("contenttype", []string{"", "image/png", "image/jpeg"}[a.ContentType], 0)
		tiles := []string{"wrap", "mirror", "clamp", "none"}
		if a.TileStyleU != 0 || s.explicit() {
			k.set("tilestyleu", tiles[a.TileStyleU], 0)
		}
		if a.TileStyleV != 0 || s.explicit() {
			k.set("tilestylev", tiles[a.TileStyleV], 0)
		}
		if a.Filter != 0 || s.explicit() {
			k.set("filter", []string{"auto", "linear", "nearest"}[a.Filter], 0)
		}
	case *materials.CompositeMaterials:
		mk(nsMat, "compositematerials", a.ID)
		k.set("matid", s.uint(a.MaterialID), 'u')
		k.set("matindices", s.uints(a.Indices), 'l')
		for j, c := range a.Composites {
			p := make([]string, len(c.Values))
			for x, v := range c.Values {
				p[x] = s.num(v)
			}
			leaf("composite", j).set("values", s.join(p), 'g')
		}
	case *materials.MultiProperties:
		mk(nsMat, "multiproperties", a.ID)
		k.set("pids", s.uints(a.PIDs), 'l')
		if len(a.BlendMethods) > 0 || s.explicit() {
			p := make([]string, len(a.BlendMethods))
			for x, v := range a.BlendMethods {
				p[x] = []string{"mix", "multiply"}[v]
			}
			k.set("blendmethods", s.join(p), 0)
		}
		for j, c := range a.Multis {
			leaf("multi", j).set("pindices", s.uints(c.PIndices), 'l')
		}
	case *slices.SliceStack:
		mk(nsSli, "slicestack", a.ID)
		if a.BottomZ != 0 || s.explicit() {
			k.set("zbottom", s.num(a.BottomZ), 'F')
		}
		for j, ref := range a.Refs {
			l := leaf("sliceref", j)
			l.set("slicestackid", s.uint(ref.SliceStackID), 'u')
			l.set("slicepath", ref.Path, 0)
		}
		for j, sl := range a.Slices {
			l := leaf("slice", j)
			l.set("ztop", s.num(sl.TopZ), 'f')
			if len(sl.Vertices.Vertex) > 0 || (!s.all && s.explicit()) {
				vs := l.add(el(nsSli, "vertices", -1))
				vs.skipAttr = true
				for x, v := range sl.Vertices.Vertex {
					p := vs.add(el(nsSli, "vertex", x))
					p.numeric, p.skipAttr = true, true
					p.set("x", s.num(v[0]), 'f')
					p.set("y", s.num(v[1]), 'f')
				}
			}
			for x, pg := range sl.Polygons {
				p := l.add(el(nsSli, "polygon", x))
				p.skipAttr = true
				p.set("startv", s.uint(pg.StartV), 'u')
				for y, sg := range pg.Segments {
					q := p.add(el(nsSli, "segment", y))
					q.numeric, q.skipAttr = true, true
					q.set("v2", s.uint(sg.V2), 'u')
					if sg.PID != 0 {
						q.set("pid", s.uint(sg.PID), 'U')
						if sg.P1 != 0 || sg.P2 != 0 || s.explicit() {
							q.set("p1", s.uint(sg.P1), 'U')
							if sg.P2 != sg.P1 || s.explicit() {
								q.set("p2", s.uint(sg.P2), 'U')
							}
						}
					}
				}
			}
		}
	default:
		panic(fmt.Sprintf("ser: %T", a))
	}
}

func (s *ser) object(n *node, o *go3mf.Object, i int, top string) {
	k := n.add(el(nsCore, "object", i))
	k.top = top
	k.set("id", s.uint(o.ID), 'u')
	if o.Type != 0 || s.explicit() {
		k.set("type", []string{"model", "other", "support", "solidsupport", "surface"}[o.Type], 'e')
	}
	if o.Name != "" || s.explicit() {
		k.set("name", o.Name, 0)
	}
	if o.PartNumber != "" || s.explicit() {
		k.set("partnumber", o.PartNumber, 0)
	}
	if o.Thumbnail != "" {
		k.set("thumbnail", o.Thumbnail, 0)
	}
	if o.PID != 0 {
		k.set("pid", s.uint(o.PID), 'U')
		if o.PIndex != 0 || s.explicit() {
			k.set("pindex", s.uint(o.PIndex), 'U')
		}
	}
	s.anyAttr(k, o.AnyAttr)
	s.metadataGroup(k, o.Metadata)
	if o.Mesh != nil {
		s.mesh(k, o)
	}
	if o.Components != nil {
		cs := k.add(el(nsCore, "components", -1))
		s.anyAttr(cs, o.Components.AnyAttr)
		for j, c := range o.Components.Component {
			x := cs.add(el(nsCore, "component", j))
			x.set("objectid", s.uint(c.ObjectID), 'u')
			s.transform(x, c.Transform)
			s.anyAttr(x, c.AnyAttr)
		}
	}
}

func (s *ser) mesh(n *node, o *go3mf.Object) {
	m := o.Mesh
	k := n.add(el(nsCore, "mesh", -1))
	k.holds = true
	s.anyAttr(k, m.AnyAttr)
	vs := k.add(el(nsCore, "vertices", -1))
	s.anyAttr(vs, m.Vertices.AnyAttr)
	for j, v := range m.Vertices.Vertex {
		x := vs.add(el(nsCore, "vertex", j))
		x.numeric, x.skipAttr = true, true
		x.set("x", s.num(v[0]), 'f')
		x.set("y", s.num(v[1]), 'f')
		x.set("z", s.num(v[2]), 'f')
	}
	ts := k.add(el(nsCore, "triangles", -1))
	s.anyAttr(ts, m.Triangles.AnyAttr)
	for j := range m.Triangles.Triangle {
		t := &m.Triangles.Triangle[j]
		x := ts.add(el(nsCore, "triangle", j))
		x.numeric = true
		x.set("v1", s.uint(t.V1), 'u')
		x.set("v2", s.uint(t.V2), 'u')
		x.set("v3", s.uint(t.V3), 'u')
		if t.PID != o.PID || (t.PID != 0 && s.explicit()) {
			x.set("pid", s.uint(t.PID), 'U')
		}
		if t.P1 != o.PIndex || s.explicit() {
			x.set("p1", s.uint(t.P1), 'U')
		}
		if t.P2 != t.P1 || s.explicit() {
			x.set("p2", s.uint(t.P2), 'U')
		}
		if t.P3 != t.P1 || s.explicit() {
			x.set("p3", s.uint(t.P3), 'U')
		}
		s.anyAttr(x, t.AnyAttr)
	}
	s.any(k, m.Any)
}

func (s *ser) beamLattice(n *node, b *beamlattice.BeamLattice) {
	k := n.add(el(nsBeam, "beamlattice", -1))
	k.skipAttr = true
	k.set("radius", s.num(b.Radius), 'f')
	ml, cm := "minlength", "clippingmode"
	if !s.plain && s.r.P(1, 4) { // names of the first drafts
		ml = "precision"
	}
	if !s.plain && s.r.P(1, 4) {
		cm = "clipping"
	}
	k.set(ml, s.num(b.MinLength), 'f')
	if b.ClipMode != 0 || s.explicit() {
		k.set(cm, []string{"none", "inside", "outside"}[b.ClipMode], 'e')
	}
	if b.ClippingMeshID != 0 || s.explicit() {
		k.set("clippingmesh", s.uint(b.ClippingMeshID), 'U')
	}
	if b.RepresentationMeshID != 0 || s.explicit() {
		k.set("representationmesh", s.uint(b.RepresentationMeshID), 'U')
	}
	caps := []string{"sphere", "hemisphere", "butt"}
	if b.CapMode != 0 || s.explicit() {
		k.set("cap", caps[b.CapMode], 'e')
	}
	bs := k.add(el(nsBeam, "beams", -1))
	bs.skipAttr = true
	for j := range b.Beams.Beam {
		be := &b.Beams.Beam[j]
		x := bs.add(el(nsBeam, "beam", j))
		x.skipAttr = true
		x.set("v1", s.uint(be.Indices[0]), 'u')
		x.set("v2", s.uint(be.Indices[1]), 'u')
		r1 := b.Radius
		if be.Radius[0] != 0 {
			r1 = be.Radius[0]
		}
		if r1 != b.Radius || s.explicit() {
			x.set("r1", s.num(r1), 'F')
		}
		if r2 := be.Radius[1]; r2 != 0 && (r2 != r1 || s.explicit()) {
			x.set("r2", s.num(r2), 'F')
		}
		if be.CapMode[0] != b.CapMode || s.explicit() {
			x.set("cap1", caps[be.CapMode[0]], 0)
		}
		if be.CapMode[1] != b.CapMode || s.explicit() {
			x.set("cap2", caps[be.CapMode[1]], 0)
		}
	}
	if len(b.BeamSets.BeamSet) > 0 {
		ss := k.add(el(nsBeam, "beamsets", -1))
		ss.skipAttr = true
		for j, set := range b.BeamSets.BeamSet {
			x := ss.add(el(nsBeam, "beamset", j))
			x.skipAttr = true
			if set.Name != "" {
				x.set("name", set.Name, 0)
			}
			if set.Identifier != "" {
				x.set("identifier", set.Identifier, 0)
			}
			for y, ref := range set.Refs {
				q := x.add(el(nsBeam, "ref", y))
				q.skipAttr = true
				q.set("index", s.uint(ref), 'u')
			}
		}
	}
}

// noise adds content that must not change what the part means.
func (s *ser) noise(root *node, rate int) int {
	added := 0
	root.walk(func(n *node) {
		if n.foreign {
			return
		}
		if s.r.P(1, rate) {
			k := s.ignored(n, 0)
			if k == nil {
				return
			}
			added++
			i := s.r.Intn(len(n.kids) + 1)
			n.kids = append(n.kids, nil)
			copy(n.kids[i+1:], n.kids[i:])
			n.kids[i] = k
			k.parent = n
		}
		if n.skipAttr && s.r.P(1, rate) {
			n.attrs = append(n.attrs, nattr{"http://example.com/foreign", s.r.Pick("x", "id", "v1", "color", "p1", "radius", "name", "ztop", "startv", "index"), s.r.Pick("7", "zz", ""), 0})
			added++
		}
		for _, a := range n.attrs {
			if (a.ns == nsProd || a.ns == nsSli) && n.ns == nsCore && s.r.P(1, rate) {
				// next to what the extension defines
				n.attrs = append(n.attrs, nattr{a.ns, s.r.Pick("future", "uuid", "Path", "id", "slicestack"), s.r.Pick("7", "zz", "/3D/other.model", ""), 0})
				added++
				break
			}
		}
		if n.numeric && s.r.P(1, rate) {
			n.set("future", "3", 0)
			added++
		}
	})
	return added
}

// childNames are the children of the elements that ignore the unknown ones.
var childNames = map[string][]string{
	"build": {"item"}, "item": {"metadatagroup"}, "metadatagroup": {"metadata"}, "basematerials": {"base"},
	"object": {"mesh", "components", "metadatagroup"}, "vertices": {"vertex"}, "triangles": {"triangle"},
	"components": {"component"}, "texture2dgroup": {"tex2coord"}, "colorgroup": {"color"},
	"compositematerials": {"composite"}, "multiproperties": {"multi"}, "slicestack": {"slice", "sliceref"},
	"slice": {"vertices", "polygon"}, "polygon": {"segment"}, "beamlattice": {"beams", "beamsets"},
	"beams": {"beam"}, "beamsets": {"beamset"}, "beamset": {"ref"},
}

func (s *ser) ignored(n *node, depth int) *node {
	k := &node{idx: -1, foreign: true}
	if n.holds && depth == 0 {
		k.ns, k.name = nsCore, "futureelement"
	} else {
		k.ns = s.r.Pick("http://example.com/foreign", "http://example.com/foreign", nsCore, nsMat, nsBeam, nsSli)
		k.name = s.r.Pick("thing", "x", "y")
		if s.r.Bool() && (depth > 0 || k.ns == "http://example.com/foreign") {
			k.name = s.r.Pick("vertex", "object", "metadata", "base", "model", "resources", "triangle", n.name)
			k.attrs = append(k.attrs, nattr{"", "id", "77", 0}, nattr{"", "name", "no", 0}, nattr{"", "x", "bad", 0})
		}
	}
	if cs := childNames[n.name]; depth == 0 && !n.holds && len(cs) > 0 && s.r.P(1, 3) {
		// called like a child of the element, but it is not one
		k.ns = s.r.Pick("http://example.com/foreign", nsCore, nsMat, nsBeam, nsSli, nsProd)
		if k.ns == n.ns {
			k.ns = "http://example.com/foreign"
		}
		k.name, k.attrs = s.r.Pick(cs...), nil
		for _, c := range n.kids {
			if c.name == k.name && !c.foreign && s.r.Bool() {
				for _, a := range c.attrs {
					k.attrs = append(k.attrs, nattr{a.ns, a.name, a.val, 0})
				}
				break
			}
		}
	}
	if n.name == "metadata" && depth == 0 {
		return k
	}
	if s.r.Bool() {
		k.add(&node{isText: true, text: s.r.Pick("text", " ", "a]]&<>b", "77"), foreign: true})
	}
	for i := s.r.Intn(3); i > 0 && depth < 3; i-- {
		k.add(s.ignored(n, depth+1))
	}
	return k
}
