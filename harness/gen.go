package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"image/color"
	"math"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

const (
	nsCore = "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"
	nsMat  = "http://schemas.microsoft.com/3dmanufacturing/material/2015/02"
	nsSli  = "http://schemas.microsoft.com/3dmanufacturing/slice/2015/07"
	nsBeam = "http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02"
	nsProd = "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"
	nsXMLs = "http://www.w3.org/XML/1998/namespace"
)

// genOpt selects what a generated model contains.
type genOpt struct {
	Materials, Slices, Beams, Production bool
	Unknown                              bool // extension content nobody registered
	Childs                               bool
	Package                              bool // attachments, relationships, thumbnails
	Size                                 int  // rough size of lists
	Plain                                bool // only simple strings
	Wide                                 bool // now and then one dimension is large
	MaxCoord                             float64
}

type gen struct {
	r    *Rand
	o    genOpt
	m    *go3mf.Model
	unk  []go3mf.Extension
	atts map[string]bool
}

var stringPool = []string{
	"", "a", "part", "Name", "x y", " lead", "trail ", "a\tb", "a\nb", "a\r\nb", "<tag>", "a&b", "&amp;", "\"q\"", "'s'",
	"]]>", "é", "日本語", "\U0001F600", "a:b", "#$%", "--", "<!-- c -->", "&#10;", "100%", "=", "/", "\\", "\u00a0", "{}", "\u2028",
	"\ufeff", "\ufffd", "\U0010ffff", "\ud7ff", "\U00010000", "\x7f", "\u0085", "e\u0301", "  ", "\n", "true", "0", "-1", "nil", "%d%s", "a  b", "\t\t", "urn:uuid:1", "&lt;", "&#x20;", "\ue000", "A", "a",
}

func (g *gen) str() string {
	if g.o.Plain {
		return g.r.Pick("a", "part", "Name", "n1", "value", "q-7")
	}
	switch g.r.Intn(4) {
	case 0:
		return g.r.Pick("a", "part", "Name", "n1", "value", "q-7")
	case 1:
		var b strings.Builder
		for i := g.r.Range(1, 3); i > 0; i-- {
			b.WriteString(stringPool[g.r.Intn(len(stringPool))])
		}
		return b.String()
	case 2:
		var b strings.Builder
		for i := g.r.Range(1, 12); i > 0; i-- {
			b.WriteRune(g.xmlRune())
		}
		return b.String()
	}
	return stringPool[g.r.Intn(len(stringPool))]
}

// xmlRune picks a character XML 1.0 allows.
func (g *gen) xmlRune() rune {
	switch g.r.Intn(6) {
	case 0:
		return rune(g.r.Range(0x20, 0x7e))
	case 1:
		return []rune{'\t', '\n', '\r', '<', '>', '&', '"', '\'', ' '}[g.r.Intn(9)]
	case 2:
		return rune(g.r.Range(0x80, 0x7ff))
	case 3:
		if g.r.P(1, 4) {
			return rune(g.r.Range(0xe000, 0xfffd))
		}
		return rune(g.r.Range(0x800, 0xd7ff))
	case 4:
		return rune(g.r.Range(0x10000, 0x10ffff))
	}
	return rune(g.r.Range('a', 'z'))
}

func (g *gen) strNE() string {
	for {
		if s := g.str(); s != "" {
			return s
		}
	}
}

func (g *gen) u32() uint32 {
	switch g.r.Intn(7) {
	case 6: // around the limits of smaller types
		return uint32(1)<<uint([]int{7, 8, 15, 16, 23, 24, 31}[g.r.Intn(7)]) + uint32(g.r.Range(0, 2)) - 1
	case 0:
		return 0
	case 1:
		return uint32(g.r.Intn(4))
	case 2:
		return math.MaxUint32 - uint32(g.r.Intn(3))
	case 3:
		return g.r.U32()
	}
	return uint32(g.r.Intn(100))
}

func (g *gen) f32() float32 {
	r := g.r
	max := g.o.MaxCoord
	if max == 0 {
		max = 1e30
	}
	var f float64
	switch r.Intn(11) {
	case 9: // near an integer or a power of ten
		f = float64(r.Range(-200, 200))
		if r.Bool() {
			f = math.Pow(10, float64(r.Range(-6, 12)))
		}
		v := float32(f)
		for k := r.Intn(3); k > 0; k-- {
			v = math.Nextafter32(v, float32([]float64{-1e30, 1e30}[r.Intn(2)]))
		}
		f = float64(v)
	case 10: // between two decimals
		f = (float64(r.Range(-30000, 30000)) + 0.5) / math.Pow(10, float64(r.Range(0, 6)))
	case 0:
		f = 0
	case 1:
		f = float64(r.Range(-1000, 1000))
	case 2:
		f = float64(r.Range(-1000000, 1000000)) / 1000
	case 3:
		f = (r.F64() - 0.5) * 1e-3
	case 4:
		f = (r.F64() - 0.5) * 2 * max
	case 5:
		f = (r.F64() - 0.5) * 1e9
	case 6:
		f = math.Ldexp(float64(r.Range(-100, 100)), r.Range(-20, 10))
	case 7:
		f = (r.F64() - 0.5) * 1e-9
	default:
		f = (r.F64() - 0.5) * 200
	}
	if f > max || f < -max {
		f = math.Mod(f, max)
	}
	return float32(f)
}

func (g *gen) pos() float32 { // a positive length that survives the default precision
	return float32(g.r.Range(1, 40000))/1000 + 0.001
}

func (g *gen) matrix() go3mf.Matrix {
	r := g.r
	switch r.Intn(5) {
	case 0:
		return go3mf.Matrix{}
	case 1:
		return go3mf.Identity()
	case 2:
		return go3mf.Identity().Translate(g.f32(), g.f32(), g.f32())
	}
	m := go3mf.Identity()
	for _, i := range []int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14} {
		switch r.Intn(3) {
		case 0:
			m[i] = float32(r.Range(-3, 3))
		case 1:
			m[i] = float32((r.F64() - 0.5) * 20)
		}
	}
	return m
}

func (g *gen) color() color.RGBA {
	c := color.RGBA{uint8(g.r.Intn(256)), uint8(g.r.Intn(256)), uint8(g.r.Intn(256)), 255}
	if g.r.Bool() {
		c.A = uint8(g.r.Intn(256))
	}
	return c
}

func (g *gen) uuid() string {
	b := g.r.Bytes(16)
	switch g.r.Intn(4) {
	case 0:
		return fmt.Sprintf("%X-%X-%X-%X-%X", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
	case 1:
		return fmt.Sprintf("urn:uuid:%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
	}
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

func (g *gen) maybeUUID() string {
	if g.r.P(1, 6) {
		return ""
	}
	return g.uuid()
}

func (g *gen) n(max int) int {
	if max <= 0 {
		return 0
	}
	switch g.r.Intn(4) {
	case 0:
		return g.r.Intn(2)
	case 1:
		return g.r.Intn(max + 1)
	}
	k := max / 2
	if k < 1 {
		k = 1
	}
	return g.r.Intn(k + 1)
}

// echo sometimes makes a list regular: runs of equal elements, the same list
// again or backwards. Random lists hardly ever have neighbours that are equal.
func echo[E any](g *gen, l []E) []E {
	if len(l) == 0 || !g.r.P(1, 6) {
		return l
	}
	switch g.r.Intn(4) {
	case 0: // runs
		var out []E
		for _, e := range l {
			k := 1
			if g.r.P(1, 2) {
				k = g.r.Range(2, 9)
			}
			for ; k > 0; k-- {
				out = append(out, e)
			}
		}
		return out
	case 1: // all the same
		for i := range l {
			l[i] = l[0]
		}
		return l
	case 2: // palindrome
		for i := len(l) - 1; i >= 0; i-- {
			l = append(l, l[i])
		}
		return l
	}
	return append(l, l...)
}

// unknownAttrs returns attributes of extension namespaces nobody registered.
func (g *gen) unknownAttrs() spec.AnyAttr {
	if !g.o.Unknown || !g.r.P(1, 3) {
		return nil
	}
	var out spec.AnyAttr
	for _, i := range g.r.Perm(len(g.unk))[:g.r.Range(1, len(g.unk))] {
		u := &spec.UnknownAttrs{Space: g.unk[i].Namespace}
		for _, l := range g.r.Perm(4)[:g.r.Range(1, 3)] {
			u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: g.unk[i].Namespace, Local: []string{"alpha", "b", "gam-ma", "x"}[l]}, Value: g.str()})
		}
		out = append(out, u)
	}
	if g.r.P(1, 6) { // the name space that is always declared
		out = append(out, &spec.UnknownAttrs{Space: nsXMLs, Attr: []xml.Attr{{Name: xml.Name{Space: nsXMLs, Local: g.r.Pick("space", "base", "id")}, Value: g.str()}}})
	}
	// attributes of extensions which define none for the element
	for _, ns := range []string{nsMat, nsBeam} {
		if (ns == nsMat && g.o.Materials || ns == nsBeam && g.o.Beams) && g.r.P(1, 5) {
			out = append(out, &spec.UnknownAttrs{Space: ns, Attr: []xml.Attr{{Name: xml.Name{Space: ns, Local: g.r.Pick("alpha", "color", "radius", "id", "name")}, Value: g.str()}}})
		}
	}
	return out
}

// unknownTree returns the tokens of a random element tree.
func (g *gen) unknownTree(ns string, depth int, id uint32) []xml.Token {
	names := []string{"thing", "thing", "item", "vertex", "metadata", "z", "longer-element_name.v2"}
	name := xml.Name{Space: ns, Local: names[g.r.Intn(len(names))]}
	if depth > 0 && g.r.P(1, 6) { // foreign or core-named descendants
		name.Space = g.unk[g.r.Intn(len(g.unk))].Namespace
		if g.r.P(1, 4) {
			name.Space = nsCore
		} else if g.r.P(1, 3) {
			name.Space = "" // in no name space at all
		}
	}
	st := xml.StartElement{Name: name}
	if id != 0 {
		st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Local: "id"}, Value: fmt.Sprint(id)})
	}
	for _, l := range g.r.Perm(5)[:g.r.Intn(3)] {
		a := xml.Attr{Name: xml.Name{Local: []string{"k", "value", "ref", "name", "p"}[l]}, Value: g.str()}
		if g.r.P(1, 4) {
			a.Name.Space = g.unk[g.r.Intn(len(g.unk))].Namespace
			if g.r.P(1, 3) && (len(st.Attr) == 0 || id != 0 && len(st.Attr) == 1) {
				a.Name.Local, a.Value = "id", g.r.Pick("7", "1", a.Value)
			}
		}
		st.Attr = append(st.Attr, a)
	}
	if g.r.P(1, 8) {
		st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Space: nsXMLs, Local: g.r.Pick("lang", "space", "base", "id")}, Value: g.str()})
	}
	ts := []xml.Token{st}
	for i := g.r.Intn(4); i > 0; i-- {
		if g.r.Bool() {
			if s := g.str(); s != "" {
				ts = append(ts, xml.CharData(s))
			}
		} else if depth < 4 {
			ts = append(ts, g.unknownTree(ns, depth+1, 0)...)
		}
	}
	return append(ts, xml.EndElement{Name: name})
}

func (g *gen) unknownAny() spec.Any {
	if !g.o.Unknown || !g.r.P(1, 2) {
		return nil
	}
	var out spec.Any
	for i := g.r.Range(1, 3); i > 0; i-- {
		out = append(out, &spec.UnknownTokens{Token: g.unknownTree(g.unk[g.r.Intn(len(g.unk))].Namespace, 0, 0)})
	}
	return out
}

func (g *gen) metadata() go3mf.Metadata {
	names := []string{"Title", "Designer", "Description", "Copyright", "LicenseTerms", "Rating", "CreationDate", "Application"}
	md := go3mf.Metadata{Name: xml.Name{Local: g.r.Pick(names...)}, Value: g.str(), Preserve: g.r.Bool()}
	if g.r.Bool() {
		md.Type = g.str()
	}
	switch g.r.Intn(4) {
	case 0:
		if len(g.m.Extensions) > 0 {
			md.Name.Space = g.m.Extensions[g.r.Intn(len(g.m.Extensions))].LocalName
			md.Name.Local = g.r.Pick("custom", "Title", "k:v", "x.y")
		}
	case 1:
		md.Name.Local = g.r.Pick("undeclared:custom", "free text", "ünï", ":", "zz:")
		if len(g.m.Extensions) > 0 && g.r.Bool() { // nearly declared
			p := g.m.Extensions[g.r.Intn(len(g.m.Extensions))].LocalName
			near := g.r.Pick(p+"x", p+p, "x"+p, p[:len(p)-1], strings.ToUpper(p), strings.ToLower(p), p+" ", p+".")
			for _, e := range g.m.Extensions {
				if e.LocalName == near || near == "" {
					near = "undeclared"
				}
			}
			md.Name.Local = near + ":custom"
		}
	}
	return md
}

func (g *gen) metadataGroup() go3mf.MetadataGroup {
	var mg go3mf.MetadataGroup
	if g.r.P(1, 3) {
		for i := g.r.Range(1, 3); i > 0; i-- {
			mg.Metadata = append(mg.Metadata, g.metadata())
		}
		mg.AnyAttr = g.unknownAttrs()
	}
	return mg
}

func (g *gen) mesh(o *go3mf.Object) *go3mf.Mesh {
	m := &go3mf.Mesh{}
	for i := g.n(g.o.Size * 3); i > 0; i-- {
		m.Vertices.Vertex = append(m.Vertices.Vertex, go3mf.Point3D{g.f32(), g.f32(), g.f32()})
	}
	m.Vertices.Vertex = echo(g, m.Vertices.Vertex)
	m.AnyAttr, m.Vertices.AnyAttr, m.Triangles.AnyAttr = g.unknownAttrs(), g.unknownAttrs(), g.unknownAttrs()
	for i := g.n(g.o.Size * 3); i > 0; i-- {
		t := go3mf.Triangle{V1: g.u32(), V2: g.u32(), V3: g.u32(), AnyAttr: g.unknownAttrs()}
		t.PID = o.PID
		if g.r.P(1, 3) || t.PID != 0 {
			if g.r.Bool() || t.PID == 0 {
				t.PID = g.u32()
			}
			if t.PID == 0 {
				t.PID = o.PID
			}
			if t.PID != 0 {
				switch g.r.Intn(4) {
				case 0:
					t.P1 = o.PIndex
					t.P2, t.P3 = t.P1, t.P1
				case 1:
					t.P1 = g.u32()
					t.P2, t.P3 = t.P1, t.P1
				case 2:
					t.P1 = o.PIndex
					t.P2, t.P3 = g.u32(), g.u32()
				default:
					t.P1, t.P2, t.P3 = g.u32(), g.u32(), g.u32()
				}
			}
		}
		m.Triangles.Triangle = append(m.Triangles.Triangle, t)
	}
	m.Triangles.Triangle = echo(g, m.Triangles.Triangle)
	m.Any = g.unknownAny()
	if g.o.Beams && g.r.P(2, 3) {
		m.Any = append(m.Any, g.beamLattice())
		if g.o.Unknown && g.r.P(1, 4) {
			m.Any = append(m.Any, g.unknownAny()...)
		}
	}
	return m
}

func (g *gen) beamLattice() *beamlattice.BeamLattice {
	b := &beamlattice.BeamLattice{
		ClipMode: beamlattice.ClipMode(g.r.Intn(3)), ClippingMeshID: g.u32(), RepresentationMeshID: g.u32(),
		MinLength: g.pos(), Radius: g.pos(), CapMode: beamlattice.CapMode(g.r.Intn(3)),
	}
	if g.r.P(1, 8) {
		b.MinLength = 0
	}
	for i := g.n(g.o.Size * 3); i > 0; i-- {
		be := beamlattice.Beam{Indices: [2]uint32{g.u32(), g.u32()}}
		for k := range be.Radius {
			switch g.r.Intn(4) {
			case 0: // inherited
			case 1:
				be.Radius[k] = b.Radius
			case 2:
				be.Radius[k] = be.Radius[0]
			default:
				be.Radius[k] = g.pos()
			}
			be.CapMode[k] = beamlattice.CapMode(g.r.Intn(3))
		}
		b.Beams.Beam = append(b.Beams.Beam, be)
	}
	b.Beams.Beam = echo(g, b.Beams.Beam)
	for i := g.n(3); i > 0; i-- {
		bs := beamlattice.BeamSet{}
		if g.r.Bool() {
			bs.Name = g.str()
		}
		if g.r.Bool() {
			bs.Identifier = g.str()
		}
		for j := g.n(5); j > 0; j-- {
			bs.Refs = append(bs.Refs, g.u32())
		}
		bs.Refs = echo(g, bs.Refs)
		b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, bs)
	}
	b.BeamSets.BeamSet = echo(g, b.BeamSets.BeamSet)
	return b
}

// oddPath is the path of a part, which need not be written as in the package.
func (g *gen) oddPath() string {
	return g.r.Pick("/3D/other.model", "/3D/sub/a&b.model", "/3D/3dmodel.model", "/3D/./dot.model", "/3D//twice.model", "/3D/sub/../up.model",
		"3D/relative.model", "other.model", "../up.model", "/3D/end.model/", "/3D/A%20b.model", "/3D/UPPER.MODEL", "/", "/3D/ü.model", "/a b/\"c\" .model", "/3D/a.model?q#f", "\\3D\\back.model")
}

func (g *gen) prodPath() string {
	if g.r.P(1, 3) {
		return ""
	}
	if ks := sortedKeys(g.m.Childs); len(ks) > 0 && g.r.P(4, 5) {
		return ks[g.r.Intn(len(ks))]
	}
	return g.oddPath()
}

func (g *gen) object(id uint32) *go3mf.Object {
	o := &go3mf.Object{ID: id, Type: go3mf.ObjectType(g.r.Intn(5)), AnyAttr: g.unknownAttrs(), Metadata: g.metadataGroup()}
	if g.r.Bool() {
		o.Name = g.str()
	}
	if g.r.Bool() {
		o.PartNumber = g.str()
	}
	if g.o.Production && g.r.P(2, 3) {
		o.AnyAttr = append(o.AnyAttr, &production.ObjectAttr{UUID: g.maybeUUID()})
	}
	if g.o.Slices && g.r.P(1, 2) {
		o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: g.u32(), MeshResolution: slices.MeshResolution(g.r.Intn(2))})
	}
	if g.o.Package && g.r.P(1, 3) {
		o.Thumbnail = g.attachment("/Thumbnails/obj", "image/png")
	}
	switch g.r.Intn(8) {
	case 0: // neither
	case 1, 2:
		o.Components = &go3mf.Components{AnyAttr: g.unknownAttrs()}
		for i := g.n(g.o.Size); i > 0; i-- {
			c := &go3mf.Component{ObjectID: g.u32(), Transform: g.matrix(), AnyAttr: g.unknownAttrs()}
			if g.o.Production && g.r.P(2, 3) {
				c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{UUID: g.maybeUUID(), Path: g.prodPath()})
			}
			o.Components.Component = append(o.Components.Component, c)
		}
	default:
		if g.r.Bool() {
			o.PID = g.u32()
			if o.PID != 0 {
				o.PIndex = g.u32()
			}
		}
		o.Mesh = g.mesh(o)
	}
	return o
}

func (g *gen) resources(rs *go3mf.Resources) {
	next := uint32(0)
	used := map[uint32]bool{0: true}
	id := func() uint32 {
		next++
		v := next
		switch g.r.Intn(5) {
		case 0:
			v = g.r.U32()
		case 1:
			v = math.MaxUint32 - next
		}
		for used[v] {
			v++
		}
		used[v] = true
		return v
	}
	rs.AnyAttr = g.unknownAttrs()
	for i := g.n(g.o.Size); i > 0; i-- {
		b := &go3mf.BaseMaterials{ID: id(), AnyAttr: g.unknownAttrs()}
		for j := g.n(4); j > 0; j-- {
			b.Materials = append(b.Materials, go3mf.Base{Name: g.str(), Color: g.color(), AnyAttr: g.unknownAttrs()})
		}
		rs.Assets = append(rs.Assets, b)
	}
	if g.o.Materials {
		for i := g.r.Intn(6); i > 0; i-- {
			rs.Assets = append(rs.Assets, g.material(id()))
		}
	}
	if g.o.Slices {
		for i := g.r.Intn(4); i > 0; i-- {
			rs.Assets = append(rs.Assets, g.sliceStack(id()))
		}
	}
	if g.o.Unknown {
		for i := g.r.Intn(3); i > 0; i-- {
			uid := id()
			rs.Assets = append(rs.Assets, newUnknownAsset(g.unknownTree(g.unk[g.r.Intn(len(g.unk))].Namespace, 0, uid)))
		}
	}
	for _, i := range g.r.Perm(len(rs.Assets)) { // order of kinds is free
		j := g.r.Intn(len(rs.Assets))
		rs.Assets[i], rs.Assets[j] = rs.Assets[j], rs.Assets[i]
	}
	for i := g.n(g.o.Size); i > 0; i-- {
		rs.Objects = append(rs.Objects, g.object(id()))
	}
}

func (g *gen) material(id uint32) go3mf.Asset {
	fl := func() float32 { return float32(g.r.Range(-30000, 30000)) / 10000 }
	switch g.r.Intn(5) {
	case 0:
		c := &materials.ColorGroup{ID: id}
		for j := g.n(g.o.Size * 2); j > 0; j-- {
			c.Colors = append(c.Colors, g.color())
		}
		c.Colors = echo(g, c.Colors)
		return c
	case 1:
		c := &materials.Texture2DGroup{ID: id, TextureID: g.u32()}
		for j := g.n(g.o.Size * 2); j > 0; j-- {
			c.Coords = append(c.Coords, materials.TextureCoord{fl(), g.f32()})
		}
		c.Coords = echo(g, c.Coords)
		return c
	case 2:
		p := "/3D/Textures/t" + fmt.Sprint(g.r.Intn(4)) + ".png"
		if g.o.Package {
			p = g.attachment("/3D/Textures/t", "image/png")
		} else if g.r.P(1, 5) {
			p = "/3D/Textures/a&b'c.png"
		}
		return &materials.Texture2D{ID: id, Path: p, ContentType: materials.Texture2DType(g.r.Range(1, 2)),
			TileStyleU: materials.TileStyle(g.r.Intn(4)), TileStyleV: materials.TileStyle(g.r.Intn(4)), Filter: materials.TextureFilter(g.r.Intn(3))}
	case 3:
		c := &materials.CompositeMaterials{ID: id, MaterialID: g.u32()}
		for j := g.n(5); j > 0; j-- {
			c.Indices = append(c.Indices, g.u32())
		}
		c.Indices = echo(g, c.Indices)
		for j := g.n(g.o.Size); j > 0; j-- {
			var cm materials.Composite
			for k := g.n(4); k > 0; k-- {
				cm.Values = append(cm.Values, float32(g.r.F64()))
			}
			cm.Values = echo(g, cm.Values)
			c.Composites = append(c.Composites, cm)
		}
		c.Composites = echo(g, c.Composites)
		return c
	}
	c := &materials.MultiProperties{ID: id}
	for j := g.n(5); j > 0; j-- {
		c.PIDs = append(c.PIDs, g.u32())
	}
	c.PIDs = echo(g, c.PIDs)
	for j := g.n(5); j > 0; j-- {
		c.BlendMethods = append(c.BlendMethods, materials.BlendMethod(g.r.Intn(2)))
	}
	for j := g.n(g.o.Size); j > 0; j-- {
		var mu materials.Multi
		for k := g.n(4); k > 0; k-- {
			mu.PIndices = append(mu.PIndices, g.u32())
		}
		mu.PIndices = echo(g, mu.PIndices)
		c.Multis = append(c.Multis, mu)
	}
	c.Multis = echo(g, c.Multis)
	return c
}

func (g *gen) sliceStack(id uint32) *slices.SliceStack {
	s := &slices.SliceStack{ID: id}
	if g.r.Bool() {
		s.BottomZ = g.f32()
	}
	if g.r.P(2, 3) {
		for i := g.n(g.o.Size); i > 0; i-- {
			sl := slices.Slice{TopZ: g.f32()}
			for j := g.n(g.o.Size * 2); j > 0; j-- {
				sl.Vertices.Vertex = append(sl.Vertices.Vertex, go3mf.Point2D{g.f32(), g.f32()})
			}
			sl.Vertices.Vertex = echo(g, sl.Vertices.Vertex)
			for j := g.n(4); j > 0; j-- {
				p := slices.Polygon{StartV: g.u32()}
				for k := g.n(6); k > 0; k-- {
					seg := slices.Segment{V2: g.u32()}
					if g.r.Bool() {
						seg.PID, seg.P1, seg.P2 = g.u32(), g.u32(), g.u32()
						if g.r.Bool() {
							seg.P2 = seg.P1
						}
					}
					p.Segments = append(p.Segments, seg)
				}
				p.Segments = echo(g, p.Segments)
				if len(p.Segments) > 0 && g.r.P(1, 3) { // closed
					if g.r.Bool() {
						p.Segments = append(p.Segments, slices.Segment{V2: p.StartV})
					} else {
						p.Segments[len(p.Segments)-1].V2 = p.StartV
					}
				}
				sl.Polygons = append(sl.Polygons, p)
			}
			sl.Polygons = echo(g, sl.Polygons)
			s.Slices = append(s.Slices, sl)
		}
		s.Slices = echo(g, s.Slices)
	}
	if len(s.Slices) == 0 || g.r.P(1, 4) {
		for i := g.n(4); i > 0; i-- {
			s.Refs = append(s.Refs, slices.SliceRef{SliceStackID: g.u32(), Path: g.r.Pick("/3D/sl.model", "/2D/ü.model", g.oddPath())})
		}
		s.Refs = echo(g, s.Refs)
	}
	return s
}

// attachment creates or reuses an attachment and returns its path.
func (g *gen) attachment(prefix, ct string) string {
	ext := ct[strings.LastIndexByte(ct, '/')+1:]
	if i := strings.IndexByte(ext, ';'); i >= 0 {
		ext = ext[:i]
	}
	p := fmt.Sprintf("%s%d.%s", prefix, g.r.Intn(5), ext)
	if g.r.P(1, 8) {
		p = fmt.Sprintf("%s-%c%d.bin", prefix, 'A'+rune(g.r.Intn(26)), g.r.Intn(5))
		ct = "application/octet-stream"
	}
	if len(g.m.Attachments) > 0 && g.r.P(1, 5) {
		// a name that has much in common with another one
		a := g.m.Attachments[g.r.Intn(len(g.m.Attachments))]
		ext, b := "", a.Path
		if i := strings.LastIndexByte(b, '.'); i > strings.LastIndexByte(b, '/') {
			b, ext = b[:i], b[i:]
		}
		switch q := strings.LastIndexByte(b, '/'); g.r.Intn(7) {
		case 0: // a suffix
			p = g.r.Pick("/3D", "/q", "/Metadata") + a.Path
		case 1: // ends earlier
			if i := strings.IndexByte(b[1:], '/'); i >= 0 {
				p = b[1+i:] + ext
			}
		case 2: // another extension
			p = b + g.r.Pick(".b", ".png2", ".jpeg", "x"+ext, ".x"+ext)
		case 3: // another name in the same folder
			p = b + g.r.Pick("a", "_", "-1", "%20") + ext
		case 4: // the same name in another folder
			p = b[:q] + g.r.Pick("/s", "/s/t", "/2") + b[q:] + ext
		case 5: // as long as the other
			if b[len(b)-1] != '0' {
				p = b[:len(b)-1] + "z" + ext
			}
		case 6:
			p = b[:q+1] + "n" + b[q+1:] + ext
		}
		ct = a.ContentType
	}
	if !g.atts[strings.ToLower(p)] {
		g.atts[strings.ToLower(p)] = true
		data := g.r.Bytes([]int{0, 1, 10, 300, 70000}[g.r.Intn(5)])
		g.m.Attachments = append(g.m.Attachments, go3mf.Attachment{Path: p, ContentType: ct, Stream: bytes.NewReader(data)})
	}
	if g.r.P(1, 8) { // the names of parts are case insensitive
		return strings.ToUpper(p)
	}
	return p
}

func genModel(r *Rand, o genOpt) *go3mf.Model {
	if o.Size == 0 {
		o.Size = 4
	}
	g := &gen{r: r, o: o, m: new(go3mf.Model), atts: map[string]bool{}}
	m := g.m
	m.Units = go3mf.Units(r.Intn(6))
	m.Language = r.Pick("", "en-US", "de", "zh-Hans-CN")
	if !o.Plain && r.P(1, 6) {
		m.Language = g.str()
	}
	if o.Materials {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: nsMat, LocalName: r.Pick("m", "mat", "q1"), IsRequired: r.Bool()})
	}
	if o.Slices {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: nsSli, LocalName: r.Pick("s", "sl"), IsRequired: r.Bool()})
	}
	if o.Beams {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: nsBeam, LocalName: r.Pick("b", "beam"), IsRequired: r.Bool()})
	}
	if o.Production {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: nsProd, LocalName: r.Pick("p", "prod"), IsRequired: r.Bool()})
	}
	nu := 0
	if o.Unknown {
		nu = r.Range(1, 3)
	} else if r.Bool() {
		nu = 1
	}
	for i := 0; i < nu; i++ {
		e := go3mf.Extension{Namespace: fmt.Sprintf("http://example.com/ext/%d?a=1&b=\"%d\"", i, r.Intn(9)), LocalName: fmt.Sprintf("%s%d", r.Pick("u", "vendor", "other-ext", "m", "mat", "s", "p", "b"), i), IsRequired: r.Bool()}
		if r.P(1, 5) { // nearly one that is known
			ns := r.Pick(nsMat, nsSli, nsBeam, nsProd, nsCore)
			near := []string{ns + "/x", ns + fmt.Sprint(i), ns[:len(ns)-1], strings.ToUpper(ns), strings.ToUpper(ns[:8]) + ns[8:], ns + "/", "x" + ns}[r.Intn(7)]
			for _, o := range m.Extensions {
				if o.Namespace == near {
					near = ""
				}
			}
			if near != "" {
				e.Namespace = near
			}
		}
		g.unk = append(g.unk, e)
		m.Extensions = append(m.Extensions, e)
	}
	if n := len(m.Extensions); n > 0 && r.P(1, 6) { // another prefix of a name space
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: m.Extensions[r.Intn(n)].Namespace, LocalName: r.Pick("again", "a", "zz2"), IsRequired: r.Bool()})
	}
	for i := range m.Extensions {
		j := r.Intn(len(m.Extensions))
		m.Extensions[i], m.Extensions[j] = m.Extensions[j], m.Extensions[i]
	}
	if o.Childs {
		for i := r.Range(1, 4); i > 0; i-- {
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			m.Childs[fmt.Sprintf("%s%d.model", r.Pick("/3D/", "/3D/sub/", "/other/", "/"), i)] = &go3mf.ChildModel{}
		}
	}
	m.AnyAttr = withoutXML(g.unknownAttrs())
	for i := g.n(4); i > 0; i-- {
		m.Metadata = append(m.Metadata, g.metadata())
	}
	g.resources(&m.Resources)
	for _, p := range sortedKeys(m.Childs) {
		g.resources(&m.Childs[p].Resources)
		m.Childs[p].Any = g.unknownAny()
	}
	m.Any = g.unknownAny()
	m.Build.AnyAttr = g.unknownAttrs()
	if o.Production && r.P(2, 3) {
		m.Build.AnyAttr = append(m.Build.AnyAttr, &production.BuildAttr{UUID: g.maybeUUID()})
	}
	for i := g.n(o.Size); i > 0; i-- {
		it := &go3mf.Item{ObjectID: g.u32(), Transform: g.matrix(), AnyAttr: g.unknownAttrs(), Metadata: g.metadataGroup()}
		if r.Bool() {
			it.PartNumber = g.str()
		}
		if o.Production && r.P(2, 3) {
			it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{UUID: g.maybeUUID(), Path: g.prodPath()})
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	if o.Package {
		g.pkg()
	}
	if o.Wide && r.P(1, 15) {
		g.widen()
	}
	return m
}

func sortedKeys(m map[string]*go3mf.ChildModel) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// pkg adds the package level: paths, relationships and attachments.
func (g *gen) pkg() {
	r, m := g.r, g.m
	if r.P(1, 3) {
		m.Path = r.Pick("/3D/root.model", "/model.model", "/3D/a/b/root.model", "/3D/3dmodel.model")
	}
	if r.P(1, 3) {
		m.Thumbnail = g.attachment("/Metadata/thumb", "image/jpeg")
	}
	rels := func(n int) []go3mf.Relationship {
		var out []go3mf.Relationship
		seen := map[string]bool{}
		for ; n > 0; n-- {
			rel := go3mf.Relationship{Type: r.Pick(go3mf.RelTypePrintTicket, go3mf.RelTypeMustPreserve, "http://example.com/rel/type", nearRel(r)),
				Path: g.attachment(r.Pick("/Metadata/m", "/3D/Other/o", "/d"), r.Pick("text/xml", "image/png", "application/vnd.custom", "text/plain; charset=utf-8", "application/vnd.custom; profile=\"a b; c\"; q=1", "application/x+xml", "text/plain; charset=UTF-8; title=AbC"))}
			if r.Bool() {
				rel.ID = fmt.Sprintf("relID%d", r.Intn(1000))
			}
			if len(out) > 0 && r.P(1, 4) { // another one to the same target
				rel.Path = out[r.Intn(len(out))].Path
			}
			if r.P(1, 12) { // a model part, with another type
				if ps := sortedKeys(m.Childs); len(ps) > 0 && r.P(3, 4) {
					rel.Path = ps[r.Intn(len(ps))]
				} else {
					rel.Path = m.PathOrDefault()
				}
			}
			if seen[rel.Path+" "+rel.Type] || seen["id"+rel.ID] { // one of a type per target, and distinct ids
				continue
			}
			seen[rel.Path+" "+rel.Type] = true
			if rel.ID != "" {
				seen["id"+rel.ID] = true
			}
			out = append(out, rel)
		}
		return out
	}
	m.RootRelationships = rels(r.Intn(4))
	m.Relationships = rels(r.Intn(4))
	for _, p := range sortedKeys(m.Childs) {
		m.Childs[p].Relationships = rels(r.Intn(3))
	}
	for i := range m.Attachments {
		j := r.Intn(len(m.Attachments))
		m.Attachments[i], m.Attachments[j] = m.Attachments[j], m.Attachments[i]
	}
}

// newUnknownAsset builds the asset the way the library does: by decoding it.
// The identifier of an unknown asset cannot be set from outside the library.
func newUnknownAsset(ts []xml.Token) go3mf.Asset {
	a := &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: ts}}
	return &unkAsset{a: a, Token: ts}
}

// unkAsset stands for an UnknownAsset whose id is that of its tokens.
type unkAsset struct {
	a     *go3mf.UnknownAsset
	Token []xml.Token
}

func (u *unkAsset) XMLName() xml.Name { return u.a.XMLName() }
func (u *unkAsset) Identify() uint32 {
	st := u.Token[0].(xml.StartElement)
	for _, a := range st.Attr {
		if a.Name.Space == "" && a.Name.Local == "id" {
			var id uint32
			fmt.Sscan(a.Value, &id)
			return id
		}
	}
	return 0
}
func (u *unkAsset) Marshal3MF(e spec.Encoder, s *xml.StartElement) error {
	return spec.UnknownTokens{Token: u.Token}.Marshal3MF(e, s)
}

// withoutXML removes the attributes of the XML name space, of which the library
// knows the language of the root and ignores the others there.
func withoutXML(aa spec.AnyAttr) spec.AnyAttr {
	var out spec.AnyAttr
	for _, a := range aa {
		if a.Namespace() != nsXMLs {
			out = append(out, a)
		}
	}
	return out
}
