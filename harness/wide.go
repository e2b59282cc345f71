package main

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// widen makes one dimension of a model much larger than random models have it:
// limits, buffers and counters of the code under test are hidden there.
func (g *gen) widen() {
	r, m := g.r, g.m
	rs := &m.Resources
	if ks := sortedKeys(m.Childs); len(ks) > 0 && r.P(1, 3) {
		rs = &m.Childs[ks[r.Intn(len(ks))]].Resources
	}
	n := []int{12, 17, 33, 65, 130, 260}[r.Intn(6)] + r.Intn(5)
	id := func() uint32 { return rs.UnusedID() }
	object := func() *go3mf.Object {
		if len(rs.Objects) == 0 {
			rs.Objects = append(rs.Objects, g.object(id()))
		}
		return rs.Objects[r.Intn(len(rs.Objects))]
	}
	var owner *go3mf.Object // the object of the mesh
	mesh := func() *go3mf.Mesh {
		o := object()
		owner = o
		if o.Mesh == nil {
			o.Components, o.PID, o.PIndex = nil, 0, 0
			o.Mesh = new(go3mf.Mesh)
		}
		return o.Mesh
	}
	long := func() string {
		k := []int{64, 127, 255, 256, 1000, 4090, 4096, 9000, 33000, 70000}[r.Intn(10)] + r.Intn(3)
		var b strings.Builder
		for b.Len() < k {
			switch r.Intn(6) {
			case 0:
				b.WriteString(strings.Repeat(r.Pick(" ", "x", "\n", "é", "&", "<", "\t"), r.Range(1, 40)))
			case 1:
				b.WriteString(g.str())
			default:
				b.WriteString(r.Pick("lorem ", "ipsum,", "dolor", "日本", " & ", "a"))
			}
		}
		return b.String()
	}
	unknown := func() { // at least one extension nobody knows
		for len(g.unk) < 2 {
			e := go3mf.Extension{Namespace: fmt.Sprintf("http://example.com/wide/%d", len(g.unk)), LocalName: fmt.Sprintf("w%d", len(g.unk))}
			g.unk = append(g.unk, e)
			m.Extensions = append(m.Extensions, e)
		}
	}
	dim := r.Intn(17)
	switch dim {
	case 0:
		for ; n > 0; n-- {
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: g.u32(), Transform: g.matrix(), Metadata: g.metadataGroup()})
		}
	case 1:
		o := object()
		o.Mesh, o.PID, o.PIndex = nil, 0, 0
		o.Components = new(go3mf.Components)
		for ; n > 0; n-- {
			o.Components.Component = append(o.Components.Component, &go3mf.Component{ObjectID: g.u32(), Transform: g.matrix()})
		}
	case 2:
		list := &m.Metadata
		if r.Bool() {
			list = &object().Metadata.Metadata
		}
		for ; n > 0; n-- {
			*list = append(*list, g.metadata())
		}
	case 3:
		b := &go3mf.BaseMaterials{ID: id()}
		for ; n > 0; n-- {
			b.Materials = append(b.Materials, go3mf.Base{Name: g.str(), Color: g.color()})
		}
		rs.Assets = append(rs.Assets, b)
	case 4: // many extensions, and an element with attributes of all of them
		it := &go3mf.Item{ObjectID: g.u32()}
		for ; n > 0; n-- {
			e := go3mf.Extension{Namespace: "http://example.com/many/" + fmt.Sprint(n), LocalName: "n" + fmt.Sprint(n), IsRequired: r.Bool()}
			m.Extensions = append(m.Extensions, e)
			if r.P(2, 3) {
				it.AnyAttr = append(it.AnyAttr, &spec.UnknownAttrs{Space: e.Namespace, Attr: []xml.Attr{{Name: xml.Name{Space: e.Namespace, Local: "a"}, Value: g.str()}}})
			}
		}
		m.Build.Items = append(m.Build.Items, it)
	case 5: // many attributes
		unknown()
		u := &spec.UnknownAttrs{Space: g.unk[0].Namespace}
		for ; n > 0; n-- {
			u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: u.Space, Local: "a" + fmt.Sprint(n)}, Value: g.str()})
		}
		switch r.Intn(4) {
		case 0:
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: g.u32(), AnyAttr: spec.AnyAttr{u}})
		case 1:
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: id(), Mesh: new(go3mf.Mesh), AnyAttr: spec.AnyAttr{u}})
		case 2:
			ms := mesh()
			if owner.PID == 0 {
				ms.Triangles.Triangle = append(ms.Triangles.Triangle, go3mf.Triangle{V1: 1, V2: 2, V3: 3, AnyAttr: spec.AnyAttr{u}})
			}
		default:
			rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: id(), AnyAttr: spec.AnyAttr{u}})
		}
	case 6: // deep
		unknown()
		name := xml.Name{Space: g.unk[0].Namespace, Local: "deep"}
		var ts []xml.Token
		for i := 0; i < n; i++ {
			ts = append(ts, xml.StartElement{Name: name})
			if r.P(1, 6) {
				ts = append(ts, xml.CharData(g.strNE()))
			}
		}
		for i := 0; i < n; i++ {
			ts = append(ts, xml.EndElement{Name: name})
		}
		m.Any = append(m.Any, &spec.UnknownTokens{Token: ts})
	case 7: // broad
		unknown()
		name := xml.Name{Space: g.unk[0].Namespace, Local: "broad"}
		ts := []xml.Token{xml.StartElement{Name: name}}
		for ; n > 0; n-- {
			ts = append(ts, g.unknownTree(name.Space, 3, 0)...)
		}
		m.Any = append(m.Any, &spec.UnknownTokens{Token: append(ts, xml.EndElement{Name: name})})
	case 8: // long strings
		if g.o.Plain {
			return
		}
		switch r.Intn(5) {
		case 0:
			m.Metadata = append(m.Metadata, go3mf.Metadata{Name: xml.Name{Local: "Description"}, Value: long(), Type: long()})
		case 1:
			object().Name = long()
		case 2:
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1, PartNumber: long()})
		case 3:
			rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: id(), Materials: []go3mf.Base{{Name: long(), Color: g.color()}, {Name: g.str(), Color: g.color()}}})
		default:
			unknown()
			name := xml.Name{Space: g.unk[0].Namespace, Local: "long"}
			m.Any = append(m.Any, &spec.UnknownTokens{Token: []xml.Token{
				xml.StartElement{Name: name, Attr: []xml.Attr{{Name: xml.Name{Local: "k"}, Value: long()}}}, xml.CharData(long()), xml.EndElement{Name: name}}})
		}
	case 9: // many objects
		for ; n > 0; n-- {
			o := &go3mf.Object{ID: id(), Name: g.str(), Type: go3mf.ObjectType(r.Intn(5)), Mesh: new(go3mf.Mesh)}
			if r.P(1, 4) {
				o.Mesh, o.Components = nil, &go3mf.Components{Component: []*go3mf.Component{{ObjectID: g.u32()}}}
			}
			rs.Objects = append(rs.Objects, o)
		}
	case 10: // many assets
		for ; n > 0; n-- {
			if g.o.Materials && r.Bool() {
				rs.Assets = append(rs.Assets, &materials.ColorGroup{ID: id(), Colors: echo(g, []color.RGBA{g.color(), g.color()})})
			} else {
				rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: id(), Materials: []go3mf.Base{{Name: g.str(), Color: g.color()}}})
			}
		}
	case 11: // a big mesh
		ms := mesh()
		for k := n * r.Range(1, 40); k > 0; k-- {
			ms.Vertices.Vertex = append(ms.Vertices.Vertex, go3mf.Point3D{g.f32(), g.f32(), g.f32()})
		}
		if owner.PID == 0 {
			for k := n * r.Range(1, 40); k > 0; k-- {
				ms.Triangles.Triangle = append(ms.Triangles.Triangle, go3mf.Triangle{V1: g.u32(), V2: g.u32(), V3: g.u32()})
			}
		}
	case 12: // many parts
		for k := r.Range(5, 40); m.Childs != nil && k > 0; k-- {
			m.Childs[fmt.Sprintf("/3D/many/%d.model", k)] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: uint32(k), Name: g.str(), Mesh: new(go3mf.Mesh)}}}}
		}
	case 13:
		if g.o.Package { // many attachments
			for ; n > 0; n-- {
				m.RootRelationships = append(m.RootRelationships, go3mf.Relationship{Type: "http://example.com/rel/many", Path: g.attachment(fmt.Sprintf("/Many/m%d-", n), "image/png")})
			}
			rels := m.RootRelationships[:0]
			seen := map[string]bool{}
			for _, rel := range m.RootRelationships {
				if k := strings.ToLower(rel.Path) + " " + rel.Type; !seen[k] {
					seen[k] = true
					rels = append(rels, rel)
				}
			}
			m.RootRelationships = rels
		}
	case 14:
		if g.o.Materials {
			cm := &materials.CompositeMaterials{ID: id(), MaterialID: g.u32()}
			mp := &materials.MultiProperties{ID: id() + 1}
			cg := &materials.ColorGroup{ID: id() + 2}
			var vs materials.Composite
			var mu materials.Multi
			for k := 0; k < n; k++ {
				cm.Indices = append(cm.Indices, g.u32())
				vs.Values = append(vs.Values, float32(r.Intn(10000))/10000)
				mp.PIDs = append(mp.PIDs, g.u32())
				mp.BlendMethods = append(mp.BlendMethods, materials.BlendMethod(r.Intn(2)))
				mu.PIndices = append(mu.PIndices, g.u32())
				for c := r.Intn(8); c > 0; c-- {
					cg.Colors = append(cg.Colors, g.color())
				}
			}
			cm.Composites, mp.Multis = []materials.Composite{vs, vs}, []materials.Multi{mu, mu}
			rs.Assets = append(rs.Assets, cm, mp, cg)
		}
	case 15:
		if g.o.Slices {
			st := &slices.SliceStack{ID: id(), BottomZ: g.f32()}
			for k := 0; k < n; k++ {
				sl := slices.Slice{TopZ: g.f32(), Vertices: slices.Vertices{Vertex: []go3mf.Point2D{{g.f32(), g.f32()}}}}
				if r.P(1, 20) {
					p := slices.Polygon{StartV: g.u32()}
					for x := r.Range(10, 300); x > 0; x-- {
						p.Segments = append(p.Segments, slices.Segment{V2: g.u32()})
					}
					sl.Polygons = append(sl.Polygons, p)
				}
				st.Slices = append(st.Slices, sl)
			}
			rs.Assets = append(rs.Assets, st)
		}
	default:
		if g.o.Beams {
			ms := mesh()
			for _, a := range ms.Any {
				if _, ok := a.(*beamlattice.BeamLattice); ok {
					return
				}
			}
			b := g.beamLattice()
			bs := beamlattice.BeamSet{Name: g.str()}
			for k := 0; k < n; k++ {
				b.Beams.Beam = append(b.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{g.u32(), g.u32()}, Radius: [2]float32{b.Radius, b.Radius}, CapMode: [2]beamlattice.CapMode{b.CapMode, b.CapMode}})
				bs.Refs = append(bs.Refs, g.u32())
				if r.P(1, 4) {
					b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, bs)
				}
			}
			ms.Any = append(ms.Any, b)
		}
	}
}
