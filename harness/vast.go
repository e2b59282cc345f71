package main

import (
	"encoding/xml"
	"fmt"
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
)

// vastDims are the lists that a model can have more than 65536 elements of,
// by the property that looks after them.
var vastDims = map[string][]string{
	"C01": {"vertices", "triangles", "plain-triangles", "items", "components", "metadata", "bases", "objects"},
	"C03": {"colors", "coords", "composites", "values", "multis", "pindices"},
	"C04": {"slices", "slice-vertices", "polygons", "segments", "refs"},
	"C05": {"beams", "beamsets", "beamset-refs"},
	"C06": {"production-items", "production-components"},
	"C07": {"unknown-elements", "unknown-attributes"},
}

// vastModel makes a list of more elements than 16 bits can count. A sound one
// has what its elements refer to, but for a few of them.
func vastModel(r *Rand, dim string, sound bool) *go3mf.Model {
	n := 1<<16 + r.Range(1, 5000)
	i32 := func() uint32 {
		if sound {
			if r.P(1, 30000) {
				return uint32(n + r.Intn(3))
			}
			if r.P(1, 10) {
				return uint32(n - 1 - r.Intn(9))
			}
			return uint32(r.Intn(n))
		}
		if r.P(1, 20) {
			return uint32(r.U64())
		}
		return uint32(r.Intn(n))
	}
	ref := func(id uint32) uint32 { // an identifier
		if sound && !r.P(1, 30000) {
			return id
		}
		return i32()
	}
	path := func(k int) string { // of a part
		if sound && !r.P(1, 30000) {
			return ""
		}
		return fmt.Sprintf("/3D/%d.model", k)
	}
	f := func() float32 { return float32(r.Range(-1<<20, 1<<20)) / 128 }
	col := func() color.RGBA {
		return color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256))}
	}
	list := func(k int) []uint32 {
		l := make([]uint32, k)
		for i := range l {
			l[i] = i32()
		}
		return l
	}
	m := &go3mf.Model{Path: "/3D/3dmodel.model"}
	mesh := &go3mf.Mesh{}
	mesh.Vertices.Vertex = make([]go3mf.Point3D, 4)
	for k := uint32(0); k < 4; k++ {
		mesh.Triangles.Triangle = append(mesh.Triangles.Triangle, go3mf.Triangle{V1: k, V2: (k + 1) % 4, V3: (k + 2) % 4})
	}
	obj := &go3mf.Object{ID: 1, Mesh: mesh}
	rs := &m.Resources
	stack := &slices.SliceStack{ID: 3}
	slice := slices.Slice{TopZ: 1}
	lattice := &beamlattice.BeamLattice{MinLength: 0.5, Radius: 1}
	multi := &materials.MultiProperties{ID: 3, PIDs: []uint32{1, 2, 4}, BlendMethods: []materials.BlendMethod{1, 0}}
	rs.Objects = []*go3mf.Object{obj}
	ext := func(e go3mf.Extension) { m.Extensions = append(m.Extensions, e) }
	for k := 0; k < n; k++ {
		switch dim {
		case "vertices":
			mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, go3mf.Point3D{f(), f(), f()})
		case "triangles":
			if k == 0 {
				obj.PID, obj.PIndex, mesh.Triangles.Triangle = 7, 3, nil
			}
			t := go3mf.Triangle{V1: i32(), V2: i32(), V3: i32(), PID: 7, P1: 3, P2: 3, P3: 3}
			if r.Bool() && !sound || r.P(1, 30000) {
				t.PID = uint32(1 + r.Intn(9))
			}
			switch r.Intn(3) {
			case 0:
				t.P1, t.P2, t.P3 = i32(), i32(), i32()
			case 1:
				t.P1 = i32()
				t.P2, t.P3 = t.P1, t.P1
			}
			mesh.Triangles.Triangle = append(mesh.Triangles.Triangle, t)
		case "plain-triangles":
			mesh.Triangles.Triangle = append(mesh.Triangles.Triangle, go3mf.Triangle{V1: i32(), V2: i32(), V3: i32()})
		case "items":
			it := &go3mf.Item{ObjectID: ref(1), PartNumber: fmt.Sprint(k)}
			if r.P(1, 3) {
				it.Transform = go3mf.Identity().Translate(f(), f(), f())
			}
			m.Build.Items = append(m.Build.Items, it)
		case "components", "production-components":
			if k == 0 {
				obj.Mesh, obj.Components = nil, new(go3mf.Components)
			}
			c := &go3mf.Component{ObjectID: ref(2)}
			if r.P(1, 3) {
				c.Transform = go3mf.Identity().Translate(f(), f(), f())
			}
			if dim != "components" {
				a := &production.ComponentAttr{UUID: uuid.New()}
				if r.Bool() {
					a.Path = path(k)
				}
				c.AnyAttr = append(c.AnyAttr, a)
			}
			obj.Components.Component = append(obj.Components.Component, c)
		case "production-items":
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: ref(1), AnyAttr: spec.AnyAttr{&production.ItemAttr{UUID: uuid.New(), Path: path(k)}}})
		case "metadata":
			name := xml.Name{Local: fmt.Sprint("m", ref(uint32(k)))}
			if sound {
				if name.Space = "http://example.com/vast"; k == 0 {
					ext(go3mf.Extension{Namespace: name.Space, LocalName: "v"})
				}
			}
			m.Metadata = append(m.Metadata, go3mf.Metadata{Name: name, Value: fmt.Sprint(i32()), Preserve: r.Bool()})
		case "bases":
			if k == 0 {
				rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: 3})
			}
			b := rs.Assets[0].(*go3mf.BaseMaterials)
			b.Materials = append(b.Materials, go3mf.Base{Name: fmt.Sprint(k), Color: col()})
		case "objects":
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: ref(uint32(k + 2)), Name: fmt.Sprint(k), Mesh: mesh})
		case "colors":
			if k == 0 {
				rs.Assets = append(rs.Assets, &materials.ColorGroup{ID: 3})
			}
			g := rs.Assets[0].(*materials.ColorGroup)
			g.Colors = append(g.Colors, col())
		case "coords":
			if k == 0 {
				rs.Assets = append(rs.Assets, &materials.Texture2DGroup{ID: 3, TextureID: 2})
			}
			g := rs.Assets[0].(*materials.Texture2DGroup)
			g.Coords = append(g.Coords, materials.TextureCoord{f(), f()})
		case "composites", "values":
			if k == 0 {
				rs.Assets = append(rs.Assets, &materials.CompositeMaterials{ID: 3, MaterialID: 2, Indices: list(3)})
			}
			g := rs.Assets[0].(*materials.CompositeMaterials)
			if dim == "composites" {
				g.Composites = append(g.Composites, materials.Composite{Values: []float32{f(), f()}})
				continue
			}
			if k == 0 {
				g.Indices = list(n)
				g.Composites = make([]materials.Composite, 2)
			}
			g.Composites[0].Values = append(g.Composites[0].Values, f())
			g.Composites[1].Values = append(g.Composites[1].Values, f())
		case "multis":
			multi.Multis = append(multi.Multis, materials.Multi{PIndices: list(3)})
		case "pindices":
			if k == 0 {
				multi.PIDs = list(n)
				multi.BlendMethods = make([]materials.BlendMethod, n-1)
				for i := range multi.BlendMethods {
					multi.BlendMethods[i] = materials.BlendMethod(r.Intn(2))
				}
				multi.Multis = []materials.Multi{{PIndices: list(2)}, {PIndices: list(n)}}
				multi.Multis[1].PIndices[n-1] = 5
			}
		case "slices":
			z := float32(k+1) / 4
			if r.P(1, 30000) {
				z = 0
			}
			stack.Slices = append(stack.Slices, slices.Slice{TopZ: z})
		case "slice-vertices":
			slice.Vertices.Vertex = append(slice.Vertices.Vertex, go3mf.Point2D{f(), f()})
		case "polygons":
			slice.Polygons = append(slice.Polygons, slices.Polygon{StartV: i32(), Segments: []slices.Segment{{V2: i32()}}})
		case "segments":
			if k == 0 {
				slice.Polygons = make([]slices.Polygon, 2)
			}
			s := slices.Segment{V2: i32()}
			if r.Bool() {
				s.PID, s.P1 = uint32(1+r.Intn(9)), i32()
				if sound {
					s.PID = ref(7)
				}
				if s.P2 = s.P1; r.Bool() {
					s.P2 = i32()
				}
			}
			slice.Polygons[1].Segments = append(slice.Polygons[1].Segments, s)
		case "refs":
			stack.Refs = append(stack.Refs, slices.SliceRef{SliceStackID: ref(9), Path: fmt.Sprintf("/3D/%d.model", r.Intn(99))})
		case "beams":
			b := beamlattice.Beam{Indices: [2]uint32{i32(), i32()}, CapMode: [2]beamlattice.CapMode{beamlattice.CapMode(r.Intn(3)), beamlattice.CapMode(r.Intn(3))}}
			if r.Bool() {
				b.Radius = [2]float32{float32(1+r.Intn(9)) / 8, float32(1+r.Intn(9)) / 8}
			}
			lattice.Beams.Beam = append(lattice.Beams.Beam, b)
		case "beamsets":
			lattice.BeamSets.BeamSet = append(lattice.BeamSets.BeamSet, beamlattice.BeamSet{Name: fmt.Sprint(k), Refs: list(r.Intn(3))})
		case "beamset-refs":
			if k == 0 {
				lattice.BeamSets.BeamSet = make([]beamlattice.BeamSet, 2)
			}
			lattice.BeamSets.BeamSet[1].Refs = append(lattice.BeamSets.BeamSet[1].Refs, i32())
		case "unknown-elements", "unknown-attributes":
			if k == 0 {
				ext(go3mf.Extension{Namespace: "http://example.com/vast", LocalName: "v"})
				m.Any = spec.Any{&spec.UnknownTokens{Token: []xml.Token{xml.StartElement{Name: xml.Name{Space: "http://example.com/vast", Local: "root"}}}}}
			}
			u := m.Any[0].(*spec.UnknownTokens)
			st := xml.StartElement{Name: xml.Name{Space: "http://example.com/vast", Local: "e" + fmt.Sprint(k%7)}}
			if dim == "unknown-elements" {
				st.Attr = []xml.Attr{{Name: xml.Name{Local: "k"}, Value: fmt.Sprint(k)}}
				u.Token = append(u.Token, st, xml.EndElement{Name: st.Name})
				continue
			}
			if k == 0 {
				u.Token = append(u.Token, st)
			}
			st = u.Token[1].(xml.StartElement)
			st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Local: fmt.Sprint("a", k)}, Value: fmt.Sprint(i32())})
			u.Token[1] = st
			if k == n-1 {
				u.Token = append(u.Token, xml.EndElement{Name: st.Name})
			}
		default:
			panic(dim)
		}
	}
	if sound {
		vastRest(m, dim, n)
	}
	switch dim {
	case "multis", "pindices":
		rs.Assets = append(rs.Assets, multi)
	case "slices", "refs":
		rs.Assets = append(rs.Assets, stack)
	case "slice-vertices", "polygons", "segments":
		if sound {
			slice.Vertices.Vertex = make([]go3mf.Point2D, n)
		}
		stack.Slices = []slices.Slice{slice, {TopZ: 2}}
		rs.Assets = append(rs.Assets, stack)
	case "beams", "beamsets", "beamset-refs":
		mesh.Any = spec.Any{lattice}
	}
	switch {
	case rs.Assets != nil && dim != "bases":
		if dim == "slices" || dim == "refs" || dim == "polygons" || dim == "segments" || dim == "slice-vertices" {
			ext(slices.DefaultExtension)
		} else {
			ext(materials.DefaultExtension)
		}
	case mesh.Any != nil:
		ext(beamlattice.DefaultExtension)
	case dim == "production-items" || dim == "production-components":
		ext(production.DefaultExtension)
	}
	if len(m.Any) != 0 {
		u := m.Any[0].(*spec.UnknownTokens)
		u.Token = append(u.Token, xml.EndElement{Name: xml.Name{Space: "http://example.com/vast", Local: "root"}})
	}
	m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1})
	return m
}

// vastRest adds what the elements of a list refer to.
func vastRest(m *go3mf.Model, dim string, n int) {
	rs := &m.Resources
	bases := &go3mf.BaseMaterials{ID: 7, Materials: make([]go3mf.Base, n)}
	for i := range bases.Materials {
		bases.Materials[i] = go3mf.Base{Name: "a", Color: color.RGBA{1, 2, 3, 255}}
	}
	switch dim {
	case "triangles", "segments":
		rs.Assets = append(rs.Assets, bases)
		m.Resources.Objects[0].Mesh.Vertices.Vertex = make([]go3mf.Point3D, n)
	case "plain-triangles", "beams", "beamsets", "beamset-refs":
		m.Resources.Objects[0].Mesh.Vertices.Vertex = make([]go3mf.Point3D, n)
	case "components", "production-components":
		rs.Objects = []*go3mf.Object{{ID: 2, Components: new(go3mf.Components)}, rs.Objects[0]}
	case "composites", "values":
		bases.ID = 2
		rs.Assets = append([]go3mf.Asset{bases}, rs.Assets...)
	case "multis":
		for i, k := range []int{1, 2, 4} {
			g := &materials.ColorGroup{ID: uint32(k), Colors: make([]color.RGBA, n)}
			for j := range g.Colors {
				g.Colors[j] = color.RGBA{1, 2, 3, 4}
			}
			if i > 0 {
				rs.Assets = append(rs.Assets, &materials.Texture2DGroup{ID: uint32(k), TextureID: 9, Coords: make([]materials.TextureCoord, n)})
			} else {
				rs.Assets = append(rs.Assets, g)
			}
		}
	case "refs":
		m.Childs = map[string]*go3mf.ChildModel{}
		for i := 0; i < 99; i++ {
			m.Childs[fmt.Sprintf("/3D/%d.model", i)] = &go3mf.ChildModel{Resources: go3mf.Resources{Assets: []go3mf.Asset{&slices.SliceStack{ID: 9, Slices: []slices.Slice{{TopZ: float32(i)}}}}}}
		}
	}
}

// vastTrip makes a round trip of a list too long for 16 bits.
func vastTrip(t *T, dim string, marshal bool) {
	m := vastModel(t.R, dim, dim != "metadata" && t.R.P(1, 3))
	prec := []int{4, 6, 7, 9, -1}[t.R.Intn(5)]
	roundTrip(t, m, prec)
	if marshal {
		marshalTrip(t, m)
	}
	t.Seen("lists_of_more_than_65536", dim)
}

// vastValidate validates a list too long for 16 bits.
func vastValidate(t *T, dim string) {
	checkValidate(t, vastModel(t.R, dim, true), "vast "+dim, nil)
	t.Seen("lists_of_more_than_65536", dim)
}
