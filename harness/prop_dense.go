package main

import (
	"bytes"
	"encoding/xml"
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// denseGen makes small models without any care for validity whose numbers,
// paths and names are taken from so few values that they hit, miss by one and
// collide all the time. The models of valGen are nearly right, those of genModel
// refer to nothing; these are in between.
type denseGen struct {
	r       *Rand
	m       *go3mf.Model
	paths   []string
	maxID   int
	mat     bool
	sli     bool
	beam    bool
	prod    bool
	healthy int // of 8 values are likely to be right
}

func (g *denseGen) good() bool { return g.r.Intn(8) < g.healthy }

func (g *denseGen) id() uint32 {
	if g.good() {
		return uint32(1 + g.r.Intn(g.maxID))
	}
	return uint32(g.r.Intn(g.maxID + 2))
}

// idx returns an index for a list of n elements.
func (g *denseGen) idx(n int) uint32 {
	if n > 0 && (g.good() || g.good()) {
		return uint32(g.r.Intn(n))
	}
	switch g.r.Intn(8) {
	case 0:
		return 1<<31 + uint32(g.r.Intn(3)) - 1
	case 1:
		return 1<<32 - 1 - uint32(g.r.Intn(2))
	case 2:
		return 256 + uint32(g.r.Intn(n+1))
	case 3:
		return 65536 + uint32(g.r.Intn(n+1))
	}
	return uint32(g.r.Intn(n + 2))
}

func (g *denseGen) col() color.RGBA {
	if g.good() {
		return color.RGBA{1, uint8(g.r.Intn(2)), 3, 255}
	}
	return []color.RGBA{{}, {0, 0, 0, 255}, {0, 0, 0, 1}, {0, 0, 1, 0}, {1, 0, 0, 0}, {0, 1, 0, 0}}[g.r.Intn(6)]
}

func (g *denseGen) uuid() string {
	if g.good() {
		return g.r.Pick("6f3f1b6a-55aa-4a8e-9d1b-0123456789ab", "6F3F1B6A-55AA-4A8E-9D1B-0123456789AB", "00000000-0000-0000-0000-000000000000")
	}
	return g.r.Pick("", "x", "6f3f1b6a55aa4a8e9d1b0123456789ab", "6f3f1b6a-55aa-4a8e-9d1b-0123456789a", "6f3f1b6a-55aa-4a8e-9d1b-0123456789ag",
		"{6f3f1b6a-55aa-4a8e-9d1b-0123456789ab}", "urn:uuid:6f3f1b6a-55aa-4a8e-9d1b-0123456789ab")
}

func (g *denseGen) path() string {
	if g.r.P(1, 3) {
		return ""
	}
	if !g.good() {
		return g.r.Pick("/nowhere.model", "/B.model", "b.model", "/3D/3dmodel.model")
	}
	return g.paths[g.r.Intn(len(g.paths))]
}

func (g *denseGen) z() float32 {
	return []float32{-2, -1.5, -1, -0.5, 0, 0.5, 1, 1, 1.5, 2, 3}[g.r.Intn(11)]
}

func (g *denseGen) some(max int) int {
	if g.good() && max > 1 {
		return 1 + g.r.Intn(max)
	}
	return g.r.Intn(max + 1)
}

func (g *denseGen) transform() go3mf.Matrix {
	x := []go3mf.Matrix{{}, go3mf.Identity(), {0, 2, 0, 0, -1, 0, 0, 0, 0, 0, 1, 0, 3, 4, 5, 1}, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0}}[g.r.Intn(4)]
	if g.r.P(1, 6) {
		x[g.r.Intn(16)] += []float32{-1, 0.001, 1}[g.r.Intn(3)]
	}
	return x
}

func (g *denseGen) metadata() (out []go3mf.Metadata) {
	if g.r.P(3, 4) {
		return nil
	}
	for i := g.r.Intn(4); i > 0; i-- {
		out = append(out, go3mf.Metadata{Name: xml.Name{Space: g.r.Pick("", "", "", "http://a", "http://b"), Local: g.r.Pick("Title", "Designer", "title", "Rating", "a", "")}, Value: "v"})
	}
	return
}

func (g *denseGen) asset() go3mf.Asset {
	r := g.r
	id := g.id()
	kind := 0
	switch {
	case g.mat && g.sli:
		kind = r.Intn(9)
	case g.mat:
		kind = r.Intn(7)
	case g.sli:
		kind = []int{0, 7, 7, 8, 8, 8}[r.Intn(6)]
	}
	switch kind {
	case 1:
		a := &materials.ColorGroup{ID: id}
		for i := g.some(4); i > 0; i-- {
			a.Colors = append(a.Colors, g.col())
		}
		return a
	case 2:
		return &materials.Texture2D{ID: id, Path: r.Pick("/3D/t.png", "/3D/T.png", "/3D/u.png", "", "3D/t.png"), ContentType: materials.Texture2DType(r.Intn(3))}
	case 3:
		return &materials.Texture2DGroup{ID: id, TextureID: g.id(), Coords: make([]materials.TextureCoord, g.some(4))}
	case 4:
		a := &materials.CompositeMaterials{ID: id, MaterialID: g.id()}
		for i := g.some(4); i > 0; i-- {
			a.Indices = append(a.Indices, g.idx(3))
		}
		for i := g.some(4); i > 0; i-- {
			a.Composites = append(a.Composites, materials.Composite{Values: make([]float32, r.Intn(5))})
		}
		return a
	case 5, 6:
		a := &materials.MultiProperties{ID: id}
		for i := g.some(4); i > 0; i-- {
			a.PIDs = append(a.PIDs, g.id())
		}
		for i := r.Intn(4); i > 0; i-- {
			a.BlendMethods = append(a.BlendMethods, materials.BlendMethod(r.Intn(2)))
		}
		for i := g.some(4); i > 0; i-- {
			var mu materials.Multi
			for j := r.Intn(6); j > 0; j-- {
				mu.PIndices = append(mu.PIndices, g.idx(3))
			}
			a.Multis = append(a.Multis, mu)
		}
		return a
	case 7, 8:
		a := &slices.SliceStack{ID: id, BottomZ: g.z()}
		if g.good() {
			a.BottomZ = -2
		}
		refs, slcs := r.Bool(), r.Bool()
		if g.good() {
			slcs = !refs
		}
		if slcs {
			z := g.z()
			for i := g.some(4); i > 0; i-- {
				s := slices.Slice{TopZ: z}
				if z += float32(r.Intn(3)) / 2; !g.good() {
					z = g.z()
				}
				for j := g.some(4); j > 0; j-- {
					s.Vertices.Vertex = append(s.Vertices.Vertex, go3mf.Point2D{float32(j), 1})
				}
				n := len(s.Vertices.Vertex)
				for j := g.some(3); j > 0; j-- {
					p := slices.Polygon{StartV: g.idx(n)}
					for k := g.some(4); k > 0; k-- {
						p.Segments = append(p.Segments, slices.Segment{V2: g.idx(n)})
					}
					if k := len(p.Segments); k > 0 && g.good() {
						p.Segments[k-1].V2 = p.StartV
					}
					s.Polygons = append(s.Polygons, p)
				}
				a.Slices = append(a.Slices, s)
			}
		}
		if refs {
			for i := g.some(5); i > 0; i-- {
				a.Refs = append(a.Refs, slices.SliceRef{SliceStackID: g.id(), Path: g.path()})
			}
		}
		return a
	}
	a := &go3mf.BaseMaterials{ID: id}
	for i := g.some(4); i > 0; i-- {
		b := go3mf.Base{Name: "a", Color: g.col()}
		if !g.good() {
			b.Name = r.Pick("", " ", "b")
		}
		a.Materials = append(a.Materials, b)
	}
	return a
}

func (g *denseGen) object() *go3mf.Object {
	r := g.r
	o := &go3mf.Object{ID: g.id(), Type: go3mf.ObjectType(r.Intn(5)), Metadata: go3mf.MetadataGroup{Metadata: g.metadata()}}
	if g.good() {
		o.Type = go3mf.ObjectTypeModel
	}
	mesh, comps := r.Bool(), r.Bool()
	if g.good() {
		comps = !mesh
	}
	if r.P(1, 3) {
		o.PID = g.id()
	}
	if r.P(1, 3) {
		o.PIndex = g.idx(3)
	}
	if mesh {
		o.Mesh = new(go3mf.Mesh)
		nv, nt := g.some(5), r.Intn(7)
		for i := 0; i < nv; i++ {
			o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(i), g.z(), g.z()})
		}
		for i := 0; i < nt; i++ {
			x := go3mf.Triangle{V1: g.idx(nv), V2: g.idx(nv), V3: g.idx(nv)}
			switch r.Intn(6) {
			case 0:
				x.PID, x.P1, x.P2, x.P3 = o.PID, o.PIndex, o.PIndex, o.PIndex
			case 1:
				x.PID, x.P1, x.P2, x.P3 = o.PID, g.idx(3), g.idx(3), g.idx(3)
			case 2, 3:
				x.PID, x.P1, x.P2, x.P3 = g.id(), g.idx(3), g.idx(3), g.idx(3)
			case 4:
				x.P1, x.P2, x.P3 = g.idx(3), g.idx(3), g.idx(3)
			}
			o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, x)
		}
		if g.beam && r.P(2, 3) {
			b := &beamlattice.BeamLattice{ClipMode: beamlattice.ClipMode(r.Intn(3)), MinLength: float32(r.Intn(3)), Radius: float32(r.Intn(3))}
			if r.Bool() {
				b.ClippingMeshID = g.id()
			}
			if r.Bool() {
				b.RepresentationMeshID = g.id()
			}
			for i := r.Intn(5); i > 0; i-- {
				b.Beams.Beam = append(b.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{g.idx(nv), g.idx(nv)}, Radius: [2]float32{float32(r.Intn(3)), float32(r.Intn(3))}})
			}
			for i := r.Intn(4); i > 0; i-- {
				var s beamlattice.BeamSet
				for j := r.Intn(5); j > 0; j-- {
					s.Refs = append(s.Refs, g.idx(len(b.Beams.Beam)))
				}
				b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, s)
			}
			o.Mesh.Any = append(o.Mesh.Any, b)
		}
	}
	if comps {
		o.Components = new(go3mf.Components)
		for i := g.some(4); i > 0; i-- {
			c := &go3mf.Component{ObjectID: g.id(), Transform: g.transform()}
			if r.Bool() {
				c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{UUID: g.uuid(), Path: g.path()})
			}
			o.Components.Component = append(o.Components.Component, c)
		}
	}
	if g.sli && r.P(2, 3) {
		o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: g.id(), MeshResolution: slices.MeshResolution(r.Intn(2))})
	}
	if g.prod && r.P(2, 3) {
		o.AnyAttr = append(o.AnyAttr, &production.ObjectAttr{UUID: g.uuid()})
	}
	return o
}

func (g *denseGen) resources(rs *go3mf.Resources) {
	for i := g.r.Intn(6); i > 0; i-- {
		rs.Assets = append(rs.Assets, g.asset())
	}
	for i := g.r.Intn(4); i > 0; i-- {
		rs.Objects = append(rs.Objects, g.object())
	}
	if g.healthy >= 5 && g.r.Bool() {
		// most of the identifiers are right: the faults are elsewhere
		id := uint32(1)
		for _, a := range rs.Assets {
			setAssetID(a, id)
			id++
		}
		for _, o := range rs.Objects {
			o.ID = id
			id++
		}
	}
}

func denseModel(r *Rand, ext bool) *go3mf.Model {
	g := &denseGen{r: r, m: new(go3mf.Model), maxID: r.Range(2, 9), healthy: r.Intn(9)}
	if ext {
		g.mat, g.sli, g.beam, g.prod = r.Bool(), r.Bool(), r.Bool(), r.Bool()
	}
	m := g.m
	m.Path = r.Pick("", "", "/3D/3dmodel.model", "/a.model")
	root := m.Path
	if root == "" {
		root = "/3D/3dmodel.model"
	}
	g.paths = []string{root}
	for i := r.Intn(4); i > 0; i-- {
		p := r.Pick("/b.model", "/c.model", "/3D/d.model", "/3D/3dmodel.model", "/a.model")
		if m.Childs == nil {
			m.Childs = make(map[string]*go3mf.ChildModel)
		}
		if m.Childs[p] == nil {
			m.Childs[p] = new(go3mf.ChildModel)
			g.paths = append(g.paths, p)
		}
	}
	for _, p := range sortedKeys(m.Childs) {
		g.resources(&m.Childs[p].Resources)
	}
	g.resources(&m.Resources)
	for i := r.Intn(3); i > 0; i-- {
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: r.Pick("/3D/t.png", "/3D/u.png"), ContentType: "image/png", Stream: bytes.NewReader(nil)})
	}
	for _, e := range []struct {
		on bool
		ns string
	}{{g.mat, materials.Namespace}, {g.sli, slices.Namespace}, {g.beam, beamlattice.Namespace}, {g.prod, production.Namespace}} {
		if e.on != r.P(1, 20) {
			m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: e.ns, LocalName: "x", IsRequired: r.Bool()})
		}
	}
	if r.P(1, 4) {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: r.Pick("http://a", "http://b"), LocalName: "y", IsRequired: r.P(1, 3)})
	}
	m.Metadata = g.metadata()
	if g.prod && r.P(3, 4) {
		m.Build.AnyAttr = append(m.Build.AnyAttr, &production.BuildAttr{UUID: g.uuid()})
	}
	for i := r.Intn(4); i > 0; i-- {
		it := &go3mf.Item{ObjectID: g.id(), Transform: g.transform(), Metadata: go3mf.MetadataGroup{Metadata: g.metadata()}}
		if r.Bool() {
			it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{UUID: g.uuid(), Path: g.path()})
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	return m
}

// validateLadders validates stacks of references to many low stacks of other
// parts, some of which are something else.
func validateLadders(t *T) {
	r := t.R
	g := &denseGen{r: r, m: new(go3mf.Model), maxID: 6, sli: true, healthy: 7, paths: []string{"/b.model", "/c.model"}}
	m := g.m
	m.Extensions = []go3mf.Extension{slices.DefaultExtension}
	m.Childs = map[string]*go3mf.ChildModel{"/b.model": {}, "/c.model": {}}
	for _, p := range g.paths {
		rs := &m.Childs[p].Resources
		for id := uint32(1); id <= 6; id++ {
			switch r.Intn(8) {
			case 0:
			case 1:
				rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: id, Materials: []go3mf.Base{{Name: "a", Color: color.RGBA{1, 2, 3, 255}}}})
			case 2:
				rs.Assets = append(rs.Assets, &slices.SliceStack{ID: id, Refs: []slices.SliceRef{{SliceStackID: g.id(), Path: g.path()}}})
			default:
				s := &slices.SliceStack{ID: id, BottomZ: -9}
				z := float32(r.Range(-6, 9))
				for i := r.Range(1, 3); i > 0; i-- {
					if z += 0.5; z == 0 {
						z = 0.5
					}
					sl := slices.Slice{TopZ: z}
					if r.P(1, 6) {
						sl.Vertices.Vertex = make([]go3mf.Point2D, 4)
						for k := r.Range(1, 3); k > 0; k-- {
							p := slices.Polygon{StartV: 1, Segments: []slices.Segment{{V2: 2}, {V2: 3}, {V2: 1}}}
							if r.P(1, 4) {
								p.Segments = p.Segments[:2]
							}
							sl.Polygons = append(sl.Polygons, p)
						}
					}
					s.Slices = append(s.Slices, sl)
				}
				rs.Assets = append(rs.Assets, s)
			}
		}
	}
	for id := uint32(1); id <= 3; id++ {
		s := &slices.SliceStack{ID: id}
		for i := r.Range(1, 7); i > 0; i-- {
			s.Refs = append(s.Refs, slices.SliceRef{SliceStackID: g.id(), Path: g.path()})
		}
		m.Resources.Assets = append(m.Resources.Assets, s)
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 10 + id, Type: go3mf.ObjectType(r.Intn(5)), Components: new(go3mf.Components),
			AnyAttr: spec.AnyAttr{&slices.ObjectAttr{SliceStackID: id}}})
	}
	checkValidate(t, m, "ladders", nil)
}

func validateDense(t *T, ext bool) {
	m := denseModel(t.R, ext)
	checkValidate(t, m, "dense", nil)
}
