package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"runtime"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/production"
)

func init() {
	register(&Prop{ID: "C20", Race: true, Level: "exploration", Rule: "one evaluation is one bounding box or one matrix identity computed by the library and compared with float64 arithmetic; distinct_nontrivial counts distinct models with at least one vertex reached through a component",
		Assumptions: []string{
			"coordinates and matrix elements are finite and their products stay below 1e30; transforms are affine, or the zero matrix that stands for the identity",
			"results may differ from float64 arithmetic by the rounding of the float32 operations of each level",
			"under a transform that is not axis aligned the box of a component or item is the box of its transformed box, which encloses the vertices but is not the tightest one",
			"component cycles and objects with both mesh and components are outside of the domain (C11 watches the former)",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(20000, 400000); i++ {
				c.Case("model", boxModel)
			}
			for i := 0; i < c.N(40, 800); i++ {
				c.Case("many-items", boxManyItems)
			}
			for i := 0; i < c.N(16, 200); i++ {
				c.Case("diamonds", boxDiamonds)
			}
			for i := 0; i < c.N(3000, 60000); i++ {
				c.Case("mesh", func(t *T) { boxMesh(t, []int{0, 1, 2, 3, 10, 100, 1000}[t.R.Intn(7)]) })
			}
			for i := 0; i < c.N(4, 40); i++ {
				c.Case("vast-mesh", func(t *T) { boxMesh(t, t.R.Range(1<<16+1, 1<<17+10)) })
			}
			for i := 0; i < c.N(6000, 200000); i++ {
				c.Case("algebra", matrixAlgebra)
			}
		}})
	register(&Prop{ID: "C22", Level: "exploration", Rule: "one evaluation is one vertex addition, judged against the list of all the earlier ones; distinct_nontrivial counts distinct sequences with a merge or a near miss",
		Assumptions: []string{
			"the merge tolerance is 1.6 millionths of the unit per axis: one millionth, plus the rounding of the float32 division that computes the key",
			"not-a-number coordinates are no position: only the range of the index is checked for them",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(60000, 2000000); i++ {
				c.Case("sequence", builderSequence)
			}
			for i := 0; i < c.N(300, 6000); i++ {
				c.Case("long", builderLong)
			}
			for i := 0; i < c.N(4, 40); i++ {
				n := c.N(90000, 700000) << uint(i%3)
				c.Case("huge", func(t *T) { builderHuge(t, n) })
			}
			for i := 0; i < c.N(15000, 400000); i++ {
				c.Case("toggle", builderToggle)
			}
			for i := 0; i < c.N(8000, 200000); i++ {
				c.Case("pairs", builderPairs)
			}
		}})
}

const eps32 = 1.0 / (1 << 24)

// iv is a number and a bound of the error of its float32 computation.
type iv struct{ v, e float64 }

type box64 [2][3]iv

func matElem(m *go3mf.Matrix, row, col int) float64 { return float64(m[4*row+col]) }

// apply64 transforms a point with error bounds.
func apply64(m *go3mf.Matrix, p [3]iv) (out [3]iv) {
	for c := 0; c < 3; c++ {
		s, e := matElem(m, 3, c), 0.0
		mag := math.Abs(s)
		for r := 0; r < 3; r++ {
			a := matElem(m, r, c)
			s += a * p[r].v
			e += math.Abs(a) * p[r].e
			mag += math.Abs(a) * (math.Abs(p[r].v) + p[r].e)
		}
		out[c] = iv{s, e + 5*eps32*mag + 1e-44}
	}
	return
}

func corners(b box64) (out [][3]iv) {
	for i := 0; i < 8; i++ {
		out = append(out, [3]iv{b[i&1][0], b[i>>1&1][1], b[i>>2&1][2]})
	}
	return
}

func grow(b *box64, p [3]iv, first bool) {
	for k := range p {
		if first {
			b[0][k], b[1][k] = p[k], p[k]
			continue
		}
		if p[k].v < b[0][k].v {
			b[0][k].v = p[k].v
		}
		if p[k].v > b[1][k].v {
			b[1][k].v = p[k].v
		}
		for s := 0; s < 2; s++ {
			b[s][k].e = math.Max(b[s][k].e, p[k].e)
		}
	}
}

func mulBox64(m *go3mf.Matrix, b box64) (out box64) {
	if *m == (go3mf.Matrix{}) {
		return b
	}
	for i, c := range corners(b) {
		grow(&out, apply64(m, c), i == 0)
	}
	return
}

func within64(got float32, want iv) bool {
	return !math.IsNaN(float64(got)) && math.Abs(float64(got)-want.v) <= want.e*1.01
}

func sameBox(got go3mf.Box, want box64) bool {
	for k := 0; k < 3; k++ {
		if !within64(got.Min[k], want[0][k]) || !within64(got.Max[k], want[1][k]) {
			return false
		}
	}
	return true
}

func (b box64) String() string {
	return fmt.Sprintf("[%v %v %v .. %v %v %v]", b[0][0].v, b[0][1].v, b[0][2].v, b[1][0].v, b[1][1].v, b[1][2].v)
}

// boxRef computes boxes by the definition.
type boxRef struct {
	m      *go3mf.Model
	root   []string // names of the root part
	memo   map[string]*refBox
	depth  int
	maxLvl int
}

type refBox struct {
	b  box64
	ok bool
}

// part returns the resources of a part by a search of its own.
func (r *boxRef) part(path string) *go3mf.Resources {
	for _, n := range r.root {
		if n == path {
			return &r.m.Resources
		}
	}
	for k, c := range r.m.Childs {
		if k == path {
			return &c.Resources
		}
	}
	return nil
}

func (r *boxRef) find(path string, id uint32) *go3mf.Object {
	rs := r.part(path)
	if rs == nil {
		return nil
	}
	for _, o := range rs.Objects {
		if o.ID == id {
			return o
		}
	}
	return nil
}

func itemPath(it *go3mf.Item) string {
	for _, a := range it.AnyAttr {
		if a, ok := a.(*production.ItemAttr); ok && a.Path != "" {
			return a.Path
		}
	}
	return ""
}

func compPath(c *go3mf.Component, def string) string {
	for _, a := range c.AnyAttr {
		if a, ok := a.(*production.ComponentAttr); ok && a.Path != "" {
			return a.Path
		}
	}
	return def
}

func (r *boxRef) object(path string, id uint32) (box64, bool) {
	o := r.find(path, id)
	if o == nil {
		return box64{}, false
	}
	key := fmt.Sprint(path, "#", id)
	if v, ok := r.memo[key]; ok {
		return v.b, v.ok
	}
	v := &refBox{}
	switch {
	case o.Mesh != nil:
		for i, p := range o.Mesh.Vertices.Vertex {
			grow(&v.b, [3]iv{{float64(p[0]), 0}, {float64(p[1]), 0}, {float64(p[2]), 0}}, i == 0)
			v.ok = true
		}
	case o.Components != nil:
		r.depth++
		if r.depth > r.maxLvl {
			r.maxLvl = r.depth
		}
		for _, c := range o.Components.Component {
			if b, ok := r.object(compPath(c, path), c.ObjectID); ok {
				b = mulBox64(&c.Transform, b)
				grow(&v.b, [3]iv{b[0][0], b[0][1], b[0][2]}, !v.ok)
				v.ok = true
				grow(&v.b, [3]iv{b[1][0], b[1][1], b[1][2]}, false)
			}
		}
		r.depth--
	}
	r.memo[key] = v
	return v.b, v.ok
}

func (r *boxRef) model() (out box64, ok bool) {
	for _, it := range r.m.Build.Items {
		if b, found := r.object(itemPath(it), it.ObjectID); found {
			b = mulBox64(&it.Transform, b)
			grow(&out, [3]iv{b[0][0], b[0][1], b[0][2]}, !ok)
			ok = true
			grow(&out, [3]iv{b[1][0], b[1][1], b[1][2]}, false)
		}
	}
	return
}

// vertices calls fn for every vertex instance reached through the build, up to
// a limit; aligned tells whether every transform on the way keeps the axes.
func (r *boxRef) vertices(limit int, fn func(p [3]iv, aligned bool)) (n int, complete bool) {
	complete = true
	var walk func(path string, id uint32, ts []*go3mf.Matrix)
	walk = func(path string, id uint32, ts []*go3mf.Matrix) {
		o := r.find(path, id)
		if o == nil {
			return
		}
		if o.Mesh != nil {
			for _, v := range o.Mesh.Vertices.Vertex {
				if n >= limit {
					complete = false
					return
				}
				n++
				p := [3]iv{{float64(v[0]), 0}, {float64(v[1]), 0}, {float64(v[2]), 0}}
				al := true
				for i := len(ts) - 1; i >= 0; i-- {
					if *ts[i] == (go3mf.Matrix{}) {
						continue
					}
					p = apply64(ts[i], p)
					al = al && axisAligned(ts[i])
				}
				fn(p, al)
			}
			return
		}
		if o.Components != nil {
			for _, c := range o.Components.Component {
				if n >= limit {
					complete = false
					return
				}
				walk(compPath(c, path), c.ObjectID, append(ts[:len(ts):len(ts)], &c.Transform))
			}
		}
	}
	for _, it := range r.m.Build.Items {
		walk(itemPath(it), it.ObjectID, []*go3mf.Matrix{&it.Transform})
	}
	return
}

func axisAligned(m *go3mf.Matrix) bool {
	for c := 0; c < 3; c++ {
		n := 0
		for r := 0; r < 3; r++ {
			if m[4*r+c] != 0 {
				n++
			}
		}
		if n > 1 {
			return false
		}
	}
	return true
}

func geomCoord(r *Rand) float32 {
	switch r.Intn(8) {
	case 0:
		return float32(r.Range(-3, 3))
	case 1:
		return float32(r.Range(-9000, 9000)) / 64
	case 2:
		return float32((r.F64() - 0.5) * 1e6)
	case 3:
		return float32((r.F64() - 0.5) * 1e-4)
	case 4:
		return float32(r.F64()+0.01) * 100 // positive only
	case 5:
		return -float32(r.F64()+0.01) * 100
	default:
		return float32(r.F64()-0.5) * 50
	}
}

func geomMatrix(r *Rand) go3mf.Matrix {
	m := go3mf.Identity()
	switch r.Intn(9) {
	case 0:
		return go3mf.Matrix{}
	case 1:
		return m
	case 2: // translation
	case 3: // scale, mirrored
		for k := 0; k < 3; k++ {
			m[5*k] = []float32{1, -1, 2, -2, 0.5, -0.25, 0, 10}[r.Intn(8)]
		}
	case 4: // permutation of the axes with signs
		p := r.Perm(3)
		for k := 0; k < 3; k++ {
			m[5*k] = 0
		}
		for k := 0; k < 3; k++ {
			m[4*k+p[k]] = []float32{1, -1, 3, -0.5}[r.Intn(4)]
		}
	case 5: // rotation around an axis
		a := r.F64() * 2 * math.Pi
		i, j := r.Intn(3), 0
		for j = r.Intn(3); j == i; j = r.Intn(3) {
		}
		m[5*i], m[5*j] = float32(math.Cos(a)), float32(math.Cos(a))
		m[4*i+j], m[4*j+i] = float32(math.Sin(a)), -float32(math.Sin(a))
	case 6: // general affine
		for row := 0; row < 3; row++ {
			for c := 0; c < 3; c++ {
				m[4*row+c] = float32(r.F64()-0.5) * 4
			}
		}
	case 7: // shear
		i, j := r.Intn(3), r.Intn(3)
		if i != j {
			m[4*i+j] = float32(r.Range(-4, 4))
		}
	case 8: // nearly the identity
		m[r.Intn(12)] += float32(r.F64()-0.5) * 1e-3
		m[3], m[7], m[11] = 0, 0, 0
	}
	if !r.P(1, 4) {
		for k := 12; k < 15; k++ {
			m[k] = geomCoord(r)
		}
	}
	return m
}

func geomMesh(r *Rand) *go3mf.Mesh {
	m := &go3mf.Mesh{}
	if r.P(1, 6) {
		return m
	}
	var off go3mf.Point3D
	for k := range off {
		off[k] = geomCoord(r)
	}
	for i := 1 + r.Intn(7); i > 0; i-- {
		var p go3mf.Point3D
		for k := range p {
			p[k] = geomCoord(r)
			if r.Bool() {
				p[k] = off[k] + float32(r.F64())
			}
		}
		m.Vertices.Vertex = append(m.Vertices.Vertex, p)
	}
	return m
}

// geomModel builds parts whose objects only refer to earlier ones.
func geomModel(r *Rand) (*go3mf.Model, []string) {
	m := &go3mf.Model{}
	rootNames := []string{""}
	switch r.Intn(3) {
	case 0:
		m.Path = "/3D/other.model"
		rootNames = append(rootNames, m.Path)
	case 1:
		m.Path = go3mf.DefaultModelPath
		rootNames = append(rootNames, m.Path)
	default:
		rootNames = append(rootNames, go3mf.DefaultModelPath)
	}
	type placed struct {
		path string
		id   uint32
		o    *go3mf.Object
	}
	var all []placed
	paths := []string{""}
	for i := r.Intn(4); i > 0; i-- {
		p := fmt.Sprintf("/3D/part%d.model", i)
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[p] = &go3mf.ChildModel{}
		paths = append(paths, p)
	}
	rsOf := func(p string) *go3mf.Resources {
		if p == "" {
			return &m.Resources
		}
		return &m.Childs[p].Resources
	}
	n := 1 + r.Intn(12)
	for i := 0; i < n; i++ {
		path := paths[r.Intn(len(paths))]
		rs := rsOf(path)
		if len(all) > 0 && r.P(1, 12) { // the same object in another part
			a := all[r.Intn(len(all))]
			dup := false
			for _, o := range rs.Objects {
				dup = dup || o.ID == a.o.ID || o == a.o
			}
			// Its components without a path may now mean objects of this part, so
			// that only meshes and components with a path are safe of cycles.
			safe := a.o.Mesh != nil
			if !safe && a.o.Components != nil {
				safe = true
				for _, c := range a.o.Components.Component {
					ok := compPath(c, "") != ""
					if !ok {
						for _, b := range rs.Objects {
							if b.ID == c.ObjectID && b.Mesh != nil {
								ok = true
							}
						}
					}
					safe = safe && ok
				}
			}
			if !dup && safe {
				rs.Objects = append(rs.Objects, a.o)
				all = append(all, placed{path, a.o.ID, a.o})
			}
			continue
		}
		o := &go3mf.Object{ID: uint32(i + 1)}
		if r.P(1, 3) { // identifiers are only unique within a part
			o.ID = uint32(1 + r.Intn(4))
			for _, x := range rs.Objects {
				if x.ID == o.ID {
					o.ID = uint32(i + 1)
				}
			}
			for _, x := range rs.Objects {
				if x.ID == o.ID {
					o.ID = uint32(100 + i)
				}
			}
		}
		switch {
		case len(all) == 0 || r.P(2, 5):
			o.Mesh = geomMesh(r)
		case r.P(1, 12):
			if r.Bool() {
				o.Components = &go3mf.Components{}
			}
		default:
			o.Components = &go3mf.Components{}
			for k := 1 + r.Intn(4); k > 0; k-- {
				c := &go3mf.Component{Transform: geomMatrix(r)}
				tgt := all[r.Intn(len(all))]
				c.ObjectID = tgt.id
				switch {
				case tgt.path != path && tgt.path == "":
					c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{Path: rootNames[1]})
				case tgt.path != path || (path != "" && r.P(1, 3)):
					c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{Path: tgt.path})
				case r.P(1, 3):
					c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{UUID: "x"})
				}
				if r.P(1, 20) {
					c.ObjectID = 7777 // missing
				} else if r.P(1, 20) {
					c.AnyAttr = append(c.AnyAttr[:0:0], &production.ComponentAttr{Path: "/3D/missing.model"})
				}
				o.Components.Component = append(o.Components.Component, c)
			}
		}
		rs.Objects = append(rs.Objects, o)
		all = append(all, placed{path, o.ID, o})
	}
	for k := r.Intn(5); k > 0; k-- {
		m.Build.Items = append(m.Build.Items, geomItem(r, func() (string, uint32) {
			a := all[r.Intn(len(all))]
			if r.Bool() {
				a = all[len(all)-1]
			}
			return a.path, a.id
		}, rootNames))
	}
	if r.Bool() {
		geomDecorate(r, m)
	}
	return m, rootNames
}

// geomDecorate fills in what has no bearing on where the vertices are.
func geomDecorate(r *Rand, m *go3mf.Model) {
	name := func() string {
		return []string{"", "a", "support", "other", "hidden part", "0"}[r.Intn(6)]
	}
	m.Units = go3mf.Units(r.Intn(6))
	if r.P(1, 3) {
		m.Metadata = append(m.Metadata, go3mf.Metadata{Name: xml.Name{Local: "Title"}, Value: name()})
	}
	eachResources(m, func(path string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			if r.P(2, 3) {
				o.Type = go3mf.ObjectType(r.Intn(5))
			}
			if r.P(1, 3) {
				o.Name, o.PartNumber = name(), name()
			}
			if r.P(1, 6) {
				o.Thumbnail = "/Metadata/t.png"
			}
			if r.P(1, 4) {
				o.PID, o.PIndex = uint32(r.Intn(9)), uint32(r.Intn(3))
			}
			if r.P(1, 6) {
				o.Metadata.Metadata = append(o.Metadata.Metadata, go3mf.Metadata{Name: xml.Name{Local: "Title"}, Value: name()})
			}
			if o.Mesh == nil {
				continue
			}
			// Faces and beams that use some of the vertices only.
			if n := uint32(len(o.Mesh.Vertices.Vertex)); n > 0 && r.P(1, 3) {
				for k := r.Intn(4); k > 0; k-- {
					o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, go3mf.Triangle{V1: r.U32() % n, V2: r.U32() % n, V3: r.U32() % n})
				}
			}
			if r.P(1, 5) {
				bl := &beamlattice.BeamLattice{ClipMode: beamlattice.ClipMode(r.Intn(3)), ClippingMeshID: uint32(r.Intn(4)), MinLength: 1, Radius: float32(r.Intn(20))}
				if n := uint32(len(o.Mesh.Vertices.Vertex)); n > 0 {
					bl.Beams.Beam = append(bl.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{r.U32() % n, r.U32() % n}, Radius: [2]float32{5, 50}})
				}
				o.Mesh.Any = append(o.Mesh.Any, bl)
			}
		}
	})
	for _, it := range m.Build.Items {
		if r.P(1, 3) {
			it.PartNumber = name()
		}
		if r.P(1, 6) {
			it.Metadata.Metadata = append(it.Metadata.Metadata, go3mf.Metadata{Name: xml.Name{Local: "Title"}, Value: name()})
		}
	}
}

func geomItem(r *Rand, pick func() (string, uint32), rootNames []string) *go3mf.Item {
	path, id := pick()
	it := &go3mf.Item{ObjectID: id, Transform: geomMatrix(r)}
	if path == "" && r.P(1, 4) {
		path = rootNames[1]
	}
	if path != "" {
		it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{Path: path})
	} else if r.P(1, 4) {
		it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{UUID: "y"})
	}
	if r.P(1, 20) {
		it.ObjectID = 9999
	}
	return it
}

func checkModelBox(t *T, m *go3mf.Model, rootNames []string) {
	ref := &boxRef{m: m, root: rootNames, memo: map[string]*refBox{}}
	want, ok := ref.model()
	got := m.BoundingBox()
	t.Eval(1)
	if !ok {
		if got != (go3mf.Box{}) {
			t.Fatal("empty-model", "a model without any vertex in its build has the box %v\n%s", got, dumpText(m))
		}
		t.Count("empty_models", 1)
		return
	}
	if !sameBox(got, want) {
		t.Fatal("model-box", "the box of the model is %v, want %v\n%s", got, want, dumpText(m))
	}
	out := 0
	allAligned := true
	var tight box64
	first := true
	n, complete := ref.vertices(4000, func(p [3]iv, aligned bool) {
		allAligned = allAligned && aligned
		for k := 0; k < 3; k++ {
			tol := p[k].e + want[0][k].e + want[1][k].e
			if float64(got.Min[k]) > p[k].v+tol || float64(got.Max[k]) < p[k].v-tol {
				out++
			}
		}
		grow(&tight, p, first)
		first = false
	})
	if out > 0 {
		t.Fatal("not-enclosing", "%d of %d vertices lie outside of the box of the model %v\n%s", out, n, got, dumpText(m))
	}
	if complete && allAligned {
		for k := 0; k < 3; k++ {
			tight[0][k].e += want[0][k].e
			tight[1][k].e += want[1][k].e
		}
		if !sameBox(got, tight) {
			t.Fatal("not-tight", "the box of the model is %v, but its vertices fill %v\n%s", got, tight, dumpText(m))
		}
		t.Count("tight_checked", 1)
	}
	t.Count("vertices_checked", n)
	t.Max("component_depth", ref.maxLvl)
	if ref.maxLvl > 0 {
		t.Distinct(want.String())
	}
}

func dumpText(m *go3mf.Model) string {
	d := dumpModel(m, dumpOpt{})
	s := ""
	for i, l := range d {
		if i > 150 {
			break
		}
		s += l + "\n"
	}
	return s
}

func boxModel(t *T) {
	m, rn := geomModel(t.R)
	before := dumpModel(m, dumpOpt{})
	checkModelBox(t, m, rn)
	if d := diffLines(before, dumpModel(m, dumpOpt{})); d != "" {
		t.Fatal("modified", "BoundingBox changed the model:\n%s", d)
	}
	eachResources(m, func(path string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			if o.Mesh != nil {
				checkMeshBox(t, o.Mesh)
			}
			if o.Components != nil {
				for _, c := range o.Components.Component {
					if got, want := c.HasTransform(), c.Transform != (go3mf.Matrix{}) && c.Transform != go3mf.Identity(); got != want {
						t.Fatal("has-transform", "HasTransform of a component with the transform %v is %v", c.Transform, got)
					}
				}
			}
		}
	})
	for _, it := range m.Build.Items {
		if got, want := it.HasTransform(), it.Transform != (go3mf.Matrix{}) && it.Transform != go3mf.Identity(); got != want {
			t.Fatal("has-transform", "HasTransform of an item with the transform %v is %v", it.Transform, got)
		}
	}
	// Further items only extend the box; the order of the items is irrelevant.
	if len(m.Build.Items) > 1 {
		p := t.R.Perm(len(m.Build.Items))
		its := make([]*go3mf.Item, len(p))
		for i, k := range p {
			its[i] = m.Build.Items[k]
		}
		m.Build.Items = its
		checkModelBox(t, m, rn)
	}
	// Nothing may be remembered of the model before it changes.
	for k := t.R.Intn(3); k > 0; k-- {
		geomChange(t.R, m)
		checkModelBox(t, m, rn)
		eachResources(m, func(path string, rs *go3mf.Resources) {
			for _, o := range rs.Objects {
				if o.Mesh != nil {
					checkMeshBox(t, o.Mesh)
				}
			}
		})
		t.Count("changed_models", 1)
	}
}

// geomChange moves some vertices and transforms where they are.
func geomChange(r *Rand, m *go3mf.Model) {
	eachResources(m, func(path string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			if o.Mesh != nil && len(o.Mesh.Vertices.Vertex) > 0 && r.Bool() {
				vs := o.Mesh.Vertices.Vertex
				switch r.Intn(4) {
				case 0:
					for i := range vs {
						for k := range vs[i] {
							vs[i][k] *= 0.5
						}
					}
				case 1:
					o.Mesh.Vertices.Vertex = vs[:len(vs)-1]
				case 2:
					o.Mesh.Vertices.Vertex = append(vs, go3mf.Point3D{geomCoord(r), geomCoord(r), geomCoord(r)})
				default:
					vs[r.Intn(len(vs))] = go3mf.Point3D{geomCoord(r), geomCoord(r), geomCoord(r)}
				}
			}
			if o.Components != nil {
				for _, c := range o.Components.Component {
					if r.P(1, 3) {
						c.Transform = geomMatrix(r)
					}
				}
			}
		}
	})
	for _, it := range m.Build.Items {
		if r.P(1, 3) {
			it.Transform = geomMatrix(r)
		}
	}
}

func boxManyItems(t *T) {
	r := t.R
	m, rn := geomModel(r)
	var all [][2]interface{}
	eachResources(m, func(path string, rs *go3mf.Resources) {
		for _, o := range rs.Objects {
			all = append(all, [2]interface{}{path, o.ID})
		}
	})
	n := 20 + r.Intn(180)
	for i := 0; i < n; i++ {
		m.Build.Items = append(m.Build.Items, geomItem(r, func() (string, uint32) {
			a := all[r.Intn(len(all))]
			return a[0].(string), a[1].(uint32)
		}, rn))
	}
	t.Max("items", len(m.Build.Items))
	for _, procs := range []int{1, 4, 8} {
		old := runtime.GOMAXPROCS(procs)
		checkModelBox(t, m, rn)
		runtime.GOMAXPROCS(old)
	}
}

// boxDiamonds: every level uses the previous one twice, so that the number of
// instances is exponential.
func boxDiamonds(t *T) {
	r := t.R
	m := &go3mf.Model{}
	depth := 30 + r.Intn(200)
	rs := &m.Resources
	child := r.Bool()
	if child {
		c := &go3mf.ChildModel{}
		m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": c}
		rs = &c.Resources
	}
	o := &go3mf.Object{ID: 1, Mesh: &go3mf.Mesh{}}
	for i := 0; i < 4; i++ {
		o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{geomCoord(r), geomCoord(r), geomCoord(r)})
	}
	rs.Objects = append(rs.Objects, o)
	for i := 0; i < depth; i++ {
		o := &go3mf.Object{ID: uint32(i + 2), Components: &go3mf.Components{}}
		for k := 0; k < 2; k++ {
			c := &go3mf.Component{ObjectID: uint32(i + 1), Transform: go3mf.Identity()}
			c.Transform[12+r.Intn(3)] = float32(r.Range(-2, 2))
			o.Components.Component = append(o.Components.Component, c)
		}
		rs.Objects = append(rs.Objects, o)
	}
	it := &go3mf.Item{ObjectID: uint32(depth + 1)}
	if child {
		it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{Path: "/3D/c.model"})
	}
	m.Build.Items = append(m.Build.Items, it)
	ref := &boxRef{m: m, root: []string{"", go3mf.DefaultModelPath}, memo: map[string]*refBox{}}
	want, _ := ref.model()
	var got go3mf.Box
	t.within(60*time.Second, "BoundingBox of shared components", func() { got = m.BoundingBox() })
	if !sameBox(got, want) {
		t.Fatal("model-box", "the box of %d levels of shared components is %v, want %v", depth, got, want)
	}
	t.Max("shared_levels", depth)
	t.Distinct("diamond", want.String())
}

func checkMeshBox(t *T, m *go3mf.Mesh) {
	t.Eval(1)
	got := m.BoundingBox()
	var want go3mf.Box
	for i, v := range m.Vertices.Vertex {
		for k := range v {
			if i == 0 || v[k] < want.Min[k] {
				want.Min[k] = v[k]
			}
			if i == 0 || v[k] > want.Max[k] {
				want.Max[k] = v[k]
			}
		}
	}
	if got != want {
		t.Fatal("mesh-box", "the box of the mesh is %v, want %v; vertices %v", got, want, m.Vertices.Vertex)
	}
}

func boxMesh(t *T, n int) {
	r := t.R
	m := &go3mf.Mesh{}
	mode := r.Intn(4)
	for i := 0; i < n; i++ {
		var p go3mf.Point3D
		for k := range p {
			p[k] = geomCoord(r)
			switch mode {
			case 1:
				p[k] = -float32(math.Abs(float64(p[k]))) - 1
			case 2:
				p[k] = float32(math.Abs(float64(p[k]))) + 1
			case 3:
				p[k] = stlCoord(r, 2)
			}
		}
		m.Vertices.Vertex = append(m.Vertices.Vertex, p)
	}
	checkMeshBox(t, m)
	t.Count("mesh_vertices", n)
}

func matrixAlgebra(t *T) {
	r := t.R
	full := func() (m go3mf.Matrix) {
		for i := range m {
			m[i] = float32(r.F64()-0.5) * 8
			if r.P(1, 6) {
				m[i] = 0
			}
		}
		return
	}
	bad := func(what string, in ...interface{}) { t.Fatal("algebra:"+what, "%s does not hold for %v", what, in) }
	a, b := full(), full()
	t.Eval(8)
	ab := a.Mul(b)
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			var s, mag float64
			for k := 0; k < 4; k++ {
				x := float64(a[4*k+j]) * float64(b[4*i+k])
				s += x
				mag += math.Abs(x)
			}
			if math.Abs(float64(ab[4*i+j])-s) > 5*eps32*mag+1e-40 {
				bad("Mul", a, b, "element", i, j, "got", ab[4*i+j], "want", s)
			}
		}
	}
	if id := go3mf.Identity(); id.Mul(a) != a || a.Mul(id) != a {
		bad("Identity", a)
	}
	a, b = geomMatrix(r), geomMatrix(r)
	if a == (go3mf.Matrix{}) {
		a = go3mf.Identity()
	}
	if b == (go3mf.Matrix{}) {
		b = go3mf.Identity()
	}
	v := go3mf.Point3D{geomCoord(r), geomCoord(r), geomCoord(r)}
	pv := [3]iv{{float64(v[0]), 0}, {float64(v[1]), 0}, {float64(v[2]), 0}}
	av := a.Mul3D(v)
	wantA := apply64(&a, pv)
	for k := 0; k < 3; k++ {
		if !within64(av[k], wantA[k]) {
			bad("Mul3D", a, v, "got", av, "want", wantA)
		}
	}
	// (A B) v = A (B v)
	ab = a.Mul(b)
	l := ab.Mul3D(v)
	w := apply64(&a, apply64(&b, pv))
	w2 := apply64(&ab, pv)
	for k := 0; k < 3; k++ {
		// The rounding of A B is amplified by v.
		var mag float64
		for x := 0; x < 3; x++ {
			for y := 0; y < 3; y++ {
				mag += math.Abs(matElem(&a, y, k)*matElem(&b, x, y)) * math.Abs(pv[x].v)
			}
			mag += math.Abs(matElem(&a, x, k) * matElem(&b, 3, x))
		}
		mag += math.Abs(matElem(&a, 3, k))
		if math.Abs(float64(l[k])-w[k].v) > w[k].e+w2[k].e+12*eps32*mag {
			bad("associativity", a, b, v, "got", l, "want", w)
		}
	}
	// Translate
	d := [3]float32{geomCoord(r), geomCoord(r), geomCoord(r)}
	tr := a.Translate(d[0], d[1], d[2])
	want := a
	for k := range d {
		want[12+k] = a[12+k] + d[k]
	}
	if tr != want {
		bad("Translate", a, d, "got", tr)
	}
	tv := tr.Mul3D(v)
	for k := range d {
		if math.Abs(float64(tv[k])-(wantA[k].v+float64(d[k]))) > wantA[k].e+8*eps32*(math.Abs(float64(d[k]))+math.Abs(float64(a[12+k])))+wantA[k].e {
			bad("translation of a point", a, d, v, "got", tv)
		}
	}
	// Mul2D
	m2 := a.Mul2D(go3mf.Point2D{v[0], v[1]})
	flat := apply64(&a, [3]iv{pv[0], pv[1], {}})
	for k := 0; k < 2; k++ {
		if !within64(m2[k], flat[k]) {
			bad("Mul2D", a, v, "got", m2, "want", flat)
		}
	}
	// MulBox
	var bx go3mf.Box
	var b64 box64
	for k := 0; k < 3; k++ {
		x, y := geomCoord(r), geomCoord(r)
		if r.P(1, 10) {
			y = x
		}
		if x > y {
			x, y = y, x
		}
		bx.Min[k], bx.Max[k] = x, y
		b64[0][k], b64[1][k] = iv{float64(x), 0}, iv{float64(y), 0}
	}
	if got := (go3mf.Matrix{}).MulBox(bx); got != bx {
		bad("MulBox of no transform", bx, "got", got)
	}
	if got := go3mf.Identity().MulBox(bx); got != bx {
		bad("MulBox of the identity", bx, "got", got)
	}
	if got, want := a.MulBox(bx), mulBox64(&a, b64); !sameBox(got, want) {
		bad("MulBox", a, bx, "got", got, "want", want)
	}
	t.Count("identities", 8)
	t.Distinct("m", fmt.Sprint(a, b))
}

// ---- mesh builder ----

type builderOracle struct {
	t    *T
	mb   *go3mf.MeshBuilder
	mesh *go3mf.Mesh
	seen map[go3mf.Point3D]uint32 // first index given to a position with connectivity
	want []go3mf.Point3D
	log  []string
	merg int
}

func newBuilderOracle(t *T) *builderOracle {
	m := new(go3mf.Mesh)
	if t.R.P(1, 4) {
		for i := t.R.Intn(3); i >= 0; i-- {
			m.Vertices.Vertex = append(m.Vertices.Vertex, go3mf.Point3D{stlCoord(t.R, 5), 1000 + float32(i), 3})
		}
	}
	return &builderOracle{t: t, mb: go3mf.NewMeshBuilder(m), mesh: m, seen: map[go3mf.Point3D]uint32{},
		want: append([]go3mf.Point3D(nil), m.Vertices.Vertex...)}
}

func sameBits(a, b go3mf.Point3D) bool {
	for k := range a {
		if math.Float32bits(a[k]) != math.Float32bits(b[k]) {
			return false
		}
	}
	return true
}

func isNaN3(p go3mf.Point3D) bool { return p[0] != p[0] || p[1] != p[1] || p[2] != p[2] }

func (o *builderOracle) add(p go3mf.Point3D, quiet bool) {
	o.t.Eval(1)
	conn := o.mb.CalculateConnectivity
	idx := o.mb.AddVertex(p)
	vs := o.mesh.Vertices.Vertex
	if !quiet {
		o.log = append(o.log, fmt.Sprintf("%v(connectivity %v)=%d", p, conn, idx))
	}
	hist := func() string {
		if len(o.log) > 60 {
			return fmt.Sprint("... ", o.log[len(o.log)-60:])
		}
		return fmt.Sprint(o.log)
	}
	switch {
	case len(vs) == len(o.want)+1: // added
		o.want = append(o.want, p)
		if int(idx) != len(vs)-1 {
			o.t.Fatal("index-of-new", "a new vertex at %d was reported as %d: %s", len(vs)-1, idx, hist())
		}
		if !sameBits(vs[idx], p) {
			o.t.Fatal("new-vertex-value", "the vertex added for %v is %v: %s", p, vs[idx], hist())
		}
		if conn && !isNaN3(p) {
			if first, ok := o.seen[p]; ok {
				o.t.Fatal("duplicated", "%v was given the new index %d although it already has the index %d: %s", p, idx, first, hist())
			}
			o.seen[p] = idx
		}
	case len(vs) == len(o.want): // merged
		if !conn {
			o.t.Fatal("merged-without-connectivity", "%v was merged with the vertex %d although connectivity is disabled: %s", p, idx, hist())
		}
		if int(idx) >= len(vs) {
			o.t.Fatal("index-range", "%v got the index %d of %d vertices: %s", p, idx, len(vs), hist())
		}
		if isNaN3(p) {
			return
		}
		if !near(vs[idx], p) {
			o.t.Fatal("merged-far", "%v was merged with the vertex %d at %v: %s", p, idx, vs[idx], hist())
		}
		if first, ok := o.seen[p]; ok && first != idx {
			o.t.Fatal("unstable-index", "%v got the index %d and earlier %d: %s", p, idx, first, hist())
		}
		o.seen[p] = idx
		o.merg++
	default:
		o.t.Fatal("vertex-count", "adding %v made %d vertices of %d: %s", p, len(vs), len(o.want), hist())
	}
}

func (o *builderOracle) end() {
	vs := o.mesh.Vertices.Vertex
	for i := range o.want {
		if !sameBits(vs[i], o.want[i]) {
			o.t.Fatal("vertex-changed", "the vertex %d was added as %v and is %v now: %v", i, o.want[i], vs[i], o.log)
		}
	}
	o.t.Count("merged", o.merg)
	o.t.Count("vertices", len(vs))
}

func builderCoord(r *Rand, kind int) float32 {
	switch kind {
	case 0, 1, 2, 3, 4, 5:
		return stlCoord(r, kind)
	case 6: // around the limit of the exact keys
		return []float32{16, -16, 15.999999, -15.999999, 16.000002, 8, 32}[r.Intn(7)]
	case 7:
		return []float32{float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32}[r.Intn(5)]
	case 8: // big integers: collisions of truncated keys
		return float32(int64(1)<<uint(r.Intn(60))) * float32(1-2*r.Intn(2))
	default:
		return float32(r.Range(-2000000, 2000000)) * 1e-6
	}
}

// nudge moves a coordinate by a little.
func nudge(r *Rand, f float32) float32 {
	switch r.Intn(6) {
	case 0:
		return math.Nextafter32(f, float32(math.Inf(1-2*r.Intn(2))))
	case 1:
		return f + float32(r.Range(-4, 4))*1e-6
	case 2:
		return f + float32(r.F64()-0.5)*4e-6
	case 3:
		return -f
	case 4:
		return f * (1 + float32(r.F64()-0.5)*1e-5)
	default:
		return f + float32(r.Range(-2, 2))*0.0005
	}
}

func builderPoint(r *Rand, kind int, prev []go3mf.Point3D) go3mf.Point3D {
	if len(prev) > 0 {
		q := prev[r.Intn(len(prev))]
		switch r.Intn(6) {
		case 0, 1:
			return q
		case 2, 3:
			q[r.Intn(3)] = nudge(r, q[r.Intn(3)])
			return q
		case 4: // coordinates exchanged
			p := r.Perm(3)
			return go3mf.Point3D{q[p[0]], q[p[1]], q[p[2]]}
		}
	}
	var p go3mf.Point3D
	for k := range p {
		kk := kind
		if kind == 10 {
			kk = r.Intn(10)
		}
		p[k] = builderCoord(r, kk)
	}
	return p
}

func builderSequence(t *T) {
	r := t.R
	o := newBuilderOracle(t)
	kind := r.Intn(11)
	var prev []go3mf.Point3D
	for i := 1 + r.Intn(60); i > 0; i-- {
		p := builderPoint(r, kind, prev)
		prev = append(prev, p)
		o.add(p, false)
	}
	if r.P(1, 20) {
		o.add(go3mf.Point3D{float32(math.NaN()), 0, 1}, false)
		o.add(prev[0], false)
	}
	o.end()
	if o.merg > 0 {
		t.Distinct(fmt.Sprint(o.log))
	}
	t.Seen("kinds", kind)
}

func builderLong(t *T) {
	r := t.R
	o := newBuilderOracle(t)
	n := 2000 + r.Intn(8000)
	kind := r.Intn(11)
	grid := r.Bool()
	side := 4 + r.Intn(30)
	for i := 0; i < n; i++ {
		var p go3mf.Point3D
		for k := range p {
			if grid {
				p[k] = float32(r.Intn(side))*float32([]float64{1, 0.001, 1e-5, 4294.967296, 2147.483648}[i%5%(1+int(t.N)%5)]) - float32(side/2)
			} else {
				p[k] = builderCoord(r, kind%10)
			}
		}
		o.add(p, true)
	}
	o.end()
	t.Max("additions", n)
	t.Distinct(t.N, n)
}

// builderHuge adds more positions than fit in 16 bits, and comes back to the early ones.
func builderHuge(t *T, n int) {
	r := t.R
	o := newBuilderOracle(t)
	step := r.Range(1, 9)
	at := func(i int) go3mf.Point3D {
		return go3mf.Point3D{float32(i % 251), float32(i / 251 % 509), float32(i / 251 / 509 * step)}
	}
	for i := 0; i < n; i++ {
		o.add(at(i), true)
		if r.P(1, 8) {
			o.add(at(r.Intn(i+1)), true)
		}
	}
	for i := 0; i < n; i += r.Range(1, 50) {
		o.add(at(i), true)
	}
	o.end()
	t.Max("additions", n)
	t.Distinct(n, step)
}

// builderToggle switches the search for equal vertices on and off.
func builderToggle(t *T) {
	r := t.R
	o := newBuilderOracle(t)
	kind := r.Intn(11)
	var prev []go3mf.Point3D
	for i := 2 + r.Intn(40); i > 0; i-- {
		if r.P(1, 5) {
			o.mb.CalculateConnectivity = !o.mb.CalculateConnectivity
		}
		p := builderPoint(r, kind, prev)
		prev = append(prev, p)
		o.add(p, false)
	}
	o.end()
	t.Distinct(fmt.Sprint(o.log))
}

// builderPairs: positions that differ in one axis only by a known distance.
func builderPairs(t *T) {
	r := t.R
	o := newBuilderOracle(t)
	for i := 0; i < 20; i++ {
		p := builderPoint(r, 9, nil)
		if r.Bool() {
			p = builderPoint(r, r.Intn(10), nil)
		}
		q := p
		k := r.Intn(3)
		q[k] += float32(r.Range(2, 50)) * 1e-6 * float32(1-2*r.Intn(2))
		o.add(p, false)
		o.add(q, false)
		o.add(p, false)
		o.add(q, false)
		if near(p, q) {
			t.Count("near_pairs", 1)
		} else {
			t.Count("far_pairs", 1)
		}
	}
	o.end()
	t.Distinct(fmt.Sprint(o.log))
}
