package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
)

func init() {
	register(&Prop{ID: "C19", Level: "exploration", Race: true, Rule: "one evaluation is one mesh or model judged by ValidateCoherency and by a brute-force count of directed sides; distinct_nontrivial counts distinct meshes with four or more triangles",
		Assumptions: []string{
			"a mesh with less than 3 vertices or 4 triangles is not a solid, whatever its sides",
			"the order of the errors of the objects of a model is not judged: they are validated concurrently",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(9000, 200000); i++ {
				c.Case("mesh", coherencyMesh)
			}
			for i := 0; i < c.N(3000, 60000); i++ {
				c.Case("soup", coherencySoup)
			}
			for i := 0; i < c.N(1500, 40000); i++ {
				c.Case("model", coherencyModel)
			}
			for i := 0; i < c.N(60, 800); i++ {
				c.Case("large", coherencyLarge)
			}
			for i := 0; i < c.N(40, 800); i++ {
				c.Case("many", coherencyMany)
			}
			for i := 0; i < c.N(60, 600); i++ {
				i := i
				c.Case("repeated", func(t *T) { coherencyRepeated(t, i%30 == 0) })
			}
		}})
}

type tri [3]uint32

// solids returns the triangles of a closed and oriented surface.
func solids(r *Rand, size int) (ts []tri, nv int) {
	quad := func(a, b, c, d int) {
		ts = append(ts, tri{uint32(a), uint32(b), uint32(c)}, tri{uint32(a), uint32(c), uint32(d)})
	}
	switch r.Intn(6) {
	case 0:
		return []tri{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}, 4
	case 1: // octahedron or bipyramid
		n := r.Range(3, 3+size)
		for i := 0; i < n; i++ {
			a, b := uint32(2+i), uint32(2+(i+1)%n)
			ts = append(ts, tri{0, a, b}, tri{1, b, a})
		}
		return ts, n + 2
	case 2: // prism
		n := r.Range(3, 3+size)
		for i := 0; i < n; i++ {
			j := (i + 1) % n
			quad(i, j, n+j, n+i)
		}
		for i := 1; i+1 < n; i++ {
			ts = append(ts, tri{0, uint32(i + 1), uint32(i)}, tri{uint32(n), uint32(n + i), uint32(n + i + 1)})
		}
		return ts, 2 * n
	case 3: // torus
		a, b := r.Range(3, 3+size), r.Range(3, 4)
		for i := 0; i < a; i++ {
			for j := 0; j < b; j++ {
				x, y := (i+1)%a, (j+1)%b
				quad(i*b+j, x*b+j, x*b+y, i*b+y)
			}
		}
		return ts, a * b
	case 4: // subdivided tetrahedron
		ts, nv = []tri{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}, 4
		for k := r.Intn(size + 1); k > 0; k-- {
			i := r.Intn(len(ts))
			t, c := ts[i], uint32(nv)
			nv++
			ts[i] = tri{t[0], t[1], c}
			ts = append(ts, tri{t[1], t[2], c}, tri{t[2], t[0], c})
		}
		return ts, nv
	default: // a closed surface after some flips of the edge shared by two triangles
		ts, nv = solids(r, size)
		return ts, nv
	}
}

// broken changes a closed surface in a way that often breaks it.
func broken(r *Rand, ts []tri, nv int) ([]tri, int, string) {
	i := r.Intn(len(ts))
	switch r.Intn(11) {
	case 0:
		return append(ts[:i:i], ts[i+1:]...), nv, "triangle removed"
	case 1:
		ts[i][0], ts[i][1] = ts[i][1], ts[i][0]
		return ts, nv, "triangle flipped"
	case 2:
		return append(ts, ts[i]), nv, "triangle repeated"
	case 3:
		t := ts[i]
		return append(ts, tri{t[1], t[0], t[2]}), nv, "triangle repeated flipped"
	case 4:
		ts[i][r.Intn(3)] = uint32(r.Intn(nv + 2))
		return ts, nv, "corner moved"
	case 5:
		ts[i][1] = ts[i][0]
		return ts, nv, "triangle degenerate"
	case 6: // a face inside, closed by its own other side
		a, b, c := uint32(r.Intn(nv)), uint32(r.Intn(nv)), uint32(r.Intn(nv))
		return append(ts, tri{a, b, c}, tri{c, b, a}), nv, "two sided triangle added"
	case 7: // join two vertices
		a, b := uint32(r.Intn(nv)), uint32(r.Intn(nv))
		for k := range ts {
			for j := range ts[k] {
				if ts[k][j] == a {
					ts[k][j] = b
				}
			}
		}
		return ts, nv, "vertices joined"
	case 8: // split a vertex of one triangle
		ts[i][r.Intn(3)] = uint32(nv)
		return ts, nv + 1, "vertex split"
	case 9:
		for k := range ts {
			ts[k][0], ts[k][2] = ts[k][2], ts[k][0]
		}
		return ts, nv, "all flipped"
	default: // half of the surface flipped
		for k := range ts {
			if k%2 == 0 {
				ts[k][0], ts[k][2] = ts[k][2], ts[k][0]
			}
		}
		return ts, nv, "some flipped"
	}
}

func makeMesh(ts []tri, nv int) *go3mf.Mesh {
	m := &go3mf.Mesh{}
	m.Vertices.Vertex = make([]go3mf.Point3D, nv)
	for i := range m.Vertices.Vertex {
		m.Vertices.Vertex[i] = go3mf.Point3D{float32(i), float32(i * i), 1}
	}
	for _, t := range ts {
		m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: t[0], V2: t[1], V3: t[2]})
	}
	return m
}

// coherent judges a surface by counting the directed sides.
func coherent(ts []tri, nv int) error {
	if nv < 3 {
		return specerr.ErrInsufficientVertices
	}
	if len(ts) < 4 {
		return specerr.ErrInsufficientTriangles
	}
	type side struct{ a, b uint32 }
	sides := map[side]int{}
	for _, t := range ts {
		sides[side{t[0], t[1]}]++
		sides[side{t[1], t[2]}]++
		sides[side{t[2], t[0]}]++
	}
	for s, n := range sides {
		if n != 1 || s.a == s.b || sides[side{s.b, s.a}] != 1 {
			return specerr.ErrMeshConsistency
		}
	}
	return nil
}

func (t *T) judgeMesh(ts []tri, nv int, what string) error {
	want := coherent(ts, nv)
	m := makeMesh(ts, nv)
	if len(ts) > 0 && len(ts) < 3000 && t.R.P(1, 4) { // the same mesh with another content before
		other := append([]tri(nil), ts...)
		i := t.R.Intn(len(other))
		switch t.R.Intn(3) {
		case 0:
			other[i][0], other[i][1] = other[i][1], other[i][0]
		case 1:
			other[i] = other[t.R.Intn(len(other))]
		default:
			for j := range other {
				other[j][1], other[j][2] = other[j][2], other[j][1]
			}
		}
		good := m.Triangles.Triangle
		m.Triangles.Triangle = makeMesh(other, 0).Triangles.Triangle
		if got, want := m.ValidateCoherency(), coherent(other, nv); got != want {
			t.Fatal("verdict:"+verdict(want)+"/"+verdict(got), "%s: %d vertices and triangles %v: the result is %v, want %v", what, nv, clip(fmt.Sprint(other), 3000), got, want)
		}
		copy(m.Triangles.Triangle, good)
		t.Count("meshes_changed", 1)
	}
	got := m.ValidateCoherency()
	t.Eval(1)
	t.Count("meshes", 1)
	if got != want {
		t.Fatal("verdict:"+verdict(want)+"/"+verdict(got), "%s: %d vertices and triangles %v: the result is %v, want %v", what, nv, clip(fmt.Sprint(ts), 3000), got, want)
	}
	t.Count("verdict "+verdict(want), 1)
	if len(ts) >= 4 {
		t.Distinct(nv, ts)
	}
	return want
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func verdict(err error) string {
	switch {
	case err == nil:
		return "closed"
	case errors.Is(err, specerr.ErrInsufficientVertices):
		return "vertices"
	case errors.Is(err, specerr.ErrInsufficientTriangles):
		return "triangles"
	case errors.Is(err, specerr.ErrMeshConsistency):
		return "inconsistent"
	}
	return "other"
}

func surface(r *Rand, size int) (ts []tri, nv int, hist []string) {
	ts, nv = solids(r, size)
	for k := r.Intn(3); k > 0; k-- { // more bodies in the same mesh, sometimes sharing vertices
		more, n := solids(r, size)
		off := uint32(nv)
		if r.P(1, 3) {
			off = uint32(r.Intn(nv + 1))
		}
		for _, t := range more {
			ts = append(ts, tri{t[0] + off, t[1] + off, t[2] + off})
		}
		if int(off)+n > nv {
			nv = int(off) + n
		}
		hist = append(hist, fmt.Sprint("body at ", off))
	}
	if r.P(3, 5) {
		for k := r.Range(1, 2); k > 0 && len(ts) > 0; k-- {
			var what string
			ts, nv, what = broken(r, ts, nv)
			hist = append(hist, what)
		}
	}
	return
}

func coherencyMesh(t *T) {
	r := t.R
	ts, nv, hist := surface(r, 6)
	what := strings.Join(hist, ", ")
	base := t.judgeMesh(ts, nv, what)
	t.Sample("%s: %d triangles: %s", what, len(ts), verdict(base))
	// The verdict is that of the surface, not of the way it is written.
	for k := 0; k < 3; k++ {
		var out []tri
		for _, i := range r.Perm(len(ts)) {
			x := ts[i]
			for j := r.Intn(3); j > 0; j-- {
				x = tri{x[1], x[2], x[0]}
			}
			out = append(out, x)
		}
		n := nv
		switch r.Intn(4) {
		case 0:
			p := r.Perm(nv + 4)
			for i := range out {
				for j := range out[i] {
					out[i][j] = uint32(p[out[i][j]])
				}
			}
			n = nv + 4
		case 1: // any numbers: the sides are compared, not the vertices
			to := map[uint32]uint32{}
			used := map[uint32]bool{}
			for i := range out {
				for j := range out[i] {
					v, ok := to[out[i][j]]
					if !ok {
						for {
							v = wideIndex(r)
							if !used[v] {
								break
							}
						}
						used[v] = true
						to[out[i][j]] = v
					}
					out[i][j] = v
				}
			}
		case 2:
			for i := range out {
				out[i][0], out[i][1] = out[i][1], out[i][0]
			}
		}
		if got := t.judgeMesh(out, n, what+", rewritten"); got != base {
			t.Fatal("rewritten", "the verdict of the same surface changes from %v to %v: %v and %v", base, got, clip(fmt.Sprint(ts), 2000), clip(fmt.Sprint(out), 2000))
		}
	}
}

// wideIndex returns numbers that collide when packed in too few bits.
func wideIndex(r *Rand) uint32 {
	k := uint32(r.Intn(8))
	switch r.Intn(6) {
	case 0:
		return k << 16
	case 1:
		return k<<16 | uint32(r.Intn(8))
	case 2:
		return ^uint32(0) - k
	case 3:
		return 1<<31 + k
	case 4:
		return 1<<24 + k<<8
	}
	return r.U32()
}

// coherencySoup judges triangles at random over few vertices.
func coherencySoup(t *T) {
	r := t.R
	nv := r.Intn(6)
	var ts []tri
	for k := r.Intn(9); k > 0; k-- {
		ts = append(ts, tri{uint32(r.Intn(nv + 1)), uint32(r.Intn(nv + 1)), uint32(r.Intn(nv + 1))})
	}
	t.judgeMesh(ts, nv, "soup")
	// Every subset of the oriented faces of a tetrahedron and its reverse.
	all := []tri{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}, {2, 1, 0}, {3, 2, 0}, {1, 3, 0}, {2, 3, 1}}
	ts = nil
	for b := r.Intn(256); b > 0; b &= b - 1 {
		for i := range all {
			if b&(-b) == 1<<i {
				ts = append(ts, all[i])
			}
		}
	}
	t.judgeMesh(ts, 4, "faces of a tetrahedron")
}

func coherencyLarge(t *T) {
	r := t.R
	ts, nv := solids(r, 300+r.Intn(3000))
	t.Max("triangles", len(ts))
	if t.judgeMesh(ts, nv, "large") != nil {
		panic("the generator made an open surface")
	}
	if r.Bool() {
		ts, nv, _ = broken(r, ts, nv)
		t.judgeMesh(ts, nv, "large, broken")
	}
}

// coherencyRepeated judges surfaces whose sides are used so often that a
// narrow counter of the uses would come back to one.
func coherencyRepeated(t *T, deep bool) {
	r := t.R
	ts, nv := solids(r, 3)
	n := []int{2, 3, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 1025}[r.Intn(13)]
	if deep {
		ts, nv = []tri{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}}, 4
		n = []int{1<<15 + 1, 1 << 16, 1<<16 + 1}[r.Intn(3)]
	}
	base := append([]tri(nil), ts...)
	switch r.Intn(3) {
	case 0: // the whole surface
		for k := 1; k < n; k++ {
			ts = append(ts, base...)
		}
	case 1: // one face, from both sides or from one
		f := base[r.Intn(len(base))]
		for k := 1; k < n; k++ {
			ts = append(ts, f)
			if deep || r.Bool() {
				ts = append(ts, tri{f[2], f[1], f[0]})
			}
		}
	default: // a face n times
		f := base[r.Intn(len(base))]
		for k := 1; k < n; k++ {
			ts = append(ts, f)
		}
	}
	t.Max("uses_of_a_side", n)
	t.judgeMesh(ts, nv, fmt.Sprint("repeated ", n))
}

func checkModelCoherency(t *T, m *go3mf.Model) {
	var want []vErr
	part := func(path string, rs *go3mf.Resources) {
		for i, o := range rs.Objects {
			if o.Mesh == nil || (o.Type != go3mf.ObjectTypeModel && o.Type != go3mf.ObjectTypeSolidSupport) {
				continue
			}
			var ts []tri
			for _, x := range o.Mesh.Triangles.Triangle {
				ts = append(ts, tri{x.V1, x.V2, x.V3})
			}
			if err := coherent(ts, len(o.Mesh.Vertices.Vertex)); err != nil {
				want = append(want, vErr{path, fmt.Sprintf("/model/resources/object[%d]/mesh", i), err})
			}
		}
	}
	part("", &m.Resources)
	for p, c := range m.Childs {
		part(p, &c.Resources)
	}
	t.Eval(1)
	t.Count("models", 1)
	t.Max("errors_in_a_model", len(want))
	compareErrors(t, "model", m.ValidateCoherency(), want, func() string { return clip(dumpText(m), 8000) })
	if len(want) > 0 {
		t.Count("models_with_errors", 1)
	}
}

func coherencyObject(r *Rand, id uint32) *go3mf.Object {
	o := &go3mf.Object{ID: id, Type: go3mf.ObjectType(r.Intn(5))}
	switch r.Intn(8) {
	case 0:
		o.Components = &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}
	case 1:
	case 2:
		o.Mesh = makeMesh(nil, r.Intn(5))
	default:
		ts, nv, _ := surface(r, 2)
		o.Mesh = makeMesh(ts, nv)
	}
	return o
}

func coherencyModel(t *T) {
	r := t.R
	m := &go3mf.Model{Path: r.Pick("", "/a.model")}
	fill := func(rs *go3mf.Resources) {
		for i := r.Intn(5); i > 0; i-- {
			rs.Objects = append(rs.Objects, coherencyObject(r, uint32(i)))
		}
	}
	fill(&m.Resources)
	for i := r.Intn(4); i > 0; i-- {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		c := &go3mf.ChildModel{}
		fill(&c.Resources)
		m.Childs[fmt.Sprintf("/3D/c%d.model", i)] = c
	}
	checkModelCoherency(t, m)
	for k := r.Intn(3); k > 0; k-- { // the same model after some changes
		eachResources(m, func(path string, rs *go3mf.Resources) {
			for _, o := range rs.Objects {
				switch {
				case r.P(1, 4):
					o.Type = go3mf.ObjectType(r.Intn(5))
				case o.Mesh != nil && len(o.Mesh.Triangles.Triangle) > 0 && r.P(1, 3):
					x := &o.Mesh.Triangles.Triangle[r.Intn(len(o.Mesh.Triangles.Triangle))]
					x.V1, x.V2 = x.V2, x.V1
				}
			}
		})
		checkModelCoherency(t, m)
	}
}

func coherencyMany(t *T) {
	r := t.R
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{"/c.model": {}, "/d.model": {}}}
	for _, rs := range []*go3mf.Resources{&m.Resources, &m.Childs["/c.model"].Resources, &m.Childs["/d.model"].Resources} {
		for i := r.Range(20, 120); i > 0; i-- {
			o := coherencyObject(r, uint32(i))
			if r.Bool() {
				o.Type = go3mf.ObjectTypeModel
			}
			rs.Objects = append(rs.Objects, o)
		}
	}
	for k := 0; k < 3; k++ {
		checkModelCoherency(t, m)
	}
}
