package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"image/color"
	"sort"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

func init() {
	register(&Prop{ID: "C21", Level: "exploration", Rule: "one evaluation is one query or walk compared with a linear search; distinct_nontrivial counts distinct model states queried that have at least two parts or five resources",
		Assumptions: []string{
			"no child model has an empty path or the path of the root model",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(60000, 250000); i++ {
				c.Case("history", lookupHistory)
			}
			for i := 0; i < c.N(9000, 40000); i++ {
				c.Case("generated", lookupGenerated)
			}
			for i := 0; i < c.N(40000, 150000); i++ {
				c.Case("unused", func(t *T) { lookupUnused(t, []int{0, 1, 2, 5, 20, 200}[t.R.Intn(6)]) })
			}
			for i := 0; i < c.N(4, 40); i++ {
				c.Case("vast-unused", func(t *T) { lookupUnused(t, t.R.Range(1<<16+1, 1<<16+9000)) })
			}
			for i := 0; i < c.N(40000, 150000); i++ {
				c.Case("getters", lookupGetters)
			}
		}})
}

// rootNamed tells whether path names the root model.
func rootNamed(m *go3mf.Model, path string) bool {
	if path == "" {
		return true
	}
	if m.Path == "" {
		return path == "/3D/3dmodel.model"
	}
	return path == m.Path
}

func refResources(m *go3mf.Model, path string) *go3mf.Resources {
	if rootNamed(m, path) {
		return &m.Resources
	}
	for k, c := range m.Childs {
		if k == path {
			return &c.Resources
		}
	}
	return nil
}

func lessBytes(a, b string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func orderedParts(m *go3mf.Model) []string {
	var ks []string
	for k := range m.Childs {
		i := 0
		for i < len(ks) && lessBytes(ks[i], k) {
			i++
		}
		ks = append(ks[:i:i], append([]string{k}, ks[i:]...)...)
	}
	return append(ks, "")
}

var lookupPaths = []string{"/3D/a.model", "/3D/A.model", "/3D/a", "/3D/a/b.model", "/3D/a.b.model", "/3D/10.model", "/3D/9.model", "/3D/é.model", "/3D/z.model", "/b.model", "/3D/3dmodel.model", "/3D/other.model"}

func lookupAsset(r *Rand, id uint32) go3mf.Asset {
	switch r.Intn(7) {
	case 0:
		return &go3mf.BaseMaterials{ID: id}
	case 1:
		return &materials.ColorGroup{ID: id}
	case 2:
		return &materials.Texture2D{ID: id}
	case 3:
		return &materials.Texture2DGroup{ID: id}
	case 4:
		return &materials.CompositeMaterials{ID: id}
	case 5:
		return &materials.MultiProperties{ID: id}
	default:
		return &slices.SliceStack{ID: id}
	}
}

func assetID(a go3mf.Asset) (uint32, bool) {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		return a.ID, true
	case *materials.ColorGroup:
		return a.ID, true
	case *materials.Texture2D:
		return a.ID, true
	case *materials.Texture2DGroup:
		return a.ID, true
	case *materials.CompositeMaterials:
		return a.ID, true
	case *materials.MultiProperties:
		return a.ID, true
	case *slices.SliceStack:
		return a.ID, true
	}
	return 0, false
}

// queryAll compares every kind of query of the model with a linear search.
func queryAll(t *T, m *go3mf.Model, paths []string, ids []uint32) {
	state := func() string {
		s := fmt.Sprintf("root %q\n", m.Path)
		for _, p := range orderedParts(m) {
			rs := refResources(m, p)
			s += fmt.Sprintf("part %q: objects", p)
			for _, o := range rs.Objects {
				s += fmt.Sprintf(" %d", o.ID)
			}
			s += "; assets"
			for _, a := range rs.Assets {
				s += fmt.Sprintf(" %d", a.Identify())
			}
			s += "\n"
		}
		return s
	}
	if got, want := m.PathOrDefault(), m.Path; (want != "" && got != want) || (want == "" && got != go3mf.DefaultModelPath) {
		t.Fatal("PathOrDefault", "PathOrDefault is %q for the path %q", got, want)
	}
	hits := 0
	for _, p := range paths {
		want := refResources(m, p)
		got, ok := m.FindResources(p)
		t.Eval(1)
		if ok != (want != nil) || (ok && got != want) {
			t.Fatal("FindResources", "FindResources(%q) = %p, %v; want %p\n%s", p, got, ok, want, state())
		}
		for _, id := range ids {
			t.Eval(2)
			var wo *go3mf.Object
			var wa go3mf.Asset
			if want != nil {
				for i := len(want.Objects) - 1; i >= 0; i-- {
					if want.Objects[i].ID == id {
						wo = want.Objects[i]
					}
				}
				for i := len(want.Assets) - 1; i >= 0; i-- {
					if aid, known := assetID(want.Assets[i]); (known && aid == id) || (!known && want.Assets[i].Identify() == id) {
						wa = want.Assets[i]
					}
				}
				if o, ok := want.FindObject(id); ok != (wo != nil) || o != wo {
					t.Fatal("Resources.FindObject", "FindObject(%d) in %q = %p, %v; want %p\n%s", id, p, o, ok, wo, state())
				}
				if a, ok := want.FindAsset(id); ok != (wa != nil) || a != wa {
					t.Fatal("Resources.FindAsset", "FindAsset(%d) in %q = %v, %v; want %v\n%s", id, p, a, ok, wa, state())
				}
			}
			o, ok := m.FindObject(p, id)
			if ok != (wo != nil) || o != wo {
				t.Fatal("FindObject", "FindObject(%q, %d) = %p, %v; want %p\n%s", p, id, o, ok, wo, state())
			}
			a, ok := m.FindAsset(p, id)
			if ok != (wa != nil) || (ok && a != wa) {
				t.Fatal("FindAsset", "FindAsset(%q, %d) = %v, %v; want %v\n%s", p, id, a, ok, wa, state())
			}
			if wo != nil || wa != nil {
				hits++
			}
		}
	}
	t.Count("found", hits)
	walkAll(t, m, state)
	for _, p := range orderedParts(m) {
		checkUnused(t, refResources(m, p))
	}
}

func walkAll(t *T, m *go3mf.Model, state func() string) {
	type visit struct {
		path string
		v    interface{}
	}
	var wantO, wantA []visit
	for _, p := range orderedParts(m) {
		rs := refResources(m, p)
		for _, o := range rs.Objects {
			wantO = append(wantO, visit{p, o})
		}
		for _, a := range rs.Assets {
			wantA = append(wantA, visit{p, a})
		}
	}
	run := func(what string, want []visit, walk func(fn func(string, interface{}) error) error) {
		stops := []int{-1, t.R.Intn(len(want) + 1)}
		if len(want) > 0 {
			stops = append(stops, 0, len(want)-1)
		}
		for _, stop := range stops {
			t.Eval(1)
			var got []visit
			boom := errors.New("stop here")
			err := walk(func(p string, v interface{}) error {
				got = append(got, visit{p, v})
				if len(got)-1 == stop {
					return boom
				}
				return nil
			})
			n := len(want)
			if stop >= 0 && stop < n {
				n = stop + 1
				if err != boom {
					t.Fatal(what+"-error", "%s stopped at %d of %d returned %v\n%s", what, stop, len(want), err, state())
				}
			} else if err != nil {
				t.Fatal(what+"-error", "%s returned %v\n%s", what, err, state())
			}
			if len(got) != n {
				t.Fatal(what+"-count", "%s visited %d elements, want %d (stop at %d)\n%s", what, len(got), n, stop, state())
			}
			for i := range got {
				if got[i] != want[i] {
					t.Fatal(what+"-order", "%s visited %q %p at %d, want %q %p\n%s", what, got[i].path, got[i].v, i, want[i].path, want[i].v, state())
				}
			}
			t.Count("visited", n)
		}
	}
	run("WalkObjects", wantO, func(fn func(string, interface{}) error) error {
		return m.WalkObjects(func(p string, o *go3mf.Object) error { return fn(p, o) })
	})
	run("WalkAssets", wantA, func(fn func(string, interface{}) error) error {
		return m.WalkAssets(func(p string, a go3mf.Asset) error { return fn(p, a) })
	})
}

func checkUnused(t *T, rs *go3mf.Resources) {
	t.Eval(1)
	var ids []int64
	for _, o := range rs.Objects {
		ids = append(ids, int64(o.ID))
	}
	for _, a := range rs.Assets {
		ids = append(ids, int64(a.Identify()))
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	want := int64(1)
	for _, id := range ids {
		if id == want {
			want++
		}
	}
	if got := rs.UnusedID(); int64(got) != want {
		t.Fatal("UnusedID", "UnusedID is %d, want %d; used %v", got, want, ids)
	}
}

func lookupHistory(t *T) {
	r := t.R
	m := &go3mf.Model{}
	ids := []uint32{0, 1, 2, 3, 4, 5, 7, 1<<32 - 1, 99}
	id := func() uint32 { return ids[r.Intn(len(ids)-1)] }
	part := func() *go3mf.Resources {
		ps := orderedParts(m)
		return refResources(m, ps[r.Intn(len(ps))])
	}
	steps := 1 + r.Intn(16)
	if r.P(1, 10) { // many resources in the first place
		for i := r.Range(8, 80); i > 0; i-- {
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(100 + i)})
			if r.Bool() {
				m.Resources.Assets = append(m.Resources.Assets, lookupAsset(r, uint32(200+i)))
			}
			if r.P(1, 10) {
				ids = append(ids, uint32(100+i), uint32(200+i))
			}
		}
		ids = append(ids, 9999)
	}
	for k := steps; k > 0; k-- {
		rs := part()
		switch r.Intn(12) {
		case 0, 1, 2:
			o := &go3mf.Object{ID: id()}
			i := r.Intn(len(rs.Objects) + 1)
			rs.Objects = append(rs.Objects[:i:i], append([]*go3mf.Object{o}, rs.Objects[i:]...)...)
		case 3, 4, 5:
			a := lookupAsset(r, id())
			i := r.Intn(len(rs.Assets) + 1)
			rs.Assets = append(rs.Assets[:i:i], append([]go3mf.Asset{a}, rs.Assets[i:]...)...)
		case 6:
			p := lookupPaths[r.Intn(len(lookupPaths))]
			if rootNamed(m, p) {
				break
			}
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			if _, ok := m.Childs[p]; ok && r.Bool() {
				delete(m.Childs, p)
			} else {
				m.Childs[p] = &go3mf.ChildModel{}
			}
		case 7:
			p := append(lookupPaths, "")[r.Intn(len(lookupPaths)+1)]
			old := m.Path
			m.Path = p
			for k := range m.Childs {
				if rootNamed(m, k) {
					m.Path = old
				}
			}
		case 8:
			if len(rs.Objects) > 0 {
				i := r.Intn(len(rs.Objects))
				if r.Bool() {
					rs.Objects[i].ID = id()
				} else {
					rs.Objects = append(rs.Objects[:i:i], rs.Objects[i+1:]...)
				}
			}
		case 9:
			if len(rs.Assets) > 0 {
				i := r.Intn(len(rs.Assets))
				if r.Bool() {
					rs.Assets[i] = lookupAsset(r, id())
				} else {
					rs.Assets = append(rs.Assets[:i:i], rs.Assets[i+1:]...)
				}
			}
		case 10: // a part under another name, as many parts as before
			ps := orderedParts(m)
			from, to := ps[r.Intn(len(ps))], lookupPaths[r.Intn(len(lookupPaths))]
			if c, ok := m.Childs[from]; ok && !rootNamed(m, to) {
				delete(m.Childs, from)
				if o, ok := m.Childs[to]; ok && from != to {
					m.Childs[from] = o
				}
				m.Childs[to] = c
			}
		case 11:
			switch r.Intn(4) {
			case 0: // the contents of a part replaced
				*rs = go3mf.Resources{}
			case 1: // in the same memory
				for i, j := 0, len(rs.Objects)-1; i < j; i, j = i+1, j-1 {
					rs.Objects[i], rs.Objects[j] = rs.Objects[j], rs.Objects[i]
				}
				for i, j := 0, len(rs.Assets)-1; i < j; i, j = i+1, j-1 {
					rs.Assets[i], rs.Assets[j] = rs.Assets[j], rs.Assets[i]
				}
			case 2:
				other := part()
				*rs, *other = *other, *rs
			default: // another model at the same address
				if r.P(1, 4) {
					*m = go3mf.Model{}
				} else {
					m.Childs = map[string]*go3mf.ChildModel{}
				}
			}
		}
		if r.P(1, 2) || k == 1 {
			queryAll(t, m, append(append([]string{}, lookupPaths...), "", "3D/a.model", "/3d/a.model", "/"), ids)
			if len(m.Childs) > 0 {
				t.Distinct(fmt.Sprint(m.Path, orderedParts(m), len(m.Resources.Objects), len(m.Resources.Assets), t.N, k))
			}
			t.Max("parts", len(m.Childs)+1)
		}
	}
}

func lookupGenerated(t *T) {
	r := t.R
	o := anyGen(r)
	o.Childs = true
	m := genModel(r, o)
	if r.Bool() {
		m = denseModel(r, true)
		delete(m.Childs, m.PathOrDefault())
	}
	paths := []string{"", m.Path, m.PathOrDefault(), "/missing.model", "/B.model"}
	idset := map[uint32]bool{0: true, 1: true, 1 << 31: true}
	eachResources(m, func(path string, rs *go3mf.Resources) {
		paths = append(paths, path)
		for _, o := range rs.Objects {
			idset[o.ID] = true
		}
		for _, a := range rs.Assets {
			idset[a.Identify()] = true
		}
	})
	var ids []uint32
	for id := range idset {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	queryAll(t, m, paths, ids)
	if len(m.Childs) > 0 {
		t.Distinct(dumpText(m))
	}
}

func lookupUnused(t *T, n int) {
	r := t.R
	rs := &go3mf.Resources{}
	var ids []uint32
	skip := map[uint32]bool{}
	if r.Bool() {
		skip[uint32(1+r.Intn(n+1))] = true
	}
	for i := 1; i <= n; i++ {
		id := uint32(i)
		switch {
		case skip[id] || r.P(1, 50):
			continue
		case r.P(1, 10):
			id = uint32(r.Intn(n + 5))
		case r.P(1, 20):
			id = r.U32()
		case r.P(1, 40):
			id = 1<<32 - 1 - uint32(r.Intn(3))
		}
		ids = append(ids, id)
	}
	p := r.Perm(len(ids))
	if r.Bool() {
		for i := range p {
			p[i] = len(ids) - 1 - i
		}
	}
	part := r.Intn(3)
	for _, k := range p {
		if part == 0 || (part == 1 && r.Bool()) {
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: ids[k]})
		} else {
			rs.Assets = append(rs.Assets, lookupAsset(r, ids[k]))
		}
	}
	checkUnused(t, rs)
	// Taking the identifier makes the next one different, and unused again.
	for i := 0; i < 4; i++ {
		id := rs.UnusedID()
		if r.Bool() {
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: id})
		} else {
			rs.Assets = append(rs.Assets, lookupAsset(r, id))
		}
		checkUnused(t, rs)
	}
	if len(ids) > 4 {
		t.Distinct(fmt.Sprint(ids))
	}
}

// lookupGetters: the typed getters return the first attribute group of their
// type, the paths come from the first group with a path.
func lookupGetters(t *T) {
	r := t.R
	attrs := func(kinds ...func() spec.AttrGroup) (out spec.AnyAttr) {
		for i := r.Intn(5); i > 0; i-- {
			if r.P(1, 3) {
				out = append(out, &spec.UnknownAttrs{Space: "http://unknown/" + r.Pick("a", "b")})
				continue
			}
			out = append(out, kinds[r.Intn(len(kinds))]())
		}
		return
	}
	path := func() string { return r.Pick("", "/3D/x.model", "/3D/y.model") }
	foreign := []func() spec.AttrGroup{
		func() spec.AttrGroup { return &production.BuildAttr{UUID: "b"} },
		func() spec.AttrGroup { return &production.ObjectAttr{UUID: "o"} },
		func() spec.AttrGroup { return &production.ItemAttr{UUID: "i", Path: path()} },
		func() spec.AttrGroup { return &production.ComponentAttr{UUID: "c", Path: path()} },
		func() spec.AttrGroup { return &slices.ObjectAttr{SliceStackID: uint32(r.Intn(9))} },
	}
	t.Eval(7)
	b := &go3mf.Build{AnyAttr: attrs(foreign...)}
	var wb *production.BuildAttr
	for i := len(b.AnyAttr) - 1; i >= 0; i-- {
		if a, ok := b.AnyAttr[i].(*production.BuildAttr); ok {
			wb = a
		}
	}
	if got := production.GetBuildAttr(b); got != wb {
		t.Fatal("GetBuildAttr", "GetBuildAttr returned %v, want %v", got, wb)
	}
	o := &go3mf.Object{AnyAttr: attrs(foreign...)}
	var wo *production.ObjectAttr
	var ws *slices.ObjectAttr
	for i := len(o.AnyAttr) - 1; i >= 0; i-- {
		switch a := o.AnyAttr[i].(type) {
		case *production.ObjectAttr:
			wo = a
		case *slices.ObjectAttr:
			ws = a
		}
	}
	if got := production.GetObjectAttr(o); got != wo {
		t.Fatal("GetObjectAttr", "GetObjectAttr returned %v, want %v", got, wo)
	}
	if got := slices.GetObjectAttr(o); got != ws {
		t.Fatal("slices.GetObjectAttr", "GetObjectAttr returned %v, want %v", got, ws)
	}
	it := &go3mf.Item{AnyAttr: attrs(foreign[0], foreign[1], foreign[2], foreign[4])}
	var wi *production.ItemAttr
	wp := ""
	for i := len(it.AnyAttr) - 1; i >= 0; i-- {
		if a, ok := it.AnyAttr[i].(*production.ItemAttr); ok {
			wi = a
			if a.Path != "" {
				wp = a.Path
			}
		}
	}
	if got := production.GetItemAttr(it); got != wi {
		t.Fatal("GetItemAttr", "GetItemAttr returned %v, want %v", got, wi)
	}
	if got := it.ObjectPath(); got != wp {
		t.Fatal("Item.ObjectPath", "the path of the item is %q, want %q", got, wp)
	}
	c := &go3mf.Component{AnyAttr: attrs(foreign[0], foreign[1], foreign[3], foreign[4])}
	var wc *production.ComponentAttr
	def := path()
	wp = def
	for i := len(c.AnyAttr) - 1; i >= 0; i-- {
		if a, ok := c.AnyAttr[i].(*production.ComponentAttr); ok {
			wc = a
			if a.Path != "" {
				wp = a.Path
			}
		}
	}
	if got := production.GetComponentAttr(c); got != wc {
		t.Fatal("GetComponentAttr", "GetComponentAttr returned %v, want %v", got, wc)
	}
	if got := c.ObjectPath(def); got != wp {
		t.Fatal("Component.ObjectPath", "the path of the component is %q, want %q", got, wp)
	}
	// Any of a mesh
	mesh := &go3mf.Mesh{}
	var wl *beamlattice.BeamLattice
	for i := r.Intn(4); i > 0; i-- {
		if r.Bool() {
			mesh.Any = append(mesh.Any, &spec.UnknownTokens{Token: []xml.Token{xml.StartElement{Name: xml.Name{Space: "u", Local: "x"}}, xml.EndElement{Name: xml.Name{Space: "u", Local: "x"}}}})
			continue
		}
		l := &beamlattice.BeamLattice{}
		mesh.Any = append(mesh.Any, l)
		if wl == nil {
			wl = l
		}
	}
	if got := beamlattice.GetBeamLattice(mesh); got != wl {
		t.Fatal("GetBeamLattice", "GetBeamLattice returned %p, want %p", got, wl)
	}
	// Attribute groups by name space
	for _, ns := range []string{production.Namespace, slices.Namespace, "http://unknown/a", "http://unknown/b", "", "http://none"} {
		var want spec.AttrGroup
		for i := len(o.AnyAttr) - 1; i >= 0; i-- {
			if o.AnyAttr[i].Namespace() == ns {
				want = o.AnyAttr[i]
			}
		}
		if got := o.AnyAttr.Get(ns); got != want {
			t.Fatal("AnyAttr.Get", "Get(%q) returned %v, want %v", ns, got, want)
		}
	}
	// Lengths and names of property groups
	n := r.Intn(6)
	tg, cg, cm, mp, bm := &materials.Texture2DGroup{ID: 3}, &materials.ColorGroup{ID: 4}, &materials.CompositeMaterials{ID: 5}, &materials.MultiProperties{ID: 6}, &go3mf.BaseMaterials{ID: 7}
	for i := 0; i < n; i++ {
		tg.Coords = append(tg.Coords, materials.TextureCoord{})
		cg.Colors = append(cg.Colors, color.RGBA{})
		cm.Composites = append(cm.Composites, materials.Composite{})
		mp.Multis = append(mp.Multis, materials.Multi{})
		bm.Materials = append(bm.Materials, go3mf.Base{})
	}
	for _, g := range []struct {
		g    spec.PropertyGroup
		n    int
		name string
	}{{tg, n, "texture2dgroup"}, {cg, n, "colorgroup"}, {cm, n, "compositematerials"}, {mp, n, "multiproperties"}, {bm, n, "basematerials"}} {
		if g.g.Len() != g.n {
			t.Fatal("Len", "Len of %s is %d, want %d", g.name, g.g.Len(), g.n)
		}
		if a := g.g.(go3mf.Asset); a.XMLName().Local != g.name {
			t.Fatal("XMLName", "the name of %s is %v", g.name, a.XMLName())
		}
	}
	if len(o.AnyAttr) > 1 {
		t.Distinct(fmt.Sprint(len(o.AnyAttr), len(it.AnyAttr), len(c.AnyAttr), t.N))
	}
}
