package main

import (
	"bytes"
	"fmt"
	"image/color"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
)

func init() {
	register(&Prop{ID: "C14", Race: true, Level: "exploration", Rule: "one evaluation is one read-only operation (validation, coherency, boxes, searches, walks, encoding) on a model shared with other goroutines doing the same; distinct_nontrivial counts distinct models with more than 25 facts",
		Assumptions: []string{
			"the streams of attachments are consumed by an encode: concurrent encodes get streams of their own",
			"ValidateCoherency promises no order of the errors of different objects",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(330, 8000); i++ {
				c.Case("sequential", readonlySequential)
			}
			for i := 0; i < c.N(360, 9000); i++ {
				c.Case("concurrent", readonlyConcurrent)
			}
			for i := 0; i < c.N(64, 1500); i++ {
				c.Case("cold", readonlyCold)
			}
		}})
}

type readOp struct {
	name string
	fn   func(m *go3mf.Model, k int) string
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func sortedErrText(err error) string {
	if err == nil {
		return ""
	}
	if l, ok := err.(*specerr.List); ok {
		var s []string
		for _, e := range l.Errors {
			s = append(s, e.Error())
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	return err.Error()
}

// ownStreams gives a shallow copy of the model its own attachment streams.
func ownStreams(m *go3mf.Model, atts map[string]attData) *go3mf.Model {
	c := *m
	c.Attachments = nil
	for _, a := range m.Attachments {
		c.Attachments = append(c.Attachments, go3mf.Attachment{Path: a.Path, ContentType: a.ContentType, Stream: bytes.NewReader(atts[strings.ToLower(a.Path)].data)})
	}
	return &c
}

func readOps(atts map[string]attData) []readOp {
	return []readOp{
		{"validate", func(m *go3mf.Model, k int) string { return errText(m.Validate()) }},
		{"coherency", func(m *go3mf.Model, k int) string { return sortedErrText(m.ValidateCoherency()) }},
		{"mesh-coherency", func(m *go3mf.Model, k int) string {
			var b strings.Builder
			m.WalkObjects(func(p string, o *go3mf.Object) error {
				if o.Mesh != nil {
					fmt.Fprintln(&b, p, o.ID, o.Mesh.ValidateCoherency())
				}
				return nil
			})
			return b.String()
		}},
		{"object-validate", func(m *go3mf.Model, k int) string {
			var b strings.Builder
			m.WalkObjects(func(p string, o *go3mf.Object) error {
				fmt.Fprintln(&b, p, o.ID, errText(o.Validate(m, p)))
				return nil
			})
			return b.String()
		}},
		{"box", func(m *go3mf.Model, k int) string {
			b := m.BoundingBox()
			return fmt.Sprint(b)
		}},
		{"mesh-box", func(m *go3mf.Model, k int) string {
			var b strings.Builder
			m.WalkObjects(func(p string, o *go3mf.Object) error {
				if o.Mesh != nil {
					fmt.Fprintln(&b, p, o.ID, o.Mesh.BoundingBox())
				}
				if o.Components != nil {
					for _, c := range o.Components.Component {
						fmt.Fprintln(&b, c.ObjectPath(p), c.HasTransform())
					}
				}
				return nil
			})
			for _, it := range m.Build.Items {
				fmt.Fprintln(&b, it.ObjectPath(), it.HasTransform())
			}
			return b.String()
		}},
		{"walk-assets", func(m *go3mf.Model, k int) string {
			var b strings.Builder
			m.WalkAssets(func(p string, a go3mf.Asset) error {
				fmt.Fprintln(&b, p, a.Identify(), a.XMLName().Local)
				return nil
			})
			return b.String()
		}},
		{"find", func(m *go3mf.Model, k int) string {
			var b strings.Builder
			for _, p := range append(childPaths(m), "", m.Path, "/none") {
				_, ok := m.FindResources(p)
				fmt.Fprintln(&b, p, ok)
				for id := uint32(0); id < 8; id++ {
					o, ok := m.FindObject(p, id)
					a, ok2 := m.FindAsset(p, id)
					fmt.Fprint(&b, ok, ok2, o != nil, a != nil)
				}
			}
			return b.String()
		}},
		{"unused", func(m *go3mf.Model, k int) string {
			s := fmt.Sprint(m.Resources.UnusedID())
			for _, p := range childPaths(m) {
				s += fmt.Sprint(" ", m.Childs[p].Resources.UnusedID())
			}
			return s
		}},
		{"marshal", func(m *go3mf.Model, k int) string {
			b, err := go3mf.MarshalModel(m)
			return string(b) + errText(err)
		}},
		{"encode", func(m *go3mf.Model, k int) string {
			var b bytes.Buffer
			e := go3mf.NewEncoder(&b)
			e.FloatPrecision = []int{4, 2, -1}[k%3]
			if err := e.Encode(ownStreams(m, atts)); err != nil {
				if len(m.Childs) > 1 { // the parts are written in no order
					return "error"
				}
				return "error " + err.Error()
			}
			files, err := zipEntries(b.Bytes())
			if err != nil {
				return "unreadable " + err.Error()
			}
			var s strings.Builder
			for _, k := range sortedStr(files) {
				if strings.HasSuffix(k, ".rels") || k == "[Content_Types].xml" {
					fmt.Fprintln(&s, k, maskIDs(files[k])) // random identifiers, no order
				} else {
					fmt.Fprintln(&s, k, string(files[k]))
				}
			}
			return s.String()
		}},
	}
}

func maskIDs(x []byte) string {
	var out []string
	for _, f := range bytes.Split(x, []byte("<")) {
		s := string(f)
		if i := strings.Index(s, `Id="`); i >= 0 {
			j := strings.Index(s[i+4:], `"`)
			s = s[:i] + s[i+4+j:]
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, "<")
}

// sharedModel generates a model for read-only operations, valid or not.
func sharedModel(r *Rand) (*go3mf.Model, map[string]attData) {
	o := anyGen(r)
	o.Childs = r.P(1, 2)
	o.Package = r.P(1, 2)
	o.Wide = true
	m := genModel(r, o)
	if r.P(1, 3) {
		m = denseModel(r, true)
	}
	if r.P(2, 3) {
		corruptModel(r, m, r.Range(1, 12))
	}
	if r.P(1, 4) {
		manyResources(r, m)
	}
	padSlices(r, reflect.ValueOf(m))
	return m, attachmentData(m)
}

// manyResources adds resources in no order, more than an application would
// look through one by one.
func manyResources(r *Rand, m *go3mf.Model) {
	res := []*go3mf.Resources{&m.Resources}
	for _, p := range sortedKeys(m.Childs) {
		res = append(res, &m.Childs[p].Resources)
	}
	rs := res[r.Intn(len(res))]
	tri := &go3mf.Mesh{
		Vertices:  go3mf.Vertices{Vertex: []go3mf.Point3D{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}},
		Triangles: go3mf.Triangles{Triangle: []go3mf.Triangle{{V1: 0, V2: 2, V3: 1}, {V1: 0, V2: 1, V3: 3}, {V1: 1, V2: 2, V3: 3}, {V1: 2, V2: 0, V3: 3}}},
	}
	n := []int{20, 40, 70, 140, 300}[r.Intn(5)]
	if r.P(2, 3) {
		for _, i := range r.Perm(n) {
			o := &go3mf.Object{ID: uint32(5000 + i), Mesh: tri}
			if r.P(1, 4) && len(rs.Objects) > 0 {
				o.Mesh, o.Components = nil, &go3mf.Components{Component: []*go3mf.Component{{ObjectID: rs.Objects[r.Intn(len(rs.Objects))].ID}}}
			}
			rs.Objects = append(rs.Objects, o)
			if rs == &m.Resources && r.P(1, 3) {
				m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: o.ID})
			}
		}
	}
	if r.P(2, 3) {
		for _, i := range r.Perm(n) {
			rs.Assets = append(rs.Assets, &go3mf.BaseMaterials{ID: uint32(9000 + i), Materials: []go3mf.Base{{Name: "b", Color: color.RGBA{R: uint8(i), A: 255}}}})
		}
	}
}

func readonlySequential(t *T) {
	m, atts := sharedModel(t.R)
	ops := readOps(atts)
	before := snapshot(m)
	order := t.R.Perm(len(ops))
	first := map[int]string{}
	for round := 0; round < 2; round++ {
		for _, i := range order {
			k := t.R.Intn(3)
			if round == 1 {
				k = 0
			}
			res := ops[i].fn(m, 0)
			ops[i].fn(m, k)
			after := snapshot(m)
			if d := diffLines(before, after); d != "" {
				t.Fatal("mutates:"+ops[i].name+":"+diffSig(before, after), "%s changed the model\n%s", ops[i].name, d)
			}
			if round == 0 {
				first[i] = res
			} else if first[i] != res {
				t.Fatal("unstable:"+ops[i].name, "%s gives another result the second time\n%s", ops[i].name, diffLines(strings.Split(first[i], "\n"), strings.Split(res, "\n")))
			}
			t.Eval(1)
			t.Count("op_"+ops[i].name, 1)
		}
	}
	t.Count("facts_in_snapshots", len(before))
	if len(before) > 25 {
		t.Distinct(strings.Join(before, "\n"))
	}
}

func readonlyConcurrent(t *T) {
	m, atts := sharedModel(t.R)
	ops := readOps(atts)
	// what the operations give one after the other, on a copy
	ref := cloneModel(m)
	want := map[string]string{}
	for i, op := range ops {
		for k := 0; k < 3; k++ {
			want[fmt.Sprint(i, k)] = op.fn(ref, k)
		}
	}
	before := snapshot(m)
	g := t.R.Range(2, 8)
	each := 3
	type job struct{ op, k int }
	plan := make([][]job, g)
	same := t.R.P(1, 3)
	for i := range plan {
		for j := 0; j < each; j++ {
			plan[i] = append(plan[i], job{t.R.Intn(len(ops)), t.R.Intn(3)})
		}
		if same {
			plan[i] = plan[0]
		}
	}
	fails := make([]string, g)
	t.within(120*time.Second, "operations", func() {
		withProcs(t.R, func() {
			start := make(chan struct{})
			var wg sync.WaitGroup
			for i := range plan {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for _, j := range plan[i] {
						if got := ops[j.op].fn(m, j.k); got != want[fmt.Sprint(j.op, j.k)] && fails[i] == "" {
							fails[i] = ops[j.op].name + "\n" + diffLines(strings.Split(want[fmt.Sprint(j.op, j.k)], "\n"), strings.Split(got, "\n"))
						}
						if i%2 == 0 {
							runtime.Gosched()
						}
					}
				}(i)
			}
			close(start)
			wg.Wait()
		})
	})
	for _, f := range fails {
		if f != "" {
			t.Fatal("result:"+strings.SplitN(f, "\n", 2)[0], "at the same time as others, another result than alone: %s", f)
		}
	}
	after := snapshot(m)
	if d := diffLines(before, after); d != "" {
		t.Fatal("mutates:"+diffSig(before, after), "concurrent operations changed the model\n%s", d)
	}
	t.Eval(g * each)
	t.Count("goroutines", g)
	t.Count("concurrent_operations", g*each)
	var mix []string
	for _, p := range plan {
		for _, j := range p {
			mix = append(mix, ops[j.op].name)
		}
	}
	sort.Strings(mix)
	t.Seen("operation_mixes", strings.Join(mix, " "))
	t.Distinct(strings.Join(before, "\n"))
	t.Sample("%d goroutines: %s", g, strings.Join(mix, " "))
}
