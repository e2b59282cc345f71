package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
)

func init() {
	register(&Prop{ID: "C15", Level: "exploration", Rule: "one evaluation is one generated facet list written by an independent writer and imported once; distinct_nontrivial counts distinct files with at least one facet",
		Assumptions: []string{
			"coordinates are finite; ASCII files start with solid, have lines of less than 64 KB ended by LF or CRLF and ASCII characters at their start",
			"vertices closer than the merge tolerance of the mesh builder (a millionth of the unit, measured in float32) may be merged; otherwise coordinates are exact",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(16000, 400000); i++ {
				c.Case("binary", func(t *T) { stlCase(t, true) })
			}
			for i := 0; i < c.N(20000, 500000); i++ {
				c.Case("ascii", func(t *T) { stlCase(t, false) })
			}
			for i := 0; i < c.N(80, 1000); i++ {
				i := i
				c.Case("large", func(t *T) { stlLarge(t, i%2 == 0, t.R.Range(1000, 20000)) })
			}
			for i := 0; i < c.N(2, 20); i++ { // more than 16 bits can count
				i := i
				c.Case("vast", func(t *T) { stlLarge(t, i%2 == 0, t.R.Range(1<<16+1, 1<<16+1<<uint(t.R.Range(4, 17)))) })
			}
			for i := 0; i < c.N(3000, 60000); i++ {
				c.Case("sequence", stlSequence)
			}
		}})
	register(&Prop{ID: "C16", Level: "exploration", Rule: "one evaluation is one hostile byte string imported as STL; distinct_nontrivial counts distinct byte strings of at least 84 bytes",
		Assumptions: []string{
			"the first 84 bytes of a truncated binary file whose header begins with solid cannot be told from an ASCII file",
			"memory is bounded by 150 bytes allocated per byte of input plus 4 MB",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(60000, 1500000); i++ {
				c.Case("bytes", stlHostile)
			}
			for i := 0; i < c.N(250, 6000); i++ {
				c.Case("truncated-binary", stlTruncBinary)
			}
			for i := 0; i < c.N(250, 6000); i++ {
				c.Case("truncated-ascii", stlTruncASCII)
			}
			for i := 0; i < c.N(60, 600); i++ {
				i := i
				c.Case("bomb", func(t *T) { stlBomb(t, i) })
			}
		}})
}

type facet [3]go3mf.Point3D

func stlCoord(r *Rand, kind int) float32 {
	switch kind {
	case 0: // integers
		return float32(r.Range(-5, 5))
	case 1:
		return float32(r.Range(-4000, 4000)) / 8
	case 2: // anything finite
		for {
			f := math.Float32frombits(r.U32())
			if !math.IsNaN(float64(f)) && !math.IsInf(float64(f), 0) {
				return f
			}
		}
	case 3: // tiny
		return float32(r.Range(-30, 30)) * 1e-7
	case 4:
		return float32((r.F64() - 0.5) * 1e4)
	default:
		return []float32{0, float32(math.Copysign(0, -1)), 1, -1, 2147.4836, -2147.4838, 2147.5, 4294.967, 1e10, -1e10, 3e38, 1e-38, 0.5, 0.1, 16777216}[r.Intn(15)]
	}
}

func genFacets(r *Rand, n int) []facet {
	kind := r.Intn(7)
	var pool []go3mf.Point3D
	for i := 0; i < 1+n; i++ {
		var p go3mf.Point3D
		for k := range p {
			kk := kind
			if kind == 6 {
				kk = r.Intn(6)
			}
			p[k] = stlCoord(r, kk)
		}
		pool = append(pool, p)
	}
	var out []facet
	for i := 0; i < n; i++ {
		var f facet
		for k := range f {
			f[k] = pool[r.Intn(len(pool))]
		}
		out = append(out, f)
	}
	return out
}

func writeBinarySTL(r *Rand, fs []facet) []byte {
	var b bytes.Buffer
	h := make([]byte, 80)
	switch r.Intn(5) {
	case 0:
		copy(h, r.Bytes(80))
	case 1:
		copy(h, "solid made by an exporter")
		if r.Bool() {
			for i := 25; i < 80; i++ {
				h[i] = ' '
			}
		}
	case 2:
		copy(h, "SOLID")
	case 3:
		copy(h, "binary file")
	}
	b.Write(h)
	binary.Write(&b, binary.LittleEndian, uint32(len(fs)))
	var rec [50]byte
	for _, f := range fs {
		for i := 0; i < 3; i++ {
			binary.LittleEndian.PutUint32(rec[i*4:], math.Float32bits(float32(r.Intn(3)-1)))
		}
		for k, p := range f {
			for i := 0; i < 3; i++ {
				binary.LittleEndian.PutUint32(rec[12+k*12+i*4:], math.Float32bits(p[i]))
			}
		}
		rec[48], rec[49] = 0, 0
		if r.P(1, 3) {
			rec[48], rec[49] = byte(r.U64()), byte(r.U64())
		}
		b.Write(rec[:])
	}
	return b.Bytes()
}

// writeASCIISTL also returns the facets the text describes.
func writeASCIISTL(r *Rand, fs []facet) ([]byte, []facet) {
	var b bytes.Buffer
	nl := r.Pick("\n", "\r\n")
	upper := r.Intn(4) // 0,1: lower, 2: upper, 3: mixed
	kw := func(s string) string {
		switch upper {
		case 2:
			return strings.ToUpper(s)
		case 3:
			if r.Bool() {
				return strings.ToUpper(s[:1]) + s[1:]
			}
		}
		return s
	}
	wide := r.P(1, 4)
	sp := func() string {
		if wide && r.P(1, 20) {
			return strings.Repeat(r.Pick(" ", "\t"), r.Range(10, 6000))
		}
		if r.P(3, 4) {
			return " "
		}
		return r.Pick("  ", "\t", " \t ", "    ")
	}
	ind := func() string {
		if wide && r.P(1, 10) {
			return strings.Repeat(r.Pick(" ", "\t"), r.Range(10, 6000))
		}
		return r.Pick("", "  ", "\t", "      ")
	}
	line := func(parts ...string) {
		b.WriteString(ind())
		for i, p := range parts {
			if i > 0 {
				b.WriteString(sp())
			}
			b.WriteString(p)
		}
		if r.P(1, 6) {
			b.WriteString(r.Pick(" ", "\t", "   "))
		}
		b.WriteString(nl)
		if r.P(1, 10) {
			b.WriteString(r.Pick("", "  ", "\t") + nl)
		}
	}
	name := r.Pick("", "part", "a b c", "vertex 1 2 3", "x endsolid", "exported by 3 tools")
	num := func(f float32) (string, float32) {
		var s string
		switch r.Intn(8) {
		case 0:
			s = strconv.FormatFloat(float64(f), 'e', -1, 32)
		case 1:
			s = strconv.FormatFloat(float64(f), 'E', 9, 32)
		case 2:
			s = strconv.FormatFloat(float64(f), 'f', -1, 32)
		case 3:
			s = strconv.FormatFloat(float64(f), 'g', 7, 32)
		case 4:
			s = strconv.FormatFloat(float64(f), 'f', r.Range(0, 12), 64)
		case 5:
			s = strconv.FormatFloat(float64(f), 'g', 17, 64)
		default:
			s = strconv.FormatFloat(float64(f), 'g', -1, 32)
		}
		if s[0] != '-' && r.P(1, 8) {
			s = "+" + s
		}
		if !strings.ContainsAny(s, ".eE") && r.P(1, 4) {
			s += "."
		}
		if strings.HasPrefix(s, "0.") && r.P(1, 4) {
			s = s[1:]
		}
		v, err := strconv.ParseFloat(s, 32)
		if err != nil { // rounded out of range
			s = strconv.FormatFloat(float64(f), 'g', -1, 32)
			v = float64(f)
		}
		return s, float32(v)
	}
	var out []facet
	// the first bytes of the file say what it is
	if name == "" {
		b.WriteString(kw("solid") + nl)
	} else {
		b.WriteString(kw("solid") + " " + name + nl)
	}
	for i, f := range fs {
		if i > 0 && r.P(1, 40) { // several solids in one file
			line(kw("endsolid"), "one")
			line(kw("solid"), "two")
		}
		line(kw("facet"), kw("normal"), r.Pick("0", "nan", "1e3"), "0.0", r.Pick("1", "-1.5"))
		line(kw("outer"), kw("loop"))
		var g facet
		for k, p := range f {
			x, vx := num(p[0])
			y, vy := num(p[1])
			z, vz := num(p[2])
			g[k] = go3mf.Point3D{vx, vy, vz}
			line(kw("vertex"), x, y, z)
		}
		out = append(out, g)
		line(kw("endloop"))
		line(kw("endfacet"))
	}
	switch r.Intn(4) {
	case 0:
		b.WriteString(kw("endsolid"))
	case 1:
		line(kw("endsolid"), "part")
	case 2:
		line(kw("endsolid"))
	}
	return b.Bytes(), out
}

// mergeTolerance is the largest distance at which the mesh builder takes two
// coordinates for the same one.
const mergeTolerance = 1.6e-6

func near(a, b go3mf.Point3D) bool {
	for i := range a {
		if a[i] != b[i] && math.Abs(float64(a[i])-float64(b[i])) > mergeTolerance {
			return false
		}
	}
	return true
}

// checkMesh compares an imported mesh with facets.
func checkMesh(t *T, m *go3mf.Mesh, fs []facet) {
	if len(m.Triangles.Triangle) != len(fs) {
		t.Fatal("facets", "the file has %d facets, the mesh %d triangles", len(fs), len(m.Triangles.Triangle))
	}
	type pt struct{ x, y, z float32 }
	known := map[pt]bool{}
	for _, f := range fs {
		for _, p := range f {
			known[pt{p[0], p[1], p[2]}] = true
		}
	}
	for i, v := range m.Vertices.Vertex {
		if !known[pt{v[0], v[1], v[2]}] {
			t.Fatal("invented", "vertex %d %v is in no facet of the file", i, v)
		}
	}
	used := make([]bool, len(m.Vertices.Vertex))
	index := map[pt]uint32{}
	merged := 0
	next := uint32(0)
	for i, tr := range m.Triangles.Triangle {
		if tr.PID != 0 || tr.P1 != 0 || tr.P2 != 0 || tr.P3 != 0 || len(tr.AnyAttr) != 0 {
			t.Fatal("properties", "triangle %d has properties: %+v", i, tr)
		}
		for k, vi := range [3]uint32{tr.V1, tr.V2, tr.V3} {
			if int(vi) >= len(m.Vertices.Vertex) {
				t.Fatal("index", "triangle %d refers to vertex %d of %d", i, vi, len(m.Vertices.Vertex))
			}
			v, want := m.Vertices.Vertex[vi], fs[i][k]
			if !near(v, want) {
				t.Fatal("corner", "corner %d of triangle %d is %v, the file says %v", k, i, v, want)
			}
			if v != want {
				merged++
			}
			key := pt{want[0], want[1], want[2]}
			if o, ok := index[key]; ok && o != vi {
				t.Fatal("shared", "equal corners %v are vertices %d and %d", want, o, vi)
			}
			index[key] = vi
			if !used[vi] {
				if vi != next {
					t.Fatal("order", "vertex %d is used before vertex %d", vi, next)
				}
				used[vi] = true
				next++
			}
		}
	}
	if int(next) != len(m.Vertices.Vertex) {
		t.Fatal("unused", "%d vertices, %d used", len(m.Vertices.Vertex), next)
	}
	// no merge without need: two positions of one vertex are close to each other
	t.Count("corners_compared", 3*len(fs))
	t.Count("corners_within_tolerance", merged)
}

func importSTL(t *T, data []byte, m *go3mf.Model, mode int) error {
	var r io.Reader = bytes.NewReader(data)
	if mode >= 0 {
		r = &chunkReader{r: r, rnd: t.R, mode: mode}
	}
	return stl.NewDecoder(r).Decode(m)
}

// stlPrefilled may give the model content to keep.
func stlPrefilled(r *Rand) *go3mf.Model {
	if r.P(2, 3) {
		return new(go3mf.Model)
	}
	o := anyGen(r)
	o.Size = 2
	m := genModel(r, o)
	// Other numbers, with gaps: a new one must be unused, not just the next.
	if n := len(m.Resources.Objects); n > 0 && r.Bool() {
		for _, id := range []uint32{uint32(n + len(m.Resources.Assets) + 1), uint32(n + 1), uint32(len(m.Resources.Assets) + 1), 1, 2, math.MaxUint32} {
			if _, ok := m.Resources.FindObject(id); !ok && r.Bool() {
				if _, ok := m.Resources.FindAsset(id); !ok {
					m.Resources.Objects[r.Intn(n)].ID = id
				}
			}
		}
	}
	return m
}

func checkImport(t *T, m *go3mf.Model, before []string, nobj, nitem int, fs []facet) {
	if len(m.Resources.Objects) != nobj+1 || len(m.Build.Items) != nitem+1 {
		t.Fatal("added", "%d objects and %d items, expected %d and %d", len(m.Resources.Objects), len(m.Build.Items), nobj+1, nitem+1)
	}
	o, it := m.Resources.Objects[nobj], m.Build.Items[nitem]
	if it.ObjectID != o.ID || it.HasTransform() || it.ObjectPath() != "" {
		t.Fatal("item", "the build item is %+v for object %d", it, o.ID)
	}
	if o.ID == 0 {
		t.Fatal("id", "the object has no identifier")
	}
	for _, x := range m.Resources.Objects[:nobj] {
		if x.ID == o.ID {
			t.Fatal("id", "identifier %d is used twice", o.ID)
		}
	}
	for _, a := range m.Resources.Assets {
		if a.Identify() == o.ID {
			t.Fatal("id", "identifier %d is used by an asset", o.ID)
		}
	}
	if o.Mesh == nil || o.Components != nil || o.PID != 0 || o.PIndex != 0 || o.Type != go3mf.ObjectTypeModel {
		t.Fatal("object", "unexpected object %+v", o)
	}
	checkMesh(t, o.Mesh, fs)
	m.Resources.Objects, m.Build.Items = m.Resources.Objects[:nobj], m.Build.Items[:nitem]
	if len(m.Resources.Objects) == 0 {
		m.Resources.Objects = nil
	}
	if len(m.Build.Items) == 0 {
		m.Build.Items = nil
	}
	after := dumpModel(m, dumpOpt{})
	if d := diffLines(before, after); d != "" {
		t.Fatal("disturbed", "the import changed the rest of the model\n%s", d)
	}
}

func stlCase(t *T, bin bool) {
	n := []int{0, 1, 2, 3, 4, 5, 8, 20, 60}[t.R.Intn(9)]
	fs := genFacets(t.R, n)
	var data []byte
	if bin {
		data = writeBinarySTL(t.R, fs)
	} else {
		data, fs = writeASCIISTL(t.R, fs)
	}
	t.Artifact("file.stl", data)
	m := stlPrefilled(t.R)
	before := dumpModel(m, dumpOpt{})
	nobj, nitem := len(m.Resources.Objects), len(m.Build.Items)
	mode := t.R.Range(-1, 4)
	if err := importSTL(t, data, m, mode); err != nil {
		t.Fatal("error", "a valid file of %d facets is refused: %v", n, err)
	}
	checkImport(t, m, before, nobj, nitem, fs)
	if n > 0 {
		t.Distinct(data)
	}
	t.Count(fmt.Sprintf("reader_mode_%d", mode), 1)
	t.Count("facets", n)
	if !bin {
		t.Sample("%s", data)
	}
}

func stlLarge(t *T, bin bool, n int) {
	fs := genFacets(t.R, n)
	var data []byte
	if bin {
		data = writeBinarySTL(t.R, fs)
	} else {
		data, fs = writeASCIISTL(t.R, fs)
	}
	m := new(go3mf.Model)
	if err := importSTL(t, data, m, t.R.Range(-1, 2)); err != nil {
		t.Fatal("error", "a valid file of %d facets is refused: %v", len(fs), err)
	}
	checkImport(t, m, dumpModel(new(go3mf.Model), dumpOpt{}), 0, 0, fs)
	t.Distinct(data[:200], len(data))
	t.Max("facets_in_one_file", len(fs))
}

// stlSequence imports several files into one model, some of them broken.
func stlSequence(t *T) {
	m := stlPrefilled(t.R)
	for k := t.R.Range(2, 6); k > 0; k-- {
		before := dumpModel(m, dumpOpt{})
		nobj, nitem := len(m.Resources.Objects), len(m.Build.Items)
		fs := genFacets(t.R, t.R.Range(1, 6))
		data := writeBinarySTL(t.R, fs)
		if t.R.Bool() {
			data, fs = writeASCIISTL(t.R, fs)
		}
		if t.R.P(1, 4) {
			bad := writeBinarySTL(&Rand{s: 4}, fs)
			copy(bad, "broken")
			bad = bad[:len(bad)-1-t.R.Intn(40)]
			what := "a truncated file"
			if t.R.Bool() {
				bad, what = breakASCII(t, fs)
			}
			t.Artifact("broken.stl", bad)
			if err := importSTL(t, bad, m, -1); err == nil {
				t.Fatal("truncated", "%s is accepted", what)
			}
			if d := diffLines(before, dumpModel(m, dumpOpt{})); d != "" {
				t.Fatal("failed-import", "a failed import changed the model\n%s", d)
			}
			t.Count("failed_imports", 1)
			continue
		}
		t.Artifact("file.stl", data)
		if err := importSTL(t, data, m, -1); err != nil {
			t.Fatal("error", "a valid file is refused: %v", err)
		}
		o, it := m.Resources.Objects, m.Build.Items
		checkImport(t, m, before, nobj, nitem, fs)
		m.Resources.Objects, m.Build.Items = o, it
		t.Eval(1)
	}
	t.Count("sequences", 1)
}

var stlCorner = regexp.MustCompile(`(?im)^\s*vertex\s+(\S+)\s+(\S+)\s+(\S+)`)

// breakASCII writes an ASCII file with a coordinate that is no number, or that
// ends within a facet.
func breakASCII(t *T, fs []facet) ([]byte, string) {
	data, _ := writeASCIISTL(t.R, fs)
	at := stlCorner.FindAllSubmatchIndex(data, -1)
	if t.R.P(1, 3) {
		// cut before a corner that is not the first of its facet
		k := t.R.Intn(len(at))
		if k%3 == 0 {
			k++
		}
		t.Count("cut_facets", 1)
		return data[:at[k][0]], "a file cut within a facet"
	}
	w := at[t.R.Intn(len(at))][2:]
	w = w[2*t.R.Intn(3):]
	old := string(data[w[0]:w[1]])
	s := t.R.Pick("abc", "1,5", "1.2.3", "--1", "1e", "e5", ".", "-", "½", "0x", old+"mm", old+",", old+"\x00", "nane")
	t.Count("bad_numbers", 1)
	return append(append(append([]byte(nil), data[:w[0]]...), s...), data[w[1]:]...), fmt.Sprintf("a file with the coordinate %q", s)
}

var stlBits = []string{"vertex ", "vertex 1 2 3\n", "facet normal", "endsolid", "solid ", "nan", "inf", "-", "1e999", "0x1p-2", "\x00", "\xff", "\n", "\r", " ", "\t", "1_0", ","}

func checkHostile(t *T, data []byte, chunk int) (error, *go3mf.Model) {
	m := new(go3mf.Model)
	a := allocated()
	err := importSTL(t, data, m, chunk)
	used := allocated() - a
	if used > 150*uint64(len(data))+4<<20 {
		t.Fatal("memory", "%d bytes allocated for a file of %d bytes", used, len(data))
	}
	if len(data) > 20000 {
		t.Max("bytes_allocated_per_input_byte", int(used/uint64(len(data))))
	}
	if err != nil {
		if len(m.Resources.Objects)+len(m.Build.Items) != 0 {
			t.Fatal("failed-import", "a failed import left %d objects in the model", len(m.Resources.Objects))
		}
		t.Count("rejected", 1)
		t.Seen("outcomes", errClass(err))
		return err, nil
	}
	t.Count("accepted", 1)
	if len(m.Resources.Objects) != 1 || len(m.Build.Items) != 1 || m.Resources.Objects[0].Mesh == nil {
		t.Fatal("added", "%d objects, %d items after an import", len(m.Resources.Objects), len(m.Build.Items))
	}
	mesh := m.Resources.Objects[0].Mesh
	for i, tr := range mesh.Triangles.Triangle {
		n := uint32(len(mesh.Vertices.Vertex))
		if tr.V1 >= n || tr.V2 >= n || tr.V3 >= n {
			t.Fatal("index", "triangle %d: %+v refers to a vertex that does not exist", i, tr)
		}
	}
	if len(mesh.Vertices.Vertex) > 3*len(mesh.Triangles.Triangle) {
		t.Fatal("vertices", "%d vertices for %d triangles", len(mesh.Vertices.Vertex), len(mesh.Triangles.Triangle))
	}
	m.BoundingBox()
	m.Validate()
	m.ValidateCoherency()
	return nil, m
}

func stlHostile(t *T) {
	fs := genFacets(t.R, t.R.Range(0, 12))
	var data []byte
	switch t.R.Intn(5) {
	case 0:
		data = t.R.Bytes(t.R.Intn(600))
	case 1:
		data = []byte("solid ")
		for len(data) < t.R.Intn(900) {
			data = append(data, stlBits[t.R.Intn(len(stlBits))]...)
		}
	case 2, 3:
		data = mutateBytes(t.R, writeBinarySTL(t.R, fs), stlBits)
	default:
		data, _ = writeASCIISTL(t.R, fs)
		data = mutateBytes(t.R, data, stlBits)
	}
	t.Artifact("file.stl", data)
	checkHostile(t, data, t.R.Range(-1, 4))
	if len(data) >= 84 {
		t.Distinct(data)
	}
}

// stlTruncBinary cuts one file after every byte.
func stlTruncBinary(t *T) {
	fs := genFacets(t.R, t.R.Range(1, 9))
	data := writeBinarySTL(t.R, fs)
	solid := bytes.EqualFold(data[:5], []byte("solid"))
	for n := 0; n < len(data); n++ {
		err, _ := checkHostile(t, data[:n], -1)
		if err == nil && !(solid && n < 84) {
			t.Artifact("file.stl", data[:n])
			t.Fatal("truncated", "the first %d bytes of a binary file of %d are accepted", n, len(data))
		}
		t.Eval(1)
		if n >= 84 {
			t.Distinct(data[:n])
		}
	}
	// more facets announced than there are
	for _, more := range []uint32{1, 2, 1000, 1 << 20, math.MaxInt32, 1 << 31, math.MaxUint32} {
		d := append([]byte(nil), data...)
		binary.LittleEndian.PutUint32(d[80:], uint32(len(fs))+more)
		if uint32(len(fs))+more <= uint32(len(fs)) {
			binary.LittleEndian.PutUint32(d[80:], math.MaxUint32)
		}
		if err, _ := checkHostile(t, d, -1); err == nil {
			t.Artifact("file.stl", d)
			t.Fatal("announced", "%d facets more than there are were announced, and nobody noticed", more)
		}
		t.Eval(1)
	}
	t.Count("truncations", len(data))
}

// stlTruncASCII cuts one file after every byte: what is accepted must be the
// facets that are complete.
func stlTruncASCII(t *T) {
	fs := genFacets(t.R, t.R.Range(1, 5))
	data, fs := writeASCIISTL(t.R, fs)
	accepted := 0
	for n := 0; n < len(data); n++ {
		err, m := checkHostile(t, data[:n], -1)
		t.Eval(1)
		if err != nil {
			continue
		}
		accepted++
		k := len(m.Resources.Objects[0].Mesh.Triangles.Triangle)
		if k > len(fs) {
			t.Fatal("facets", "%d facets in the first %d bytes of a file with %d", k, n, len(fs))
		}
		got := m.Resources.Objects[0].Mesh
		for i := 0; i < k; i++ {
			tr := got.Triangles.Triangle[i]
			for j, vi := range [3]uint32{tr.V1, tr.V2, tr.V3} {
				// the last number can be cut short
				if !near(got.Vertices.Vertex[vi], fs[i][j]) && !(i == k-1 && j == 2) && len(got.Vertices.Vertex) == 3*k {
					t.Artifact("file.stl", data[:n])
					t.Fatal("corner", "the first %d bytes: facet %d is wrong", n, i)
				}
			}
		}
		// the number of vertex lines that are complete
		lines := 0
		for _, l := range strings.Split(string(data[:n]), "\n") {
			if f := strings.Fields(l); len(f) == 4 && strings.EqualFold(f[0], "vertex") {
				lines++
			}
		}
		if lines != 3*k {
			t.Artifact("file.stl", data[:n])
			t.Fatal("truncated", "the first %d bytes have %d corners and were read as %d complete facets", n, lines, k)
		}
	}
	t.Count("truncations", len(data))
	t.Count("prefixes_accepted", accepted)
}

func stlBomb(t *T, i int) {
	var b bytes.Buffer
	n := t.R.Range(200000, 600000)
	switch i % 10 {
	case 0: // one endless line
		b.WriteString("solid ")
		b.Write(bytes.Repeat([]byte("x"), n))
	case 1:
		b.WriteString("solid\n")
		b.Write(bytes.Repeat([]byte("\n"), n))
	case 2:
		b.WriteString("solid\nvertex ")
		b.Write(bytes.Repeat([]byte("1"), n/10))
		b.WriteString(" 0 0\nvertex 0 0 0\nvertex 0 0 0\n")
	case 3:
		b.WriteString("solid\n")
		for b.Len() < n {
			b.WriteString("vertex 1 2 3\n")
		}
	case 4: // huge count, no data
		b.Write(make([]byte, 80))
		b.Write([]byte{0xff, 0xff, 0xff, 0xff})
	case 5:
		b.Write(make([]byte, 80))
		b.Write([]byte{0xff, 0xff, 0xff, 0x7f})
		b.Write(make([]byte, n))
	case 6:
		b.Write(bytes.Repeat([]byte("solid "), n/6))
	case 7:
		b.WriteString("solid\n")
		b.Write(bytes.Repeat([]byte(" \t"), n/20))
		b.WriteString("vertex 1 2 3\n")
	case 8: // all different vertices
		b.WriteString("solid\n")
		for b.Len() < n {
			fmt.Fprintf(&b, "vertex %d %d.5 %g\n", b.Len(), b.Len(), t.R.F64())
		}
	default:
		b.WriteString("solid\n")
		for b.Len() < n {
			b.WriteString("vertex\n")
		}
	}
	data := b.Bytes()
	checkHostile(t, data, t.R.Range(-1, 2))
	t.Distinct("bomb", i%10, len(data))
}
