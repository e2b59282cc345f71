package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"image/color"
	"io"
	"math"
	"math/big"
	"regexp"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

func init() {
	register(&Prop{ID: "C26", Level: "exploration", Rule: "one evaluation is one value formatted or one text parsed by the library, compared with exact arithmetic or the grammar; distinct_nontrivial counts distinct numbers and texts that are not plain integers",
		Assumptions: []string{
			"numbers follow the grammar of 3MF and are within the range of float32; what else strconv accepts (infinities, hexadecimal, a final dot) is not judged",
			"unknown names of texture types, tile styles, filters and blend methods, and caps of a beam, fall back to the default without an error, as the decoder documents by ignoring them",
			"the separators of lists are the white space of XML",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(8, 64); i++ {
				i := i
				c.Case("colour-channels", func(t *T) { textChannels(t, i%4) })
			}
			for i := 0; i < c.N(26, 260); i++ {
				i := i
				c.Case("colour-edits", func(t *T) { textColourEdits(t, i%13) })
			}
			for i := 0; i < c.N(6000, 50000); i++ {
				c.Case("colour-documents", textColourDocs)
			}
			for i := 0; i < c.N(24000, 300000); i++ {
				c.Case("matrix", textMatrix)
			}
			for i := 0; i < c.N(24000, 300000); i++ {
				c.Case("matrix-string", textMatrixString)
			}
			for i := 0; i < c.N(18000, 200000); i++ {
				c.Case("numbers-read", textNumbersIn)
			}
			for i := 0; i < c.N(18000, 200000); i++ {
				c.Case("numbers-written", textNumbersOut)
			}
			for i := 0; i < c.N(16, 64); i++ {
				c.Case("names", textNames)
			}
		}})
}

const hexDigits = "0123456789abcdefABCDEF"

// refColour reads a colour by the grammar: # and 6 or 8 hexadecimal digits.
func refColour(s string) (color.RGBA, bool) {
	if len(s) != 7 && len(s) != 9 || s[0] != '#' {
		return color.RGBA{}, false
	}
	v := [4]int{3: 255}
	for i := 1; i < len(s); i++ {
		d := strings.IndexByte("0123456789abcdef", s[i])
		if u := strings.IndexByte("0123456789ABCDEF", s[i]); d < 0 {
			d = u
		}
		if d < 0 {
			return color.RGBA{}, false
		}
		if i%2 == 1 {
			v[(i-1)/2] = d * 16
		} else {
			v[(i-1)/2] += d
		}
	}
	return color.RGBA{uint8(v[0]), uint8(v[1]), uint8(v[2]), uint8(v[3])}, true
}

func checkColour(t *T, s string) {
	t.Eval(1)
	want, ok := refColour(s)
	got, err := spec.ParseRGBA(s)
	if (err == nil) != ok {
		t.Fatal("colour-accept", "ParseRGBA(%q) returned %v; it is a colour: %v", s, err, ok)
	}
	if ok && got != want {
		t.Fatal("colour-value", "ParseRGBA(%q) is %v, want %v", s, got, want)
	}
	if ok {
		t.Count("colours_accepted", 1)
	} else {
		t.Count("colours_rejected", 1)
	}
}

func formatColour(t *T, c color.RGBA) {
	t.Eval(1)
	s := spec.FormatRGBA(c)
	back, ok := refColour(s)
	if !ok || back != c {
		t.Fatal("colour-format", "FormatRGBA(%v) is %q, which means %v (%v)", c, s, back, ok)
	}
	if lib, err := spec.ParseRGBA(s); err != nil || lib != c {
		t.Fatal("colour-inverse", "ParseRGBA(FormatRGBA(%v)) is %v, %v", c, lib, err)
	}
}

func textChannels(t *T, ch int) {
	for v := 0; v < 256; v++ {
		for k := 0; k < 3; k++ {
			b := t.R.Bytes(4)
			if k == 0 {
				b[3] = 255
			}
			if k == 1 {
				b = []byte{0, 0, 0, 0}
			}
			b[ch] = byte(v)
			c := color.RGBA{b[0], b[1], b[2], b[3]}
			formatColour(t, c)
			t.Distinct("c", fmt.Sprint(c))
		}
	}
}

func textColourEdits(t *T, n int) {
	for k := 0; k < 8; k++ {
		s := []byte("#")
		for i := 1; i < n; i++ {
			s = append(s, hexDigits[t.R.Intn(22)])
		}
		s = s[:n]
		checkColour(t, string(s))
		for pos := 0; pos < n; pos++ {
			for b := 0; b < 256; b++ {
				x := append([]byte(nil), s...)
				x[pos] = byte(b)
				checkColour(t, string(x))
			}
		}
		checkColour(t, " "+string(s))
		checkColour(t, string(s)+" ")
		checkColour(t, "#"+string(s))
		t.Distinct(string(s))
	}
}

func randColourText(r *Rand) string {
	s := "#"
	for n := 6 + 2*r.Intn(2); n > 0; n-- {
		s += string(hexDigits[r.Intn(22)])
	}
	return s
}

func textColourDocs(t *T) {
	r := t.R
	n := 1 + r.Intn(8)
	var texts []string
	body := `<basematerials id="1">`
	for i := 0; i < n; i++ {
		s := randColourText(r)
		texts = append(texts, s)
		body += fmt.Sprintf(`<base name="n" displaycolor="%s"/>`, s)
	}
	body += `</basematerials><m:colorgroup id="2">`
	for i := 0; i < n; i++ {
		s := randColourText(r)
		texts = append(texts, s)
		body += fmt.Sprintf(`<m:color color="%s"/>`, s)
	}
	body += `</m:colorgroup>`
	d := fmt.Sprintf(`<model xmlns="%s" xmlns:m="%s"><resources>%s</resources><build/></model>`, nsCore, nsMat, body)
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel([]byte(d), m); err != nil {
		t.Fatal("colour-document", "valid colours are rejected: %v\n%s", err, d)
	}
	bm := m.Resources.Assets[0].(*go3mf.BaseMaterials)
	cg := m.Resources.Assets[1].(*materials.ColorGroup)
	var got []color.RGBA
	for _, b := range bm.Materials {
		got = append(got, b.Color)
	}
	got = append(got, cg.Colors...)
	check := func(what string, got []color.RGBA) {
		for i, s := range texts {
			t.Eval(1)
			if want, _ := refColour(s); len(got) != len(texts) || got[i] != want {
				t.Fatal("colour-document", "%s: the colour %q was read as %v\n%s", what, s, got, d)
			}
		}
	}
	check("decoded", got)
	out, err := go3mf.MarshalModel(m)
	if err != nil {
		t.Fatal("colour-document", "MarshalModel: %v", err)
	}
	got = nil
	for _, a := range attrsOf(t, out) {
		if strings.HasSuffix(a.key, "@displaycolor") || strings.HasSuffix(a.key, "@color") {
			c, ok := refColour(a.val)
			if !ok {
				t.Fatal("colour-document", "%s is written as %q", a.key, a.val)
			}
			got = append(got, c)
		}
	}
	check("written", got)
	t.Distinct(d)
}

// ---- numbers ----

// decimalText writes a number in the grammar of 3MF.
func decimalText(r *Rand) string {
	var s string
	switch r.Intn(9) {
	case 0: // a plain value
		s = fmt.Sprint(r.Range(-1000, 1000))
	case 1:
		s = fmt.Sprintf("%d.%0*d", r.Range(-100, 100), 1+r.Intn(8), r.Intn(10))
	case 2, 3: // half way between two neighbours, or next to it
		f := randFinite(r)
		g := math.Nextafter32(f, float32(math.Inf(1)))
		if math.IsInf(float64(g), 0) {
			g = f
		}
		mid := new(big.Rat).Add(new(big.Rat).SetFloat64(float64(f)), new(big.Rat).SetFloat64(float64(g)))
		mid.Quo(mid, big.NewRat(2, 1))
		s = exactDecimal(mid)
		switch r.Intn(4) {
		case 0: // above in magnitude
			if !strings.Contains(s, ".") {
				s += "."
			}
			s += strings.Repeat("0", r.Intn(30)) + "1"
		case 1: // below
			if strings.Contains(s, ".") && strings.HasSuffix(s, "5") {
				s = s[:len(s)-1] + "4" + strings.Repeat("9", r.Intn(30))
			}
		}
	case 4: // exact value
		s = exactDecimal(new(big.Rat).SetFloat64(float64(randFinite(r))))
	case 5: // exponents
		s = fmt.Sprintf("%d.%de%d", r.Range(-9, 9), r.Intn(100000), r.Range(-30, 30))
	case 6:
		s = fmt.Sprintf("%s%s.%05dE%s%d", r.Pick("", "-", "+"), r.Pick("0", "1", "9", "00012"), r.Intn(100000), r.Pick("", "+", "-"), r.Intn(25))
	case 7: // a long one
		s = r.Pick("", "-") + fmt.Sprint(r.Intn(1000)) + "."
		for k := 1 + r.Intn(60); k > 0; k-- {
			s += string('0' + byte(r.Intn(10)))
		}
	default:
		s = r.Pick("0", "-0", "0.0", ".5", "-.25", "+1", "1e0", "16777217", "16777219", "33554434.9", "0.1", "0.30000001192092896", "1e-45", "1e-50", "3.4028235e38", "1.17549435e-38", "7.006492321624085e-46", "2147483648", "4294967297")
	}
	return s
}

func randFinite(r *Rand) float32 {
	switch r.Intn(4) {
	case 0:
		return float32(r.F64() - 0.5)
	case 1:
		return float32((r.F64() - 0.5) * 1e5)
	case 2:
		return float32((r.F64() - 0.5) * 1e-3)
	}
	for {
		f := math.Float32frombits(r.U32())
		if a := math.Abs(float64(f)); a < 1e30 && (a > 1e-30 || a == 0) {
			return f
		}
	}
}

func exactDecimal(x *big.Rat) string {
	s := x.FloatString(180)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(s, "0")
		s = strings.TrimSuffix(s, ".")
	}
	return s
}

// refFloat is the float32 nearest to the exact decimal value.
func refFloat(s string) (float32, bool) {
	x, ok := new(big.Rat).SetString(s)
	if !ok {
		return 0, false
	}
	f, _ := x.Float32()
	if math.IsInf(float64(f), 0) {
		return 0, false
	}
	return f, true
}

func inRangeText(r *Rand) (string, float32) {
	for {
		s := decimalText(r)
		if f, ok := refFloat(s); ok {
			return s, f
		}
	}
}

var xmlSpaces = []string{" ", "  ", "\t", "\n", "\r\n", " \t\n "}

func textMatrix(t *T) {
	r := t.R
	n := 12
	if r.P(1, 4) {
		n = r.Intn(17)
	}
	bad := n != 12
	var want [16]float32
	want[15] = 1
	s := ""
	if r.P(1, 4) {
		s = xmlSpaces[r.Intn(len(xmlSpaces))]
	}
	for i := 0; i < n; i++ {
		txt, f := inRangeText(r)
		if r.P(1, 60) {
			txt = r.Pick("x", "1,0", "--1", "1.2.3", "1e", "0x", "1e999", "-1e99", "é", "1f", "#1", "e5", "-", ".")
			bad = true
		}
		if i < 12 {
			want[4*(i/3)+i%3] = f
		}
		if i > 0 {
			s += xmlSpaces[r.Intn(len(xmlSpaces))]
		}
		s += txt
	}
	if r.P(1, 4) {
		s += xmlSpaces[r.Intn(len(xmlSpaces))]
	}
	t.Eval(1)
	got, ok := spec.ParseMatrix(s)
	if ok == bad {
		t.Fatal("matrix-accept", "ParseMatrix(%q) accepted: %v", s, ok)
	}
	if ok && got != want {
		t.Fatal("matrix-value", "ParseMatrix(%q) is %v, want %v", s, got, want)
	}
	if ok {
		t.Count("matrices_accepted", 1)
	} else {
		t.Count("matrices_rejected", 1)
	}
	t.Distinct(s)
	// the same through a document
	esc := strings.NewReplacer("\t", "&#9;", "\n", "&#10;", "\r", "&#13;").Replace(s)
	d := fmt.Sprintf(`<model xmlns="%s"><resources><object id="1"><mesh><vertices/><triangles/></mesh></object><object id="2"><components><component objectid="1" transform="%s"/></components></object></resources><build><item objectid="2" transform="%s"/></build></model>`, nsCore, esc, esc)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(d), m)
	if (err != nil) != bad {
		t.Fatal("transform-accept", "the transform %q gives the error %v", s, err)
	}
	if err != nil {
		return
	}
	if g := m.Build.Items[0].Transform; g != go3mf.Matrix(want) {
		t.Fatal("transform-value", "the transform %q of an item is %v, want %v", s, g, want)
	}
	if g := m.Resources.Objects[1].Components.Component[0].Transform; g != go3mf.Matrix(want) {
		t.Fatal("transform-value", "the transform %q of a component is %v, want %v", s, g, want)
	}
}

var decimalRE = regexp.MustCompile(`\A-?[0-9]+(\.[0-9]+)?\z`)

// nearestDecimal tells whether s is the nearest decimal of f with prec digits.
func nearestDecimal(s string, f float32, prec int) string {
	if !decimalRE.MatchString(s) {
		return "is not a plain decimal"
	}
	x, _ := new(big.Rat).SetString(s)
	exact := new(big.Rat).SetFloat64(float64(f))
	if prec < 0 {
		if g, _ := x.Float32(); g != f {
			return fmt.Sprintf("means %v", g)
		}
		return ""
	}
	if i := strings.IndexByte(s, '.'); i >= 0 && len(s)-i-1 > prec {
		return "has too many digits"
	}
	d := new(big.Rat).Sub(x, exact)
	d.Abs(d)
	lim := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(prec)), nil))
	lim.Quo(lim, big.NewRat(2, 1))
	if d.Cmp(lim) > 0 {
		return "is not the nearest"
	}
	return ""
}

func textMatrixString(t *T) {
	r := t.R
	var m go3mf.Matrix
	for i := range m {
		m[i] = randFinite(r)
		if math.Abs(float64(m[i])) > 1e15 || r.Bool() {
			m[i] = float32(r.Range(-100000, 100000)) / float32([]int{1, 8, 16, 10, 2000}[r.Intn(5)])
		}
	}
	s := m.String()
	fs := strings.Fields(s)
	t.Eval(1)
	if len(fs) != 12 {
		t.Fatal("matrix-string", "the text of %v is %q", m, s)
	}
	for i, f := range fs {
		if bad := nearestDecimal(f, m[4*(i/3)+i%3], 3); bad != "" {
			t.Fatal("matrix-string", "the element %d of %v is written as %q: it %s", i, m, f, bad)
		}
	}
	back, ok := spec.ParseMatrix(s)
	if !ok {
		t.Fatal("matrix-string", "the text %q is not accepted", s)
	}
	for i, f := range fs {
		if v, _ := refFloat(f); back[4*(i/3)+i%3] != v {
			t.Fatal("matrix-string", "the text %q is read as %v", s, back)
		}
	}
	t.Distinct(s)
}

type namedAttr struct{ key, val string }

// attrsOf lists the attributes of a document by the standard parser.
func attrsOf(t *T, d []byte) (out []namedAttr) {
	x := xml.NewDecoder(bytes.NewReader(d))
	for {
		tok, err := x.Token()
		if err == io.EOF {
			return
		}
		if err != nil {
			t.Fatal("unreadable", "the written document is not well formed: %v\n%s", err, d)
		}
		if s, ok := tok.(xml.StartElement); ok {
			for _, a := range s.Attr {
				if a.Name.Space == "xmlns" || a.Name.Local == "xmlns" {
					continue
				}
				out = append(out, namedAttr{s.Name.Space + "|" + s.Name.Local + "@" + a.Name.Local, a.Value})
			}
		}
	}
}

// numberSlots lists every number of a model made by numberModel, by attribute,
// in document order.
func numberSlots(m *go3mf.Model) map[string][]*float32 {
	out := map[string][]*float32{}
	put := func(ns, key string, fs ...*float32) { out[ns+"|"+key] = append(out[ns+"|"+key], fs...) }
	mat := func(x *go3mf.Matrix) (fs []*float32) {
		for i := 0; i < 12; i++ {
			fs = append(fs, &x[4*(i/3)+i%3])
		}
		return
	}
	for _, a := range m.Resources.Assets {
		switch a := a.(type) {
		case *materials.Texture2DGroup:
			for i := range a.Coords {
				put(nsMat, "tex2coord@u", &a.Coords[i][0])
				put(nsMat, "tex2coord@v", &a.Coords[i][1])
			}
		case *materials.CompositeMaterials:
			for i := range a.Composites {
				for k := range a.Composites[i].Values {
					put(nsMat, "composite@values", &a.Composites[i].Values[k])
				}
			}
		case *slices.SliceStack:
			put(nsSli, "slicestack@zbottom", &a.BottomZ)
			for i := range a.Slices {
				s := &a.Slices[i]
				put(nsSli, "slice@ztop", &s.TopZ)
				for k := range s.Vertices.Vertex {
					put(nsSli, "vertex@x", &s.Vertices.Vertex[k][0])
					put(nsSli, "vertex@y", &s.Vertices.Vertex[k][1])
				}
			}
		}
	}
	for _, o := range m.Resources.Objects {
		if o.Mesh != nil {
			for i := range o.Mesh.Vertices.Vertex {
				v := &o.Mesh.Vertices.Vertex[i]
				put(nsCore, "vertex@x", &v[0])
				put(nsCore, "vertex@y", &v[1])
				put(nsCore, "vertex@z", &v[2])
			}
			if l := beamlattice.GetBeamLattice(o.Mesh); l != nil {
				put(nsBeam, "beamlattice@minlength", &l.MinLength)
				put(nsBeam, "beamlattice@radius", &l.Radius)
				for i := range l.Beams.Beam {
					put(nsBeam, "beam@r1", &l.Beams.Beam[i].Radius[0])
					put(nsBeam, "beam@r2", &l.Beams.Beam[i].Radius[1])
				}
			}
		}
		if o.Components != nil {
			for _, c := range o.Components.Component {
				put(nsCore, "component@transform", mat(&c.Transform)...)
			}
		}
	}
	for _, it := range m.Build.Items {
		put(nsCore, "item@transform", mat(&it.Transform)...)
	}
	return out
}

// numberModel has a number at every place the formats have one.
func numberModel(r *Rand) *go3mf.Model {
	m := &go3mf.Model{Extensions: []go3mf.Extension{
		{Namespace: nsMat, LocalName: "m"}, {Namespace: nsSli, LocalName: "s"}, {Namespace: nsBeam, LocalName: "b"}}}
	n := func() int { return 1 + r.Intn(3) }
	tg := &materials.Texture2DGroup{ID: 1, TextureID: 9}
	for i := n(); i > 0; i-- {
		tg.Coords = append(tg.Coords, materials.TextureCoord{})
	}
	cm := &materials.CompositeMaterials{ID: 2, MaterialID: 9, Indices: []uint32{0, 1}}
	for i := n(); i > 0; i-- {
		cm.Composites = append(cm.Composites, materials.Composite{Values: make([]float32, n())})
	}
	ss := &slices.SliceStack{ID: 3}
	for i := n(); i > 0; i-- {
		ss.Slices = append(ss.Slices, slices.Slice{Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, n())}})
	}
	m.Resources.Assets = append(m.Resources.Assets, tg, cm, ss)
	mesh := &go3mf.Mesh{}
	mesh.Vertices.Vertex = make([]go3mf.Point3D, n())
	l := &beamlattice.BeamLattice{}
	for i := n(); i > 0; i-- {
		l.Beams.Beam = append(l.Beams.Beam, beamlattice.Beam{})
	}
	mesh.Any = append(mesh.Any, l)
	m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 4, Mesh: mesh})
	cs := &go3mf.Components{}
	for i := n(); i > 0; i-- {
		cs.Component = append(cs.Component, &go3mf.Component{ObjectID: 4, Transform: go3mf.Identity()})
	}
	m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 5, Components: cs})
	for i := n(); i > 0; i-- {
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 5, Transform: go3mf.Identity()})
	}
	return m
}

// textNumbersIn writes hard decimals into a document and reads it.
func textNumbersIn(t *T) {
	r := t.R
	m := numberModel(r)
	slots := numberSlots(m)
	want := map[string][]float32{}
	texts := map[string][]string{}
	var keys []string
	for k := range slots {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		for range slots[k] {
			s, f := inRangeText(r)
			for (strings.Contains(k, nsBeam) && f <= 0) || math.Abs(float64(f)) > 1e30 {
				s, f = inRangeText(r)
			}
			want[k] = append(want[k], f)
			texts[k] = append(texts[k], s)
		}
	}
	pos := map[string]int{}
	next := func(k string) string { s := texts[k][pos[k]]; pos[k]++; return s }
	var b strings.Builder
	fmt.Fprintf(&b, `<model xmlns="%s" xmlns:m="%s" xmlns:s="%s" xmlns:b="%s"><resources>`, nsCore, nsMat, nsSli, nsBeam)
	for _, a := range m.Resources.Assets {
		switch a := a.(type) {
		case *materials.Texture2DGroup:
			b.WriteString(`<m:texture2dgroup id="1" texid="9">`)
			for range a.Coords {
				fmt.Fprintf(&b, `<m:tex2coord u="%s" v="%s"/>`, next(nsMat+"|tex2coord@u"), next(nsMat+"|tex2coord@v"))
			}
			b.WriteString(`</m:texture2dgroup>`)
		case *materials.CompositeMaterials:
			b.WriteString(`<m:compositematerials id="2" matid="9" matindices="0 1">`)
			for i := range a.Composites {
				var v []string
				for range a.Composites[i].Values {
					v = append(v, next(nsMat+"|composite@values"))
				}
				fmt.Fprintf(&b, `<m:composite values="%s"/>`, strings.Join(v, " "))
			}
			b.WriteString(`</m:compositematerials>`)
		case *slices.SliceStack:
			fmt.Fprintf(&b, `<s:slicestack id="3" zbottom="%s">`, next(nsSli+"|slicestack@zbottom"))
			for i := range a.Slices {
				fmt.Fprintf(&b, `<s:slice ztop="%s"><s:vertices>`, next(nsSli+"|slice@ztop"))
				for range a.Slices[i].Vertices.Vertex {
					fmt.Fprintf(&b, `<s:vertex x="%s" y="%s"/>`, next(nsSli+"|vertex@x"), next(nsSli+"|vertex@y"))
				}
				b.WriteString(`</s:vertices></s:slice>`)
			}
			b.WriteString(`</s:slicestack>`)
		}
	}
	b.WriteString(`<object id="4"><mesh><vertices>`)
	mesh := m.Resources.Objects[0].Mesh
	for range mesh.Vertices.Vertex {
		fmt.Fprintf(&b, `<vertex x="%s" y="%s" z="%s"/>`, next(nsCore+"|vertex@x"), next(nsCore+"|vertex@y"), next(nsCore+"|vertex@z"))
	}
	fmt.Fprintf(&b, `</vertices><triangles/><b:beamlattice minlength="%s" radius="%s"><b:beams>`, next(nsBeam+"|beamlattice@minlength"), next(nsBeam+"|beamlattice@radius"))
	for range beamlattice.GetBeamLattice(mesh).Beams.Beam {
		fmt.Fprintf(&b, `<b:beam v1="0" v2="1" r1="%s" r2="%s"/>`, next(nsBeam+"|beam@r1"), next(nsBeam+"|beam@r2"))
	}
	b.WriteString(`</b:beams></b:beamlattice></mesh></object><object id="5"><components>`)
	twelve := func(k string) string {
		var v []string
		for i := 0; i < 12; i++ {
			v = append(v, next(k))
		}
		return strings.Join(v, " ")
	}
	for range m.Resources.Objects[1].Components.Component {
		fmt.Fprintf(&b, `<component objectid="4" transform="%s"/>`, twelve(nsCore+"|component@transform"))
	}
	b.WriteString(`</components></object></resources><build>`)
	for range m.Build.Items {
		fmt.Fprintf(&b, `<item objectid="5" transform="%s"/>`, twelve(nsCore+"|item@transform"))
	}
	b.WriteString(`</build></model>`)
	got := new(go3mf.Model)
	if err := go3mf.UnmarshalModel([]byte(b.String()), got); err != nil {
		t.Fatal("number-accept", "valid numbers are rejected: %v\n%s", err, b.String())
	}
	gs := numberSlots(got)
	for _, k := range keys {
		if len(gs[k]) != len(want[k]) {
			t.Fatal("number-count", "%d numbers of %s, want %d\n%s", len(gs[k]), k, len(want[k]), b.String())
		}
		for i := range want[k] {
			t.Eval(1)
			if *gs[k][i] != want[k][i] {
				t.Fatal("number-value", "%s %q was read as %v (%08x), the nearest float is %v (%08x)", k, texts[k][i], *gs[k][i], math.Float32bits(*gs[k][i]), want[k][i], math.Float32bits(want[k][i]))
			}
		}
		t.Seen("places", k)
	}
	t.Distinct(b.String())
}

// textNumbersOut writes a model and reads the numbers of the text exactly.
func textNumbersOut(t *T) {
	r := t.R
	m := numberModel(r)
	prec := []int{-1, -1, 0, 1, 2, 3, 4, 4, 5, 6, 7, 9, 12, 20}[r.Intn(14)]
	slots := numberSlots(m)
	var keys []string
	for k := range slots {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		for i, p := range slots[k] {
			f := randFinite(r)
			if r.P(1, 4) { // near a tie
				p10 := math.Pow(10, float64([]int{0, 1, 2, 3, 4, 5, 6}[r.Intn(7)]))
				f = float32((float64(r.Range(-5000, 5000)) + 0.5) / p10)
			}
			for strings.Contains(k, nsBeam) && f <= 0 {
				f = float32(math.Abs(float64(randFinite(r)))) + 0.25
			}
			*p = f
			_ = i
		}
	}
	// Radii are only written when they differ from the default.
	l := beamlattice.GetBeamLattice(m.Resources.Objects[0].Mesh)
	for i := range l.Beams.Beam {
		b := &l.Beams.Beam[i]
		for b.Radius[0] == l.Radius || b.Radius[1] == b.Radius[0] || b.Radius[1] == l.Radius || b.Radius[0] <= 0 || b.Radius[1] <= 0 {
			b.Radius = [2]float32{float32(r.F64())*50 + 0.1, float32(r.F64())*50 + 0.2}
		}
	}
	var doc []byte
	var err error
	if prec == 4 && r.Bool() {
		doc, err = go3mf.MarshalModel(m)
	} else {
		var pkg []byte
		pkg, err = encode(m, prec)
		if err == nil {
			files, zerr := zipEntries(pkg)
			if zerr != nil {
				t.Fatal("unreadable", "the package is not readable: %v", zerr)
			}
			doc = files["3D/3dmodel.model"]
		}
	}
	if err != nil {
		t.Fatal("encode", "encoding fails: %v", err)
	}
	got := map[string][]string{}
	for _, a := range attrsOf(t, doc) {
		got[a.key] = append(got[a.key], strings.Fields(a.val)...)
	}
	for _, k := range keys {
		if len(got[k]) != len(slots[k]) {
			t.Fatal("number-count", "%d numbers of %s are written, want %d\n%s", len(got[k]), k, len(slots[k]), doc)
		}
		for i, s := range got[k] {
			t.Eval(1)
			if bad := nearestDecimal(s, *slots[k][i], prec); bad != "" {
				t.Fatal("number-text", "%s %v (%08x) is written with the precision %d as %q: it %s", k, *slots[k][i], math.Float32bits(*slots[k][i]), prec, s, bad)
			}
		}
	}
	t.Seen("precisions", prec)
	t.Distinct(string(doc))
}

// ---- names ----

func textNames(t *T) {
	r := t.R
	distinct := func(what string, vals []fmt.Stringer, want []string) {
		for i, v := range vals {
			t.Eval(1)
			if v.String() != want[i] {
				t.Fatal("name", "the name of %s %d is %q, want %q", what, i, v.String(), want[i])
			}
		}
	}
	var u, ot, tt, ts, tf, bm, mr, cl, cp []fmt.Stringer
	for i := 0; i < 6; i++ {
		u = append(u, []go3mf.Units{go3mf.UnitMillimeter, go3mf.UnitMicrometer, go3mf.UnitCentimeter, go3mf.UnitInch, go3mf.UnitFoot, go3mf.UnitMeter}[i])
	}
	units := []string{"millimeter", "micron", "centimeter", "inch", "foot", "meter"}
	distinct("unit", u, units)
	for _, x := range []go3mf.ObjectType{go3mf.ObjectTypeModel, go3mf.ObjectTypeOther, go3mf.ObjectTypeSupport, go3mf.ObjectTypeSolidSupport, go3mf.ObjectTypeSurface} {
		ot = append(ot, x)
	}
	types := []string{"model", "other", "support", "solidsupport", "surface"}
	distinct("object type", ot, types)
	for _, x := range []materials.Texture2DType{materials.TextureTypePNG, materials.TextureTypeJPEG} {
		tt = append(tt, x)
	}
	ttypes := []string{"image/png", "image/jpeg"}
	distinct("texture type", tt, ttypes)
	for _, x := range []materials.TileStyle{materials.TileWrap, materials.TileMirror, materials.TileClamp, materials.TileNone} {
		ts = append(ts, x)
	}
	tiles := []string{"wrap", "mirror", "clamp", "none"}
	distinct("tile style", ts, tiles)
	for _, x := range []materials.TextureFilter{materials.TextureFilterAuto, materials.TextureFilterLinear, materials.TextureFilterNearest} {
		tf = append(tf, x)
	}
	filters := []string{"auto", "linear", "nearest"}
	distinct("filter", tf, filters)
	for _, x := range []materials.BlendMethod{materials.BlendMix, materials.BlendMultiply} {
		bm = append(bm, x)
	}
	blends := []string{"mix", "multiply"}
	distinct("blend method", bm, blends)
	for _, x := range []slices.MeshResolution{slices.ResolutionFull, slices.ResolutionLow} {
		mr = append(mr, x)
	}
	ress := []string{"fullres", "lowres"}
	distinct("mesh resolution", mr, ress)
	for _, x := range []beamlattice.ClipMode{beamlattice.ClipNone, beamlattice.ClipInside, beamlattice.ClipOutside} {
		cl = append(cl, x)
	}
	clips := []string{"none", "inside", "outside"}
	distinct("clip mode", cl, clips)
	for _, x := range []beamlattice.CapMode{beamlattice.CapModeSphere, beamlattice.CapModeHemisphere, beamlattice.CapModeButt} {
		cp = append(cp, x)
	}
	caps := []string{"sphere", "hemisphere", "butt"}
	distinct("cap mode", cp, caps)

	var strict func(unit, typ, res, clip, cap string) (*go3mf.Model, error)
	tex := [5]string{"image/png", "wrap", "wrap", "auto", "mix"}
	cap1, cap2 := "", ""
	strict = func(unit, typ, res, clip, cap string) (*go3mf.Model, error) {
		c := ""
		if cap1 != "" {
			c += fmt.Sprintf(` cap1="%s"`, cap1)
		}
		if cap2 != "" {
			c += fmt.Sprintf(` cap2="%s"`, cap2)
		}
		d := fmt.Sprintf(`<model unit="%s" xmlns="%s" xmlns:m="%s" xmlns:s="%s" xmlns:b="%s"><resources><m:texture2d id="1" path="/a.png" contenttype="%s" tilestyleu="%s" tilestylev="%s" filter="%s"/><m:multiproperties id="2" pids="1 2 3" blendmethods="%s mix %s"/>`+
			`<object id="4" type="%s" s:slicestackid="3" s:meshresolution="%s"><mesh><vertices/><triangles/><b:beamlattice minlength="1" radius="1" clippingmode="%s" cap="%s"><b:beams><b:beam v1="0" v2="1"%s/></b:beams></b:beamlattice></mesh></object></resources><build/></model>`,
			unit, nsCore, nsMat, nsSli, nsBeam, tex[0], tex[1], tex[2], tex[3], tex[4], tex[4], typ, res, clip, cap, c)
		m := new(go3mf.Model)
		err := go3mf.UnmarshalModel([]byte(d), m)
		return m, err
	}
	pick := func(l []string) (int, string) { i := r.Intn(len(l)); return i, l[i] }
	for k := 0; k < 400; k++ {
		t.Eval(12)
		ui, us := pick(units)
		ti, tys := pick(types)
		ri, rs := pick(ress)
		ci, cs := pick(clips)
		pi, ps := pick(caps)
		x0, _ := pick(ttypes)
		x1, _ := pick(tiles)
		x2, _ := pick(tiles)
		x3, _ := pick(filters)
		x4, _ := pick(blends)
		tex = [5]string{ttypes[x0], tiles[x1], tiles[x2], filters[x3], blends[x4]}
		c1, c2 := pi, pi
		cap1, cap2 = "", ""
		if r.Bool() {
			c1, cap1 = pick(caps)
		}
		if r.Bool() {
			c2, cap2 = pick(caps)
		}
		m, err := strict(us, tys, rs, cs, ps)
		if err != nil {
			t.Fatal("name-accept", "%s %s %s %s %s is rejected: %v", us, tys, rs, cs, ps, err)
		}
		verify := func(what string, m *go3mf.Model) {
			o := m.Resources.Objects[0]
			l := beamlattice.GetBeamLattice(o.Mesh)
			tx := m.Resources.Assets[0].(*materials.Texture2D)
			mp := m.Resources.Assets[1].(*materials.MultiProperties)
			sa := slices.GetObjectAttr(o)
			bms := mp.BlendMethods
			ok := fmt.Stringer(m.Units) == u[ui] && fmt.Stringer(o.Type) == ot[ti] && sa != nil && fmt.Stringer(sa.MeshResolution) == mr[ri] &&
				fmt.Stringer(l.ClipMode) == cl[ci] && fmt.Stringer(l.CapMode) == cp[pi] &&
				fmt.Stringer(l.Beams.Beam[0].CapMode[0]) == cp[c1] && fmt.Stringer(l.Beams.Beam[0].CapMode[1]) == cp[c2] &&
				fmt.Stringer(tx.ContentType) == tt[x0] && fmt.Stringer(tx.TileStyleU) == ts[x1] && fmt.Stringer(tx.TileStyleV) == ts[x2] && fmt.Stringer(tx.Filter) == tf[x3] &&
				len(bms) == 3 && fmt.Stringer(bms[0]) == bm[x4] && bms[1] == materials.BlendMix && fmt.Stringer(bms[2]) == bm[x4]
			if !ok {
				t.Fatal("name-value", "%s: %s %s %s %s %s %v %s %s was read as\n%s", what, us, tys, rs, cs, ps, tex, cap1, cap2, dumpText(m))
			}
		}
		verify("decoded", m)
		m.Extensions = []go3mf.Extension{{Namespace: nsMat, LocalName: "m"}, {Namespace: nsSli, LocalName: "s"}, {Namespace: nsBeam, LocalName: "b"}}
		out, err := go3mf.MarshalModel(m)
		if err != nil {
			t.Fatal("name-write", "MarshalModel: %v", err)
		}
		m2 := new(go3mf.Model)
		if err := go3mf.UnmarshalModel(out, m2); err != nil {
			t.Fatal("name-write", "what was written is rejected: %v\n%s", err, out)
		}
		verify("written and decoded", m2)
		t.Distinct(fmt.Sprint(ui, ti, ri, ci, pi, tex, c1, c2))
	}
	cap1, cap2 = "", ""
	tex = [5]string{"image/png", "wrap", "wrap", "auto", "mix"}
	for _, w := range []string{"", "x", "Model", "MODEL", "model ", " model", "mode", "models", "millimetre", "Millimeter", "microns", "um", "0", "1", "inches", "full", "FULLRES", "lowres ", "None", "inside ", "Sphere", "round", "other support", "é"} {
		for k := 0; k < 5; k++ {
			v := []string{"millimeter", "model", "fullres", "none", "sphere"}
			v[k] = w
			t.Eval(1)
			if _, err := strict(v[0], v[1], v[2], v[3], v[4]); err == nil {
				t.Fatal("name-reject", "%q is accepted as the name number %d", w, k)
			}
			t.Count("names_rejected", 1)
		}
	}
	// Names near to the valid ones, and the ones of other attributes.
	lists := [][]string{units, types, ress, clips, caps}
	var all []string
	for _, l := range append(lists[:5:5], ttypes, tiles, filters, blends) {
		all = append(all, l...)
	}
	for k, l := range lists {
		valid := map[string]bool{}
		for _, n := range l {
			valid[n] = true
		}
		near := append([]string(nil), all...)
		for _, n := range l {
			i := r.Intn(len(n))
			near = append(near, n[:i], n[i:], n[:i]+n[i+1:], n[:i]+string(rune('a'+r.Intn(26)))+n[i+1:], n+string(rune('a'+r.Intn(26))),
				n[:i]+strings.ToUpper(n[i:]), strings.ToUpper(n[:i])+n[i:], " "+n, n+" ", n+"\u00a0", n+"&#9;", n+n, n+" "+l[r.Intn(len(l))], n+","+n)
		}
		for _, w := range near {
			if valid[w] {
				continue
			}
			v := []string{"millimeter", "model", "fullres", "none", "sphere"}
			v[k] = w
			t.Eval(1)
			if _, err := strict(v[0], v[1], v[2], v[3], v[4]); err == nil {
				t.Fatal("name-reject", "%q is accepted as the name number %d", w, k)
			}
			t.Count("names_rejected", 1)
		}
	}
}
