package main

import (
	"encoding/xml"
	"fmt"
	"image/color"
	"io"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// dumper writes a model as a list of "path = value" lines. Two models are
// equal for the monitors when their dumps are equal. Floats go through quant,
// which tells what a value must look like after a trip through text.
type dumper struct {
	lines []string
	quant func(float32) float32
	mat   func(float32) float32
	skip  func(path string) bool
}

func exact(f float32) float32 { return f }

func quantPrec(prec int) func(float32) float32 {
	return func(f float32) float32 {
		v, err := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'f', prec, 32), 32)
		if err != nil {
			return f
		}
		return float32(v)
	}
}

func (d *dumper) put(path string, v interface{}) {
	if d.skip != nil && d.skip(path) {
		return
	}
	switch v := v.(type) {
	case string:
		d.lines = append(d.lines, path+" = "+v)
	case int:
		d.lines = append(d.lines, path+" = "+strconv.Itoa(v))
	case uint32:
		d.lines = append(d.lines, path+" = "+strconv.FormatUint(uint64(v), 10))
	default:
		d.lines = append(d.lines, fmt.Sprintf("%s = %v", path, v))
	}
}

func fl(f float32) string {
	if f == 0 {
		return "0"
	}
	if math.IsNaN(float64(f)) {
		return "NaN"
	}
	return strconv.FormatFloat(float64(f), 'g', -1, 32)
}

var (
	tMatrix  = reflect.TypeOf(go3mf.Matrix{})
	tAnyAttr = reflect.TypeOf(spec.AnyAttr{})
	tReader  = reflect.TypeOf((*io.Reader)(nil)).Elem()
	tRGBA    = reflect.TypeOf(color.RGBA{})
	tUnk     = reflect.TypeOf(spec.UnknownTokens{})
)

func (d *dumper) value(path string, v reflect.Value) {
	switch v.Type() {
	case tMatrix:
		m := v.Interface().(go3mf.Matrix)
		if m == (go3mf.Matrix{}) {
			m = go3mf.Identity()
		}
		s := make([]string, 16)
		for i, f := range m {
			s[i] = fl(d.mat(f))
		}
		d.put(path, strings.Join(s, " "))
		return
	case tAnyAttr:
		d.anyAttr(path, v.Interface().(spec.AnyAttr))
		return
	case tRGBA:
		c := v.Interface().(color.RGBA)
		d.put(path, fmt.Sprintf("#%02x%02x%02x%02x", c.R, c.G, c.B, c.A))
		return
	case tUnk:
		d.tokens(path, v.Interface().(spec.UnknownTokens).Token)
		return
	}
	if v.Kind() == reflect.Slice && d.fast(path, v.Interface()) {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			d.put(path, "nil")
			return
		}
		switch u := v.Interface().(type) {
		case *unkAsset:
			d.put(path+".#", fmt.Sprintf("*go3mf.UnknownAsset id=%d name=%v", u.Identify(), u.XMLName()))
			d.tokens(path, u.Token)
			return
		case *go3mf.UnknownAsset:
			d.put(path+".#", fmt.Sprintf("*go3mf.UnknownAsset id=%d name=%v", u.Identify(), u.XMLName()))
			d.tokens(path, u.Token)
			return
		}
		if a, ok := v.Interface().(go3mf.Asset); ok && v.Kind() == reflect.Interface {
			d.put(path+".#", fmt.Sprintf("%T id=%d name=%v", v.Interface(), a.Identify(), a.XMLName()))
		} else if v.Kind() == reflect.Interface {
			d.put(path+".#", fmt.Sprintf("%T", v.Interface()))
		}
		d.value(path, v.Elem())
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			if t.Field(i).Type == tReader {
				continue
			}
			d.value(path+"."+t.Field(i).Name, v.Field(i))
		}
	case reflect.Slice:
		if v.Len() > 0 {
			d.put(path+".len", v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			d.value(path+"["+strconv.Itoa(i)+"]", v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.value(path+"["+strconv.Itoa(i)+"]", v.Index(i))
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			d.value(path+"["+k.String()+"]", v.MapIndex(k))
		}
	case reflect.Float32:
		d.put(path, fl(d.quant(float32(v.Float()))))
	case reflect.String:
		d.put(path, strconv.Quote(v.String()))
	default:
		d.put(path, v.Interface())
	}
}

// fast renders the long lists, one line per element.
func (d *dumper) fast(path string, v interface{}) bool {
	b := make([]byte, 0, 128)
	f := func(x float32) {
		b = append(b, ' ')
		x = d.quant(x)
		if x == 0 {
			x = 0 // no negative zero
			b = append(b, '0')
			return
		}
		b = strconv.AppendFloat(b, float64(x), 'g', -1, 32)
	}
	u := func(x uint32) {
		b = append(b, ' ')
		b = strconv.AppendUint(b, uint64(x), 10)
	}
	begin := func(i int, suffix string) {
		b = append(b[:0], path...)
		b = append(b, '[')
		b = strconv.AppendInt(b, int64(i), 10)
		b = append(b, ']')
		b = append(b, suffix...)
		b = append(b, " ="...)
	}
	end := func() { d.lines = append(d.lines, string(b)) }
	if d.skip != nil && d.skip(path) {
		return true
	}
	switch s := v.(type) {
	case []go3mf.Point3D:
		for i := range s {
			begin(i, "")
			f(s[i][0])
			f(s[i][1])
			f(s[i][2])
			end()
		}
		d.put(path+".len", len(s))
	case []go3mf.Point2D:
		for i := range s {
			begin(i, "")
			f(s[i][0])
			f(s[i][1])
			end()
		}
		d.put(path+".len", len(s))
	case []go3mf.Triangle:
		for i := range s {
			t := &s[i]
			begin(i, ".V")
			u(t.V1)
			u(t.V2)
			u(t.V3)
			end()
			if t.PID != 0 || t.P1 != 0 || t.P2 != 0 || t.P3 != 0 {
				begin(i, ".P")
				u(t.PID)
				u(t.P1)
				u(t.P2)
				u(t.P3)
				end()
			}
			if len(t.AnyAttr) > 0 {
				d.anyAttr(path+"["+strconv.Itoa(i)+"].AnyAttr", t.AnyAttr)
			}
		}
		d.put(path+".len", len(s))
	case []slices.Segment:
		for i := range s {
			begin(i, "")
			u(s[i].V2)
			u(s[i].PID)
			u(s[i].P1)
			u(s[i].P2)
			end()
		}
		d.put(path+".len", len(s))
	case []beamlattice.Beam:
		for i := range s {
			be := &s[i]
			begin(i, ".Indices")
			u(be.Indices[0])
			u(be.Indices[1])
			end()
			begin(i, ".Radius")
			f(be.Radius[0])
			f(be.Radius[1])
			end()
			begin(i, ".CapMode")
			u(uint32(be.CapMode[0]))
			u(uint32(be.CapMode[1]))
			end()
		}
		d.put(path+".len", len(s))
	default:
		return false
	}
	return true
}

func (d *dumper) anyAttr(path string, a spec.AnyAttr) {
	idx := make([]int, len(a))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return a[idx[i]].Namespace() < a[idx[j]].Namespace() })
	for _, i := range idx {
		if a[i].Namespace() == "xmlns" {
			continue // declarations carry no content of their own
		}
		p := path + "{" + a[i].Namespace() + "}"
		if u, ok := a[i].(*spec.UnknownAttrs); ok {
			if len(u.Attr) == 0 {
				continue
			}
			at := append([]xml.Attr(nil), u.Attr...)
			sort.SliceStable(at, func(i, j int) bool {
				return at[i].Name.Space+at[i].Name.Local < at[j].Name.Space+at[j].Name.Local
			})
			for _, x := range at {
				if x.Name.Space == "" && x.Name.Local == "xmlns" {
					continue
				}
				d.put(p+"@"+x.Name.Space+"|"+x.Name.Local, strconv.Quote(x.Value))
			}
			continue
		}
		switch x := a[i].(type) { // groups without content are not written
		case *production.BuildAttr:
			if *x == (production.BuildAttr{}) {
				continue
			}
		case *production.ItemAttr:
			if *x == (production.ItemAttr{}) {
				continue
			}
		case *production.ObjectAttr:
			if *x == (production.ObjectAttr{}) {
				continue
			}
		case *production.ComponentAttr:
			if *x == (production.ComponentAttr{}) {
				continue
			}
		}
		d.put(p+".#", fmt.Sprintf("%T", a[i]))
		d.value(p, reflect.ValueOf(a[i]))
	}
}

func (d *dumper) tokens(path string, ts []xml.Token) {
	for i, t := range canonTokens(ts) {
		d.put(fmt.Sprintf("%s.tok[%d]", path, i), t)
	}
}

// canonTokens renders tokens; adjacent character data is merged.
func canonTokens(ts []xml.Token) []string {
	var out []string
	text := ""
	flush := func() {
		// white space between elements is formatting, not content
		if strings.Trim(text, " \t\r\n") != "" {
			out = append(out, "text "+strconv.Quote(text))
		}
		text = ""
	}
	for _, t := range ts {
		switch t := t.(type) {
		case xml.StartElement:
			flush()
			s := "start " + t.Name.Space + "|" + t.Name.Local
			var as []string
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || (a.Name.Space == "" && a.Name.Local == "xmlns") {
					continue // declarations carry no content of their own
				}
				as = append(as, " "+a.Name.Space+"|"+a.Name.Local+"="+strconv.Quote(a.Value))
			}
			sort.Strings(as) // the order of attributes says nothing
			s += strings.Join(as, "")
			out = append(out, s)
		case xml.EndElement:
			flush()
			out = append(out, "end "+t.Name.Space+"|"+t.Name.Local)
		case xml.CharData:
			text += string(t)
		default:
			flush()
			out = append(out, fmt.Sprintf("%T", t))
		}
	}
	flush()
	return out
}

type dumpOpt struct {
	quant, mat func(float32) float32
	skip       func(string) bool
}

// dumpModel renders everything the model holds except attachment streams.
func dumpModel(m *go3mf.Model, o dumpOpt) []string {
	d := &dumper{quant: o.quant, mat: o.mat, skip: o.skip}
	if d.quant == nil {
		d.quant = exact
	}
	if d.mat == nil {
		d.mat = exact
	}
	d.value("Model", reflect.ValueOf(m))
	return d.lines
}

func dumpAny(v interface{}) []string {
	d := &dumper{quant: exact, mat: exact}
	d.value("", reflect.ValueOf(v))
	return d.lines
}

// diffLines returns a description of the first differences, or "".
func diffLines(want, got []string) string {
	n := 0
	var b strings.Builder
	i, j := 0, 0
	for i < len(want) || j < len(got) {
		if i < len(want) && j < len(got) && want[i] == got[j] {
			i++
			j++
			continue
		}
		w, g := "<end>", "<end>"
		if i < len(want) {
			w = want[i]
		}
		if j < len(got) {
			g = got[j]
		}
		fmt.Fprintf(&b, "want %s\n got %s\n", w, g)
		n++
		if n >= 4 {
			break
		}
		i++
		j++
	}
	return b.String()
}

// diffSig reduces a difference to the kind of place where it is.
func diffSig(want, got []string) string {
	for i := 0; ; i++ {
		w, g := "", ""
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g || (w == "" && g == "") {
			if w == "" {
				w = g
			}
			p := strings.SplitN(w, " = ", 2)[0]
			var b strings.Builder
			depth := 0
			for _, c := range p {
				switch c {
				case '[', '{':
					depth++
				case ']', '}':
					depth--
				default:
					if depth == 0 {
						b.WriteRune(c)
					}
				}
			}
			return strings.ReplaceAll(b.String(), " ", "")
		}
	}
}

// cloneModel deep-copies the parts of a model the normaliser rewrites.
func cloneValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(cloneValue(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		if v.Type() == tReader {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneValue(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(cloneValue(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneValue(v.Index(i)))
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneValue(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, cloneValue(v.MapIndex(k)))
		}
		return n
	}
	return v
}

func cloneModel(m *go3mf.Model) *go3mf.Model {
	return cloneValue(reflect.ValueOf(m)).Interface().(*go3mf.Model)
}

func eachResources(m *go3mf.Model, fn func(path string, rs *go3mf.Resources)) {
	keys := make([]string, 0, len(m.Childs))
	for k := range m.Childs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fn(k, &m.Childs[k].Resources)
	}
	fn("", &m.Resources)
}

// normalize rewrites a copy of m into the form the format stores: properties
// that only have a meaning next to a property group, beam radii that are
// inherited, and so on.
func normalize(m *go3mf.Model) *go3mf.Model {
	m = cloneModel(m)
	eachResources(m, func(_ string, rs *go3mf.Resources) {
		for _, a := range rs.Assets {
			if ss, ok := a.(*slices.SliceStack); ok {
				for i := range ss.Slices {
					for j := range ss.Slices[i].Polygons {
						segs := ss.Slices[i].Polygons[j].Segments
						for k := range segs {
							if segs[k].PID == 0 {
								segs[k].P1, segs[k].P2 = 0, 0
							}
						}
					}
				}
			}
		}
		for _, o := range rs.Objects {
			if len(o.Metadata.Metadata) == 0 {
				o.Metadata = go3mf.MetadataGroup{}
			}
			if o.Mesh == nil {
				continue
			}
			for _, a := range o.Mesh.Any {
				if bl, ok := a.(*beamlattice.BeamLattice); ok {
					for i := range bl.Beams.Beam {
						b := &bl.Beams.Beam[i]
						if b.Radius[0] <= 0 {
							b.Radius[0] = bl.Radius
						}
						if b.Radius[1] <= 0 {
							b.Radius[1] = b.Radius[0]
						}
					}
				}
			}
		}
	})
	for _, it := range m.Build.Items {
		if len(it.Metadata.Metadata) == 0 {
			it.Metadata = go3mf.MetadataGroup{}
		}
	}
	return m
}
