package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
)

func init() {
	register(&Prop{ID: "C10", Level: "exploration", Rule: "one evaluation is one document of the independent writer with one or more invalid attribute values, decoded leniently and strictly, alone and in a package; distinct_nontrivial counts distinct sets of faulty places",
		Assumptions: []string{
			"the lines of the model an attribute may change are measured by decoding valid documents that differ in that attribute only",
			"tile styles, filters, content types, blend methods, the caps of beams and the preserve flag fall back to the default without an error, as the tests of the project fix",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(9000, 200000); i++ {
				c.Case("errors", errorsRoot)
			}
			for k := 0; k < c.N(1, 15); k++ {
				for _, id := range []string{"C01", "C03", "C04", "C05", "C06"} {
					for _, dim := range vastDims[id] {
						dim := dim
						c.Case("vast", func(t *T) { errorsVast(t, dim) })
					}
				}
			}
			for i := 0; i < c.N(2500, 60000); i++ {
				c.Case("child-errors", errorsChild)
			}
		}})
}

type fault struct {
	n    *node
	name string
	ns   string
	kind byte
	bad  int // errors it causes
}

func required(kind byte) bool { return strings.IndexByte("ufcilg", kind) >= 0 }

func candidates(root *node) (out []fault) {
	root.walk(func(n *node) {
		for _, a := range n.attrs {
			k := a.kind
			if n.foreign && n.parent != nil && n.parent.name == "resources" && n.parent.ns == nsCore && !n.parent.foreign && n.idx >= 0 && a.ns == "" && a.name == "id" {
				k = 'u'
			}
			if k != 0 {
				out = append(out, fault{n, a.name, a.ns, k, 1})
			}
		}
	})
	return
}

func (f *fault) attr() *nattr {
	for i := range f.n.attrs {
		if f.n.attrs[i].name == f.name && f.n.attrs[i].ns == f.ns {
			return &f.n.attrs[i]
		}
	}
	panic("attribute lost")
}

var badUints = []string{"", "x", "-1", "1.5", "4294967296", "0x10", "1 2", "99999999999999999999", "1e3", "NaN", "1,", "é", "0b1", "1_0"}
var badFloats = []string{"", "x", "1,5", "1.2.3", "--1", "0x", "1 2", "abc", "1e400", "-1e99", "1e", "é", "1f", "1__0"}

// spoil writes an invalid value and counts the errors it must cause.
func (f *fault) spoil(r *Rand) {
	a := f.attr()
	f.bad = 1
	switch f.kind {
	case 'u', 'U':
		a.val = r.Pick(badUints...)
	case 'f', 'F':
		a.val = r.Pick(badFloats...)
	case 'e':
		a.val = r.Pick("", "bogus", strings.ToUpper(a.val), a.val+"s", " ", "0")
	case 'c':
		a.val = r.Pick("", "#12345", "#GG0000", "112233", "#1234567890", "#1234567G", "red", "#12345 ", "##12345", "#1122é")
	case 'i':
		v := a.val
		if len(v) > 10 {
			v = r.Pick(v[:len(v)-1], v+"0", strings.Replace(v, "-", "_", 1), "g"+v[1:], "x"+v[1:])
		}
		a.val = r.Pick("", "x", v, v, v)
		if v == a.val && strings.Trim(v, "{}") != v {
			a.val = "none"
		}
	case 'm':
		fs := strings.Fields(a.val)
		switch r.Intn(4) {
		case 0:
			fs = fs[:r.Intn(12)]
		case 1:
			fs = append(fs, "1")
		default:
			fs[r.Intn(12)] = r.Pick("x", "1,0", "1e99", "--")
		}
		a.val = strings.Join(fs, " ")
	case 'l', 'g':
		fs := strings.Fields(a.val)
		bad := map[int]bool{}
		if len(fs) == 0 {
			fs = []string{"x"}
			bad[0] = true
		}
		for k := r.Range(1, 2); k > 0; k-- {
			bad[r.Intn(len(fs))] = true
		}
		for i := range bad {
			for v := ""; v == ""; {
				if f.kind == 'l' {
					v = r.Pick(badUints...)
				} else {
					v = r.Pick(badFloats...)
				}
				if strings.Contains(v, " ") {
					v = ""
				}
				fs[i] = v
			}
		}
		f.bad = len(bad)
		a.val = strings.Join(fs, " ")
	}
}

const removed = "\x00"

// perturbations are other valid values of the attribute.
func (f *fault) perturbations(val string) []string {
	switch f.kind {
	case 'u', 'U':
		return []string{"0", "123456", "4294967295"}
	case 'f', 'F':
		return []string{"0", "77.25"}
	case 'e':
		for _, set := range [][]string{{"fullres", "lowres"}, {"millimeter", "micron", "inch"}, {"model", "other", "support"}, {"none", "inside", "outside"}, {"sphere", "hemisphere", "butt"}} {
			if (f.name == "meshresolution") == (set[0] == "fullres") && (f.name == "unit") == (set[0] == "millimeter") && (f.name == "type") == (set[0] == "model") &&
				(f.name == "cap") == (set[0] == "sphere") && strings.HasPrefix(f.name, "clipping") == (set[0] == "none") {
				return set
			}
		}
		panic("enum " + f.name)
	case 'c':
		return []string{"#00000000", "#12345678", "#EDCBA987"}
	case 'i':
		return []string{"00000000-1111-2222-3333-444444444444", removed}
	case 'm':
		return []string{"1 0 0 0 1 0 0 0 1 0 0 0", "2 3 4 5 6 7 8 9 10 11 12 13"}
	case 'l', 'g':
		n := len(strings.Fields(val))
		if n == 0 {
			return []string{"7"}
		}
		return []string{strings.TrimSpace(strings.Repeat("0 ", n)), strings.TrimSpace(strings.Repeat("4321 ", n))}
	}
	panic("kind")
}

func lineMap(lines []string) map[string][]string {
	m := map[string][]string{}
	for _, l := range lines {
		p := strings.SplitN(l, " = ", 2)[0]
		if strings.HasPrefix(p, "Model.Extensions") {
			continue
		}
		m[p] = append(m[p], l)
	}
	return m
}

func changed(a, b map[string][]string, out map[string]bool) {
	for p, l := range a {
		if fmt.Sprint(l) != fmt.Sprint(b[p]) {
			out[p] = true
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			out[p] = true
		}
	}
}

type expErr struct {
	xpath, name string
	required    bool
}

func (e expErr) String() string {
	return fmt.Sprintf("%s @%s required=%v", e.xpath, e.name, e.required)
}

// plant chooses and spoils attributes of the tree.
func plant(r *Rand, root *node) []fault {
	cand := candidates(root)
	if len(cand) == 0 {
		return nil
	}
	k := []int{1, 1, 2, 3, 6, 12}[r.Intn(6)]
	chosen := map[int]bool{}
	var out []fault
	pick := func(i int) {
		if i >= 0 && i < len(cand) && !chosen[i] {
			chosen[i] = true
			out = append(out, cand[i])
		}
	}
	i := r.Intn(len(cand))
	for len(out) < k && k > 0 {
		k--
		pick(i)
		if r.Bool() { // another attribute of the same element, or of the next one
			i += r.Range(-2, 2)
		} else {
			i = r.Intn(len(cand))
		}
	}
	return out
}

func expectedErrors(root *node, faults []fault) (out []expErr) {
	root.walk(func(n *node) {
		for _, a := range n.attrs {
			for _, f := range faults {
				if f.n == n && f.name == a.name && f.ns == a.ns {
					for i := 0; i < f.bad; i++ {
						out = append(out, expErr{n.xpath(), a.name, required(f.kind)})
					}
				}
			}
		}
	})
	return
}

func describeErr(err error) string {
	e, ok := err.(*specerr.Error)
	if !ok {
		return fmt.Sprintf("%T %v", err, err)
	}
	p, ok := e.Err.(*specerr.ParseAttrError)
	if !ok {
		return fmt.Sprintf("%s %T %v", e.XPath(), e.Err, e.Err)
	}
	s := expErr{e.XPath(), p.Name, p.Required}.String()
	if e.Path != "" {
		s += " part " + e.Path
	}
	var pe *specerr.ParseAttrError
	if !errors.As(err, &pe) || pe != p {
		s += " (errors.As does not find it)"
	}
	// people read the text
	text := err.Error()
	if !strings.Contains(text, "'"+p.Name+"'") || !strings.Contains(text, e.XPath()) || !strings.Contains(text, e.Path) {
		s += " (does not say where: " + text + ")"
	}
	if strings.Contains(p.Error(), "required") != p.Required || strings.Contains(p.Error(), "optional") == p.Required {
		s += " (reads " + p.Error() + ")"
	}
	return s
}

func checkErr(t *T, what string, err error, want []expErr, strict bool) {
	if err == nil {
		t.Fatal("no-error:"+what, "%s: a document with %d invalid values decodes without an error\n%v", what, len(want), want)
	}
	var got []string
	if l, ok := err.(*specerr.List); ok && !strict {
		if len(l.Errors) == 1 {
			t.Fatal("list-of-one:"+what, "%s: a single error comes in a list: %v", what, err)
		}
		for _, e := range l.Errors {
			got = append(got, describeErr(e))
		}
	} else {
		got = []string{describeErr(err)}
	}
	ws := make([]string, len(want))
	for i, w := range want {
		ws[i] = w.String()
	}
	if strict {
		ws = ws[:1]
	}
	if d := diffLines(ws, got); d != "" {
		t.Fatal("errors:"+what, "%s: the errors are not the faults of the document, in order\n%s", what, d)
	}
}

func errorsRoot(t *T) {
	o := anyGen(t.R)
	m := genModel(t.R, o)
	s := &ser{r: t.R, plain: t.R.P(1, 4)}
	root := s.model(m)
	nnoise := 0
	if t.R.P(1, 3) {
		nnoise = s.noise(root, 12)
	}
	faults := plant(t.R, root)
	if len(faults) == 0 {
		return
	}
	base := lineMap(expectedDump(m, -1))
	allowed := map[string]bool{}
	quiet := style{canon: true}
	for i := range faults {
		f := &faults[i]
		a := f.attr()
		val := a.val
		for _, v := range f.perturbations(val) {
			ns, name := a.ns, a.name
			a.val = v
			if v == removed { // an attribute the production extension ignores
				a.name, a.val = "other", ""
			}
			x, _, _ := render(t.R, root, m.Extensions, quiet)
			a.ns, a.name = ns, name
			g := new(go3mf.Model)
			if err := go3mf.UnmarshalModel([]byte(x), g); err != nil {
				t.Artifact("doc.xml", []byte(x))
				t.Fatal("valid-rejected", "a valid value %q of %s is rejected: %v", v, f.name, err)
			}
			g.Path = g.PathOrDefault()
			changed(base, lineMap(actualDump(g)), allowed)
		}
		a.val = val
	}
	for i := range faults {
		faults[i].spoil(t.R)
	}
	x, _, _ := render(t.R, root, m.Extensions, randStyle(t.R))
	doc := []byte(x)
	t.Artifact("doc.xml", doc)
	want := expectedErrors(root, faults)

	var places []string
	for _, w := range want {
		places = append(places, w.String())
		t.Seen("fault_places", stripIdx(w.xpath), w.name)
	}
	lenient := func(what string, g *go3mf.Model, err error) {
		checkErr(t, what, err, want, false)
		g.Path = g.PathOrDefault()
		diff := map[string]bool{}
		got := lineMap(actualDump(g))
		changed(base, got, diff)
		for _, p := range sortedBool(diff) {
			if !allowed[p] {
				t.Fatal("collateral:"+diffSig([]string{p}, nil), "%s: content away from the invalid values is not decoded: %s\nwant %v\n got %v\nfaults %v", what, p, base[p], got[p], places)
			}
		}
		t.Count("lines_compared", len(got))
	}
	g := new(go3mf.Model)
	lenient("unmarshal", g, go3mf.UnmarshalModel(doc, g))
	pkg := singlePackage(doc)
	g, err := decode(pkg, false)
	lenient("lenient", g, err)
	_, err = decode(pkg, true)
	checkErr(t, "strict", err, want, true)
	// What comes after the first fault does not matter to a strict decoder.
	if k := bytes.LastIndex(doc, []byte("</")); k > 0 {
		tail := append(append([]byte(nil), doc[:k]...), t.R.Pick("</unopened>", "<", "", "<a b=c/>", "<a>&bogus;</a>", "</", "<?x", "<!--")...)
		t.Artifact("doc.xml", tail)
		_, err = decode(singlePackage(tail), true)
		checkErr(t, "strict-tail", err, want, true)
	}
	t.Eval(4)
	t.Count("faults", len(want))
	t.Count("noise", nnoise)
	t.Max("faults_in_a_document", len(want))
	t.Sample("%v", places)
	t.Distinct(strings.Join(places, "\n"))
}

// errorsVast plants faults in lists of more elements than 16 bits can count.
func errorsVast(t *T, dim string) {
	m := vastModel(t.R, dim, t.R.P(1, 4))
	s := &ser{r: t.R, plain: t.R.P(1, 2)}
	root := s.model(m)
	faults := plant(t.R, root)
	for i := range faults {
		faults[i].spoil(t.R)
	}
	x, _, _ := render(t.R, root, m.Extensions, style{canon: t.R.Bool()})
	doc := []byte(x)
	want := expectedErrors(root, faults)
	if len(want) == 0 {
		return
	}
	t.Artifact("doc.xml", doc)
	checkErr(t, "vast", go3mf.UnmarshalModel(doc, new(go3mf.Model)), want, false)
	_, err := decode(singlePackage(doc), true)
	checkErr(t, "vast-strict", err, want, true)
	t.Eval(2)
	t.Seen("lists_of_more_than_65536", dim)
}

// errorsChild plants the faults in one or more child parts.
func errorsChild(t *T) {
	o := anyGen(t.R)
	o.Childs, o.Size = true, 3
	m := genModel(t.R, o)
	if len(m.Childs) == 0 {
		return
	}
	s := &ser{r: t.R}
	st := randStyle(t.R)
	x, _, _ := render(t.R, s.model(m), m.Extensions, st)
	childs := map[string][]byte{}
	wants := map[string][]expErr{}
	names := sortedKeys(m.Childs)
	bad := map[int]bool{t.R.Intn(len(names)): true}
	if t.R.P(1, 4) {
		bad[t.R.Intn(len(names))] = true
	}
	for i, p := range names {
		n := s.child(m, p)
		var faults []fault
		if bad[i] {
			faults = plant(t.R, n)
			for j := range faults {
				faults[j].spoil(t.R)
			}
		}
		cx, _, _ := render(t.R, n, m.Extensions, st)
		childs[p] = []byte(cx)
		t.Artifact(p, childs[p])
		if len(faults) > 0 {
			wants[p] = expectedErrors(n, faults)
		}
	}
	if len(wants) == 0 {
		return
	}
	pkg := multiPackage([]byte(x), childs, false)
	for _, strict := range []bool{true, false} {
		_, err := decode(pkg, strict)
		if err == nil {
			t.Fatal("no-error:child", "strict=%v: invalid values in a child part are not reported: %v", strict, wants)
		}
		if len(wants) == 1 {
			for _, w := range wants {
				checkErr(t, "child", err, w, strict)
			}
		} else { // one of them
			ok := false
			var first error = err
			if l, isl := err.(*specerr.List); isl && len(l.Errors) > 0 {
				first = l.Errors[0]
			}
			for _, w := range wants {
				ok = ok || describeErr(first) == w[0].String()
			}
			if !ok {
				t.Fatal("child-error", "the error is of none of the broken parts: %v\n%v", err, wants)
			}
		}
	}
	t.Eval(2)
	t.Count("child_documents", len(wants))
	t.Distinct(fmt.Sprint(wants))
}

func stripIdx(s string) string {
	var b strings.Builder
	in := false
	for _, c := range s {
		switch {
		case c == '[':
			in = true
		case c == ']':
			in = false
		case !in:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func sortedBool(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}
