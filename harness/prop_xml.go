package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/spec"
)

// refTokens reads a document with encoding/xml and returns the tokens of the
// extension elements under the model element, one list per element.
func refTokens(doc []byte) (out [][]xml.Token, model []xml.Attr, err error) {
	d := xml.NewDecoder(bytes.NewReader(doc))
	depth := 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			return out, model, nil
		}
		if err != nil {
			return nil, nil, err
		}
		t = xml.CopyToken(t)
		switch t := t.(type) {
		case xml.StartElement:
			if depth == 0 {
				model = t.Attr
			}
			if depth == 1 {
				out = append(out, nil)
			}
			if depth >= 1 {
				out[len(out)-1] = append(out[len(out)-1], t)
			}
			depth++
		case xml.EndElement:
			depth--
			if depth >= 1 {
				out[len(out)-1] = append(out[len(out)-1], t)
			}
		case xml.CharData:
			// a white-space-only run between two pieces of markup is formatting
			if depth >= 2 && len(bytes.Trim(t, " \t\r\n")) > 0 {
				out[len(out)-1] = append(out[len(out)-1], t)
			}
		}
	}
}

func canonAny(ts [][]xml.Token) []string {
	var out []string
	for i, t := range ts {
		for j, l := range canonTokens(t) {
			out = append(out, fmt.Sprintf("%d.%d %s", i, j, l))
		}
	}
	return out
}

func anyTokens(m *go3mf.Model) [][]xml.Token {
	var out [][]xml.Token
	for _, a := range m.Any {
		if u, ok := a.(*spec.UnknownTokens); ok {
			out = append(out, u.Token)
		}
	}
	return out
}

// laxer lists what the library does not check and encoding/xml does.
func laxer(err error) bool {
	var se *xml.SyntaxError
	if !errors.As(err, &se) {
		return true // not a syntax error: version or encoding of the XML declaration
	}
	for _, s := range []string{"invalid UTF-8", "illegal character code", "invalid XML name", "unescaped ]]>", "expected target name", "expected attribute name", "expected element name"} {
		if strings.Contains(se.Msg, s) {
			return true
		}
	}
	return false
}

const xmlRule = "one evaluation is one XML document read by the library and by encoding/xml, with the tokens the library kept for unknown elements compared to the reference; distinct_nontrivial counts distinct documents of more than 200 bytes"

func init() {
	register(&Prop{ID: "C09", Level: "exploration", Rule: xmlRule,
		Assumptions: []string{
			"encoding/xml is the reference of XML 1.0 with name spaces; document type declarations, which the library rejects, are not generated",
			"what the library documents as unchecked for speed (UTF-8 validity, control characters, name characters, ]]> in text) is outside of the property",
			"white-space-only text of unknown elements is formatting",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(8000, 150000); i++ {
				c.Case("tokens", xmlTokens)
			}
			for i := 0; i < c.N(4000, 100000); i++ {
				c.Case("pieces", xmlPieces)
			}
			// every alignment of one document against the 4096 byte buffer of the parser
			step := c.N(32, 16)
			for k := 0; k < c.N(4, 20); k++ {
				for from := 0; from <= 4200; from += step {
					k, from := k, from
					c.Case("align", func(t *T) { xmlAlign(t, k, from, step) })
				}
			}
			for i := 0; i < c.N(2500, 40000); i++ {
				c.Case("malformed", xmlMalformed)
			}
			for i := 0; i < c.N(1500, 25000); i++ {
				c.Case("chunks", xmlChunks)
			}
			for i := 0; i < c.N(120, 1500); i++ {
				i := i
				c.Case("long", func(t *T) { xmlLong(t, i) })
			}
		}})
}

// xmlDoc builds a document of extension elements and its tree.
func xmlDoc(r *Rand, size int, st style) (string, *node) {
	g := &gen{r: r, m: new(go3mf.Model), o: genOpt{Unknown: true}}
	for i := 0; i < 3; i++ {
		g.unk = append(g.unk, go3mf.Extension{Namespace: fmt.Sprintf("http://example.com/%d", i), LocalName: fmt.Sprintf("u%d", i)})
	}
	root := el(nsCore, "model", -1)
	root.holds = true
	for i := 0; i < size; i++ {
		root.add(tokenTree(g.unknownTree(g.unk[r.Intn(3)].Namespace, 0, 0)))
	}
	x, _, _ := render(r, root, g.unk[:r.Intn(4)], st)
	return x, root
}

func compareDoc(t *T, doc []byte, m *go3mf.Model) {
	ref, mattrs, err := refTokens(doc)
	if err != nil {
		panic(fmt.Sprintf("the reference rejects a generated document: %v\n%s", err, doc))
	}
	want, got := canonAny(ref), canonAny(anyTokens(m))
	if d := diffLines(want, got); d != "" {
		t.Fatal("tokens", "the text and attributes kept are not those of the document\n%s", d)
	}
	var ext []string
	for _, a := range mattrs {
		if a.Name.Space == "xmlns" {
			ext = append(ext, a.Name.Local+"="+a.Value)
		}
	}
	var gext []string
	for _, e := range m.Extensions {
		gext = append(gext, e.LocalName+"="+e.Namespace)
	}
	if d := diffLines(ext, gext); d != "" {
		t.Fatal("extensions", "declared name spaces differ\n%s", d)
	}
	t.Count("tokens_compared", len(want))
}

func xmlTokens(t *T) {
	x, _ := xmlDoc(t.R, t.R.Range(1, 12), randStyle(t.R))
	doc := []byte(x)
	t.Artifact("doc.xml", doc)
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, m); err != nil {
		t.Fatal("rejects", "a well-formed document is rejected: %v", err)
	}
	compareDoc(t, doc, m)
	t.Sample("%s", x)
	t.Max("document_bytes", len(doc))
	if len(doc) > 200 {
		t.Distinct(doc)
	}
}

// xmlPieces checks values made of everything that is not an ordinary
// character, in any order.
func xmlPieces(t *T) {
	r := t.R
	plain := []string{"\r", "\n", "\r\n", "\n\r", "\t", " ", "a", "]", "]]", "é", "\U0001F600", "-", "--", "?", "=", "/", "]>"}
	refs := []string{"&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#13;", "&#xD;", "&#10;", "&#x0a;", "&#9;", "&#32;", "&#x1F600;", "&#233;", "&#0000065;", "&#93;", "&#x10FFFF;", "&#1114111;", "&#xD7FF;", "&#xE000;", "&#xFFFD;", "&#x10000;", "&#x7f;", "&#x80;"}
	value := func(text bool) string {
		var b strings.Builder
		for k := r.Range(0, 9); k > 0; k-- {
			switch {
			case r.P(2, 5):
				b.WriteString(refs[r.Intn(len(refs))])
			case text && r.P(1, 8):
				c := ""
				for n := r.Range(0, 6); n > 0; n-- {
					c += r.Pick(append(plain, refs...)...)
				}
				if !strings.Contains(c, "]]>") {
					b.WriteString("<![CDATA[" + c + "]]>")
				}
			case text && r.P(1, 10):
				b.WriteString(r.Pick("<!---->", "<!-- a\r\n- &b; -->", "<?p q?>", "<?p \r?>", "<?p ??>", "<?p ?>", "<?p >??>", "<!-- - -->", "<!-- > -->"))
			default:
				b.WriteString(r.Pick(plain...))
			}
		}
		return strings.ReplaceAll(b.String(), "]]>", "]]&gt;")
	}
	cdata := func(s string) string { // the replacement above is not for the ends of CDATA sections
		var b strings.Builder
		for {
			i := strings.Index(s, "<![CDATA[")
			if i < 0 {
				b.WriteString(s)
				return b.String()
			}
			j := i + strings.Index(s[i:], "]]&gt;")
			b.WriteString(s[:j] + "]]>")
			s = s[j+len("]]&gt;"):]
		}
	}
	var b strings.Builder
	b.WriteString(`<model xmlns="` + nsCore + `" xmlns:u="http://example.com/u">`)
	for n := r.Range(1, 4); n > 0; n-- {
		b.WriteString("<u:e")
		for k := r.Range(0, 3); k > 0; k-- {
			q := r.Pick(`"`, "'")
			fmt.Fprintf(&b, "%sa%d%s=%s%s%s%s", r.Pick(" ", "\r\n", "\t", "\n "), k, r.Pick("", " ", "\r"), r.Pick("", " ", "\n"), q, value(false), q)
		}
		b.WriteString(">" + cdata(value(true)))
		for k := r.Intn(3); k > 0; k-- {
			b.WriteString("<u:i" + r.Pick("/>", ">"+cdata(value(true))+"</u:i>", " ></u:i\r\n>") + cdata(value(true)))
		}
		b.WriteString("</u:e>")
	}
	b.WriteString("</model>")
	doc := []byte(b.String())
	t.Artifact("doc.xml", doc)
	if _, _, err := refTokens(doc); err != nil {
		t.Count("pieces_not_well_formed", 1)
		return
	}
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, m); err != nil {
		t.Fatal("rejects", "a well-formed document is rejected: %v", err)
	}
	compareDoc(t, doc, m)
	t.Count("pieces_compared", 1)
	t.Distinct(doc)
}

func xmlAlign(t *T, k, from, n int) {
	r := newRand("C09align", uint64(t.C.Seed), uint64(k))
	body, _ := xmlDoc(r, 4, style{noise: 5, noCoreNS: true})
	i := strings.Index(body, "<model")
	if i < 0 {
		panic("no model")
	}
	head, rest := body[:i], body[i:]
	t.Eval(0)
	done := 0
	for p := from; p < from+n; p++ {
		doc := []byte(head + strings.Repeat(" ", p) + rest)
		t.Artifact("doc.xml", doc)
		m := new(go3mf.Model)
		if err := go3mf.UnmarshalModel(doc, m); err != nil {
			t.Fatal("align-rejects", "a well-formed document is rejected with %d bytes before its root: %v", p, err)
		}
		compareDoc(t, doc, m)
		done++
		t.Distinct("align", k, p)
		t.Seen("alignments", k, p)
	}
	t.Eval(done)
}

var xmlBits = []string{"<", ">", "/", "&", ";", "\"", "'", "=", " ", "</", "/>", "<?", "?>", "<!--", "-->", "<![CDATA[", "]]>", "&amp;", "&#65;", "&#x;", "&#xD800;", "&foo;", "xmlns", ":", "<a>", "</a>", "a", "\n", "\r", "--", "<!", "u0:", "&#", "&#xFFFFFFFFF;", "&amp", "&#x10FFFF;", "&#x110000;", "&#1114112;", "&#18446744073709551681;", "&#4294967361;"}

func xmlMalformed(t *T) {
	x, _ := xmlDoc(t.R, t.R.Range(1, 4), style{noise: 4, noCoreNS: true})
	doc := []byte(x)
	n := 0
	one := func(d []byte, what string) {
		n++
		m := new(go3mf.Model)
		err := go3mf.UnmarshalModel(d, m)
		ref, _, rerr := refTokens(d)
		switch {
		case rerr != nil && err == nil:
			if laxer(rerr) || oddReference(d) {
				t.Count("unchecked_by_design", 1)
				return
			}
			t.Artifact("doc.xml", d)
			t.Fatal("accepts-malformed", "%s: a malformed document is accepted (%v)\n%s", what, rerr, d)
		case rerr == nil && err != nil:
			if oddReference(d) {
				t.Count("reference_laxer", 1)
				return
			}
			t.Artifact("doc.xml", d)
			t.Fatal("rejects-wellformed", "%s: a well-formed document is rejected: %v\n%s", what, err, d)
		case err == nil:
			t.Count("mutants_accepted_by_both", 1)
			if oddReference(d) || !strings.Contains(string(d), nsCore) {
				return
			}
			if a, b := canonAny(ref), canonAny(anyTokens(m)); len(m.Any) == len(ref) {
				if df := diffLines(a, b); df != "" {
					t.Artifact("doc.xml", d)
					t.Fatal("mutant-tokens", "%s: tokens differ\n%s\n%s", what, df, d)
				}
			}
		default:
			t.Count("mutants_rejected_by_both", 1)
		}
	}
	end := bytes.LastIndex(doc, []byte("</"))
	for k := 0; k < 40; k++ { // truncations inside of the root
		p := t.R.Intn(len(doc))
		if end < 0 || p <= end+2 {
			one(doc[:p], fmt.Sprintf("cut at %d", p))
		}
	}
	for k := 0; k < 80; k++ {
		d := append([]byte(nil), doc...)
		for e := t.R.Range(1, 2); e > 0; e-- {
			p := t.R.Intn(len(d))
			switch t.R.Intn(4) {
			case 0:
				d = append(d[:p], d[p+1:]...)
			case 1:
				q := p + t.R.Intn(8)
				if q > len(d) {
					q = len(d)
				}
				d = append(d[:p:p], d[q:]...)
			case 2:
				d = append(d[:p:p], append([]byte(xmlBits[t.R.Intn(len(xmlBits))]), d[p:]...)...)
			default:
				d = append(d[:p:p], append([]byte(xmlBits[t.R.Intn(len(xmlBits))]), d[p+1:]...)...)
			}
			if len(d) == 0 {
				d = []byte(" ")
			}
		}
		one(d, "mutant")
	}
	for k := 0; k < 24; k++ { // tags that do not match
		one(tagMutant(t.R, doc))
	}
	t.Eval(n)
	t.Distinct(doc)
}

var (
	endTagRE   = regexp.MustCompile(`</[^<>"'=?]*>`)
	startTagRE = regexp.MustCompile(`<[A-Za-z][^<>/"'=?\s]*`)
)

// tagMutant changes a tag of a document: its name, its prefix or its place.
func tagMutant(r *Rand, doc []byte) ([]byte, string) {
	ends, starts := endTagRE.FindAllIndex(doc, -1), startTagRE.FindAllIndex(doc, -1)
	if len(ends) < 2 || len(starts) < 2 {
		return doc, "no tags"
	}
	cut := func(from, to int, by string) []byte {
		return []byte(string(doc[:from]) + by + string(doc[to:]))
	}
	a, b := ends[r.Intn(len(ends))], starts[1+r.Intn(len(starts)-1)]
	end, start := string(doc[a[0]+2:a[1]-1]), string(doc[b[0]+1:b[1]])
	rename := func(name string) string {
		i := strings.IndexByte(name, ':')
		prefix, local := "", name
		if i >= 0 {
			prefix, local = name[:i+1], name[i+1:]
		}
		switch r.Intn(7) {
		case 0:
			return local
		case 1:
			return "u0:" + local
		case 2:
			return r.Pick("u1:", "u2:", "zz:", "xml:", "n1:", "n2:") + local
		case 3:
			return prefix + local + "x"
		case 4:
			return prefix + strings.ToUpper(local)
		case 5:
			return prefix + local[:len(local)/2] + "q"
		default:
			o := starts[r.Intn(len(starts))]
			return string(doc[o[0]+1 : o[1]])
		}
	}
	switch r.Intn(8) {
	case 0:
		return cut(a[0], a[1], ""), "end tag removed"
	case 1:
		return cut(a[0], a[0], "</"+end+">"), "end tag repeated"
	case 2:
		o := ends[r.Intn(len(ends))]
		return cut(a[0], a[1], string(doc[o[0]:o[1]])), "end tag of another element"
	case 3, 4, 5:
		return cut(a[0], a[1], "</"+rename(end)+">"), "end tag renamed"
	default:
		return cut(b[0], b[1], "<"+rename(start)), "start tag renamed"
	}
}

// oddReference tells that a document uses names the two parsers split in
// different ways, or declarations the library does not read by design.
func oddReference(d []byte) bool {
	if bytes.Contains(d, []byte("<!")) {
		s := strings.ReplaceAll(strings.ReplaceAll(string(d), "<!--", ""), "<![CDATA[", "")
		if strings.Contains(s, "<!") {
			return true
		}
	}
	dec := xml.NewDecoder(bytes.NewReader(d))
	for {
		t, err := dec.RawToken()
		if err != nil {
			return false
		}
		odd := func(n xml.Name) bool {
			return strings.Contains(n.Local, ":") || strings.HasSuffix(n.Local, ":") || n.Local == ""
		}
		switch t := t.(type) {
		case xml.StartElement:
			if odd(t.Name) {
				return true
			}
			for _, a := range t.Attr {
				if odd(a.Name) {
					return true
				}
			}
		case xml.EndElement:
			if odd(t.Name) {
				return true
			}
		case xml.Directive:
			return true
		}
	}
}

// chunkReader returns data in pieces a decompressor may choose.
type chunkReader struct {
	r    io.Reader
	rnd  *Rand
	mode int
	buf  []byte
	eof  bool
	n    int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	c.n++
	if len(p) == 0 {
		return 0, nil
	}
	k := len(p)
	switch c.mode {
	case 0:
		k = 1
	case 1:
		k = c.rnd.Range(1, 7)
	case 2:
		k = c.rnd.Range(1, 5000)
	case 3:
		if c.rnd.P(1, 3) {
			return 0, nil // allowed, if discouraged
		}
	}
	if k > len(p) {
		k = len(p)
	}
	if c.mode == 4 { // the last bytes come together with io.EOF
		if !c.eof && c.buf == nil {
			c.buf, _ = io.ReadAll(c.r)
			c.eof = true
		}
		m := copy(p, c.buf)
		c.buf = c.buf[m:]
		if len(c.buf) == 0 {
			return m, io.EOF
		}
		return m, nil
	}
	return c.r.Read(p[:k])
}
func (c *chunkReader) Close() error { return nil }

func xmlChunks(t *T) {
	x, _ := xmlDoc(t.R, t.R.Range(1, 40), randStyle(t.R))
	doc := []byte(x)
	t.Artifact("doc.xml", doc)
	pkg := buildPackageMethod([]pkgRel{{"r0", relModel, "/3D/3dmodel.model"}},
		[]pkgPart{{name: "/3D/3dmodel.model", ct: ctModel, data: doc}}, hookedMethod)
	defer func(h func(io.Reader) io.ReadCloser) { readHook = h }(readHook)
	n := 0
	for mode := 0; mode < 5; mode++ {
		reads := 0
		readHook = func(r io.Reader) io.ReadCloser {
			return &countCloser{&chunkReader{r: r, rnd: t.R, mode: mode}, &reads}
		}
		m, err := decode(pkg, true)
		if err != nil {
			t.Fatal("chunk-error", "chunk mode %d: %v", mode, err)
		}
		compareDoc(t, doc, m)
		t.Count("reads", reads)
		n++
	}
	t.Eval(n)
	t.Distinct(doc)
}

func xmlLong(t *T, i int) {
	// many attributes, long names, long values, deep nesting
	var b strings.Builder
	b.WriteString(`<model xmlns="` + nsCore + `" xmlns:u="http://example.com/u">`)
	switch i % 5 {
	case 0:
		for k := 0; k < 30; k++ {
			b.WriteString("<u:e")
			n := t.R.Intn(90)
			for a := 0; a < n; a++ {
				fmt.Fprintf(&b, ` a%d="%s"`, a, strings.Repeat(string(rune('a'+a%26)), t.R.Intn(200)))
			}
			b.WriteString(">" + fmt.Sprint(k) + "</u:e>")
		}
	case 1:
		for k := 0; k < 40; k++ {
			name := strings.Repeat("n", k) + "é" + fmt.Sprint(t.R.Intn(5))
			fmt.Fprintf(&b, `<u:%s %s="%d">x%d</u:%s>`, name, name, k, k, name)
		}
	case 2:
		d := t.R.Range(50, 3000)
		for k := 0; k < d; k++ {
			fmt.Fprintf(&b, `<u:d%d v="%d">t`, k%7, k)
		}
		for k := d - 1; k >= 0; k-- {
			fmt.Fprintf(&b, `</u:d%d>`, k%7)
		}
	case 3:
		for k := 0; k < 6; k++ {
			fmt.Fprintf(&b, `<u:t a="%s">%s</u:t>`, strings.Repeat("0123456789", t.R.Range(1, 3000)), strings.Repeat("text &lt; é ", t.R.Range(1, 3000)))
		}
	default: // names whose first bytes agree, around the size of the name cache
		for k := 0; k < 200; k++ {
			n := "abcdefghijkl"[:t.R.Range(5, 11)] + fmt.Sprint(t.R.Intn(30))
			fmt.Fprintf(&b, `<u:%s %s="%d" %sq="2"/>`, n, n, k, n)
		}
	}
	b.WriteString("</model>")
	doc := []byte(b.String())
	t.Artifact("doc.xml", doc)
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc, m); err != nil {
		t.Fatal("rejects", "a well-formed document is rejected: %v", err)
	}
	compareDoc(t, doc, m)
	t.Max("document_bytes", len(doc))
	t.Distinct(doc)
}

type countCloser struct {
	io.Reader
	n *int
}

func (c *countCloser) Read(p []byte) (int, error) { *c.n++; return c.Reader.Read(p) }
func (c *countCloser) Close() error               { return nil }
