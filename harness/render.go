package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/hpinc/go3mf"
)

// style says how freely a tree is spelled.
type style struct {
	canon    bool // one plain spelling
	noCoreNS bool // never bind a prefix to the core name space
	pad      int  // white space written after the XML declaration
	noise    int  // one in noise places gets a comment, a PI or white space
}

type scope struct {
	binds [][2]string // prefix, name space
	up    *scope
}

func (s *scope) lookup(prefix string) (string, bool) {
	for c := s; c != nil; c = c.up {
		for i := len(c.binds) - 1; i >= 0; i-- {
			if c.binds[i][0] == prefix {
				return c.binds[i][1], true
			}
		}
	}
	return "", false
}

// prefixes in scope for a name space.
func (s *scope) prefixes(ns string) []string {
	var out []string
	seen := map[string]bool{}
	for c := s; c != nil; c = c.up {
		for i := len(c.binds) - 1; i >= 0; i-- {
			b := c.binds[i]
			if !seen[b[0]] {
				seen[b[0]] = true
				if b[1] == ns {
					out = append(out, b[0])
				}
			}
		}
	}
	return out
}

type renderer struct {
	b   strings.Builder
	r   *Rand
	st  style
	uid int
	nl  bool
	// what was used, for the evidence
	seen map[string]int
}

// render writes the tree of a part. exts are the prefixes declared by the
// root element, in order. It returns the text and the declarations of the
// root element, in the order written.
func render(r *Rand, root *node, exts []go3mf.Extension, st style) (string, map[string]int, []go3mf.Extension) {
	w := &renderer{r: r, st: st, seen: map[string]int{}}
	if !st.canon {
		switch r.Intn(6) {
		case 0:
		case 1:
			w.b.WriteString("<?xml version='1.0' encoding='utf-8'?>")
		case 2:
			w.b.WriteString("<?xml version=\"1.0\"?>\r\n")
		case 3:
			w.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>")
		default:
			w.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
		}
	} else {
		w.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	w.b.WriteString(strings.Repeat(" ", st.pad))
	if st.pad > 0 {
		w.b.WriteString("\n")
	}
	w.misc(true)
	sc := &scope{binds: [][2]string{{"xml", nsXMLs}}}
	top := &scope{up: sc}
	declared := append([]go3mf.Extension(nil), exts...)
	for _, e := range exts {
		top.binds = append(top.binds, [2]string{e.LocalName, e.Namespace})
	}
	core := ""
	if !st.canon && !st.noCoreNS && r.P(1, 5) {
		core = r.Pick("c", "core", "_3mf")
		if _, ok := top.lookup(core); !ok {
			declared = append(declared, go3mf.Extension{Namespace: nsCore, LocalName: core})
			w.seen["core_prefixed"]++
		} else {
			core = ""
		}
	}
	top.binds = append(top.binds, [2]string{core, nsCore})
	w.element(root, top, top.binds)
	w.misc(false)
	return w.b.String(), w.seen, declared
}

func (w *renderer) space() {
	if w.st.canon || w.st.noise == 0 {
		return
	}
	if w.r.P(1, w.st.noise) {
		w.b.WriteString(w.r.Pick("\n", "\r\n", " ", "\t", "\n\n    "))
	}
}

// misc writes white space, comments and processing instructions.
func (w *renderer) misc(pi bool) {
	if w.st.canon || w.st.noise == 0 {
		return
	}
	if w.r.P(1, 2) {
		w.space()
	}
	if w.r.P(1, w.st.noise*3) {
		w.comment()
	}
	if pi && w.r.P(1, w.st.noise*4) {
		w.b.WriteString(w.r.Pick("<?pi some=\"data\" > < ?>", "<?x?>", "<?x ??>", "<?x a?b ? ????>", "<?x >?>", "<?php echo '<object/>' ?>"))
		w.seen["processing_instructions"]++
	}
	w.space()
}

func (w *renderer) comment() {
	w.b.WriteString(w.r.Pick("<!-- c -->", "<!---->", "<!-- <object id=\"1\"/> & - > -->", "<!--é\n]]>-->", "<!-- a - b -->"))
	w.seen["comments"]++
}

func (w *renderer) fresh() string {
	w.uid++
	return fmt.Sprintf("%s%d", w.r.Pick("ns", "_", "q-", "π"), w.uid)
}

func (w *renderer) element(n *node, sc *scope, rootBinds [][2]string) {
	var decls [][2]string
	cur := sc
	if rootBinds != nil {
		decls = append(decls, rootBinds...)
	} else {
		cur = &scope{up: sc}
	}
	bind := func(prefix, ns string) string {
		cur.binds = append(cur.binds, [2]string{prefix, ns})
		decls = append(decls, [2]string{prefix, ns})
		w.seen["nested_declarations"]++
		return prefix
	}
	bound := func(prefix string) bool {
		for _, d := range decls {
			if d[0] == prefix {
				return true
			}
		}
		return false
	}
	// prefix of the element
	prefix := ""
	ps := cur.prefixes(n.ns)
	redeclare := rootBinds == nil && !w.st.canon && w.r.P(1, 25)
	if len(ps) == 0 || redeclare {
		switch {
		case n.ns == "":
			if d, ok := cur.lookup(""); ok && d != "" {
				bind("", "")
			}
		case !n.numeric && w.r.Bool():
			prefix = bind("", n.ns)
		case !w.st.canon && len(ps) > 0 && ps[0] != "" && ps[0] != "xml" && w.r.Bool():
			prefix = bind(ps[0], n.ns)
		default:
			prefix = bind(w.fresh(), n.ns)
		}
	} else {
		prefix = ps[w.r.Intn(len(ps))]
		if w.st.canon {
			prefix = ps[0]
		}
	}
	name := n.name
	if prefix != "" {
		name = prefix + ":" + name
	}
	// attributes
	var as [][2]string
	for _, a := range n.attrs {
		an := a.name
		if a.ns != "" {
			var cand []string
			for _, p := range cur.prefixes(a.ns) {
				if p != "" {
					cand = append(cand, p)
				}
			}
			var p string
			if len(cand) == 0 {
				p = w.fresh()
				for bound(p) {
					p = w.fresh()
				}
				bind(p, a.ns)
			} else {
				p = cand[w.r.Intn(len(cand))]
			}
			an = p + ":" + an
		}
		as = append(as, [2]string{an, a.val})
	}
	// Declarations keep their order, the other attributes do not.
	if !w.st.canon {
		for i := range as {
			j := w.r.Intn(len(as))
			as[i], as[j] = as[j], as[i]
			n.attrs[i], n.attrs[j] = n.attrs[j], n.attrs[i] // the tree tells the order written
		}
	}
	for _, d := range decls {
		dn := "xmlns"
		if d[0] != "" {
			dn = "xmlns:" + d[0]
		}
		as = append(as, [2]string{dn, d[1]})
	}
	if !w.st.canon && len(decls) > 0 { // interleave, keeping the order of the declarations
		rest, dd := as[:len(as)-len(decls)], as[len(as)-len(decls):]
		var out [][2]string
		i, j := 0, 0
		for i < len(rest) || j < len(dd) {
			if i < len(rest) && (j >= len(dd) || w.r.Bool()) {
				out = append(out, rest[i])
				i++
			} else {
				out = append(out, dd[j])
				j++
			}
		}
		as = out
	}
	w.b.WriteString("<" + name)
	for _, a := range as {
		w.b.WriteString(w.attrSpace())
		w.b.WriteString(a[0])
		if !w.st.canon && w.r.P(1, 30) {
			w.b.WriteString(" ")
		}
		w.b.WriteString("=")
		if !w.st.canon && w.r.P(1, 30) {
			w.b.WriteString("\n")
		}
		q := byte('"')
		if !w.st.canon && w.r.P(1, 3) {
			q = '\''
			w.seen["single_quotes"]++
		}
		w.b.WriteByte(q)
		w.escape(a[1], q)
		w.b.WriteByte(q)
	}
	if !w.st.canon && w.r.P(1, 8) {
		w.b.WriteString(w.r.Pick(" ", "\n", "\t "))
	}
	if len(n.kids) == 0 && (w.st.canon || w.r.P(3, 4)) {
		w.b.WriteString("/>")
		w.seen["self_closing"]++
		return
	}
	w.b.WriteString(">")
	mixed := false
	for _, k := range n.kids {
		if k.isText {
			mixed = true
		}
	}
	textOnly := n.name == "metadata" || (mixed && n.foreign)
	for _, k := range n.kids {
		if !textOnly {
			w.misc(true)
		}
		if k.isText {
			w.text(k.text, n.foreign && n.holds)
			continue
		}
		w.element(k, cur, nil)
	}
	if !textOnly && len(n.kids) > 0 {
		w.misc(true)
	}
	w.b.WriteString("</" + name)
	if !w.st.canon && w.r.P(1, 20) {
		w.b.WriteString(" ")
	}
	w.b.WriteString(">")
}

func (w *renderer) attrSpace() string {
	if w.st.canon {
		return " "
	}
	return w.r.Pick(" ", " ", " ", " ", "  ", "\n", "\t", "\r\n")
}

func (w *renderer) ref(c rune) {
	w.seen["references"]++
	named := map[rune]string{'<': "&lt;", '>': "&gt;", '&': "&amp;", '"': "&quot;", '\'': "&apos;"}
	switch w.r.Intn(4) {
	case 0:
		fmt.Fprintf(&w.b, "&#%d;", c)
	case 1:
		fmt.Fprintf(&w.b, "&#x%x;", c)
	case 2:
		fmt.Fprintf(&w.b, "&#x0%X;", c)
	default:
		if n, ok := named[c]; ok {
			w.b.WriteString(n)
		} else {
			fmt.Fprintf(&w.b, "&#%d;", c)
		}
	}
}

// escape writes an attribute value.
func (w *renderer) escape(s string, q byte) {
	for _, c := range s {
		switch {
		case c == '<' || c == '&' || c == rune(q) || c == '\n' || c == '\r' || c == '\t':
			w.ref(c)
		case !w.st.canon && c != utf8.RuneError && w.r.P(1, 25):
			w.ref(c)
		default:
			w.b.WriteRune(c)
		}
	}
}

// text writes character data, in pieces of any kind. Text of foreign elements
// is not broken where a piece would be only white space.
func (w *renderer) text(s string, keepTogether bool) {
	if w.st.canon {
		w.raw(s)
		return
	}
	rs := []rune(s)
	for len(rs) > 0 {
		k := len(rs)
		if !keepTogether && w.r.P(1, 3) {
			k = w.r.Range(1, len(rs))
		}
		p := string(rs[:k])
		rs = rs[k:]
		if w.r.P(1, 4) && !strings.Contains(p, "]]>") && !strings.ContainsAny(p, "\r") {
			w.b.WriteString("<![CDATA[" + p + "]]>")
			w.seen["cdata_sections"]++
		} else {
			w.raw(p)
		}
		if len(rs) > 0 && w.r.P(1, 2) {
			w.comment()
		}
	}
}

func (w *renderer) raw(s string) {
	prev := ""
	for i, c := range s {
		switch {
		case c == '<' || c == '&' || c == '\r' || (c == '>' && (i < 2 || strings.HasSuffix(prev, "]]"))):
			w.ref(c)
		case !w.st.canon && c != utf8.RuneError && w.r.P(1, 25):
			w.ref(c)
		default:
			w.b.WriteRune(c)
		}
		prev += string(c)
		if len(prev) > 8 {
			prev = prev[len(prev)-4:]
		}
	}
}
