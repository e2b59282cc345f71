package main

import (
	"archive/zip"
	"bytes"
	"context"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"compress/flate"

	"github.com/hpinc/go3mf"
)

func init() {
	register(&Prop{ID: "C28", Level: "exploration",
		Rule: "one evaluation is one package, written by an independent writer, decoded and compared with the abstract package it was written from; distinct_nontrivial counts distinct combinations of the ways of writing targets, content types, names and ZIP entries that one package used",
		Assumptions: []string{
			"part names are escaped in the same way wherever they are written, and no two of them differ in letter case only",
			"one relationship of the package to a 3D model; no core properties part, which the OPC package of the dependencies keeps for itself",
			"a model keeps the target of a relationship as it was written or resolved to the part",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(15000, 300000); i++ {
				c.Case("layout", func(t *T) { layoutCase(t, false) })
			}
			for i := 0; i < c.N(20, 300); i++ {
				c.Case("many", func(t *T) { layoutCase(t, true) })
			}
		}})
}

// layPart is a part of an abstract package.
type layPart struct {
	name  string // absolute
	ct    string
	data  []byte
	rels  []layRel
	model bool
}

type layRel struct {
	id, typ string
	target  *layPart // nil if it is dangling
	raw     string   // as written
}

// layTarget writes a reference to a part from another one (or from the package, when it is "/").
func layTarget(t *T, from, to string, style map[string]bool) string {
	r := t.R
	pick := func(s string) { style["target-"+s] = true }
	flip := func(s string) string {
		if !r.P(1, 10) {
			return s
		}
		pick("case")
		b := []byte(s)
		for i := range b {
			if r.P(1, 3) {
				b[i] = bytes.ToUpper(b[i : i+1])[0]
			} else if r.Bool() {
				b[i] = bytes.ToLower(b[i : i+1])[0]
			}
		}
		return string(b)
	}
	switch r.Intn(8) {
	case 0: // relative with as many parents as needed
		dir := path.Dir(from)
		up := 0
		for dir != "/" && !strings.HasPrefix(to, dir+"/") {
			dir, up = path.Dir(dir), up+1
		}
		if up > 0 {
			pick("parent")
		} else {
			pick("relative")
		}
		return flip(strings.Repeat("../", up) + strings.TrimPrefix(to[len(dir):], "/"))
	case 1: // relative from the top
		pick("top")
		return flip(strings.Repeat("../", strings.Count(from, "/")-1) + to[1:])
	case 2: // this folder
		if d := path.Dir(from); d == "/" || strings.HasPrefix(to, d+"/") {
			pick("dot")
			return flip("./" + strings.TrimPrefix(to[len(d):], "/"))
		}
	case 3: // absolute with dot segments
		pick("absolute-dots")
		i := r.Intn(strings.Count(to, "/"))
		j := -1
		for k := 0; k <= i; k++ {
			j += 1 + strings.IndexByte(to[j+1:], '/')
		}
		return flip(to[:j] + r.Pick("/.", "/x/..", "/x/y/../..") + to[j:])
	}
	pick("absolute")
	return flip(to)
}

func layName(r *Rand, ext string, used map[string]bool) string {
	for {
		n := ""
		for d := r.Intn(4); d > 0; d-- {
			n += "/" + r.Pick("3D", "Metadata", "a", "b", "Textures", "x.y", "0", "very-long_folder~name")
		}
		n += "/" + r.Pick("3dmodel", "a", "b", "c", "part", "thumbnail", "m.n", "_", "0", "rels", "Content_Types", "a%20b", "a(1)", "a+b", "a@b,c;d", "%C3%A9", "a=b&c", "x!$'*:") + fmt.Sprint(r.Intn(100)) + ext
		if r.P(1, 20) {
			n = "/" + strings.Repeat("d/", r.Range(5, 60)) + n[1:]
		}
		if k := strings.ToUpper(n); !used[k] {
			used[k] = true
			return n
		}
	}
}

const (
	layNS      = "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"
	layNSP     = "http://schemas.microsoft.com/3dmanufacturing/production/2015/06"
	relThumb   = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
	relTicket  = "http://schemas.microsoft.com/3dmanufacturing/2013/01/printticket"
	relTexture = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dtexture"
	relMust    = "http://schemas.openxmlformats.org/package/2006/relationships/mustpreserve"
)

// nearRel returns a relationship type that has much in common with one of the known ones.
func nearRel(r *Rand) string {
	k := r.Pick(relModel, relModel, relModel, relThumb, relTicket, relTexture, relMust)
	switch r.Intn(4) {
	case 0:
		return k + r.Pick("s", "/x", "2", "#a", "-texture")
	case 1:
		return k[:len(k)-1]
	case 2:
		return strings.Replace(k, "20", "21", 1)
	}
	return "http://x/?" + k
}

// layPackage is an abstract package and the bytes it was written as.
type layPackage struct {
	pkg, root         *layPart
	childs, all, atts []*layPart
	ids               map[*layPart]uint32
	style             map[string]bool
	data              []byte
}

func layoutGen(t *T, many bool) *layPackage {
	r := t.R
	used := map[string]bool{}
	style := map[string]bool{}
	types := []string{"image/png", "image/jpeg", "application/vnd.ms-printing.printticket+xml", "application/octet-stream", "text/plain; charset=utf-8", "x/y", "text/plain; charset=UTF-8; title=AbC"}

	root := &layPart{name: layName(r, r.Pick(".model", ".model", ".MODEL", ".xml"), used), ct: ctModel, model: true}
	if r.Bool() {
		root.name = "/3D/3dmodel.model"
		used[strings.ToUpper(root.name)] = true
	}
	nChild, nAtt := r.Intn(5), r.Intn(6)
	if many {
		nChild, nAtt = r.Range(20, 150), r.Range(50, 300)
	}
	var childs, atts []*layPart
	for i := 0; i < nChild; i++ {
		childs = append(childs, &layPart{name: layName(r, r.Pick(".model", ".model", ".Model", ""), used), ct: ctModel, model: true})
	}
	for i := 0; i < nAtt; i++ {
		data := r.Bytes(r.Intn(2000))
		if r.P(1, 20) {
			data = bytes.Repeat(r.Bytes(10), 20000)
		}
		atts = append(atts, &layPart{name: layName(r, r.Pick(".png", ".png", ".jpg", ".xml", ".bin", "", ".rel"), used), ct: types[r.Intn(len(types))], data: data})
	}
	// Relationships.
	pkg := &layPart{name: "/"}
	addRel := func(from *layPart, typ string, to *layPart) {
		rel := layRel{id: fmt.Sprintf(r.Pick("rel%d", "rId%d", "R_%d"), len(from.rels)), typ: typ, target: to}
		if to == nil {
			rel.raw = r.Pick("/missing/part.bin", "missing.bin", "../missing.bin", "/3D/", "..")
			style["dangling"] = true
		} else {
			rel.raw = layTarget(t, from.name, to.name, style)
		}
		from.rels = append(from.rels, rel)
	}
	someType := func() string { return r.Pick(relThumb, relTicket, relTexture, relMust, "http://x/y", "z", nearRel(r)) }
	addAtts := func(from *layPart, n int) {
		for ; n > 0 && len(atts) > 0; n-- {
			addRel(from, someType(), atts[r.Intn(len(atts))])
		}
		if r.P(1, 12) { // a model part with a relationship of another type
			style["to-model"] = true
			to := root
			if len(childs) > 0 && r.P(2, 3) {
				to = childs[r.Intn(len(childs))]
			}
			addRel(from, someType(), to)
		}
		if r.P(1, 8) {
			addRel(from, someType(), nil)
		}
	}
	addAtts(pkg, r.Intn(3))
	addRel(pkg, relModel, root)
	if r.P(1, 20) { // the start part twice
		style["start-twice"] = true
		addRel(pkg, relModel, root)
	}
	addAtts(pkg, r.Intn(3))
	for _, c := range childs {
		if r.P(1, 4) {
			addAtts(root, 1)
		}
		addRel(root, relModel, c)
		if r.P(1, 10) { // twice
			addRel(root, relModel, c)
		}
		if r.P(1, 3) {
			addAtts(c, r.Range(1, 3))
		}
		if r.P(1, 8) { // between children
			addRel(c, relModel, childs[r.Intn(len(childs))])
		}
	}
	if r.P(1, 10) {
		addRel(root, relModel, root)
	}
	addAtts(root, r.Intn(4))
	if r.P(1, 6) {
		i := r.Intn(len(pkg.rels) + 1)
		pkg.rels = append(pkg.rels[:i:i], append([]layRel{{id: "ext", typ: "http://x/ext", raw: "http://example.com/a.bin"}}, pkg.rels[i:]...)...)
		style["external"] = true
	}

	// Contents.
	ids := map[*layPart]uint32{}
	doc := func(p *layPart) []byte {
		ids[p] = uint32(r.Range(1, 1000))
		s := fmt.Sprintf(`<model xmlns=%q xmlns:p=%q><resources><object id="%d" name="%s"><mesh><vertices><vertex x="%d" y="1" z="2"/></vertices></mesh></object></resources>`, layNS, layNSP, ids[p], escAttr(p.name), r.Intn(50))
		if p == root {
			s += `<build>`
			for _, c := range childs {
				s += fmt.Sprintf(`<item objectid="%d" p:path="%s"/>`, ids[c], escAttr(c.name))
			}
			s += `</build>`
		} else {
			s += `<build/>`
		}
		return []byte(s + `</model>`)
	}
	for _, c := range childs {
		c.data = doc(c)
	}
	root.data = doc(root)
	all := append([]*layPart{root}, childs...)
	all = append(all, atts...)
	if r.P(1, 5) { // a part that nothing references
		all = append(all, &layPart{name: layName(r, ".model", used), ct: ctModel, data: []byte("<nothing")})
		style["orphan"] = true
	}
	data := layWrite(t, pkg, all, style)
	t.Artifact("package.3mf", data)
	for k := range style {
		t.Count(k, 1)
	}

	return &layPackage{pkg, root, childs, all, atts, ids, style, data}
}

func layoutCase(t *T, many bool) {
	r := t.R
	g := layoutGen(t, many)
	pkg, root, childs, all, ids, style, data := g.pkg, g.root, g.childs, g.all, g.ids, g.style, g.data
	m := new(go3mf.Model)
	var err error
	if r.P(1, 10) {
		style["file"] = true
		dir, e := os.MkdirTemp("", "verif-layout")
		if e != nil {
			panic(e)
		}
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "a.3mf")
		if e := os.WriteFile(fn, data, 0o600); e != nil {
			panic(e)
		}
		rd, e := go3mf.OpenReader(fn)
		if e != nil {
			t.Fatal("open", "OpenReader: %v", e)
		}
		err = rd.DecodeContext(context.Background(), m)
		if e := rd.Close(); e != nil {
			t.Fatal("close", "Close: %v", e)
		}
	} else {
		d := go3mf.NewDecoder(bytes.NewReader(data), int64(len(data)))
		d.Strict = r.Bool()
		err = d.Decode(m)
		if err == nil && r.P(1, 6) { // the same decoder again
			style["again"] = true
			m = new(go3mf.Model)
			err = d.Decode(m)
		}
	}
	t.Eval(1)
	var keys []string
	for k := range style {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	t.Distinct(strings.Join(keys, " "))
	if err != nil {
		t.Fatal("refused", "the package is refused: %v", err)
	}

	// Compare.
	if m.Path != root.name {
		t.Fatal("root", "the root model is %q instead of %q", m.Path, root.name)
	}
	checkDoc := func(p *layPart, rs *go3mf.Resources) {
		if len(rs.Objects) != 1 || rs.Objects[0].Name != p.name || rs.Objects[0].ID != ids[p] || rs.Objects[0].Mesh == nil || len(rs.Objects[0].Mesh.Vertices.Vertex) != 1 {
			t.Fatal("content", "the content of %s is not that of the part: %d objects", p.name, len(rs.Objects))
		}
	}
	checkDoc(root, &m.Resources)
	if len(m.Childs) != len(childs) {
		t.Fatal("children", "%d child models instead of %d", len(m.Childs), len(childs))
	}
	if len(m.Build.Items) != len(childs) {
		t.Fatal("items", "%d items instead of %d", len(m.Build.Items), len(childs))
	}
	for i, c := range childs {
		child := m.Childs[c.name]
		if child == nil {
			t.Fatal("children", "the child model %s is missing", c.name)
		}
		checkDoc(c, &child.Resources)
		it := m.Build.Items[i]
		if o, ok := m.FindObject(it.ObjectPath(), it.ObjectID); !ok || o.Name != c.name {
			t.Fatal("items", "the object of the item %d is not found in %s", i, c.name)
		}
		layCheckRels(t, "child "+c.name, c, child.Relationships)
	}
	layCheckRels(t, "package", pkg, m.RootRelationships)
	layCheckRels(t, "root model", root, m.Relationships)
	want := map[*layPart]bool{}
	for _, p := range append([]*layPart{pkg, root}, childs...) {
		for _, rel := range p.rels {
			if rel.target != nil && rel.typ != relModel && !rel.target.model {
				want[rel.target] = true
			}
		}
	}
	got := map[string]*go3mf.Attachment{}
	for i := range m.Attachments {
		a := &m.Attachments[i]
		if got[a.Path] != nil {
			t.Fatal("attachments", "the attachment %s is twice", a.Path)
		}
		got[a.Path] = a
	}
	if len(got) != len(want) {
		t.Fatal("attachments", "%d attachments instead of %d", len(got), len(want))
	}
	for p := range want {
		a := got[p.name]
		if a == nil {
			t.Fatal("attachments", "the attachment %s is missing", p.name)
		}
		b, err := io.ReadAll(a.Stream)
		if err != nil || !bytes.Equal(b, p.data) {
			t.Fatal("attachments", "the attachment %s has other content (%d bytes instead of %d), %v", p.name, len(b), len(p.data), err)
		}
		if a.ContentType != p.ct {
			t.Fatal("content-type", "the attachment %s has the content type %q instead of %q", p.name, a.ContentType, p.ct)
		}
	}
	t.Count("parts", len(all))
	t.Count("attachments-compared", len(want))
	t.Count("children-compared", len(childs))
	t.Sample("%d parts: %s", len(all), strings.Join(keys, " "))
}

// layCheckRels compares the relationships of a part that are not to a model.
func layCheckRels(t *T, what string, p *layPart, got []go3mf.Relationship) {
	var want []layRel
	for _, rel := range p.rels {
		if rel.target != nil && rel.typ != relModel {
			want = append(want, rel)
		}
	}
	if len(got) != len(want) {
		t.Fatal("relationships", "%s: %d relationships instead of %d: %v", what, len(got), len(want), got)
	}
	for i, w := range want {
		g := got[i]
		if g.ID != w.id || g.Type != w.typ || (g.Path != w.raw && !strings.EqualFold(g.Path, w.target.name)) {
			t.Fatal("relationships", "%s: the relationship %d is %v instead of {%s %s %s}", what, i, g, w.id, w.typ, w.raw)
		}
	}
}

// layWrite writes the package in any of the ways that OPC and ZIP allow.
func layWrite(t *T, pkg *layPart, parts []*layPart, style map[string]bool) []byte {
	r := t.R
	type entry struct {
		name string
		data []byte
	}
	flip := func(s string) string {
		if !r.P(1, 6) {
			return s
		}
		style["name-case"] = true
		if r.Bool() {
			return strings.ToUpper(s)
		}
		return strings.ToLower(s)
	}
	// Content types: a default for some extensions, an override for the others.
	defaults := map[string]string{}
	for _, p := range parts {
		ext := strings.ToLower(strings.TrimPrefix(path.Ext(p.name), "."))
		if _, ok := defaults[ext]; !ok && ext != "" {
			if r.Bool() {
				defaults[ext] = p.ct
			} else {
				defaults[ext] = ""
			}
		}
	}
	var ct []string
	el := func(name string, attrs ...string) string {
		if r.P(1, 4) {
			style["attr-order"] = true
			attrs[0], attrs[1], attrs[2], attrs[3] = attrs[2], attrs[3], attrs[0], attrs[1]
		}
		s := "<" + name
		for i := 0; i < len(attrs); i += 2 {
			q := r.Pick(`"`, `"`, `'`)
			v := strings.ReplaceAll(escAttr(attrs[i+1]), "'", "&apos;")
			if r.P(1, 20) && len(v) > 0 && v[0] < 0x80 && v[0] != '&' {
				style["char-ref"] = true
				v = fmt.Sprintf("&#%d;", v[0]) + v[1:]
			}
			s += r.Pick(" ", " ", "\n\t") + attrs[i] + r.Pick("=", "=", " = ") + q + v + q
		}
		if r.P(1, 4) {
			return s + "></" + name + ">"
		}
		return s + "/>"
	}
	for ext, c := range defaults {
		if c != "" {
			style["default"] = true
			ct = append(ct, el("Default", "Extension", flip(ext), "ContentType", c))
		}
	}
	ct = append(ct, el("Default", "Extension", r.Pick("rels", "rels", "RELS"), "ContentType", "application/vnd.openxmlformats-package.relationships+xml"))
	for _, p := range parts {
		ext := strings.ToLower(strings.TrimPrefix(path.Ext(p.name), "."))
		if ext != "" && defaults[ext] == p.ct && r.P(9, 10) {
			continue
		}
		style["override"] = true
		ct = append(ct, el("Override", "PartName", flip(p.name), "ContentType", p.ct))
	}
	sort.Strings(ct)
	shuffled := make([]string, len(ct))
	for i, j := range r.Perm(len(ct)) {
		shuffled[j] = ct[i]
	}
	wrap := func(name, ns string, children []string) []byte {
		s := r.Pick("", `<?xml version="1.0" encoding="UTF-8"?>`, `<?xml version="1.0" encoding="utf-8" standalone="yes"?>`+"\r\n", "\ufeff"+`<?xml version="1.0"?>`)
		if r.P(1, 5) {
			s += "<!-- written by hand -->\n"
		}
		sep := r.Pick("", "", "\n  ", "<!-- - -->")
		if r.P(1, 5) { // prefixed
			style["prefixed-xml"] = true
			x := "q"
			for i, c := range children {
				c = strings.Replace(c, "</", "</"+x+":", 1)
				children[i] = "<" + x + ":" + c[1:]
			}
			s += "<" + x + ":" + name + " xmlns:" + x + `="` + ns + `">` + sep + strings.Join(children, sep) + "</" + x + ":" + name + ">"
			return []byte(s)
		}
		s += "<" + name + ` xmlns="` + ns + `">` + sep + strings.Join(children, sep) + "</" + name + ">"
		return []byte(s)
	}
	entries := []entry{{"[Content_Types].xml", wrap("Types", "http://schemas.openxmlformats.org/package/2006/content-types", shuffled)}}
	relEntry := func(name string, rels []layRel) {
		var cs []string
		for _, rel := range rels {
			attrs := []string{"Id", rel.id, "Type", rel.typ, "Target", rel.raw}
			if rel.id == "ext" {
				attrs = append(attrs, "TargetMode", "External")
			} else if r.P(1, 10) {
				attrs = append(attrs, "TargetMode", "Internal")
			}
			cs = append(cs, el("Relationship", attrs...))
		}
		entries = append(entries, entry{name, wrap("Relationships", "http://schemas.openxmlformats.org/package/2006/relationships", cs)})
	}
	relEntry("_rels/.rels", pkg.rels)
	for _, p := range parts {
		entries = append(entries, entry{p.name[1:], p.data})
		if len(p.rels) > 0 || r.P(1, 20) {
			i := strings.LastIndexByte(p.name, '/')
			relEntry(flip(p.name[1:i+1])+r.Pick("_rels", "_rels", "_rels", "_Rels")+flip(p.name[i:])+r.Pick(".rels", ".rels", ".RELS"), p.rels)
		}
	}
	if r.P(1, 6) {
		style["folders"] = true
		seen := map[string]bool{}
		for _, e := range append([]entry(nil), entries...) {
			if i := strings.IndexByte(e.name, '/'); i > 0 && !seen[e.name[:i]] {
				seen[e.name[:i]] = true
				entries = append(entries, entry{e.name[:i+1], nil})
			}
		}
	}
	if r.P(1, 2) {
		style["order"] = true
		out := make([]entry, len(entries))
		for i, j := range r.Perm(len(entries)) {
			out[j] = entries[i]
		}
		entries = out
	}
	var b bytes.Buffer
	if r.P(1, 20) {
		style["prefix-bytes"] = true
		b.Write(r.Bytes(r.Range(1, 200)))
	}
	z := zip.NewWriter(&b)
	z.SetOffset(int64(b.Len()))
	for _, e := range entries {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		if r.P(1, 3) || strings.HasSuffix(e.name, "/") {
			style["stored"] = true
			h.Method = zip.Store
		}
		if r.P(1, 10) {
			style["extra"] = true
			h.Extra = []byte{0xfe, 0xca, 2, 0, 1, 2}
			h.Comment = "a comment"
		}
		var w io.Writer
		var err error
		if r.P(1, 3) { // sizes in the local header instead of after the data
			style["no-descriptor"] = true
			h.CRC32 = crc32.ChecksumIEEE(e.data)
			h.UncompressedSize64 = uint64(len(e.data))
			raw := e.data
			if h.Method == zip.Deflate {
				var c bytes.Buffer
				f, _ := flate.NewWriter(&c, r.Range(0, 9))
				f.Write(e.data)
				f.Close()
				raw = c.Bytes()
			}
			h.CompressedSize64 = uint64(len(raw))
			w, err = z.CreateRaw(h)
			if err == nil {
				_, err = w.Write(raw)
			}
		} else {
			w, err = z.CreateHeader(h)
			if err == nil && len(e.data) > 0 {
				_, err = w.Write(e.data)
			}
		}
		if err != nil {
			panic(err)
		}
	}
	if r.P(1, 10) {
		z.SetComment("3MF")
	}
	if err := z.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}
