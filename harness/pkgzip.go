package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"strings"
)

// pkgPart is a part of a package built by hand, independently of the encoder.
type pkgPart struct {
	name string // absolute part name
	ct   string
	data []byte
	rels []pkgRel
}

type pkgRel struct{ id, typ, target string }

func escAttr(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '&':
			b.WriteString("&amp;")
		case '"':
			b.WriteString("&quot;")
		case '\n', '\r', '\t':
			fmt.Fprintf(&b, "&#x%X;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func relsXML(rels []pkgRel) []byte {
	var b bytes.Buffer
	b.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`)
	for i, r := range rels {
		id := r.id
		if id == "" {
			id = fmt.Sprintf("rel%d", i)
		}
		fmt.Fprintf(&b, `<Relationship Id="%s" Type="%s" Target="%s"/>`, escAttr(id), escAttr(r.typ), escAttr(r.target))
	}
	b.WriteString(`</Relationships>`)
	return b.Bytes()
}

// buildPackage writes an OPC package with the standard library only.
func buildPackage(rootRels []pkgRel, parts []pkgPart, store bool) []byte {
	method := zip.Deflate
	if store {
		method = zip.Store
	}
	return buildPackageMethod(rootRels, parts, method)
}

func buildPackageMethod(rootRels []pkgRel, parts []pkgPart, method uint16) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	put := func(name string, data []byte) {
		h := &zip.FileHeader{Name: name, Method: zip.Deflate}
		if strings.HasSuffix(name, ".model") || method != hookedMethod {
			h.Method = method
		}
		w, err := z.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		w.Write(data)
	}
	var ct bytes.Buffer
	ct.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n" + `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>`)
	for _, p := range parts {
		if p.ct != "" {
			fmt.Fprintf(&ct, `<Override PartName="%s" ContentType="%s"/>`, escAttr(p.name), escAttr(p.ct))
		}
	}
	ct.WriteString(`</Types>`)
	put("[Content_Types].xml", ct.Bytes())
	if rootRels != nil {
		put("_rels/.rels", relsXML(rootRels))
	}
	for _, p := range parts {
		put(strings.TrimPrefix(p.name, "/"), p.data)
		if p.rels != nil {
			i := strings.LastIndexByte(p.name, '/')
			put(strings.TrimPrefix(p.name[:i]+"/_rels"+p.name[i:]+".rels", "/"), relsXML(p.rels))
		}
	}
	z.Close()
	return buf.Bytes()
}

const (
	ctModel  = "application/vnd.ms-package.3dmanufacturing-3dmodel+xml"
	relModel = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
)

// singlePackage wraps one root model part.
func singlePackage(xml []byte) []byte {
	return buildPackage([]pkgRel{{"r0", relModel, "/3D/3dmodel.model"}},
		[]pkgPart{{name: "/3D/3dmodel.model", ct: ctModel, data: xml}}, false)
}

// multiPackage wraps a root part and its children.
func multiPackage(root []byte, childs map[string][]byte, store bool) []byte {
	parts := []pkgPart{{name: "/3D/3dmodel.model", ct: ctModel, data: root}}
	for _, k := range sortedStr(childs) {
		parts[0].rels = append(parts[0].rels, pkgRel{"", relModel, k})
		parts = append(parts, pkgPart{name: k, ct: ctModel, data: childs[k]})
	}
	return buildPackage([]pkgRel{{"r0", relModel, "/3D/3dmodel.model"}}, parts, store)
}

func sortedStr(m map[string][]byte) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// rootXML extracts a part of a package, for the replay file.
func rootXML(b []byte, name string) []byte {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil
	}
	for _, f := range z.File {
		if "/"+f.Name == name {
			r, err := f.Open()
			if err != nil {
				return nil
			}
			defer r.Close()
			x, _ := io.ReadAll(r)
			return x
		}
	}
	return nil
}

// zipEntries lists the entries of a package with their contents.
func zipEntries(b []byte) (map[string][]byte, error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		x, err := io.ReadAll(r)
		r.Close()
		if err != nil {
			return nil, err
		}
		out[f.Name] = x
	}
	return out, nil
}

// hookedMethod is a ZIP method of our own: the data is stored, and reading it
// goes through readHook, which decides how the bytes arrive.
const hookedMethod = 0x3d3f

var readHook = func(r io.Reader) io.ReadCloser { return io.NopCloser(r) }

type nopWriteCloser struct{ io.Writer }

func (nopWriteCloser) Close() error { return nil }

func init() {
	zip.RegisterDecompressor(hookedMethod, func(r io.Reader) io.ReadCloser { return readHook(r) })
	zip.RegisterCompressor(hookedMethod, func(w io.Writer) (io.WriteCloser, error) { return nopWriteCloser{w}, nil })
}
