package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/hpinc/go3mf"
)

func anyGen(r *Rand) genOpt {
	o := genOpt{Materials: r.Bool(), Slices: r.Bool(), Beams: r.Bool(), Production: r.Bool(), Unknown: r.P(1, 3)}
	o.Size = []int{2, 3, 4, 8}[r.Intn(4)]
	return o
}

func randStyle(r *Rand) style {
	st := style{noise: []int{0, 3, 10, 40}[r.Intn(4)]}
	if r.P(1, 3) {
		st.pad = r.Intn(4200)
	}
	return st
}

// serialize renders every part of a model with the independent writer.
func serialize(r *Rand, m *go3mf.Model, st style, noise int) (root []byte, childs map[string][]byte, exts []go3mf.Extension, seen map[string]int) {
	s := &ser{r: r}
	seen = map[string]int{}
	one := func(n *node) ([]byte, []go3mf.Extension) {
		if noise > 0 {
			seen["noise_nodes"] += s.noise(n, noise)
		}
		x, u, e := render(r, n, m.Extensions, st)
		for k, v := range u {
			seen[k] += v
		}
		return []byte(x), e
	}
	root, exts = one(s.model(m))
	childs = map[string][]byte{}
	for _, p := range sortedKeys(m.Childs) {
		childs[p], _ = one(s.child(m, p))
	}
	return
}

func init() {
	register(&Prop{ID: "C08", Level: "exploration", Rule: "one evaluation is one generated model written by an independent writer with a random spelling, decoded by the library and compared fact by fact; distinct_nontrivial counts distinct documents with more than 25 facts",
		Assumptions: []string{
			"the independent writer (harness/ser.go, harness/render.go) follows XML 1.0, Namespaces in XML and the 3MF attribute defaults",
			"the default name space is not declared again on vertex, triangle, tex2coord and segment elements, and unknown attributes of those are numbers: the library reads every attribute without prefix there as a number",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(5000, 150000); i++ {
				i := i
				c.Case("decode", func(t *T) { decodeCase(t, i) })
			}
		}})
}

func decodeCase(t *T, i int) {
	o := anyGen(t.R)
	o.Childs = t.R.P(1, 3)
	if i%401 == 0 {
		o.Size = 300
	}
	o.Wide = true
	decodeWritten(t, genModel(t.R, o))
}

// decodeWritten compares what a document says, whatever its spelling, with what is decoded.
func decodeWritten(t *T, m *go3mf.Model) *go3mf.Model {
	root, childs, exts, seen := serialize(t.R, m, randStyle(t.R), []int{0, 6, 30}[t.R.Intn(3)])
	want := *m
	want.Extensions = exts
	dump := expectedDump(&want, -1)
	t.Artifact("root.xml", root)
	for k, v := range childs {
		t.Artifact("child"+k, v)
	}
	var pkg []byte
	if len(childs) > 0 {
		pkg = multiPackage(root, childs, t.R.Bool())
	} else {
		pkg = singlePackage(root)
	}
	strict := t.R.P(3, 4)
	got, err := decode(pkg, strict)
	if err != nil {
		t.Fatal("decode-error", "a valid document does not decode (strict=%v): %v", strict, err)
	}
	gd := actualDump(got)
	if d := diffLines(dump, gd); d != "" {
		t.Fatal("decode:"+diffSig(dump, gd), "the decoded model is not what the document says\n%s", d)
	}
	if len(childs) == 0 {
		var g2 go3mf.Model
		if err := go3mf.UnmarshalModel(root, &g2); err != nil {
			t.Fatal("unmarshal-error", "UnmarshalModel: %v", err)
		}
		g2.Path = g2.PathOrDefault()
		gd = actualDump(&g2)
		if d := diffLines(dump, gd); d != "" {
			t.Fatal("unmarshal:"+diffSig(dump, gd), "UnmarshalModel is not what the document says\n%s", d)
		}
		t.Count("parts_unmarshaled", 1)
	}
	for k, v := range seen {
		t.Count("spelling_"+k, v)
	}
	t.Count("facts_compared", len(dump))
	t.Count("bytes_decoded", len(root))
	if bytes.IndexByte(root, 0) >= 0 {
		panic("NUL")
	}
	t.Sample("%s", root)
	if len(dump) > 25 {
		t.Distinct(root, fmt.Sprint(len(childs)), strings.Join(dump[:5], ""))
	}
	return got
}
