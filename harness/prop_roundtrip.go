package main

import (
	"github.com/hpinc/go3mf"
)

const rtRule = "one evaluation is one generated model taken through Encode and strict Decode (a third of them after being written by an independent writer and decoded) and compared fact by fact; distinct_nontrivial counts distinct models whose expected content has more than 25 facts"

var rtAssume = []string{
	"the generated models are in the domain the format can express (XML characters, finite coordinates up to 1e30, extension namespaces declared by the model, object PIndex and triangle P* only next to a PID)",
	"floats, transforms included, are compared after formatting at the encoder's FloatPrecision, which is the precision the encoder documents",
	"the ZIP and OPC layers (archive/zip, qmuntal/opc) are trusted to store bytes",
}

func precFor(r *Rand) int {
	switch r.Intn(8) {
	case 0:
		return -1
	case 1:
		return 6
	case 2:
		return 3
	case 3:
		return 9
	case 4:
		return []int{0, 0, 0, 1, 2, 5, 12}[r.Intn(7)]
	}
	return 4
}

func rtProp(id, what string, o func(r *Rand) genOpt, quick, thorough int, marshal bool) {
	register(&Prop{ID: id, Level: "exploration", Rule: rtRule, Assumptions: rtAssume, Run: func(c *Ctx) {
		for i := 0; i < c.N(quick, thorough); i++ {
			i := i
			c.Case("rt", func(t *T) {
				op := o(t.R)
				op.Wide = true
				op.Size = []int{2, 4, 4, 8, 20}[t.R.Intn(5)]
				if i%201 == 0 {
					op.Size = 400
				}
				m := genModel(t.R, op)
				prec := precFor(t.R)
				if op.Beams && prec >= 0 && prec < 4 { // small radii would be lost
					prec = 4
				}
				t.Sample("%s", sampleModel(m, prec))
				roundTrip(t, m, prec)
				if marshal {
					marshalTrip(t, m)
				}
			})
		}
		for k := 0; k < c.N(1, 12); k++ {
			for _, dim := range vastDims[id] {
				dim := dim
				c.Case("vast", func(t *T) { vastTrip(t, dim, marshal) })
			}
		}
		if id == "C02" { // what packages keep is not in the documents
			return
		}
		for i := 0; i < c.N(quick/2, thorough/4); i++ {
			c.Case("written", func(t *T) {
				op := o(t.R)
				op.Wide = true
				op.Size = []int{2, 3, 4, 8}[t.R.Intn(4)]
				m := decodeWritten(t, genModel(t.R, op))
				prec := precFor(t.R)
				if op.Beams && prec >= 0 && prec < 4 {
					prec = 4
				}
				roundTrip(t, m, prec)
			})
		}
	}})
}

func sampleModel(m *go3mf.Model, prec int) string {
	l := expectedDump(m, prec)
	s := ""
	for _, x := range l {
		s += x + "; "
		if len(s) > 800 {
			break
		}
	}
	return s
}

// others adds the other extensions now and then.
func others(r *Rand, o genOpt) genOpt {
	if r.P(1, 3) {
		o.Materials = o.Materials || r.P(1, 3)
		o.Slices = o.Slices || r.P(1, 3)
		o.Beams = o.Beams || r.P(1, 3)
		o.Production = o.Production || r.P(1, 3)
		o.Unknown = o.Unknown || r.P(1, 2)
	}
	return o
}

func init() {
	rtProp("C01", "core", func(r *Rand) genOpt { return genOpt{} }, 4000, 120000, true)
	rtProp("C02", "package", func(r *Rand) genOpt {
		return genOpt{Package: true, Childs: r.P(2, 3), Materials: r.Bool(), Production: r.Bool(), Plain: r.Bool()}
	}, 2500, 50000, false)
	rtProp("C03", "materials", func(r *Rand) genOpt { return others(r, genOpt{Materials: true}) }, 3500, 100000, true)
	rtProp("C04", "slices", func(r *Rand) genOpt { return others(r, genOpt{Slices: true}) }, 3000, 80000, true)
	rtProp("C05", "beams", func(r *Rand) genOpt { return others(r, genOpt{Beams: true}) }, 3000, 80000, true)
	rtProp("C06", "production", func(r *Rand) genOpt { return others(r, genOpt{Production: true, Childs: r.Bool()}) }, 3000, 60000, false)
	rtProp("C07", "unknown", func(r *Rand) genOpt {
		return genOpt{Unknown: true, Childs: r.Bool(), Beams: r.P(1, 4), Materials: r.P(1, 4)}
	}, 3000, 80000, true)
}
