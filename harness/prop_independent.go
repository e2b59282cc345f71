package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/importer/stl"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
)

func init() {
	register(&Prop{ID: "C29", Race: true, Level: "exploration", Rule: "one evaluation is one operation (encode and decode, decode, unmarshal, marshal, validate, import of STL, mesh building, look ups, refused or cancelled or failing calls, errors) on a model of its own, run at the same time as others on other models, after others, or as the first of its process, and compared with its result alone; distinct_nontrivial counts distinct mixes of operations",
		Assumptions: []string{
			"ValidateCoherency promises no order of the errors of different objects",
			"the schedules are those the Go scheduler produces under the race detector, with GOMAXPROCS from 1 to 8 and readers that yield",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(320, 8000); i++ {
				c.Case("concurrent", independentConcurrent)
			}
			for i := 0; i < c.N(160, 4000); i++ {
				c.Case("sequential", independentSequential)
			}
			for i := 0; i < c.N(56, 1400); i++ {
				c.Case("cold", independentCold)
			}
		}})
}

// indJob is an operation on things of its own. Every run of it starts from a
// copy of the same input.
type indJob struct {
	kind string
	run  func() string
}

// yieldReader lets others run between its reads.
type yieldReader struct {
	b    []byte
	step int
}

func (y *yieldReader) ReadAt(p []byte, off int64) (int, error) {
	runtime.Gosched()
	return bytes.NewReader(y.b).ReadAt(p, off)
}

func (y *yieldReader) Read(p []byte) (int, error) {
	runtime.Gosched()
	n := y.step
	if n > len(p) {
		n = len(p)
	}
	n, err := bytes.NewReader(y.b).Read(p[:n])
	y.b = y.b[n:]
	return n, err
}

type yieldWriter struct{ bytes.Buffer }

func (y *yieldWriter) Write(p []byte) (int, error) {
	runtime.Gosched()
	return y.Buffer.Write(p)
}

// ownAttachments gives the model attachments no other model has.
func ownAttachments(r *Rand, m *go3mf.Model) {
	for k := r.Intn(4); k > 0; k-- {
		b := r.Bytes([]int{1, 100, 5000, 33000, 120000}[r.Intn(5)])
		p := fmt.Sprintf("/Own/a%d.bin", k)
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: p, ContentType: "application/octet-stream", Stream: bytes.NewReader(b)})
		m.Relationships = append(m.Relationships, go3mf.Relationship{Path: p, Type: go3mf.RelTypePrintTicket})
	}
}

func packageText(m *go3mf.Model) string {
	var b strings.Builder
	b.WriteString(strings.Join(actualDump(m), "\n"))
	att := attachmentData(m)
	var ks []string
	for k := range att {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "\n%s %s %d %x", att[k].path, att[k].ct, len(att[k].data), hashOf(string(att[k].data)))
	}
	return b.String()
}

var indKinds = []string{"roundtrip", "decode", "unmarshal", "marshal", "validate", "stl", "build", "lookup", "broken", "failing-write", "cancelled", "text", "errors"}

func newIndJob(r *Rand, kind string) indJob {
	o := anyGen(r)
	o.Size = []int{2, 3, 4}[r.Intn(3)]
	j := indJob{kind: kind}
	switch kind {
	case "roundtrip":
		o.Package, o.Childs = r.Bool(), r.Bool()
		m := genModel(r, o)
		ownAttachments(r, m)
		atts := attachmentData(m)
		prec := []int{4, 4, 2, -1, 7}[r.Intn(5)]
		strict := r.Bool()
		j.run = func() string {
			c := ownStreams(cloneModel(m), atts)
			want := expectedDump(c, prec)
			var w yieldWriter
			e := go3mf.NewEncoder(&w)
			e.FloatPrecision = prec
			if err := e.Encode(c); err != nil {
				return "error " + err.Error()
			}
			d := go3mf.NewDecoder(&yieldReader{b: w.Bytes()}, int64(w.Len()))
			d.Strict = strict
			got := new(go3mf.Model)
			if err := d.Decode(got); err != nil {
				return "error " + err.Error()
			}
			if d := diffLines(want, actualDump(got)); d != "" {
				return "not the model that was encoded\n" + d
			}
			sig, msg := comparePackage(m, atts, got)
			return strings.TrimSpace(sig + " " + msg)
		}
	case "decode", "cancelled", "broken":
		o.Package, o.Childs = true, r.P(2, 3)
		m := genModel(r, o)
		ownAttachments(r, m)
		pkg, err := encode(m, 4)
		if err != nil {
			panic("encode: " + err.Error())
		}
		broken := append([]byte(nil), pkg...)
		if kind == "broken" {
			if r.Bool() {
				broken = broken[:r.Intn(len(broken))]
			} else {
				broken = singlePackage([]byte(`<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" unit="furlong"><resources><object id="x"/></resources>` + r.Pick("<build/></model>", "<build>", "")))
			}
		}
		strict := r.Bool()
		j.run = func() string {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			if kind == "cancelled" {
				cancel()
			}
			d := go3mf.NewDecoder(&yieldReader{b: broken}, int64(len(broken)))
			d.Strict = strict
			got := new(go3mf.Model)
			err := d.DecodeContext(ctx, got)
			switch {
			case kind == "cancelled":
				return fmt.Sprint(errors.Is(err, context.Canceled))
			case err != nil:
				return "error " + err.Error()
			}
			return packageText(got)
		}
	case "unmarshal":
		m := genModel(r, o)
		s := &ser{r: r}
		root := s.model(m)
		s.noise(root, 6)
		if r.Bool() {
			faults := plant(r, root)
			for i := range faults {
				faults[i].spoil(r)
			}
		}
		x, _, _ := render(r, root, m.Extensions, randStyle(r))
		j.run = func() string {
			got := new(go3mf.Model)
			err := go3mf.UnmarshalModel([]byte(x), got)
			return errText(err) + "\n" + strings.Join(actualDump(got), "\n")
		}
	case "marshal":
		m := genModel(r, o)
		j.run = func() string {
			b, err := go3mf.MarshalModel(cloneModel(m))
			return errText(err) + "\n" + string(b)
		}
	case "validate":
		o.Childs, o.Package = r.Bool(), r.Bool()
		m := genModel(r, o)
		if r.P(2, 3) {
			corruptModel(r, m, r.Range(1, 12))
		}
		j.run = func() string {
			c := cloneModel(m)
			return errText(c.Validate()) + "\n" + sortedErrText(c.ValidateCoherency())
		}
	case "stl":
		fs := genFacets(r, r.Range(1, 40))
		data := writeBinarySTL(r, fs)
		if r.Bool() {
			data, fs = writeASCIISTL(r, fs)
		}
		if r.P(1, 5) {
			data = data[:r.Intn(len(data))]
		}
		step := []int{1, 7, 100, 5000}[r.Intn(4)]
		j.run = func() string {
			m := new(go3mf.Model)
			err := stl.NewDecoder(&yieldReader{b: data, step: step}).Decode(m)
			return errText(err) + "\n" + strings.Join(actualDump(m), "\n")
		}
	case "build":
		var ps []go3mf.Point3D
		for k := r.Range(1, 60); k > 0; k-- {
			if len(ps) > 0 && r.P(1, 3) {
				ps = append(ps, ps[r.Intn(len(ps))])
			} else {
				ps = append(ps, go3mf.Point3D{stlCoord(r, 0), stlCoord(r, 1), stlCoord(r, 2)})
			}
		}
		j.run = func() string {
			mesh := new(go3mf.Mesh)
			mb := go3mf.NewMeshBuilder(mesh)
			var b strings.Builder
			for i, p := range ps {
				fmt.Fprintln(&b, mb.AddVertex(p))
				if i%16 == 0 {
					runtime.Gosched()
				}
			}
			fmt.Fprint(&b, mesh.Vertices.Vertex, mesh.BoundingBox())
			return b.String()
		}
	case "lookup":
		o.Childs, o.Package = r.Bool(), r.Bool()
		m := genModel(r, o)
		ops := readOps(attachmentData(m))
		j.run = func() string {
			c := cloneModel(m)
			var b strings.Builder
			for _, op := range ops {
				switch op.name {
				case "box", "mesh-box", "walk-assets", "find", "unused":
					fmt.Fprintln(&b, op.fn(c, 0))
				}
			}
			return b.String()
		}
	case "failing-write":
		m := genModel(r, o)
		ownAttachments(r, m)
		atts := attachmentData(m)
		pkg, err := encode(m, 4)
		if err != nil {
			panic("encode: " + err.Error())
		}
		at := r.Intn(len(pkg)/2 + 1)
		fault := fmt.Errorf("fault %x", r.U64())
		j.run = func() string {
			err := go3mf.NewEncoder(&faultyWriter{at: at, mode: "permanent", err: fault}).Encode(ownStreams(cloneModel(m), atts))
			return fmt.Sprint(blames(err, fault))
		}
	case "text":
		var in []string
		for k := r.Range(4, 30); k > 0; k-- {
			in = append(in, r.Pick("#", "", " ")+fmt.Sprintf("%0*x", r.Range(0, 9), r.U64()>>uint(r.Intn(64))), fmt.Sprint(math.Float32frombits(r.U32())), r.Pick("1 0 0 0 1 0 0 0 1 0 0 0", "1 2 3", ""), formatUUID(r))
		}
		j.run = func() string {
			var b strings.Builder
			for i, s := range in {
				c, err := spec.ParseRGBA(s)
				fmt.Fprintln(&b, c, err)
				mx, ok := spec.ParseMatrix(s)
				fmt.Fprintln(&b, mx, ok, uuid.Validate(s))
				fmt.Fprintln(&b, spec.FormatRGBA(c), go3mf.Matrix{0: float32(i), 5: 1, 10: 1.5, 15: 1}.String())
				if i%8 == 0 {
					runtime.Gosched()
				}
			}
			return b.String()
		}
	case "errors":
		n := r.Range(1, 30)
		seed := r.U64()
		j.run = func() string {
			q := newRand("errors", seed, 0)
			var err error
			for i := 0; i < n; i++ {
				var e error
				switch q.Intn(4) {
				case 0:
					e = specerr.NewMissingFieldError(fmt.Sprint("f", q.Intn(9)))
				case 1:
					e = specerr.NewParseAttrError(fmt.Sprint("a", q.Intn(9)), q.Bool())
				case 2:
					e = specerr.Append(errors.New("one"), errors.New("two"))
				default:
					e = fmt.Errorf("other %d", q.Intn(9))
				}
				for k := q.Intn(4); k > 0; k-- {
					if q.Bool() {
						e = specerr.Wrap(e, fmt.Sprint("level", k))
					} else {
						e = specerr.WrapIndex(e, fmt.Sprint("level", k), q.Intn(100))
					}
					runtime.Gosched()
				}
				err = specerr.Append(err, e)
			}
			return err.Error()
		}
	default:
		panic(kind)
	}
	return j
}

func formatUUID(r *Rand) string {
	x := fmt.Sprintf("%016x%016x", r.U64(), r.U64())
	return x[:8] + "-" + x[8:12] + "-" + x[12:16] + "-" + x[16:20] + "-" + x[20:32]
}

// newIndJobs makes jobs of several kinds, or of one.
func newIndJobs(r *Rand) []indJob {
	n := r.Range(2, 8)
	one := ""
	if r.P(1, 3) {
		one = indKinds[r.Intn(len(indKinds))]
	}
	var out []indJob
	for i := 0; i < n; i++ {
		k := one
		if k == "" {
			k = indKinds[r.Intn(len(indKinds))]
		}
		out = append(out, newIndJob(r, k))
	}
	return out
}

func indMix(jobs []indJob) string {
	var s []string
	for _, j := range jobs {
		s = append(s, j.kind)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// absolute reports a job whose result is known without running it.
func (j *indJob) absolute(t *T, got string) {
	if j.kind == "roundtrip" && got != "" || (j.kind == "cancelled" || j.kind == "failing-write") && got != "true" {
		t.Fatal("result:"+j.kind, "%s: %s", j.kind, got)
	}
}

func indFail(t *T, j *indJob, when, want, got string) {
	t.Fatal("result:"+j.kind, "%s %s: another result than alone\n%s", j.kind, when, diffLines(strings.Split(want, "\n"), strings.Split(got, "\n")))
}

func independentConcurrent(t *T) {
	jobs := newIndJobs(t.R)
	want := make([]string, len(jobs))
	alone := t.R.Perm(len(jobs))
	before := t.R.Bool() // whether the results alone are taken before or after
	if before {
		for _, i := range alone {
			want[i] = jobs[i].run()
		}
	}
	rounds := t.R.Range(1, 3)
	got := make([][]string, len(jobs))
	withProcs(t.R, func() {
		t.within(120*time.Second, "operations", func() {
			start := make(chan struct{})
			var wg sync.WaitGroup
			for i := range jobs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for k := 0; k < rounds; k++ {
						got[i] = append(got[i], jobs[i].run())
					}
				}(i)
			}
			close(start)
			wg.Wait()
		})
	})
	if !before {
		for _, i := range alone {
			want[i] = jobs[i].run()
		}
	}
	for i := range jobs {
		for _, g := range got[i] {
			if g != want[i] {
				indFail(t, &jobs[i], "at the same time as "+indMix(jobs), want[i], g)
			}
			jobs[i].absolute(t, g)
			t.Count("op_"+jobs[i].kind, 1)
		}
	}
	t.Eval(rounds * len(jobs))
	t.Max("goroutines", len(jobs))
	t.Seen("mixes", indMix(jobs))
	t.Distinct(indMix(jobs))
	t.Sample("%d at once, %d times each: %s", len(jobs), rounds, indMix(jobs))
}

// independentSequential runs operations one after the other in several orders.
func independentSequential(t *T) {
	jobs := newIndJobs(t.R)
	want := make([]string, len(jobs))
	for round := 0; round < 3; round++ {
		var hist []string
		for _, i := range t.R.Perm(len(jobs)) {
			g := jobs[i].run()
			if round == 0 {
				want[i] = g
			} else if g != want[i] {
				indFail(t, &jobs[i], "after "+strings.Join(hist, ", "), want[i], g)
			}
			jobs[i].absolute(t, g)
			hist = append(hist, jobs[i].kind)
			t.Eval(1)
		}
	}
	t.Count("sequences", 3)
	t.Seen("mixes", indMix(jobs))
	t.Distinct("sequential", indMix(jobs))
}

// independentCold compares with a process where these are the first operations.
func independentCold(t *T) {
	j := coldJob{Kind: "jobs", Procs: coldProcs(t.R), Seed: t.R.U64(), Copies: t.R.Range(1, 3)}
	jobs := newIndJobs(newRand("independent", j.Seed, 0))
	out := runCold(t, j)
	if len(out) != len(jobs)*j.Copies {
		t.Fatal("harness", "%d results of a new process", len(out))
	}
	for i, l := range out {
		job := &jobs[i%len(jobs)]
		want := job.run()
		if l[0] != want {
			indFail(t, job, "in a new process at the same time as "+indMix(jobs), want, l[0])
		}
		job.absolute(t, want)
		t.Eval(1)
	}
	t.Distinct("cold", indMix(jobs))
}
