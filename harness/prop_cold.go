package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"
)

// What is used for the first time in a process may initialize state shared by
// everything that runs after it. These cases run the library in processes
// where nothing of it ran before and where the first use is concurrent.

type coldJob struct {
	Kind   string // decode, ops or jobs
	Procs  int
	Copies int    // decode: decoders running at once
	Strict bool   // decode
	Seed   uint64 // ops: seed of the model
	Plan   [][][2]int
	Pkg    []byte
}

// coldMain is the process started by a cold case.
func coldMain() {
	b, err := io.ReadAll(os.Stdin)
	var j coldJob
	if err == nil {
		err = json.Unmarshal(b, &j)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cold:", err)
		os.Exit(3)
	}
	runtime.GOMAXPROCS(j.Procs)
	var out [][]string
	var wg sync.WaitGroup
	start := make(chan struct{})
	switch j.Kind {
	case "decode":
		out = make([][]string, j.Copies)
		for i := range out {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				m, err := decode(j.Pkg, j.Strict)
				if err != nil {
					out[i] = []string{"error " + err.Error()}
					return
				}
				out[i] = actualDump(m)
			}(i)
		}
	case "jobs":
		// making the jobs may use the library: that is left to one goroutine
		jobs := newIndJobs(newRand("independent", j.Seed, 0))
		out = make([][]string, len(jobs)*j.Copies)
		for i := range out {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				out[i] = []string{jobs[i%len(jobs)].run()}
			}(i)
		}
	case "ops":
		m, atts := sharedModel(newRand("cold", j.Seed, 0))
		ops := readOps(atts)
		out = make([][]string, len(j.Plan))
		for i := range out {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, p := range j.Plan[i] {
					out[i] = append(out[i], ops[p[0]].fn(m, p[1]))
				}
			}(i)
		}
	}
	close(start)
	wg.Wait()
	raw := make([][][]byte, len(out)) // not all of it is UTF-8
	for i, l := range out {
		for _, s := range l {
			raw[i] = append(raw[i], []byte(s))
		}
	}
	json.NewEncoder(os.Stdout).Encode(raw)
}

// runCold runs a job in a new process.
func runCold(t *T, j coldJob) [][]string {
	exe, err := os.Executable()
	if err != nil {
		t.Fatal("harness", "no executable: %v", err)
	}
	in, _ := json.Marshal(j)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe)
	cmd.Env = append(os.Environ(), "VERIF_COLD=1", fmt.Sprintf("GORACE=halt_on_error=1 exitcode=%d", exitRace))
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	msg := se.String()
	if len(msg) > 6000 {
		msg = msg[:6000]
	}
	if err != nil {
		var ee *exec.ExitError
		switch {
		case ctx.Err() != nil:
			t.Fatal("cold-hang", "%s in a new process did not end in 120 s", j.Kind)
		case errors.As(err, &ee) && ee.ExitCode() == exitRace:
			t.Fatal("datarace", "data race in the first use of the library (%s)\n%s", j.Kind, msg)
		default:
			t.Fatal("cold-crash", "%s in a new process: %v\n%s", j.Kind, err, msg)
		}
	}
	var raw [][][]byte
	if err := json.Unmarshal(so.Bytes(), &raw); err != nil {
		t.Fatal("harness", "output of a new process: %v\n%s", err, msg)
	}
	out := make([][]string, len(raw))
	for i, l := range raw {
		for _, s := range l {
			out[i] = append(out[i], string(s))
		}
	}
	t.Count("cold_processes", 1)
	t.Count("cold_"+j.Kind, len(out))
	return out
}

func coldProcs(r *Rand) int { return []int{1, 2, 4, 8, 8}[r.Intn(5)] }

func concurrentCold(t *T) {
	r := t.R
	n := []int{2, 3, 5, 8, 13, 24}[r.Intn(6)]
	o := anyGen(r)
	o.Childs = true
	if r.Bool() {
		o = genOpt{Materials: true, Slices: true, Beams: true, Production: true, Unknown: true, Size: 4, Childs: true}
	}
	m := genModelParts(r, o, n)
	root := r.Bool()
	if root { // nothing but the parts is there to be decoded
		m.Resources.Assets, m.Resources.Objects, m.Build.Items, m.Metadata, m.Any = nil, nil, nil, nil, nil
	}
	doc, childs, exts, _ := serialize(r, m, style{noise: r.Intn(4)}, 0)
	want := *m
	want.Extensions = exts
	dump := expectedDump(&want, -1)
	p := pkgPart{name: "/3D/3dmodel.model", ct: ctModel, data: doc}
	var parts []pkgPart
	for _, k := range sortedStr(childs) {
		p.rels = append(p.rels, pkgRel{"", relModel, k})
		parts = append(parts, pkgPart{name: k, ct: ctModel, data: childs[k]})
	}
	for i := range p.rels {
		p.rels[i].id = fmt.Sprintf("r%d", i)
	}
	pkg := buildPackage([]pkgRel{{"r0", relModel, "/3D/3dmodel.model"}}, append([]pkgPart{p}, parts...), r.Bool())
	t.Artifact("package.3mf", pkg)
	j := coldJob{Kind: "decode", Procs: coldProcs(r), Copies: []int{1, 1, 2, 4}[r.Intn(4)], Strict: r.Bool(), Pkg: pkg}
	for i, got := range runCold(t, j) {
		if d := diffLines(dump, got); d != "" {
			t.Fatal("concurrent:"+diffSig(dump, got), "decoder %d of %d in a new process: the model is not the one the parts describe\n%s", i, j.Copies, d)
		}
		t.Eval(1)
		t.Count("parts_decoded", n+1)
	}
	t.Distinct("cold", strings.Join(dump, "\n"))
	t.Seen("cold_shapes", n, j.Procs, j.Copies, root)
}

func readonlyCold(t *T) {
	r := t.R
	j := coldJob{Kind: "ops", Procs: coldProcs(r), Seed: r.U64()}
	m, atts := sharedModel(newRand("cold", j.Seed, 0))
	ops := readOps(atts)
	g := r.Range(2, 6)
	same := r.P(1, 2)
	for i := 0; i < g; i++ {
		var l [][2]int
		for k := 0; k < 3; k++ {
			l = append(l, [2]int{r.Intn(len(ops)), r.Intn(3)})
		}
		if same && i > 0 {
			l = j.Plan[0]
		}
		j.Plan = append(j.Plan, l)
	}
	want := map[[2]int]string{}
	for _, l := range j.Plan {
		for _, p := range l {
			if _, ok := want[p]; !ok {
				want[p] = ops[p[0]].fn(m, p[1])
			}
		}
	}
	for i, got := range runCold(t, j) {
		for k, s := range got {
			if w := want[j.Plan[i][k]]; s != w {
				name := ops[j.Plan[i][k][0]].name
				t.Fatal("result:"+name, "%s at the same time as others in a new process, another result than alone\n%s", name, diffLines(strings.Split(w, "\n"), strings.Split(s, "\n")))
			}
			t.Eval(1)
		}
	}
	t.Distinct("cold", j.Seed)
}
