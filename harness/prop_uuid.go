package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"testing/iotest"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/uuid"
)

func init() {
	register(&Prop{ID: "C25", Race: true, Level: "exploration", Rule: "one evaluation is one text validated, one identifier generated or one model completed; distinct_nontrivial counts distinct identifiers generated and distinct texts one edit away from a valid form",
		Assumptions: []string{
			"SetRand is not called while identifiers are generated",
			"the standard forms are the four listed in the documentation of uuid.Validate, in any case",
		},
		Run: func(c *Ctx) {
			for i := 0; i < 4*48; i++ { // every byte at every position of every form
				i := i
				c.Case("edit", func(t *T) { uuidEdit(t, i%4, i/4) })
			}
			for i := 0; i < c.N(8000, 300000); i++ {
				c.Case("text", uuidText)
			}
			for i := 0; i < c.N(60, 1000); i++ {
				c.Case("concurrent", uuidConcurrent)
			}
			for i := 0; i < c.N(2000, 60000); i++ {
				c.Case("random-source", uuidSource)
			}
			for i := 0; i < c.N(2000, 60000); i++ {
				c.Case("complete", uuidComplete)
			}
			for i := 0; i < c.N(1, 10); i++ {
				c.Case("vast", func(t *T) { uuidCompleteVast(t, t.R.Pick("production-items", "production-components", "objects")) })
			}
			for i := 0; i < c.N(30, 600); i++ {
				c.Case("complete-concurrently", uuidCompleteMany)
			}
		}})
}

var (
	uuidForm = regexp.MustCompile(`\A(?:[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}|[uU][rR][nN]:[uU][uU][iI][dD]:[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}|\{[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}\}|[0-9a-fA-F]{32})\z`)
	uuidV4   = regexp.MustCompile(`\A[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}\z`)
)

func checkUUIDText(t *T, s string) bool {
	want := uuidForm.MatchString(s)
	err := uuid.Validate(s)
	t.Eval(1)
	if (err == nil) != want {
		t.Artifact("uuid.txt", []byte(s))
		t.Fatal("validate", "Validate(%q) returned %v; the text has a standard form: %v", s, err, want)
	}
	if want {
		t.Count("accepted", 1)
	} else {
		t.Count("rejected", 1)
	}
	return want
}

func uuidOfForm(r *Rand, form int) string {
	h := []byte(hex.EncodeToString(r.Bytes(16)))
	switch r.Intn(3) {
	case 0:
		h = bytes.ToUpper(h)
	case 1:
		for i := range h {
			if r.Bool() {
				h[i] = bytes.ToUpper(h[i : i+1])[0]
			}
		}
	}
	s := fmt.Sprintf("%s-%s-%s-%s-%s", h[:8], h[8:12], h[12:16], h[16:20], h[20:])
	switch form {
	case 1:
		p := []byte("urn:uuid:")
		if r.Bool() {
			for i := range p {
				if r.Bool() {
					p[i] = bytes.ToUpper(p[i : i+1])[0]
				}
			}
		}
		return string(p) + s
	case 2:
		return "{" + s + "}"
	case 3:
		return string(h)
	}
	return s
}

func uuidEdit(t *T, form, pos int) {
	s := []byte(uuidOfForm(t.R, form))
	if pos > len(s) {
		return
	}
	for b := 0; b < 256; b++ {
		// replaced
		if pos < len(s) {
			x := append([]byte(nil), s...)
			x[pos] = byte(b)
			checkUUIDText(t, string(x))
		}
		// inserted
		x := append(append(append([]byte(nil), s[:pos]...), byte(b)), s[pos:]...)
		checkUUIDText(t, string(x))
		// replaced by a rune of two bytes or more
		if pos < len(s) {
			checkUUIDText(t, string(s[:pos])+string(rune(0x100+b))+string(s[pos+1:]))
		}
		// inserted with another one dropped at the end
		checkUUIDText(t, string(x[:len(x)-1]))
	}
	if pos < len(s) {
		checkUUIDText(t, string(s[:pos])+string(s[pos+1:]))
		checkUUIDText(t, string(s[:pos]))
		checkUUIDText(t, string(s[pos:]))
		checkUUIDText(t, string(s)+string(s[:pos]))
	}
	t.Distinct("edit", form, pos)
	t.Seen("forms", form)
}

func uuidText(t *T) {
	r := t.R
	form := r.Intn(4)
	s := uuidOfForm(r, form)
	if !checkUUIDText(t, s) {
		t.Fatal("harness", "the reference rejects %q", s)
	}
	// several edits
	x := []byte(s)
	for k := 1 + r.Intn(4); k > 0 && len(x) > 0; k-- {
		i := r.Intn(len(x))
		switch r.Intn(7) {
		case 0:
			x[i] = "0123456789abcdefABCDEF"[r.Intn(22)]
		case 1:
			x[i] = "-{}:gG \x00/@`\n"[r.Intn(12)]
		case 2:
			x = append(x[:i:i], x[i+1:]...)
		case 3:
			j := r.Intn(len(x))
			x[i], x[j] = x[j], x[i]
		case 4:
			x = append(x[:i:i], append([]byte{"-0f{}"[r.Intn(5)]}, x[i:]...)...)
		case 5: // another wrapping
			x = []byte([]string{"{" + string(x) + "}", "urn:uuid:" + string(x), "{" + string(x), string(x) + "}", "(" + string(x) + ")", " " + string(x), string(x) + " ", "urn:" + string(x), "uuid:" + string(x)}[r.Intn(9)])
		case 6:
			x = bytes.ReplaceAll(x, []byte("-"), []byte{"-_ 0"[r.Intn(4)]})
		}
	}
	checkUUIDText(t, string(x))
	t.Distinct(string(x))
}

type uuidSet struct {
	m map[string]bool
}

func (u *uuidSet) add(t *T, s string) {
	t.Eval(1)
	if !uuidV4.MatchString(s) {
		t.Fatal("not-v4", "%q is not a version 4 UUID", s)
	}
	if uuid.Validate(s) != nil {
		t.Fatal("rejected-own", "the generated UUID %q is rejected: %v", s, uuid.Validate(s))
	}
	if u.m[s] {
		t.Fatal("repeated", "the UUID %q was generated twice", s)
	}
	u.m[s] = true
	t.Count("generated", 1)
}

func uuidConcurrent(t *T) {
	n := 2 + t.R.Intn(15)
	per := 100 + t.R.Intn(300)
	out := make([][]string, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for i := 0; i < per; i++ {
				out[g] = append(out[g], uuid.New())
			}
		}(g)
	}
	close(start)
	wg.Wait()
	u := &uuidSet{m: map[string]bool{}}
	var and, or [16]byte
	for i := range and {
		and[i] = 0xff
	}
	total := 0
	for _, l := range out {
		for _, s := range l {
			u.add(t, s)
			b, _ := hex.DecodeString(strings.ReplaceAll(s, "-", ""))
			for i := range b {
				and[i] &= b[i]
				or[i] |= b[i]
			}
			total++
		}
	}
	// Every free bit takes both values.
	for i := range and {
		free := byte(0xff)
		switch i {
		case 6:
			free = 0x0f
		case 8:
			free = 0x3f
		}
		if and[i]&free != 0 || or[i]&free != free {
			t.Fatal("stuck-bits", "over %d UUIDs the byte %d has bits that never change: always %08b, ever %08b", total, i, and[i], or[i])
		}
	}
	t.Max("goroutines", n)
	t.Distinct(out[0][0])
}

type failReader struct {
	n   int
	err error
}

func (f *failReader) Read(p []byte) (int, error) {
	if f.n == 0 {
		return 0, f.err
	}
	n := len(p)
	if n > f.n {
		n = f.n
	}
	f.n -= n
	return n, nil
}

func uuidSource(t *T) {
	r := t.R
	defer uuid.SetRand(nil)
	n := 1 + r.Intn(5)
	data := r.Bytes(16 * n)
	switch r.Intn(3) {
	case 0:
		uuid.SetRand(bytes.NewReader(data))
	case 1:
		uuid.SetRand(iotest.OneByteReader(bytes.NewReader(data)))
	default:
		uuid.SetRand(iotest.HalfReader(bytes.NewReader(data)))
	}
	for i := 0; i < n; i++ {
		b := append([]byte(nil), data[16*i:16*i+16]...)
		b[6] = b[6]&0x0f | 0x40
		b[8] = b[8]&0x3f | 0x80
		h := hex.EncodeToString(b)
		want := h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
		got := uuid.New()
		t.Eval(1)
		if got != want {
			t.Fatal("source", "the UUID made of the bytes %x is %s, want %s", data[16*i:16*i+16], got, want)
		}
	}
	// A source that fails must not lead to a UUID without randomness.
	boom := errors.New("no entropy")
	uuid.SetRand(&failReader{r.Intn(16), boom})
	var got string
	func() {
		defer func() { recover() }()
		got = uuid.New()
	}()
	if got != "" {
		t.Fatal("failed-source", "New returned %q although the random source failed", got)
	}
	uuid.SetRand(nil)
	u := &uuidSet{m: map[string]bool{}}
	for i := 0; i < 3; i++ {
		u.add(t, uuid.New())
	}
	t.Distinct(fmt.Sprintf("%x", data))
}

// prodSlot is a place for a UUID.
type prodSlot struct {
	where string
	get   func() (uuid string, present bool)
	drop  func() // undoes the completion
}

func prodSlots(m *go3mf.Model) (out []prodSlot) {
	add := func(where string, get func() (string, bool), clear func(), pop func()) {
		_, had := get()
		s := prodSlot{where: where, get: get, drop: pop}
		if had {
			s.drop = clear
		}
		out = append(out, s)
	}
	add("build", func() (string, bool) {
		for _, a := range m.Build.AnyAttr {
			if a, ok := a.(*production.BuildAttr); ok {
				return a.UUID, true
			}
		}
		return "", false
	}, func() {
		for _, a := range m.Build.AnyAttr {
			if a, ok := a.(*production.BuildAttr); ok {
				a.UUID = ""
				return
			}
		}
	}, func() { m.Build.AnyAttr = m.Build.AnyAttr[:len(m.Build.AnyAttr)-1] })
	for i, it := range m.Build.Items {
		it := it
		add(fmt.Sprint("item ", i), func() (string, bool) {
			for _, a := range it.AnyAttr {
				if a, ok := a.(*production.ItemAttr); ok {
					return a.UUID, true
				}
			}
			return "", false
		}, func() {
			for _, a := range it.AnyAttr {
				if a, ok := a.(*production.ItemAttr); ok {
					a.UUID = ""
					return
				}
			}
		}, func() { it.AnyAttr = it.AnyAttr[:len(it.AnyAttr)-1] })
	}
	eachResources(m, func(path string, rs *go3mf.Resources) {
		for i, o := range rs.Objects {
			o := o
			add(fmt.Sprint("object ", path, " ", i), func() (string, bool) {
				for _, a := range o.AnyAttr {
					if a, ok := a.(*production.ObjectAttr); ok {
						return a.UUID, true
					}
				}
				return "", false
			}, func() {
				for _, a := range o.AnyAttr {
					if a, ok := a.(*production.ObjectAttr); ok {
						a.UUID = ""
						return
					}
				}
			}, func() { o.AnyAttr = o.AnyAttr[:len(o.AnyAttr)-1] })
			if o.Components == nil {
				continue
			}
			for j, c := range o.Components.Component {
				c := c
				add(fmt.Sprint("component ", path, " ", i, " ", j), func() (string, bool) {
					for _, a := range c.AnyAttr {
						if a, ok := a.(*production.ComponentAttr); ok {
							return a.UUID, true
						}
					}
					return "", false
				}, func() {
					for _, a := range c.AnyAttr {
						if a, ok := a.(*production.ComponentAttr); ok {
							a.UUID = ""
							return
						}
					}
				}, func() { c.AnyAttr = c.AnyAttr[:len(c.AnyAttr)-1] })
			}
		}
	})
	return
}

func uuidModel(r *Rand) *go3mf.Model {
	o := anyGen(r)
	o.Production, o.Childs, o.Package = true, true, false
	o.Wide = true
	m := genModel(r, o)
	if r.P(1, 4) { // attribute groups without a value
		m.Build.AnyAttr = append(m.Build.AnyAttr[:0:0], &production.BuildAttr{})
		for _, it := range m.Build.Items {
			if production.GetItemAttr(it) == nil {
				it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{Path: ""})
			}
		}
	}
	return m
}

func uuidComplete(t *T) { uuidCompleteModel(t, uuidModel(t.R)) }

// uuidCompleteVast completes more elements than 16 bits can count.
func uuidCompleteVast(t *T, dim string) {
	m := vastModel(t.R, dim, t.R.Bool())
	for _, s := range prodSlots(m) {
		if id, ok := s.get(); ok && id != "" && t.R.Bool() {
			s.drop()
		}
	}
	uuidCompleteModel(t, m)
	t.Seen("lists_of_more_than_65536", dim)
}

func uuidCompleteModel(t *T, m *go3mf.Model) {
	before := dumpModel(m, dumpOpt{})
	slots := prodSlots(m)
	type state struct {
		id      string
		present bool
	}
	old := make([]state, len(slots))
	u := &uuidSet{m: map[string]bool{}}
	for i, s := range slots {
		id, ok := s.get()
		old[i] = state{id, ok}
		u.m[id] = true
	}
	production.SetMissingUUIDs(m)
	missing := 0
	for i, s := range slots {
		id, ok := s.get()
		switch {
		case old[i].id != "":
			if id != old[i].id {
				t.Fatal("changed", "the UUID of %s was %q and is %q", s.where, old[i].id, id)
			}
		case !ok || id == "":
			t.Fatal("still-missing", "%s has no UUID after SetMissingUUIDs", s.where)
		default:
			u.add(t, id)
			missing++
		}
	}
	again := dumpModel(m, dumpOpt{})
	production.SetMissingUUIDs(m)
	if d := diffLines(again, dumpModel(m, dumpOpt{})); d != "" {
		t.Fatal("not-idempotent", "completing a complete model changed it:\n%s", d)
	}
	for i, s := range slots {
		if old[i].id == "" {
			s.drop()
		}
	}
	if d := diffLines(before, dumpModel(m, dumpOpt{})); d != "" {
		t.Fatal("other-changes", "SetMissingUUIDs changed more than the missing UUIDs:\n%s", d)
	}
	t.Count("completed", missing)
	t.Count("slots", len(slots))
	if missing > 1 {
		t.Distinct(strings.Join(before, "\n"))
	}
}

// uuidCompleteMany completes different models at the same time.
func uuidCompleteMany(t *T) {
	n := 3 + t.R.Intn(6)
	var ms []*go3mf.Model
	var slots [][]prodSlot
	u := &uuidSet{m: map[string]bool{}}
	var was []map[int]bool
	for i := 0; i < n; i++ {
		m := uuidModel(t.R)
		ms = append(ms, m)
		ss := prodSlots(m)
		slots = append(slots, ss)
		w := map[int]bool{}
		for k, s := range ss {
			if id, _ := s.get(); id != "" {
				w[k] = true
				u.m[id] = true
			}
		}
		was = append(was, w)
	}
	var wg sync.WaitGroup
	for _, m := range ms {
		wg.Add(1)
		go func(m *go3mf.Model) {
			defer wg.Done()
			production.SetMissingUUIDs(m)
		}(m)
	}
	wg.Wait()
	for i := range slots {
		for k, s := range slots[i] {
			if id, _ := s.get(); !was[i][k] {
				u.add(t, id)
			}
		}
	}
	t.Distinct("many", t.N)
}
