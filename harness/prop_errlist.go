package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	specerr "github.com/hpinc/go3mf/errors"
)

func init() {
	register(&Prop{ID: "C23", Level: "exploration", Rule: "one evaluation is one operation (append, wrap, sort, query) on error values, judged against a sequence model; distinct_nontrivial counts distinct histories that end in a list of two or more errors",
		Assumptions: []string{
			"a value given to Append or a Wrap function is not used again, but for the lists that were appended to another one",
			"Unwrap of a list is documented to give its first error: errors.Is and errors.As are only asked for that one, and for all the elements one by one",
			"lists built by hand that contain nothing, and typed nil pointers other than a nil list given to Append, are outside of the domain",
		},
		Run: func(c *Ctx) {
			for i := 0; i < c.N(180000, 2000000); i++ {
				c.Case("history", errHistory)
			}
			for i := 0; i < c.N(36000, 300000); i++ {
				c.Case("accumulate", errAccumulate)
			}
			for i := 0; i < c.N(18000, 200000); i++ {
				c.Case("handmade", errHandmade)
			}
			for i := 0; i < c.N(500, 4000); i++ {
				c.Case("nil-list", errNilList)
			}
			for i := 0; i < c.N(200, 4000); i++ {
				c.Case("long", errLong)
			}
		}})
}

type baseErr struct{ s string }

func (e *baseErr) Error() string { return e.s }

type baseVal struct{ a, b int }

func (e baseVal) Error() string { return fmt.Sprintf("value %d %d", e.a, e.b) }

// leafModel is what is known about one error.
type leafModel struct {
	base    error
	levels  []string // innermost first
	path    string
	wrapped bool
}

type errVal struct {
	err   error
	model []*leafModel
}

func errBase(r *Rand, n int) error {
	switch r.Intn(8) {
	case 0:
		return specerr.NewMissingFieldError(fmt.Sprint("field", n))
	case 1:
		return specerr.NewParseAttrError(fmt.Sprint("attr", n), r.Bool())
	case 2:
		return baseVal{n, r.Intn(9)}
	case 3:
		return fmt.Errorf("outer %d: %w", n, &baseErr{"inner"})
	case 4:
		return []error{specerr.ErrMissingID, specerr.ErrRecursion, specerr.ErrDuplicatedID}[r.Intn(3)]
	default:
		return &baseErr{fmt.Sprintf("error %d %s", n, r.Pick("", "a", "line\nbreak", "100%s", "%d"))}
	}
}

func flatten(err error) []error {
	if err == nil {
		return nil
	}
	if l, ok := err.(*specerr.List); ok {
		return l.Errors
	}
	return []error{err}
}

func (v *errVal) check(t *T, hist []string) {
	t.Eval(1)
	h := func() string { return strings.Join(hist, "\n") }
	if (v.err == nil) != (len(v.model) == 0) {
		t.Fatal("nil", "the value is %v, the model has %d errors:\n%s", v.err, len(v.model), h())
	}
	if v.err == nil {
		return
	}
	fl := flatten(v.err)
	if len(fl) != len(v.model) {
		t.Fatal("count", "%d errors, want %d:\n%s\ngot %v", len(fl), len(v.model), h(), v.err)
	}
	if l, ok := v.err.(*specerr.List); ok && l.Len() != len(fl) {
		t.Fatal("Len", "Len is %d for %d errors", l.Len(), len(fl))
	}
	whole := v.err.Error()
	for i, m := range v.model {
		e := fl[i]
		if e == nil {
			t.Fatal("nil-element", "the error %d is nil:\n%s", i, h())
		}
		if !m.wrapped {
			if e != m.base {
				t.Fatal("element", "the error %d is %v, want %v:\n%s", i, e, m.base, h())
			}
		} else {
			w, ok := e.(*specerr.Error)
			if !ok {
				t.Fatal("element-type", "the wrapped error %d is a %T:\n%s", i, e, h())
			}
			if w.Err != m.base {
				t.Fatal("element", "the error %d wraps %v, want %v:\n%s", i, w.Err, m.base, h())
			}
			xp := ""
			for k := len(m.levels) - 1; k >= 0; k-- {
				xp += "/" + m.levels[k]
			}
			if w.XPath() != xp {
				t.Fatal("xpath", "the path of the error %d is %q, want %q:\n%s", i, w.XPath(), xp, h())
			}
			if w.Path != m.path {
				t.Fatal("part", "the part of the error %d is %q, want %q:\n%s", i, w.Path, m.path, h())
			}
			if !strings.Contains(w.Error(), xp) || !strings.Contains(w.Error(), m.path) || !strings.Contains(w.Error(), m.base.Error()) {
				t.Fatal("text", "the text of the error %d misses its path or cause: %q", i, w.Error())
			}
		}
		// The cause is found through the element.
		if !errors.Is(e, m.base) {
			t.Fatal("Is", "errors.Is does not find %v in %v:\n%s", m.base, e, h())
		}
		if !findAs(e, m.base) {
			t.Fatal("As", "errors.As does not find %v in %v:\n%s", m.base, e, h())
		}
		switch b := m.base.(type) {
		case *specerr.ParseAttrError:
			if s := b.Error(); !strings.Contains(s, b.Name) || strings.Contains(s, "required") != b.Required || strings.Contains(s, "optional") == b.Required {
				t.Fatal("text", "the text of %+v is %q", *b, s)
			}
		case *specerr.MissingFieldError:
			if s := b.Error(); !strings.Contains(s, b.Name) {
				t.Fatal("text", "the text of %+v is %q", *b, s)
			}
		}
		if !strings.Contains(whole, e.Error()) {
			t.Fatal("text", "the text of the whole misses %q: %q", e.Error(), whole)
		}
	}
	if !errors.Is(v.err, v.model[0].base) || !findAs(v.err, v.model[0].base) {
		t.Fatal("Is-first", "the first error %v is not found in the list:\n%s", v.model[0].base, h())
	}
}

func findAs(e, base error) bool {
	switch b := base.(type) {
	case *baseErr:
		var x *baseErr
		return errors.As(e, &x) && x == b
	case baseVal:
		var x baseVal
		return errors.As(e, &x) && x == b
	case *specerr.MissingFieldError:
		var x *specerr.MissingFieldError
		return errors.As(e, &x) && x == b
	case *specerr.ParseAttrError:
		var x *specerr.ParseAttrError
		return errors.As(e, &x) && x == b
	}
	return true
}

func errHistory(t *T) {
	r := t.R
	var pool []*errVal
	var hist []string
	nb := 0
	type arg struct {
		l    *specerr.List
		elem []error
	}
	var args []arg
	take := func() *errVal {
		i := r.Intn(len(pool))
		v := pool[i]
		pool = append(pool[:i:i], pool[i+1:]...)
		return v
	}
	fresh := func() *errVal {
		if r.P(1, 6) {
			hist = append(hist, "nil")
			return &errVal{}
		}
		nb++
		b := errBase(r, nb)
		hist = append(hist, fmt.Sprintf("leaf %v", b))
		return &errVal{b, []*leafModel{{base: b}}}
	}
	for k := 3 + r.Intn(25); k > 0; k-- {
		switch {
		case len(pool) == 0 || r.P(1, 3):
			pool = append(pool, fresh())
		case r.P(2, 5):
			a := take()
			var bs []error
			n := r.Intn(4)
			desc := fmt.Sprintf("Append(%d errors", len(a.model))
			isList := func(e error) bool { _, ok := e.(*specerr.List); return ok }
			var got []*leafModel
			got = append(got, a.model...)
			for ; n > 0; n-- {
				var b *errVal
				if len(pool) > 0 && r.P(3, 5) {
					b = take()
				} else {
					b = fresh()
				}
				bs = append(bs, b.err)
				got = append(got, b.model...)
				desc += fmt.Sprintf(", %d errors", len(b.model))
				if isList(b.err) {
					l := b.err.(*specerr.List)
					args = append(args, arg{l, append([]error(nil), l.Errors...)})
				}
			}
			hist = append(hist, desc+")")
			v := &errVal{specerr.Append(a.err, bs...), got}
			t.Count("appends", 1)
			v.check(t, hist)
			pool = append(pool, v)
		default:
			v := take()
			name := r.Pick("model", "object", "mesh", "triangle@v1", "a", "")
			switch r.Intn(3) {
			case 0:
				v.err = specerr.Wrap(v.err, name)
				v.level(name, "")
				hist = append(hist, "Wrap "+name)
			case 1:
				i := []int{0, 1, 7, 1000000, 12}[r.Intn(5)]
				v.err = specerr.WrapIndex(v.err, name, i)
				v.level(fmt.Sprintf("%s[%d]", name, i), "")
				hist = append(hist, fmt.Sprintf("WrapIndex %s %d", name, i))
			default:
				p := r.Pick("/3D/a.model", "/b", "/3D/other.model")
				skip := false
				for _, m := range v.model {
					skip = skip || m.path != ""
				}
				if skip {
					break
				}
				v.err = specerr.WrapPath(v.err, name, p)
				v.level(name, p)
				hist = append(hist, "WrapPath "+name+" "+p)
			}
			t.Count("wraps", 1)
			v.check(t, hist)
			pool = append(pool, v)
		}
		// Lists that were appended to others keep their elements.
		for _, a := range args {
			if len(a.l.Errors) != len(a.elem) {
				t.Fatal("argument", "a list given to Append has %d errors now, it had %d:\n%s", len(a.l.Errors), len(a.elem), strings.Join(hist, "\n"))
			}
			for i := range a.elem {
				if a.l.Errors[i] != a.elem[i] {
					t.Fatal("argument", "an element of a list given to Append was changed:\n%s", strings.Join(hist, "\n"))
				}
			}
		}
	}
	for _, v := range pool {
		v.check(t, hist)
		if l, ok := v.err.(*specerr.List); ok && l.Len() > 1 {
			t.Max("list", l.Len())
			t.Distinct(strings.Join(hist, "|"))
			sortCheck(t, l)
		}
	}
}

func (v *errVal) level(l, path string) {
	for _, m := range v.model {
		m.levels = append(m.levels, l)
		m.wrapped = true
		if path != "" {
			m.path = path
		}
	}
}

func sortCheck(t *T, l *specerr.List) {
	t.Eval(1)
	before := map[error]int{}
	for _, e := range l.Errors {
		before[e]++
	}
	sort.Sort(l)
	for i, e := range l.Errors {
		before[e]--
		if i > 0 && l.Errors[i-1].Error() > e.Error() {
			t.Fatal("sort", "sorted list is out of order at %d: %v", i, l)
		}
	}
	for e, n := range before {
		if n != 0 {
			t.Fatal("sort", "sorting lost or duplicated %v", e)
		}
	}
}

// errAccumulate follows the pattern of the validators: nested loops that
// append to one accumulator and wrap per element.
func errAccumulate(t *T) {
	r := t.R
	n := 0
	var build func(depth int) (error, []*leafModel)
	build = func(depth int) (error, []*leafModel) {
		var errs error
		var model []*leafModel
		for i := r.Intn(4); i >= 0; i-- {
			name := fmt.Sprintf("e%d", r.Intn(5))
			idx := r.Intn(6) - 1
			var err error
			var ms []*leafModel
			if depth > 0 && r.Bool() {
				err, ms = build(depth - 1)
			} else if r.P(2, 3) {
				n++
				b := errBase(r, n)
				err, ms = b, []*leafModel{{base: b}}
			}
			v := &errVal{err, ms}
			if r.P(1, 8) {
				p := fmt.Sprintf("/3D/p%d.model", n)
				set := false
				for _, m := range ms {
					set = set || m.path != ""
				}
				if !set {
					v.err = specerr.WrapPath(v.err, "model", p)
					v.level("model", p)
				}
			}
			if idx < 0 {
				v.err = specerr.Wrap(v.err, name)
				v.level(name, "")
			} else {
				v.err = specerr.WrapIndex(v.err, name, idx)
				v.level(fmt.Sprintf("%s[%d]", name, idx), "")
			}
			errs = specerr.Append(errs, v.err)
			model = append(model, v.model...)
		}
		return errs, model
	}
	err, model := build(1 + r.Intn(5))
	v := &errVal{err, model}
	v.check(t, []string{"accumulate"})
	t.Max("accumulated", len(model))
	if len(model) > 1 {
		t.Distinct(err.Error())
		sortCheck(t, err.(*specerr.List))
	}
}

func errLong(t *T) {
	r := t.R
	var err error
	var ms []*leafModel
	n := 100 + r.Intn(3000)
	for i := 0; i < n; i++ {
		b := errBase(r, i)
		e := specerr.WrapIndex(b, "x", i)
		m := &leafModel{base: b, wrapped: true, levels: []string{fmt.Sprintf("x[%d]", i)}}
		err = specerr.Append(err, e)
		ms = append(ms, m)
	}
	v := &errVal{err, ms}
	v.err = specerr.Wrap(v.err, "all")
	v.level("all", "")
	sub := &errVal{v.err, v.model}
	if n < 600 {
		sub.check(t, []string{"long"})
	} else if len(flatten(v.err)) != n {
		t.Fatal("count", "%d errors of %d", len(flatten(v.err)), n)
	} else {
		for i, e := range flatten(v.err) {
			if w, ok := e.(*specerr.Error); !ok || w.Err != ms[i].base || w.XPath() != fmt.Sprintf("/all/x[%d]", i) {
				t.Fatal("element", "the error %d of a long list is %v", i, e)
			}
		}
	}
	t.Eval(n)
	t.Max("list", n)
}

// errHandmade wraps lists that were not made by Append and may contain others.
func errHandmade(t *T) {
	r := t.R
	n := 0
	var build func(depth int) (error, []*leafModel)
	build = func(depth int) (error, []*leafModel) {
		if depth == 0 || r.P(1, 2) {
			n++
			b := errBase(r, n)
			v := &errVal{b, []*leafModel{{base: b}}}
			if r.P(1, 3) {
				v.err = specerr.WrapIndex(v.err, "in", n)
				v.level(fmt.Sprintf("in[%d]", n), "")
			}
			return v.err, v.model
		}
		l := new(specerr.List)
		var model []*leafModel
		for k := r.Range(1, 4); k > 0; k-- {
			e, ms := build(depth - 1)
			l.Errors = append(l.Errors, e)
			model = append(model, ms...)
		}
		return l, model
	}
	v := new(errVal)
	v.err, v.model = build(3)
	for k := r.Range(1, 3); k > 0; k-- {
		switch name := r.Pick("a", "b"); r.Intn(3) {
		case 0:
			v.err = specerr.Wrap(v.err, name)
			v.level(name, "")
		case 1:
			v.err = specerr.WrapIndex(v.err, name, k)
			v.level(fmt.Sprintf("%s[%d]", name, k), "")
		default:
			if len(v.model) > 0 && v.model[0].path == "" {
				v.err = specerr.WrapPath(v.err, name, "/p")
				v.level(name, "/p")
			}
		}
	}
	var flat func(e error) []error
	flat = func(e error) (out []error) {
		if l, ok := e.(*specerr.List); ok {
			for _, x := range l.Errors {
				out = append(out, flat(x)...)
			}
			return out
		}
		return []error{e}
	}
	c := &errVal{&specerr.List{Errors: flat(v.err)}, v.model}
	c.check(t, []string{"handmade " + v.err.Error()})
	for _, e := range c.err.(*specerr.List).Errors {
		if !strings.Contains(v.err.Error(), e.Error()) {
			// the lines of an inner list are not changed by the outer one
			t.Fatal("text", "the text of the list misses %q: %q", e, v.err)
		}
	}
	t.Count("handmade", 1)
	if len(v.model) > 1 {
		t.Distinct(v.err.Error())
	}
}

// errNilList uses nil lists, which are empty ones.
func errNilList(t *T) {
	r := t.R
	var l *specerr.List
	if l.Len() != 0 || l.Error() != "" {
		t.Fatal("nil-list", "a nil list has the length %d and the text %q", l.Len(), l.Error())
	}
	sort.Sort(l)
	var want []error
	var args []error
	for n := r.Range(1, 5); n > 0; n-- {
		switch r.Intn(4) {
		case 0:
			args = append(args, l)
		case 1:
			args = append(args, nil)
		default:
			e := errBase(r, n)
			want, args = append(want, e), append(args, e)
		}
	}
	first := len(args) > 0 && r.Bool()
	var got error
	if first {
		got = specerr.Append(args[0], args[1:]...)
	} else {
		got = specerr.Append(l, args...)
	}
	t.Eval(1)
	var leaves []error
	switch g := got.(type) {
	case nil:
	case *specerr.List:
		if g != nil {
			leaves = g.Errors
		}
	default:
		leaves = []error{g}
	}
	ok := len(leaves) == len(want)
	for i := range leaves {
		ok = ok && leaves[i] == want[i]
	}
	if !ok {
		t.Fatal("nil-list", "Append of %v (with a nil list %v) gives %v, not the list of %v", args, !first, got, want)
	}
	if l != nil {
		t.Fatal("nil-list", "the nil list was changed")
	}
	t.Distinct("nil-list", fmt.Sprintf("%v %v", first, args))
}
