package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"

	"github.com/hpinc/go3mf"
)

// snapshot writes everything reachable from v, exported or not, including the
// spare capacity of slices, as "path = value" lines. Readers are opaque.
func snapshot(v interface{}) []string {
	s := &snapper{}
	s.walk("", reflect.ValueOf(v))
	return s.lines
}

type snapper struct{ lines []string }

func (s *snapper) put(path, v string) { s.lines = append(s.lines, path+" = "+v) }

func (s *snapper) walk(path string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		s.put(path, "invalid")
	case reflect.Ptr:
		if v.IsNil() {
			s.put(path, "nil")
			return
		}
		s.walk(path, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			s.put(path, "nil")
			return
		}
		if v.Type() == tReader {
			s.put(path, fmt.Sprintf("reader %v", v.Elem().Type()))
			return
		}
		s.put(path+".#", v.Elem().Type().String())
		s.walk(path, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.walk(path+"."+v.Type().Field(i).Name, v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			s.put(path, "nil slice")
			return
		}
		s.put(path+".len", strconv.Itoa(v.Len())+"/"+strconv.Itoa(v.Cap()))
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			s.put(path, fmt.Sprintf("%x", v.Slice(0, v.Cap()).Bytes()))
			return
		}
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			s.walk(path+"["+strconv.Itoa(i)+"]", full.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.walk(path+"["+strconv.Itoa(i)+"]", v.Index(i))
		}
	case reflect.Map:
		keys := sortedMapKeys(v)
		s.put(path+".len", strconv.Itoa(len(keys)))
		for _, k := range keys {
			s.walk(path+"["+fmt.Sprint(k)+"]", v.MapIndex(k))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		s.put(path, v.Kind().String())
	case reflect.Float32, reflect.Float64:
		s.put(path, strconv.FormatUint(math.Float64bits(v.Float()), 16))
	case reflect.String:
		s.put(path, v.String())
	case reflect.Bool:
		s.put(path, strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.put(path, strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.put(path, strconv.FormatUint(v.Uint(), 10))
	default:
		s.put(path, "?"+v.Kind().String())
	}
}

func sortedMapKeys(v reflect.Value) []reflect.Value {
	keys := v.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	return keys
}

// padSlices gives the slices of a model spare capacity, filled with copies of
// their elements, as appending code leaves behind.
func padSlices(r *Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && !(v.Kind() == reflect.Interface && v.Type() == tReader) {
			padSlices(r, v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				padSlices(r, v.Field(i))
			}
		}
	case reflect.Map:
		for _, k := range sortedMapKeys(v) {
			padSlices(r, v.MapIndex(k))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			padSlices(r, v.Index(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			padSlices(r, v.Index(i))
		}
		if v.Len() > 0 && v.CanSet() && r.P(3, 4) {
			n := v.Len()
			extra := 1 + r.Intn(3)
			w := reflect.MakeSlice(v.Type(), n+extra, n+extra)
			reflect.Copy(w, v)
			for i := 0; i < extra; i++ {
				w.Index(n + i).Set(cloneValue(v.Index(r.Intn(n))))
			}
			v.Set(w.Slice(0, n))
		}
	}
}

var tTokens = reflect.TypeOf([]xml.Token{})

// leaf is a place of a model that can be changed.
type leaf struct {
	path string
	v    reflect.Value
}

func leaves(path string, v reflect.Value, out *[]leaf) {
	if v.Type() == tUnk || v.Type() == tTokens {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && !(v.Kind() == reflect.Interface && v.Type() == tReader) {
			leaves(path, v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				leaves(path+"."+v.Type().Field(i).Name, v.Field(i), out)
			}
		}
	case reflect.Map:
		for _, k := range sortedMapKeys(v) {
			leaves(path+"[]", v.MapIndex(k), out)
		}
	case reflect.Array:
		if v.Type() == tMatrix || v.Type().Elem().Kind() == reflect.Float32 {
			if v.CanSet() {
				*out = append(*out, leaf{path, v})
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			leaves(path+"[]", v.Index(i), out)
		}
	case reflect.Slice:
		if v.CanSet() {
			*out = append(*out, leaf{path, v})
		}
		for i := 0; i < v.Len(); i++ {
			leaves(path+"[]", v.Index(i), out)
		}
	default:
		if v.CanSet() {
			*out = append(*out, leaf{path, v})
		}
	}
}

var corruptStrings = []string{"", "x", "Title", "title", "/a", "/3D/3dmodel.model", "http://example.com/none", "f47ac10b-58cc-0372-8567-0e02b2c3d479", "F47AC10B-58CC-0372-8567-0E02B2C3D479", "no-uuid", "a.png", "/a/.b", "other"}

// corruptModel changes n places of the exported fields of a model at random,
// favouring small values, and returns what it changed.
func corruptModel(r *Rand, m *go3mf.Model, n int) (out []string) {
	for i := 0; i < n; i++ {
		var all []leaf
		leaves("", reflect.ValueOf(m), &all)
		byPath := map[string][]leaf{}
		var paths []string
		for _, l := range all {
			if byPath[l.path] == nil {
				paths = append(paths, l.path)
			}
			byPath[l.path] = append(byPath[l.path], l)
		}
		// every kind of place is as likely as any other
		ls := byPath[paths[r.Intn(len(paths))]]
		l := ls[r.Intn(len(ls))]
		out = append(out, l.path+": "+corruptLeaf(r, l, ls))
	}
	return
}

func corruptLeaf(r *Rand, l leaf, peers []leaf) string {
	v := l.v
	switch v.Kind() {
	case reflect.Uint32, reflect.Uint8, reflect.Uint16, reflect.Uint64, reflect.Uint:
		nv := uint64(r.Intn(6))
		switch r.Intn(6) {
		case 0:
			nv = 0
		case 1:
			nv = v.Uint() + 1
		case 2:
			nv = peers[r.Intn(len(peers))].v.Uint()
		case 3:
			if r.P(1, 4) {
				nv = math.MaxUint32
			}
		}
		if v.Kind() == reflect.Uint8 {
			nv &= 0xff
			if r.Bool() {
				nv = 0
			}
		}
		v.SetUint(nv)
		return strconv.FormatUint(nv, 10)
	case reflect.Int, reflect.Int8, reflect.Int32, reflect.Int64:
		nv := int64(r.Intn(5))
		v.SetInt(nv)
		return strconv.FormatInt(nv, 10)
	case reflect.Float32, reflect.Float64:
		nv := []float64{0, -1, 1, 1e9, 0.5, -0.001}[r.Intn(6)]
		if r.P(1, 3) {
			nv = peers[r.Intn(len(peers))].v.Float()
		}
		v.SetFloat(nv)
		return fmt.Sprint(nv)
	case reflect.Bool:
		v.SetBool(!v.Bool())
		return fmt.Sprint(v.Bool())
	case reflect.String:
		s := corruptStrings[r.Intn(len(corruptStrings))]
		if r.P(1, 3) {
			s = peers[r.Intn(len(peers))].v.String()
		}
		v.SetString(s)
		return strconv.Quote(s)
	case reflect.Slice:
		n := v.Len()
		if n == 0 {
			return "still empty"
		}
		switch r.Intn(4) {
		case 0:
			v.Set(reflect.Zero(v.Type()))
			return "emptied"
		case 1:
			v.Set(v.Slice(0, n-1))
			return "shortened"
		case 2:
			w := reflect.MakeSlice(v.Type(), 0, n+1)
			k := r.Intn(n)
			w = reflect.AppendSlice(w, v.Slice(0, k))
			w = reflect.Append(w, cloneValue(v.Index(r.Intn(n))))
			w = reflect.AppendSlice(w, v.Slice(k, n))
			v.Set(w)
			return "one repeated"
		default:
			i, j := r.Intn(n), r.Intn(n)
			a, b := cloneValue(v.Index(i)), cloneValue(v.Index(j))
			v.Index(i).Set(b)
			v.Index(j).Set(a)
			return "two swapped"
		}
	case reflect.Array:
		if v.Type() == tMatrix {
			ms := []go3mf.Matrix{{}, go3mf.Identity(), {1, 0, 0.5, 0, 0, 1, 0, 0, 0, 0, 1, 0, 5, 5, 5, 1}, {2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1}}
			v.Set(reflect.ValueOf(ms[r.Intn(len(ms))]))
			return fmt.Sprint(v.Interface())
		}
		i := r.Intn(v.Len())
		if r.Bool() {
			v.Set(peers[r.Intn(len(peers))].v)
		} else {
			v.Index(i).SetFloat([]float64{0, -1, 1, 1e9, 0.5}[r.Intn(5)])
		}
		return fmt.Sprint(v.Interface())
	}
	return "as is"
}
