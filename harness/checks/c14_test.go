package checks

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

const c14Rule = "random accepted call sequences on either writer with calls inserted that the format cannot store (one flaw each: name, type, attribute, raggedness, contradicting extent, too many dimensions, name in use, second unlimited dimension, reserved or oversized attribute), many reusing names and dimensions of later calls; the file must be the same as without them; non-trivial: at least one refused call before an accepted one"

// rawMap is an attribute map of the caller's own.
type rawMap []m.Attr

func (r rawMap) Keys() []string {
	var k []string
	for _, a := range r {
		k = append(k, a.Name)
	}
	return k
}

func (r rawMap) Get(key string) (any, bool) {
	for _, a := range r {
		if a.Name == key {
			return a.Val, true
		}
	}
	return nil, false
}
func (r rawMap) GetType(key string) (string, bool)   { return "", false }
func (r rawMap) GetGoType(key string) (string, bool) { return "", false }

// phantom lists a key it hasn't got.
type phantom struct{ rawMap }

func (p phantom) Keys() []string { return append(p.rawMap.Keys(), "phantom") }

// unstorable are values neither format has a type for.
func unstorable() []any {
	var np *int32
	var nf func()
	var ne error
	n := int32(1)
	return []any{
		1, uint(1), uintptr(1), true, complex64(1), complex128(1), struct{ A int32 }{1}, struct{}{},
		map[string]int32{"a": 1}, map[string]int32(nil), func() {}, nf, make(chan int), nil, ne, np, &n,
		[]int{1, 2}, []int{}, []uint{1}, []bool{true, false}, [][]uint{{1}, {2}}, []any{int32(1)}, []any{}, []any{nil},
		[]*int32{nil}, []*int32{&n}, []struct{ A int32 }{{1}}, []map[string]int{nil}, []func(){nil}, []complex64{1},
		[][]bool{{true}}, [][]any{{1}}, &[]int32{1}, []*[]int32{nil}, [2]int{1, 2}, [0]bool{}, []error{nil},
		[][]*int8{{nil}}, [][]int{{}, {}}, [][][]complex128{{{1}}}, []chan int{nil}, time.Time{}, []time.Time{{}},
		[]any{int8(1), "x"}, []any{[]int32{1}}, reflect.ValueOf(int32(1)), []uintptr{1}, math.MaxInt,
	}
}

type namedInt int32
type namedStr string
type namedFloats []float64

// dubious are values a writer may take or refuse; what it takes it must deliver as
// the same values in the types the format has.
func dubious() []any {
	return []any{
		namedInt(7), []namedInt{1, 2}, namedStr("abc"), []namedStr{"a", "bc"}, namedFloats{1, 2}, []namedFloats{{1, 2}, {3, 4}},
		time.Duration(5), []time.Duration{1, 2}, [3]int32{1, 2, 3}, [2][3]int16{{1, 2, 3}, {4, 5, 6}}, [][2]uint8{{1, 2}, {3, 4}},
		[2][]float32{{1, 2}, {3, 4}}, [2]string{"a", "bc"}, [1]int8{1}, []string{"", ""}, [][]string{{"a"}, {"bcd"}}, time.March,
		[]time.Month{1, 2}, [2]namedInt{1, 2}, [2]namedStr{"x", "y"}, [][]namedInt{{1, 2, 3}, {4, 5, 6}},
	}
}

// plainVal turns arrays into slices and named types into the basic ones.
func plainVal(v any) any {
	var conv func(rv reflect.Value, t reflect.Type) reflect.Value
	var typ func(t reflect.Type) reflect.Type
	typ = func(t reflect.Type) reflect.Type {
		if t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
			return reflect.SliceOf(typ(t.Elem()))
		}
		for _, b := range append([]reflect.Type{m.StringType}, m.NumTypes...) {
			if b.Kind() == t.Kind() {
				return b
			}
		}
		return t
	}
	conv = func(rv reflect.Value, t reflect.Type) reflect.Value {
		if t.Kind() != reflect.Slice {
			return rv.Convert(t)
		}
		s := reflect.MakeSlice(t, rv.Len(), rv.Len())
		for i := range rv.Len() {
			s.Index(i).Set(conv(rv.Index(i), t.Elem()))
		}
		return s
	}
	rv := reflect.ValueOf(v)
	return conv(rv, typ(rv.Type())).Interface()
}

// where is what a group has so far and will get.
type where struct {
	vars, groups map[string]bool
}

// place describes the program around the point where a call is inserted.
type place struct {
	hdf5    bool
	group   *where // the group of the call
	root    bool
	rootVar map[string]bool   // root variables that aren't coordinate variables
	rootGrp map[string]bool   // root groups
	dims    map[string]uint64 // dimensions so far
	coord   map[string]bool   // root coordinate variables so far
	future  []string          // names of what comes
	fdims   []string          // dimensions of what comes
	fvars   []*m.Var
}

func (p *place) fresh(rt *rapid.T) string {
	for {
		n := m.Name(rt, "bad/name", 40)
		if !p.group.vars[n] && !p.group.groups[n] && !p.rootVar[n] && !p.rootGrp[n] && p.dims[n] == 0 && !p.coord[n] {
			return n
		}
	}
}

func (p *place) pick(rt *rapid.T, set map[string]bool) string {
	return rapid.SampledFrom(sorted(keysOf(set))).Draw(rt, "bad/which")
}

func keysOf[V any](s map[string]V) []string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	return l
}

var c14BadNames = []string{"", " ", " lead", "_x", "-x", ".x", "a/b", "/", "/a", "a/", "a\x01", "a\x7f", "a\x00", "\x00",
	"trail ", "a\t", "a\n", "é\u00a0", "a\u2003", "a\u2028", "a\u0085", "\u0301a", "a\u200b", "😀", "@a", "a\ufeff", "+1", "a\u00ad"}

// flawed is one call that must be refused.
type flawed struct {
	what string
	desc string
	do   func(w api.Writer) error
}

// flaw draws a call with one flaw.
func (p *place) flaw(rt *rapid.T) flawed {
	types := append([]reflect.Type{m.StringType}, m.NumTypes...)
	shape := m.ShapeOf(rt, "bad/shape", 3, 60)
	for i := range shape {
		shape[i]++
	}
	typ := rapid.SampledFrom(types).Draw(rt, "bad/type")
	flat := m.Flat(rt, typ, m.Prod(shape), "bad/val")
	if s, ok := flat.([]string); ok {
		s[0] += "zz" // in the CDF format, strings of no length are special
	}
	var val any = m.Nest(flat, shape)
	name := p.fresh(rt)
	if len(p.future) > 0 && rapid.Bool().Draw(rt, "bad/future") {
		if n := rapid.SampledFrom(p.future).Draw(rt, "bad/fname"); p.dims[n] == 0 && !p.coord[n] && !p.rootVar[n] && !p.rootGrp[n] && !p.group.vars[n] && !p.group.groups[n] {
			name = n
		}
	}
	var dims []string
	for i := range shape {
		d := ""
		if rapid.Bool().Draw(rt, "bad/dim") {
			d = fmt.Sprintf("bd%d", i)
			if len(p.fdims) > 0 && rapid.Bool().Draw(rt, "bad/fdim") {
				n := rapid.SampledFrom(p.fdims).Draw(rt, "bad/fdimname")
				if _, has := p.dims[n]; !has && !has_(dims, n) && n != name && !p.rootVar[n] && !p.rootGrp[n] && !p.coord[n] {
					d = n
				}
			}
		}
		dims = append(dims, d)
	}
	attrs := m.Attrs(rt, "bad/att", 3, 20, m.NumTypes, 1, 4, false)
	for i := range attrs {
		if m.H5Reserved[attrs[i].Name] {
			attrs[i].Name += "x"
		}
	}
	kinds := []string{"name", "type", "attribute name", "attribute type", "too many dimensions", "dimension name", "own extents", "group attribute", "double attribute"}
	if len(p.group.vars) > 0 {
		kinds = append(kinds, "used name")
	}
	if len(p.dims) > 0 {
		kinds = append(kinds, "extent")
	}
	if p.hdf5 {
		kinds = append(kinds, "group name", "reserved attribute", "big attribute", "NUL in string", "rank", "long name", "ragged", "own dimension's name")
		if len(p.group.groups) > 0 {
			kinds = append(kinds, "group's name")
		}
		if len(p.group.vars) > 0 {
			kinds = append(kinds, "group named as variable")
		}
		if len(p.rootGrp) > 0 {
			kinds = append(kinds, "dimension named as group")
		}
		if len(p.rootVar) > 0 {
			kinds = append(kinds, "dimension named as variable")
		}
		if p.root && len(p.dims) > 0 {
			kinds = append(kinds, "group named as dimension", "variable named as dimension")
		}
	} else {
		kinds = append(kinds, "ragged", "ragged", "empty", "group")
		for _, n := range p.dims {
			if n == 0 {
				kinds = append(kinds, "second unlimited")
				break
			}
		}
	}
	kind := rapid.SampledFrom(kinds).Draw(rt, "bad/kind")
	addVar := func() flawed {
		v := api.Variable{Values: val, Dimensions: dims}
		if len(attrs) > 0 {
			v.Attributes = m.AttrMap(attrs)
		}
		return flawed{kind, fmt.Sprintf("AddVar(%.40q, %.100q, %s, %d attributes)", name, dims, m.Short(val), len(attrs)),
			func(w api.Writer) error { return w.AddVar(name, v) }}
	}
	withAtt := func(a api.AttributeMap) flawed {
		if rapid.Bool().Draw(rt, "bad/global") {
			return flawed{kind + " (group)", fmt.Sprintf("AddAttributes(%.200q)", a.Keys()), func(w api.Writer) error { return w.AddAttributes(a) }}
		}
		return flawed{kind + " (variable)", fmt.Sprintf("AddVar(%.40q, %.100q, %s, attributes %.200q)", name, dims, m.Short(val), a.Keys()),
			func(w api.Writer) error {
				return w.AddVar(name, api.Variable{Values: val, Dimensions: dims, Attributes: a})
			}}
	}
	badAtt := func(bad m.Attr) flawed {
		at := rapid.IntRange(0, len(attrs)).Draw(rt, "bad/at")
		l := append(append(append([]m.Attr{}, attrs[:at]...), bad), attrs[at:]...)
		return withAtt(rawMap(l))
	}
	ensureRank := func(n int) {
		for len(shape) < n {
			shape = append(shape, 2)
			dims = append(dims, "")
		}
		flat := m.Flat(rt, typ, m.Prod(shape), "bad/val")
		if s, ok := flat.([]string); ok {
			s[0] += "zz"
		}
		val = m.Nest(flat, shape)
	}
	switch kind {
	case "name":
		name = rapid.SampledFrom(c14BadNames).Draw(rt, "bad/bad")
		return addVar()
	case "used name":
		name = p.pick(rt, p.group.vars)
		return addVar()
	case "group's name":
		name = p.pick(rt, p.group.groups)
		return addVar()
	case "type":
		val = rapid.SampledFrom(unstorable()).Draw(rt, "bad/unstorable")
		if rapid.Bool().Draw(rt, "bad/nodims") {
			dims = nil
		}
		return addVar()
	case "attribute name":
		return badAtt(m.Attr{Name: rapid.SampledFrom(c14BadNames).Draw(rt, "bad/bad"), Val: m.AttrVal(rt, "bad/av", m.NumTypes, 1, 4, false)})
	case "attribute type", "group attribute":
		l := unstorable()
		if p.hdf5 {
			l = append(l, "a\x00b", []string{"x", "a\x00b"})
		} else {
			l = append(l, []string{"a"}, []string{}, [][]int32{{1}}, [2]int32{1, 2}, namedInt(1), []namedInt{1}, namedStr("x"))
		}
		if rapid.IntRange(0, 9).Draw(rt, "bad/phantom") == 0 {
			return withAtt(phantom{rawMap(attrs)})
		}
		return badAtt(m.Attr{Name: m.Name(rt, "bad/an", 20) + "~", Val: rapid.SampledFrom(l).Draw(rt, "bad/unstorable")})
	case "double attribute":
		a := m.Attr{Name: m.Name(rt, "bad/an", 20) + "~", Val: m.AttrVal(rt, "bad/av", m.NumTypes, 1, 4, false)}
		attrs = append(attrs, a)
		return badAtt(a)
	case "too many dimensions":
		if typ == m.StringType && !p.hdf5 {
			dims = append(dims, "")
		}
		for k := rapid.IntRange(1, 3).Draw(rt, "bad/more"); k > 0; k-- {
			dims = append(dims, rapid.SampledFrom([]string{"", fmt.Sprintf("more%d", k)}).Draw(rt, "bad/moredim"))
		}
		return addVar()
	case "dimension name":
		ensureRank(1)
		dims[rapid.IntRange(0, len(shape)-1).Draw(rt, "bad/at")] = rapid.SampledFrom([]string{"a/b", "/", "a\x01", "a ", "\n", " ", "x\x00", "a\u0085"}).Draw(rt, "bad/bad")
		return addVar()
	case "own extents":
		ensureRank(2)
		a := rapid.IntRange(1, len(shape)-1).Draw(rt, "bad/at")
		b := rapid.IntRange(0, a-1).Draw(rt, "bad/at2")
		shape[a] = shape[b] + 1
		ensureRank(0)
		dims[a], dims[b] = "twice", "twice"
		return addVar()
	case "extent":
		ensureRank(1)
		d := rapid.SampledFrom(sorted(keysOf(p.dims))).Draw(rt, "bad/which")
		at := rapid.IntRange(0, len(shape)-1).Draw(rt, "bad/at")
		if uint64(shape[at]) == p.dims[d] {
			shape[at]++
			ensureRank(0)
		}
		if p.hdf5 && p.root && d == name {
			name += "~"
		}
		dims[at] = d
		return addVar()
	case "ragged":
		ensureRank(2)
		lvl := rapid.IntRange(0, len(shape)-2).Draw(rt, "bad/level")
		val = raggedAt(rt, val, lvl)
		if p.hdf5 {
			for i := range dims {
				if dims[i] == "" {
					dims[i] = fmt.Sprintf("rag%d", i)
				}
			}
		} else if rapid.Bool().Draw(rt, "bad/nodims") {
			dims = nil
		}
		return addVar()
	case "empty":
		val = rapid.SampledFrom([]any{[]string{}, [][]int32{}, [][]int8{{}, {}}, [][]string{{}}, [][]string{{"", ""}}, []string{""}, [][][]float64{{{}}}, [][]uint16{{1}, {}}}).Draw(rt, "bad/empty")
		if rapid.Bool().Draw(rt, "bad/nodims") {
			dims = nil
		}
		return addVar()
	case "second unlimited":
		val, dims = []int16{}, []string{"seconddim"}
		return addVar()
	case "group":
		return flawed{kind, "CreateGroup", func(w api.Writer) error { _, err := w.CreateGroup(name); return err }}
	case "group name":
		name = rapid.SampledFrom(c14BadNames).Draw(rt, "bad/bad")
	case "group named as variable":
		name = p.pick(rt, p.group.vars)
	case "group named as dimension":
		name = rapid.SampledFrom(sorted(keysOf(p.dims))).Draw(rt, "bad/which")
		if p.rootGrp[name] {
			panic("harness: a group has the name of a dimension")
		}
	case "variable named as dimension":
		name = rapid.SampledFrom(sorted(keysOf(p.dims))).Draw(rt, "bad/which")
		return addVar()
	case "own dimension's name":
		if !p.root {
			return badAtt(m.Attr{Name: "CLASS", Val: "x"})
		}
		ensureRank(2)
		name = p.fresh(rt)
		dims[rapid.IntRange(0, len(shape)-1).Draw(rt, "bad/at")] = name
		return addVar()
	case "dimension named as group":
		ensureRank(1)
		dims[rapid.IntRange(0, len(shape)-1).Draw(rt, "bad/at")] = p.pick(rt, p.rootGrp)
		return addVar()
	case "dimension named as variable":
		ensureRank(1)
		dims[rapid.IntRange(0, len(shape)-1).Draw(rt, "bad/at")] = p.pick(rt, p.rootVar)
		return addVar()
	case "reserved attribute":
		return badAtt(m.Attr{Name: rapid.SampledFrom(sorted(keysOf(m.H5Reserved))).Draw(rt, "bad/reserved"), Val: m.AttrVal(rt, "bad/av", m.NumTypes, 1, 4, false)})
	case "big attribute":
		n := rapid.IntRange(65536, 70000).Draw(rt, "bad/n")
		return badAtt(m.Attr{Name: "big~", Val: rapid.SampledFrom([]any{strings.Repeat("x", n), make([]int8, n), make([]float64, n/8), make([][]int32, n/16)}).Draw(rt, "bad/big")})
	case "NUL in string":
		typ = m.StringType
		flat := m.Flat(rt, typ, m.Prod(shape), "bad/val").([]string)
		flat[rapid.IntRange(0, len(flat)-1).Draw(rt, "bad/at")] = rapid.SampledFrom([]string{"a\x00b", "\x00x", "ab\x00\x00c\x00"}).Draw(rt, "bad/nul")
		val = m.Nest(flat, shape)
		return addVar()
	case "rank":
		shape = make([]int, rapid.IntRange(33, 40).Draw(rt, "bad/rank"))
		for i := range shape {
			shape[i] = 1
		}
		dims = make([]string, len(shape))
		ensureRank(0)
		return addVar()
	case "long name":
		name = strings.Repeat("n", rapid.IntRange(65536, 66000).Draw(rt, "bad/n"))
		if rapid.Bool().Draw(rt, "bad/var") {
			return addVar()
		}
		kind = "long group name"
	default:
		panic("harness: " + kind)
	}
	return flawed{kind, fmt.Sprintf("CreateGroup(%.40q)", name), func(w api.Writer) error { _, err := w.CreateGroup(name); return err }}
}

func has_(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// raggedAt changes the length of one of the slices below level lvl, which has at
// least two of them.
func raggedAt(rt *rapid.T, val any, lvl int) any {
	rv := reflect.ValueOf(val)
	cp := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
	reflect.Copy(cp, rv)
	i := rapid.IntRange(0, rv.Len()-1).Draw(rt, "bad/ragged")
	if lvl > 0 {
		cp.Index(i).Set(reflect.ValueOf(raggedAt(rt, rv.Index(i).Interface(), lvl-1)))
		return cp.Interface()
	}
	in := rv.Index(i)
	n := in.Len()
	if rapid.Bool().Draw(rt, "bad/longer") {
		cp.Index(i).Set(reflect.Append(in.Slice3(0, n, n), in.Index(0)))
	} else {
		cp.Index(i).Set(in.Slice(0, rapid.IntRange(0, n-1).Draw(rt, "bad/shorter")))
	}
	return cp.Interface()
}

// c14Run makes the calls of a program with flawed calls in between and returns the file.
func c14Run(rt *rapid.T, r *h.Rec, w api.Writer, hdf5 bool, ops []m.H5Op, path string, bad bool) (after []api.Writer, desc []string, nontriv bool) {
	handles := []api.Writer{w}
	root := &where{map[string]bool{}, map[string]bool{}}
	groups := []*where{root}
	byName := map[*where]map[string]*where{}
	p := &place{hdf5: hdf5, rootVar: map[string]bool{}, rootGrp: root.groups, dims: map[string]uint64{}, coord: map[string]bool{}}
	try := func(i int) {
		gi := rapid.IntRange(0, len(handles)-1).Draw(rt, "bad/in")
		p.group, p.root = groups[gi], groups[gi] == root
		p.future, p.fdims = nil, nil
		for _, o := range ops[i:] {
			if o.Create != "" {
				p.future = append(p.future, o.Create)
			} else if o.Var != nil {
				p.future = append(p.future, o.Var.Name)
				for _, d := range o.Var.Dims {
					if d != "" {
						p.fdims = append(p.fdims, d)
					}
				}
			}
		}
		f := p.flaw(rt)
		what := fmt.Sprintf("#%d.%s [%s]", gi, f.desc, f.what)
		h.Describe(what)
		var err error
		if msg := h.NoPanic(func() { err = f.do(handles[gi]) }); msg != "" {
			rt.Fatalf("a call that cannot be stored panicked: %s: %s\nbefore: %s", what, msg, ops[:i])
		}
		if err == nil {
			rt.Fatalf("a call that cannot be stored was accepted: %s\nbefore: %s", what, ops[:i])
		}
		r.Class("flaw: " + f.what)
		desc = append(desc, fmt.Sprintf("%d: %s", i, what))
		if i < len(ops) {
			nontriv = true
		}
	}
	for i, o := range ops {
		if bad {
			for rapid.IntRange(0, 2).Draw(rt, "bad/here") == 0 {
				try(i)
			}
		}
		sub, err := o.Call(handles)
		if err != nil {
			rt.Fatalf("a call that should be accepted failed: %v: %s\nrefused before: %s\nbefore: %s", err, o, desc, ops[:i])
		}
		g := groups[o.Group]
		switch {
		case o.Create != "":
			handles = append(handles, sub)
			if byName[g] == nil {
				byName[g] = map[string]*where{}
			}
			if byName[g][o.Create] == nil {
				byName[g][o.Create] = &where{map[string]bool{}, map[string]bool{}}
			}
			g.groups[o.Create] = true
			groups = append(groups, byName[g][o.Create])
		case o.Var != nil:
			g.vars[o.Var.Name] = true
			var shape []int
			if hdf5 {
				shape = m.Shape(o.Var.Val)
			} else {
				shape = m.CDFShape(o.Var.Val, o.Var.Dims)
			}
			for j, d := range o.Var.Dims {
				if d != "" && j < len(shape) {
					p.dims[d] = uint64(shape[j])
				} else if d != "" {
					p.dims[d] = 0
				}
			}
			if hdf5 && g == root {
				if len(o.Var.Dims) == 1 && o.Var.Dims[0] == o.Var.Name {
					p.coord[o.Var.Name] = true
				} else {
					p.rootVar[o.Var.Name] = true
				}
			}
		}
	}
	if bad {
		for rapid.IntRange(0, 2).Draw(rt, "bad/here") == 0 {
			try(len(ops))
		}
	}
	for _, s := range handles[1:] {
		if err := s.Close(); err != nil {
			rt.Fatalf("Close of a subgroup: %v", err)
		}
	}
	var err error
	if msg := h.NoPanic(func() { err = w.Close() }); msg != "" || err != nil {
		rt.Fatalf("Close: %v %s\nrefused before: %s\nprogram: %s", err, msg, desc, ops)
	}
	return handles, desc, nontriv
}

func c14Ops(rt *rapid.T, hdf5 bool) ([]m.H5Op, []string) {
	if hdf5 {
		p := m.H5Prog(rt, m.H5Opts{MaxVars: 5, MaxGroups: 3, MaxElems: 60, MaxName: 60, NoEmpty: true})
		_, cl := h5Classes(p)
		return p.Ops, append(cl, "HDF5")
	}
	p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 5, MaxElems: 60, MaxName: 60, ClassicPc: 60})
	var ops []m.H5Op
	for _, o := range p.Ops {
		ops = append(ops, m.H5Op{Var: o.Var, Attrs: o.Attrs})
	}
	_, cl := cdfClasses(p)
	return ops, append(cl, "CDF")
}

func c14Kind(hdf5 bool) netcdf.FileKind {
	if hdf5 {
		return netcdf.KindHDF5
	}
	return netcdf.KindCDF
}

func TestC14Refusals(t *testing.T) {
	h.Check(t, "C14", c14Rule, 40000, 800000, func(rt *rapid.T, r *h.Rec) {
		hdf5 := rapid.Bool().Draw(rt, "hdf5")
		ops, cl := c14Ops(rt, hdf5)
		var files [2][]byte
		var desc []string
		nontriv := false
		for i := range files {
			path := h.Path(fmt.Sprintf("c14-%d.nc", i))
			w, err := netcdf.OpenWriter(path, c14Kind(hdf5))
			if err != nil {
				rt.Fatalf("OpenWriter: %v", err)
			}
			handles, d, nt := c14Run(rt, r, w, hdf5, ops, path, i == 1)
			desc, nontriv = d, nt
			if files[i], err = os.ReadFile(path); err != nil {
				rt.Fatalf("%v", err)
			}
			// nothing works on a closed writer, and nothing changes the file
			if i == 1 {
				gi := rapid.IntRange(0, len(handles)-1).Draw(rt, "closed/in")
				for _, c := range []func() error{
					func() error { return handles[gi].AddVar("afterwards", api.Variable{Values: int32(1)}) },
					func() error { return handles[gi].AddAttributes(m.AttrMap([]m.Attr{{Name: "a", Val: "b"}})) },
					func() error { return handles[gi].AddAttributes(nil) },
					func() error { _, err := handles[gi].CreateGroup("afterwards"); return err },
				} {
					var err error
					if msg := h.NoPanic(func() { err = c() }); msg != "" {
						rt.Fatalf("a call after Close panicked: %s", msg)
					}
					if err == nil {
						rt.Fatalf("a call after Close was accepted (handle %d)\nprogram: %s", gi, ops)
					}
				}
				if msg := h.NoPanic(func() { handles[0].Close(); handles[gi].Close(); handles[0].Close() }); msg != "" {
					rt.Fatalf("a second Close panicked: %s", msg)
				}
				again, err := os.ReadFile(path)
				if err != nil || !bytes.Equal(again, files[i]) {
					rt.Fatalf("a call after Close changed the file")
				}
			}
		}
		if !bytes.Equal(files[0], files[1]) {
			rt.Fatalf("refused calls left a trace in the file: %d bytes without them, %d with them, first difference at %d\nrefused: %s\nprogram: %s",
				len(files[0]), len(files[1]), firstDiff(files[0], files[1]), strings.Join(desc, "\n  "), ops)
		}
		r.Case(nontriv, fmt.Sprintf("%s\nrefused: %s", ops, strings.Join(desc, "; ")), cl...)
	})
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// TestC14Dubious: values of named types, arrays and the like are refused or stored as
// what they are.
func TestC14Dubious(t *testing.T) {
	h.Check(t, "C14", "values of named Go types, Go arrays and lists of strings of no length, written as variable or attribute with full, partial or no dimension lists: refused without a trace or delivered unchanged; non-trivial: every case", 20000, 200000, func(rt *rapid.T, r *h.Rec) {
		hdf5 := rapid.Bool().Draw(rt, "hdf5")
		path := h.Path("c14d.nc")
		w, err := netcdf.OpenWriter(path, c14Kind(hdf5))
		if err != nil {
			rt.Fatalf("OpenWriter: %v", err)
		}
		val := rapid.SampledFrom(dubious()).Draw(rt, "val")
		plain := plainVal(val)
		rank := m.Depth(plain)
		nd := rapid.IntRange(0, rank).Draw(rt, "nd")
		asAttr := rapid.Bool().Draw(rt, "attr")
		v := api.Variable{Values: int32(5)}
		if asAttr {
			v.Attributes = rawMap{{Name: "att", Val: val}}
		} else {
			v.Values = val
			for i := 0; i < nd; i++ {
				v.Dimensions = append(v.Dimensions, rapid.SampledFrom([]string{"", fmt.Sprintf("d%d", i)}).Draw(rt, "dim"))
			}
		}
		what := fmt.Sprintf("%T %v, dimensions %q, attribute %v, HDF5 %v", val, val, v.Dimensions, asAttr, hdf5)
		h.Describe(what)
		var addErr, closeErr error
		if msg := h.NoPanic(func() { addErr = w.AddVar("v", v); closeErr = w.Close() }); msg != "" {
			rt.Fatalf("panic: %s: %s", what, msg)
		}
		if closeErr != nil {
			rt.Fatalf("%s: AddVar: %v, then Close: %v", what, addErr, closeErr)
		}
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("%s: %v", what, err)
		}
		defer g.Close()
		if addErr != nil {
			if l := g.ListVariables(); len(l) != 0 {
				rt.Fatalf("%s: refused but there: %q", what, l)
			}
			r.Case(true, what, "refused")
			return
		}
		got, err := g.GetVariable("v")
		if err != nil {
			rt.Fatalf("%s: accepted: %v", what, err)
		}
		gv, want := got.Values, plain
		if asAttr {
			gv, _ = got.Attributes.Get("att")
			want = m.NormAttr(plain)
		} else if !hdf5 {
			want = m.CDFValue(plain)
		}
		if d := m.Diff(gv, want); d != "" {
			rt.Fatalf("%s: accepted, but delivers %s", what, d)
		}
		r.Case(true, what, "accepted")
	})
}
