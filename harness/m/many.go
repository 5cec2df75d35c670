package m

import (
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"verifharness/cdfspec"
)

// many draws a large number, which may be at one of the usual limits.
func many(rt *rapid.T, most int) int {
	n := rapid.SampledFrom([]int{63, 100, 127, 200, 255, 400, 511, 700, 1023, 1024, 1500, 2047, 3000, 4095, 5000}).Draw(rt, "many")
	return min(n+rapid.IntRange(0, 3).Draw(rt, "+"), most)
}

func manyName(rt *rapid.T, stem string) func(i int) string {
	tail := rapid.SampledFrom([]string{"", "é", "_long_name_of_" + stem, " x"}).Draw(rt, "tail")
	return func(i int) string { return fmt.Sprintf("%s%d%s", stem, i, tail) }
}

func manyAttrs(rt *rapid.T, types []reflect.Type, n int) []Attr {
	name := manyName(rt, "att")
	var vals []any
	for i := rapid.IntRange(1, 5).Draw(rt, "kinds"); i > 0; i-- {
		t := rapid.SampledFrom(types).Draw(rt, "t")
		vals = append(vals, reflect.Zero(t).Interface(), Flat(rt, t, 3, "v"), strings.Repeat("text", i))
	}
	var r []Attr
	for i := 0; i < n; i++ {
		r = append(r, Attr{Name: name(i), Val: vals[i%len(vals)]})
	}
	return r
}

// rectangle draws a value with the given shape.
func rectangle(rt *rapid.T, t reflect.Type, shape []int) any {
	return Nest(Flat(rt, t, Prod(shape), "data"), shape)
}

// Swell adds much of one thing to a program: variables, dimensions, attributes, strings,
// or dimensions of one variable (up to rank). It returns what.
func (p *Program) Swell(rt *rapid.T, types []reflect.Type, most, rank int) string {
	var ops []Op
	what := rapid.SampledFrom([]string{"variables", "dimensions", "coordinates", "attributes", "global attributes", "strings", "rank"}).Draw(rt, "what")
	switch what {
	case "variables", "dimensions", "coordinates":
		n := many(rt, most)
		name, dim := manyName(rt, "many"), manyName(rt, "dim")
		if what == "coordinates" {
			dim = name
		}
		t := rapid.SampledFrom(types).Draw(rt, "type")
		k := rapid.IntRange(1, 3).Draw(rt, "len")
		for i := 0; i < n; i++ {
			v := &Var{Name: name(i), Val: rectangle(rt, t, []int{k}), Dims: []string{dim(i)}}
			if what == "variables" {
				v.Dims[0] = "shared"
			}
			ops = append(ops, Op{Var: v})
		}
	case "attributes":
		ops = append(ops, Op{Var: &Var{Name: "many", Val: int32(1), Attrs: manyAttrs(rt, types, many(rt, most))}})
	case "global attributes":
		ops = append(ops, Op{Attrs: manyAttrs(rt, types, many(rt, most))})
	case "strings":
		n := many(rt, 4*most)
		s := make([]string, n)
		l := rapid.SampledFrom([]int{1, 7, 8, 17, 100}).Draw(rt, "strlen")
		for i := range s {
			s[i] = strings.Repeat(string(rune('a'+i%26)), 1+i*7%l)
		}
		ops = append(ops, Op{Var: &Var{Name: "many", Val: s, Dims: []string{"shared"}}})
	case "rank":
		n := rapid.IntRange(4, rank).Draw(rt, "rank")
		shape := make([]int, n)
		v := &Var{Name: "many"}
		elems := 1
		name := manyName(rt, "dim")
		for i := range shape {
			shape[i] = 1
			if rapid.IntRange(0, 3).Draw(rt, "wide") == 0 && elems < 500 {
				shape[i] = rapid.IntRange(2, 3).Draw(rt, "len")
			}
			elems *= shape[i]
			v.Dims = append(v.Dims, name(i))
		}
		v.Val = rectangle(rt, reflect.TypeOf(int16(0)), shape)
		ops = append(ops, Op{Var: v})
	}
	at := rapid.IntRange(0, len(p.Ops)).Draw(rt, "at")
	p.Ops = append(append(append([]Op{}, p.Ops[:at]...), ops...), p.Ops[at:]...)
	return what
}

// Swell adds much of one thing to a program, maybe groups.
func (p *H5Program) Swell(rt *rapid.T, most int) string {
	var ops []H5Op
	groups := 1
	for _, o := range p.Ops {
		if o.Create != "" {
			groups++
		}
	}
	what := rapid.SampledFrom([]string{"", "", "", "groups", "depth", "vlen"}).Draw(rt, "whatelse")
	switch what {
	case "groups", "depth":
		n, g := many(rt, most), rapid.IntRange(0, groups-1).Draw(rt, "in")
		if what == "depth" {
			n = min(n, 300)
		}
		name := manyName(rt, "grp")
		for i := 0; i < n; i++ {
			ops = append(ops, H5Op{Group: g, Create: name(i)})
			if what == "depth" {
				g = groups + i
			}
		}
		ops = append(ops, H5Op{Group: groups + n - 1, Var: &Var{Name: "last", Val: int8(5)}})
	case "vlen":
		v := make([][]int16, many(rt, 2*most))
		l := rapid.SampledFrom([]int{2, 9, 40}).Draw(rt, "vlenlen")
		for i := range v {
			v[i] = make([]int16, i*5%l)
			for j := range v[i] {
				v[i][j] = int16(i + j)
			}
		}
		ops = append(ops, H5Op{Group: rapid.IntRange(0, groups-1).Draw(rt, "in"), Var: &Var{Name: "many", Val: v, Dims: []string{"shared"}}})
	default:
		var q Program
		what = q.Swell(rt, NumTypes, most, 32)
		g := rapid.IntRange(0, groups-1).Draw(rt, "in")
		for _, o := range q.Ops {
			ops = append(ops, H5Op{Group: g, Var: o.Var, Attrs: o.Attrs})
		}
	}
	p.Ops = append(p.Ops, ops...)
	return what
}

// swell adds much of one thing to a file.
func swell(rt *rapid.T, f *cdfspec.File, nt, most int) string {
	what := rapid.SampledFrom([]string{"variables", "dimensions", "attributes", "global attributes", "records", "rank"}).Draw(rt, "what")
	atts := func() []cdfspec.Att {
		name := manyName(rt, "att")
		t := rapid.IntRange(1, nt).Draw(rt, "t")
		data := Flat(rt, cdfspec.GoType(t), rapid.IntRange(1, 3).Draw(rt, "len"), "v")
		var r []cdfspec.Att
		for i, n := 0, many(rt, most); i < n; i++ {
			r = append(r, cdfspec.Att{Name: name(i), Type: t, Data: data})
		}
		return r
	}
	rec := -1
	for i, d := range f.Dims {
		if d.Len == 0 {
			rec = i
		}
	}
	t := rapid.IntRange(1, nt).Draw(rt, "type")
	dims := len(f.Dims)
	switch what {
	case "records":
		if rec < 0 {
			rec = len(f.Dims)
			f.Dims = append(f.Dims, cdfspec.Dim{Name: "record"})
		}
		for i := range f.Vars {
			if f.IsRec(&f.Vars[i]) {
				return "records after all few" // their data is drawn
			}
		}
		f.NumRecs = int64(many(rt, 4*most))
		for i := rapid.IntRange(1, 3).Draw(rt, "recvars"); i > 0; i-- {
			f.Vars = append(f.Vars, cdfspec.Var{Name: fmt.Sprint("many", i), Type: t, DimIDs: []int{rec}, Data: Flat(rt, cdfspec.GoType(t), int(f.NumRecs), "data")})
			t = rapid.IntRange(1, nt).Draw(rt, "type")
		}
	case "variables", "dimensions":
		n := many(rt, most)
		dim, name := manyName(rt, "dim"), manyName(rt, "many")
		isRec := rec >= 0 && rapid.Bool().Draw(rt, "isrec")
		k := int64(rapid.IntRange(1, 3).Draw(rt, "len"))
		elems := k
		if isRec {
			elems *= f.NumRecs
		}
		data := Flat(rt, cdfspec.GoType(t), int(elems), "data")
		every := rapid.SampledFrom([]int{1, 10, 1000}).Draw(rt, "every")
		for i := 0; i < n; i++ {
			if i == 0 || what == "dimensions" {
				f.Dims = append(f.Dims, cdfspec.Dim{Name: dim(i), Len: k})
			}
			if what == "dimensions" && i%every > 0 && i < n-1 {
				continue // has no variable
			}
			v := cdfspec.Var{Name: name(i), Type: t, DimIDs: []int{len(f.Dims) - 1}, Data: data}
			if isRec {
				v.DimIDs = []int{rec, len(f.Dims) - 1}
			}
			f.Vars = append(f.Vars, v)
		}
	case "attributes":
		f.Vars = append(f.Vars, cdfspec.Var{Name: "many", Type: t, Atts: atts(), Data: Flat(rt, cdfspec.GoType(t), 1, "data")})
	case "global attributes":
		f.Atts = append(f.Atts, atts()...)
	case "rank":
		v := cdfspec.Var{Name: "many", Type: t}
		n := rapid.IntRange(4, 60).Draw(rt, "rank")
		elems := 1
		for i := 0; i < n; i++ {
			l := 1
			if rapid.IntRange(0, 3).Draw(rt, "wide") == 0 && elems < 500 {
				l = rapid.IntRange(2, 3).Draw(rt, "len")
			}
			elems *= l
			if l > 1 || i%7 == 0 {
				f.Dims = append(f.Dims, cdfspec.Dim{Name: fmt.Sprint("dim", dims, "_", i), Len: int64(l)})
			}
			if l == 1 && f.Dims[len(f.Dims)-1].Len > 1 {
				f.Dims = append(f.Dims, cdfspec.Dim{Name: fmt.Sprint("one", dims, "_", i), Len: 1})
			}
			v.DimIDs = append(v.DimIDs, len(f.Dims)-1)
		}
		v.Data = Flat(rt, cdfspec.GoType(t), elems, "data")
		f.Vars = append(f.Vars, v)
	}
	return what
}

// SomeTypes are all the numeric types, or those a version 1 file can hold.
func SomeTypes(rt *rapid.T) []reflect.Type {
	if rapid.Bool().Draw(rt, "v5") {
		return NumTypes
	}
	return ClassicTypes
}

func head(s string) string {
	if len(s) > 2000 {
		return fmt.Sprintf("%s... %d more", s[:2000], len(s)-2000)
	}
	return s
}

// Head is the beginning of a long description.
func (p *Program) Head() string   { return head(p.String()) }
func (p *H5Program) Head() string { return head(p.String()) }
func (s *SpecFile) Head() string  { return head(s.String()) }
