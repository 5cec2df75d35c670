// Package m has the in-memory model of NetCDF content, generators for it, and
// exact comparison of values.
package m

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

// Attr is an attribute: a scalar, a slice, or a string.
type Attr struct {
	Name string
	Val  any
}

// Var is a variable as given to a writer or as read.
type Var struct {
	Name  string
	Val   any
	Dims  []string
	Attrs []Attr
}

// Group is a group (or a whole file).
type Group struct {
	Name   string
	Attrs  []Attr
	Vars   []Var
	Groups []*Group
}

// AttrMap builds the api attribute map (nil for none when asNil).
func AttrMap(attrs []Attr) api.AttributeMap {
	keys := []string{}
	vals := map[string]any{}
	for _, a := range attrs {
		keys = append(keys, a.Name)
		vals[a.Name] = a.Val
	}
	om, err := util.NewOrderedMap(keys, vals)
	if err != nil {
		panic(err)
	}
	return om
}

// ReadAttrs reads all attributes of a map, in Keys order.
func ReadAttrs(am api.AttributeMap) ([]Attr, error) {
	var ret []Attr
	if am == nil {
		return nil, nil
	}
	for _, k := range am.Keys() {
		v, has := am.Get(k)
		if !has {
			return ret, fmt.Errorf("attribute %q is listed but Get does not find it", k)
		}
		ret = append(ret, Attr{k, v})
	}
	return ret, nil
}

// ReadGroup reads everything there is through the API.
func ReadGroup(g api.Group, name string) (*Group, error) {
	ret := &Group{Name: name}
	var err error
	if ret.Attrs, err = ReadAttrs(g.Attributes()); err != nil {
		return ret, err
	}
	for _, vn := range g.ListVariables() {
		v, err := g.GetVariable(vn)
		if err != nil {
			return ret, fmt.Errorf("GetVariable(%q): %w", vn, err)
		}
		at, err := ReadAttrs(v.Attributes)
		if err != nil {
			return ret, fmt.Errorf("variable %q: %w", vn, err)
		}
		ret.Vars = append(ret.Vars, Var{vn, v.Values, v.Dimensions, at})
	}
	for _, gn := range g.ListSubgroups() {
		sub, err := g.GetGroup(gn)
		if err != nil {
			return ret, fmt.Errorf("GetGroup(%q): %w", gn, err)
		}
		sg, err := ReadGroup(sub, gn)
		sub.Close()
		if err != nil {
			return ret, fmt.Errorf("in group %q: %w", gn, err)
		}
		ret.Groups = append(ret.Groups, sg)
	}
	return ret, nil
}

// Diff compares two values bit for bit (NaNs by bits, nil and empty slices of
// the same type alike) and describes the first difference, "" if none.
func Diff(got, want any) string {
	return diff(reflect.ValueOf(got), reflect.ValueOf(want), "")
}

func diff(a, b reflect.Value, path string) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("at %q: one side is nil (got %v want %v)", path, a.IsValid(), b.IsValid())
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("at %q: type got %v want %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("at %q: length got %d want %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float32:
		x, y := math.Float32bits(float32(a.Float())), math.Float32bits(float32(b.Float()))
		// signalling NaNs become quiet when converted through float64
		if x != y && !(math.IsNaN(a.Float()) && math.IsNaN(b.Float())) {
			return fmt.Sprintf("at %q: got %v (%#x) want %v (%#x)", path, a.Float(), x, b.Float(), y)
		}
		return ""
	case reflect.Float64:
		x, y := math.Float64bits(a.Float()), math.Float64bits(b.Float())
		if x != y {
			return fmt.Sprintf("at %q: got %v (%#x) want %v (%#x)", path, a.Float(), x, b.Float(), y)
		}
		return ""
	case reflect.Interface, reflect.Pointer:
		return diff(a.Elem(), b.Elem(), path)
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("at %q: got %.200q want %.200q", path, a.String(), b.String())
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		return ""
	}
	switch {
	case a.CanInt():
		if a.Int() != b.Int() {
			return fmt.Sprintf("at %q: got %d want %d", path, a.Int(), b.Int())
		}
	case a.CanUint():
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("at %q: got %d want %d", path, a.Uint(), b.Uint())
		}
	case a.Kind() == reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("at %q: bool differs", path)
		}
	default:
		if fmt.Sprintf("%#v", a) != fmt.Sprintf("%#v", b) {
			return fmt.Sprintf("at %q: got %#v want %#v", path, a, b)
		}
	}
	return ""
}

// NormAttr is what reading gives for a written attribute value: slices of one
// element come back as scalars.
func NormAttr(v any) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice && rv.Len() == 1 {
		return rv.Index(0).Interface()
	}
	return v
}

// DiffAttrs compares attribute lists. ordered demands the same order.
func DiffAttrs(got, want []Attr, ordered bool) string {
	g, w := got, want
	if !ordered {
		g = append([]Attr{}, got...)
		w = append([]Attr{}, want...)
		sort.SliceStable(g, func(i, j int) bool { return g[i].Name < g[j].Name })
		sort.SliceStable(w, func(i, j int) bool { return w[i].Name < w[j].Name })
	}
	if len(g) != len(w) {
		return fmt.Sprintf("attributes: got %d %q want %d %q", len(g), AttrNames(g), len(w), AttrNames(w))
	}
	for i := range g {
		if g[i].Name != w[i].Name {
			return fmt.Sprintf("attributes: got %.2000q want %.2000q", AttrNames(g), AttrNames(w))
		}
		if d := Diff(g[i].Val, w[i].Val); d != "" {
			return fmt.Sprintf("attribute %.100q: %s", g[i].Name, d)
		}
	}
	return ""
}

// AttrNames lists names.
func AttrNames(a []Attr) []string {
	var r []string
	for _, x := range a {
		r = append(r, x.Name)
	}
	return r
}

// VarNames lists names.
func VarNames(a []Var) []string {
	var r []string
	for _, x := range a {
		r = append(r, x.Name)
	}
	return r
}

// GroupNames lists names.
func GroupNames(a []*Group) []string {
	var r []string
	for _, x := range a {
		r = append(r, x.Name)
	}
	return r
}

// Shape of a rectangular nested slice value (strings are leaves).
func Shape(v any) []int {
	var s []int
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Slice {
		s = append(s, rv.Len())
		if rv.Len() == 0 {
			// extents below cannot be told
			for t := rv.Type().Elem(); t.Kind() == reflect.Slice; t = t.Elem() {
				s = append(s, 0)
			}
			return s
		}
		rv = rv.Index(0)
	}
	return s
}

// ElemType is the innermost element type of nested slices.
func ElemType(v any) reflect.Type {
	t := reflect.TypeOf(v)
	for t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	return t
}

// Depth is the number of slice levels.
func Depth(v any) int {
	n := 0
	for t := reflect.TypeOf(v); t.Kind() == reflect.Slice; t = t.Elem() {
		n++
	}
	return n
}

// Nest turns a flat slice into nested slices of the given shape ([] gives a scalar).
func Nest(flat any, shape []int) any {
	rv := reflect.ValueOf(flat)
	return nest(rv, shape).Interface()
}

func nest(rv reflect.Value, shape []int) reflect.Value {
	if len(shape) == 0 {
		return rv.Index(0)
	}
	t := rv.Type().Elem()
	for range shape {
		t = reflect.SliceOf(t)
	}
	ret := reflect.MakeSlice(t, shape[0], shape[0])
	if len(shape) == 1 {
		reflect.Copy(ret, rv)
		return ret
	}
	n := 1
	for _, s := range shape[1:] {
		n *= s
	}
	for i := 0; i < shape[0]; i++ {
		ret.Index(i).Set(nest(rv.Slice(i*n, (i+1)*n), shape[1:]))
	}
	return ret
}

// Flatten is the inverse of Nest: a flat slice of the leaves.
func Flatten(v any) any {
	rv := reflect.ValueOf(v)
	t := ElemType(v)
	out := reflect.MakeSlice(reflect.SliceOf(t), 0, 0)
	var walk func(x reflect.Value)
	walk = func(x reflect.Value) {
		if x.Kind() == reflect.Slice {
			if x.Type().Elem() == t {
				out = reflect.AppendSlice(out, x)
				return
			}
			for i := 0; i < x.Len(); i++ {
				walk(x.Index(i))
			}
			return
		}
		out = reflect.Append(out, x)
	}
	walk(rv)
	return out.Interface()
}

// Rect cuts the box [begin,end) out of a nested value, by brute force. Strings
// count as a dimension when chars is set (classic char data).
func Rect(v any, begin, end []int64, chars bool) any {
	return rect(reflect.ValueOf(v), begin, end, chars).Interface()
}

func rect(rv reflect.Value, b, e []int64, chars bool) reflect.Value {
	if len(b) == 0 {
		return rv
	}
	if rv.Kind() == reflect.String && chars {
		return reflect.ValueOf(rv.String()[b[0]:e[0]])
	}
	n := int(e[0] - b[0])
	out := reflect.MakeSlice(rv.Type(), n, n)
	for i := 0; i < n; i++ {
		out.Index(i).Set(rect(rv.Index(int(b[0])+i), b[1:], e[1:], chars))
	}
	return out
}

// Short is a compact description of a value.
func Short(v any) string {
	if v == nil {
		return "nil"
	}
	s := fmt.Sprintf("%T%v", v, v)
	if rv := reflect.ValueOf(v); rv.Kind() == reflect.String {
		s = fmt.Sprintf("%q", v)
	} else if rv.Kind() == reflect.Slice && ElemType(v).Kind() == reflect.String {
		s = fmt.Sprintf("%T%q", v, v)
	}
	if len(s) > 160 {
		s = s[:160] + fmt.Sprintf("..(%d)", len(s))
	}
	return s
}

// String describes a group.
func (g *Group) String() string {
	var sb strings.Builder
	g.str(&sb, "")
	return sb.String()
}

func (g *Group) str(sb *strings.Builder, ind string) {
	fmt.Fprintf(sb, "%sgroup %.60q {", ind, g.Name)
	for _, a := range g.Attrs {
		fmt.Fprintf(sb, " @%.60q=%s", a.Name, Short(a.Val))
	}
	for _, v := range g.Vars {
		fmt.Fprintf(sb, "; %.60q%q=%s", v.Name, v.Dims, Short(v.Val))
		for _, a := range v.Attrs {
			fmt.Fprintf(sb, " @%.60q=%s", a.Name, Short(a.Val))
		}
	}
	for _, s := range g.Groups {
		sb.WriteString(" ")
		s.str(sb, "")
	}
	sb.WriteString(" }")
}
