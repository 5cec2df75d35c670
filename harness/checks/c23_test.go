package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// mapping is the table of the documentation.
var mapping = map[string]string{
	"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort", "int32": "int", "uint32": "uint",
	"int64": "int64", "uint64": "uint64", "float32": "float", "float64": "double",
}

// isText says if a NetCDF type is one whose values are strings.
func isText(ty string, classic bool) bool { return ty == "char" || !classic && ty == "string" }

// declared says what is wrong with the types given for a variable's values. text is true
// for values made of strings, for which the last dimension may be that of the characters.
func declared(v any, rank int, goType, ty string, classic bool) (class, wrong string) {
	if v == nil {
		return "", "no value"
	}
	t := reflect.TypeOf(v)
	leaf := t
	depth := 0
	for leaf.Kind() == reflect.Slice && leaf.Name() == "" {
		leaf, depth = leaf.Elem(), depth+1
	}
	if arrayType.MatchString(goType) || namedList(goType, ty, leaf, depth) {
		return "user-defined", ""
	}
	basic := leaf.Name() == leaf.Kind().String() // not a type of the library's own
	want := strings.TrimLeft(goType, "[]")
	_, num := mapping[want]
	switch {
	case !basic && (num || want == "string"):
		return "", fmt.Sprintf("GoType is %q, but the values are %s", goType, t)
	case !basic:
		return "user-defined", ""
	case goType == "string":
		// of characters, whose last dimension is in the strings, or of strings
		if t.String() != strings.Repeat("[]", rank)+"string" && (ty == "string" && classic || t.String() != strings.Repeat("[]", max(0, rank-1))+"string") {
			return "", fmt.Sprintf("GoType is %q and Type %q, but the values are %s for %d dimensions", goType, ty, t, rank)
		}
		if !isText(ty, classic) {
			return "", fmt.Sprintf("Type is %q for values of type %s", ty, t)
		}
		return "text", ""
	case t.String() != strings.Repeat("[]", rank)+goType:
		return "", fmt.Sprintf("GoType is %q, but the values are %s for %d dimensions", goType, t, rank)
	case goType == want && ty != mapping[want]:
		return "", fmt.Sprintf("Type is %q for GoType %q, but it should be %q", ty, goType, mapping[want])
	case goType != want:
		return "lists", "" // of variable length
	}
	return "number", ""
}

// namedList says if the types are the name of a list type, which the values don't show.
func namedList(goType, ty string, leaf reflect.Type, depth int) bool {
	name := strings.ReplaceAll(goType, "[]", "")
	_, num := mapping[name]
	base := ty
	for strings.HasSuffix(base, "(*)") {
		base = strings.TrimSuffix(base, "(*)")
	}
	return name != "" && name == base && !num && name != "string" && depth > strings.Count(goType, "[]")
}

var arrayType = regexp.MustCompile(`\[\d+\]`) // described as such, delivered as slices

var attType = regexp.MustCompile(`^([a-z0-9]+)((?:\([*0-9,]+\))*)$`)

// declaredAtt says what is wrong with the types given for an attribute's value.
func declaredAtt(v any, goType, ty string, classic bool) (class, wrong string) {
	t := reflect.TypeOf(v)
	leaf := t
	depth := 0
	for leaf.Kind() == reflect.Slice && leaf.Name() == "" {
		leaf, depth = leaf.Elem(), depth+1
	}
	if arrayType.MatchString(goType) || namedList(goType, ty, leaf, depth) {
		return "user-defined", ""
	}
	if leaf.Name() != leaf.Kind().String() {
		if want := strings.TrimLeft(goType, "[]"); mapping[want] != "" || want == "string" {
			return "", fmt.Sprintf("GetGoType is %q for a value of type %s", goType, t)
		}
		return "user-defined", ""
	}
	if !attType.MatchString(ty) {
		return "user-defined", "" // a list or an array type
	}
	if goType != t.String() {
		return "", fmt.Sprintf("GetGoType is %q for a value of type %s", goType, t)
	}
	parts := attType.FindStringSubmatch(ty)
	if ok := parts[1] == mapping[leaf.Name()] || leaf.Kind() == reflect.String && (parts[1] == "string" || parts[1] == "char"); !ok {
		return "", fmt.Sprintf("GetType is %q for a value of type %s", ty, t)
	}
	var dims []string
	if parts[2] != "" {
		dims = strings.Split(strings.Trim(strings.ReplaceAll(parts[2], ")(", ","), "()"), ",")
	}
	if len(dims) != depth {
		return "", fmt.Sprintf("GetType is %q for a value of type %s", ty, t)
	}
	at := reflect.ValueOf(v)
	for i, d := range dims {
		n := at.Len()
		if d != "*" && d != strconv.Itoa(n) {
			return "", fmt.Sprintf("GetType is %q for a value with %d in dimension %d", ty, n, i)
		}
		if n == 0 {
			break
		}
		at = at.Index(0)
	}
	return fmt.Sprintf("attribute with %d dimensions", depth), ""
}

func checkAttTypes(where string, am api.AttributeMap, classic bool, cl map[string]bool) string {
	for _, k := range am.Keys() {
		v, has := am.Get(k)
		ty, ht := am.GetType(k)
		goTy, hg := am.GetGoType(k)
		if !has || !ht || !hg {
			return fmt.Sprintf("%s: attribute %.60q of the list: Get says %v, GetType %v, GetGoType %v", where, k, has, ht, hg)
		}
		c, wrong := declaredAtt(v, goTy, ty, classic)
		if wrong != "" {
			return fmt.Sprintf("%s: attribute %.60q: %s", where, k, wrong)
		}
		cl[c] = true
	}
	for _, k := range []string{"nosuch", "", "_Netcdf4Dimid", "_NCProperties", "DIMENSION_LIST", "CLASS", "NAME", "_FillValue", "_nc3_strict", "REFERENCE_LIST", "_Netcdf4Coordinates"} {
		v, has := am.Get(k)
		ty, ht := am.GetType(k)
		goTy, hg := am.GetGoType(k)
		if has != ht || has != hg {
			return fmt.Sprintf("%s: attribute %q: Get says %v (%v), GetType %v (%q), GetGoType %v (%q)", where, k, has, v, ht, ty, hg, goTy)
		}
	}
	return ""
}

func checkDeclared(g api.Group, path string, classic bool, cl map[string]bool) string {
	if d := checkAttTypes(fmt.Sprintf("group %.100q", path), g.Attributes(), classic, cl); d != "" {
		return d
	}
	for _, name := range g.ListVariables() {
		where := fmt.Sprintf("variable %.60q of group %.100q", name, path)
		vg, err := g.GetVarGetter(name)
		if err != nil {
			return where + ": " + err.Error()
		}
		sh := vg.Shape()
		if len(sh) > 0 && vg.Len() != sh[0] {
			return fmt.Sprintf("%s: Len is %d but the shape is %v", where, vg.Len(), sh)
		}
		if d := checkAttTypes(where, vg.Attributes(), classic, cl); d != "" {
			return d
		}
		type res struct {
			how string
			v   any
			err error
		}
		var vs []res
		v, err := vg.Values()
		vs = append(vs, res{"Values", v, err})
		av, err := g.GetVariable(name)
		if err == nil {
			vs = append(vs, res{"GetVariable", av.Values, nil})
			if d := checkAttTypes(where, av.Attributes, classic, cl); d != "" {
				return d
			}
			if len(av.Dimensions) != len(vg.Dimensions()) {
				return fmt.Sprintf("%s: dimensions %q and %q", where, av.Dimensions, vg.Dimensions())
			}
		} else {
			vs = append(vs, res{"GetVariable", nil, err})
		}
		if len(sh) > 0 {
			v, err := vg.GetSlice(0, vg.Len())
			vs = append(vs, res{"GetSlice of everything", v, err})
			v, err = vg.GetSlice(vg.Len()/2, vg.Len()/2)
			vs = append(vs, res{"GetSlice of nothing", v, err})
			v, err = vg.GetSlice(0, vg.Len()/2)
			vs = append(vs, res{"GetSlice of a half", v, err})
			b := make([]int64, len(sh))
			v, err = vg.GetSliceMD(b, sh)
			vs = append(vs, res{"GetSliceMD of everything", v, err})
			v, err = vg.GetSliceMD(b, b)
			vs = append(vs, res{"GetSliceMD of nothing", v, err})
			b[len(sh)-1] = sh[len(sh)-1]
			v, err = vg.GetSliceMD(make([]int64, len(sh)), b)
			vs = append(vs, res{"GetSliceMD of nothing but in the last dimension", v, err})
		}
		for _, x := range vs {
			if x.err != nil {
				return fmt.Sprintf("%s: %s: %v", where, x.how, x.err)
			}
			c, wrong := declared(x.v, len(sh), vg.GoType(), vg.Type(), classic)
			if wrong != "" {
				return fmt.Sprintf("%s: %s: %s", where, x.how, wrong)
			}
			if c != "user-defined" && reflect.TypeOf(x.v) != reflect.TypeOf(vs[0].v) {
				return fmt.Sprintf("%s: %s gives a %T but %s a %T", where, x.how, x.v, vs[0].how, vs[0].v)
			}
			cl[c] = true
			cl[fmt.Sprintf("%s, rank %d", c, len(sh))] = true
		}
		if elems(sh) == 0 {
			cl["no elements"] = true
		}
	}
	for _, s := range g.ListSubgroups() {
		sub, err := g.GetGroup(s)
		if err != nil {
			return fmt.Sprintf("group %.100q: GetGroup(%.60q): %v", path, s, err)
		}
		d := checkDeclared(sub, path+s+"/", classic, cl)
		sub.Close()
		if d != "" {
			return d
		}
	}
	return ""
}

const c23Rule = "files of both formats, from writers of all kinds (the library's, the C libraries, and the format's description), with variables and attributes of all types, ranks and extents; for every variable, the static Go type of what Values, GetVariable, GetSlice and GetSliceMD give must be that of GoType nested as deep as there are dimensions, and Type its name in the documented table; for every attribute GetGoType must be the type of the value and GetType its name and dimensions, and for hidden and missing ones all three must agree that they are absent; non-trivial: at least one variable of a standard type, of rank two or more, or without elements, or an attribute"

func TestC23Declared(t *testing.T) {
	h.Check(t, "C23", c23Rule, 60000, 1000000, func(rt *rapid.T, r *h.Rec) {
		var b []byte
		var desc string
		var classes []string
		classic := rapid.IntRange(0, 3).Draw(rt, "cdf") == 0
		if classic {
			s := m.CDFFile(rt, m.FileOpts{MaxVars: 6, MaxElems: 40, MaxName: 8, TruncatePc: 10, FillPc: 20})
			b, desc, classes = s.Bytes, s.String(), []string{"classic"}
		} else {
			if b, desc, classes = someHDF5(rt, r, h.Path("c23.nc")); b == nil {
				return
			}
			classes = append(classes, "HDF5")
		}
		g, err := netcdf.New(newMem(b))
		if err != nil {
			rt.Fatalf("New: %v\n%s", err, trimmed(desc))
		}
		defer g.Close()
		cl := map[string]bool{}
		if d := checkDeclared(g, "/", classic, cl); d != "" {
			rt.Fatalf("%s\n%s", d, trimmed(desc))
		}
		nt := false
		for c := range cl {
			classes = append(classes, c)
			nt = nt || c == "no elements" || strings.HasPrefix(c, "attribute") || strings.HasPrefix(c, "number, rank") && c >= "number, rank 2"
		}
		r.Case(nt, desc, classes...)
	})
}
