package checks

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

// dict is the model of an attribute map.
type dict struct {
	order  []string
	vals   map[string]any
	hidden map[string]bool
}

func (d *dict) visible() []string {
	var l []string
	for _, k := range d.order {
		if !d.hidden[k] {
			l = append(l, k)
		}
	}
	return l
}

// rec and rec2 are structs attributes can have the type of.
type rec struct {
	A int32
	B float64
}
type rec2 struct {
	S string
	L [3]int16
	R rec
}

var cdlBasic = map[string]string{"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort", "int32": "int", "uint32": "uint",
	"int64": "int64", "uint64": "uint64", "float32": "float", "float64": "double", "string": "string"}

// typeNames gives the CDL and Go names of a value's type.
func typeNames(rv reflect.Value) (cdl, gt string) {
	var goName func(rv reflect.Value) string
	goName = func(rv reflect.Value) string {
		zero := func(t reflect.Type) reflect.Value { return reflect.Zero(t) }
		switch rv.Kind() {
		case reflect.Slice, reflect.Array:
			e := zero(rv.Type().Elem())
			if rv.Len() > 0 {
				e = rv.Index(0)
			}
			if rv.Kind() == reflect.Array {
				return fmt.Sprintf("[%d]%s", rv.Len(), goName(e))
			}
			return "[]" + goName(e)
		case reflect.Struct:
			var f []string
			for i := range rv.NumField() {
				f = append(f, rv.Type().Field(i).Name+" "+goName(rv.Field(i)))
			}
			return "struct { " + strings.Join(f, "; ") + " }"
		}
		return rv.Kind().String()
	}
	var dims []string
	base := rv
	for base.Kind() == reflect.Slice || base.Kind() == reflect.Array {
		n := base.Len()
		if n == 0 && base.Kind() == reflect.Slice {
			dims = append(dims, "*")
		} else {
			dims = append(dims, fmt.Sprint(n))
		}
		if n > 0 {
			base = base.Index(0)
		} else {
			base = reflect.Zero(base.Type().Elem())
		}
	}
	if base.Kind() == reflect.Struct {
		cdl = "compound {"
		for i := range base.NumField() {
			c, _ := typeNames(base.Field(i))
			cdl += " " + c + " " + base.Type().Field(i).Name + ";"
		}
		cdl += " }"
	} else {
		cdl = cdlBasic[base.Kind().String()]
	}
	if len(dims) > 0 {
		cdl += "(" + strings.Join(dims, ",") + ")"
	}
	return cdl, goName(rv)
}

func c16Value(rt *rapid.T) any {
	switch rapid.IntRange(0, 6).Draw(rt, "vk") {
	case 0:
		return m.Str(rt, "v", 10)
	case 1:
		shape := m.ShapeOf(rt, "shape", 4, 24)
		t := rapid.SampledFrom(append([]reflect.Type{m.StringType}, m.NumTypes...)).Draw(rt, "t")
		return m.Nest(m.Flat(rt, t, m.Prod(shape), "v"), shape)
	case 2:
		return rapid.SampledFrom([]any{[2]int32{1, 2}, [2][3]uint8{}, [1]string{"x"}, [0]int16{}, [][2]float32{{1, 2}}, [][0]int8{}, [2][]int64{{1}, {2}}, []int8{}, [][]string{}, [][]int32{{}, {}}}).Draw(rt, "fixed")
	case 3:
		return rapid.SampledFrom([]any{rec{1, 2}, []rec{{1, 2}, {3, 4}}, [2]rec{}, []rec{}, rec2{}, []rec2{{}, {}}, [2][3]rec2{}, [][]rec2{{{}}}}).Draw(rt, "struct")
	default:
		return m.AttrVal(rt, "v", m.NumTypes, 0, 6, true)
	}
}

func TestC16Dictionary(t *testing.T) {
	h.Check(t, "C16", "histories of NewOrderedMap (with permutations and near-permutations of the keys), Add (new, present, hidden keys), Hide (present and absent keys), lookups, and changes to the caller's own slices and maps and to what Keys returned, over a few shared names, against an ordered dictionary; non-trivial: a key added again, or hidden, or a refused construction", 600000, 15000000, func(rt *rapid.T, r *h.Rec) {
		pool := m.Names(rt, "key", rapid.IntRange(1, 6).Draw(rt, "npool"), 20)
		pool = append(pool, "", "_x")
		var hist []string
		classes := map[string]bool{}
		nontriv := false
		say := func(f string, a ...any) { hist = append(hist, fmt.Sprintf(f, a...)) }
		perm := rapid.Permutation(pool).Draw(rt, "perm")
		n := rapid.IntRange(0, len(perm)).Draw(rt, "n")
		// with spare capacity, so that an append to it would show
		keys := perm[:n]
		vals := map[string]any{}
		for _, k := range keys {
			vals[k] = c16Value(rt)
		}
		good := true
		switch rapid.IntRange(0, 9).Draw(rt, "spoil") {
		case 0: // a key too many or too few
			if n > 0 {
				keys, good = keys[:n-1], false
			}
		case 1: // a key twice instead of another
			if n > 1 {
				keys = append(append([]string{}, keys[:n-1]...), keys[0])
				good = false
			}
		case 2:
			vals["another"] = int32(1)
			good = false
		case 3: // a different key
			if n > 0 {
				keys = append(append([]string{}, keys[:n-1]...), "different")
				good = false
			}
		case 4:
			keys = append(append([]string{}, keys...), "too many")
			good = false
		case 5: // twice, and the other as well
			if n > 0 {
				keys = append(append([]string{}, keys...), keys[0])
				good = false
			}
		}
		if n == 0 && good && rapid.Bool().Draw(rt, "nil") {
			keys, vals = nil, nil
		}
		say("NewOrderedMap(%q, %d values)", keys, len(vals))
		var om *util.OrderedMap
		var err error
		if msg := h.NoPanic(func() { om, err = util.NewOrderedMap(keys, vals) }); msg != "" {
			rt.Fatalf("%s: panic %s", hist, msg)
		}
		if (err == nil) != good {
			rt.Fatalf("%s: error %v, want success %v", hist, err, good)
		}
		if !good {
			r.Case(true, strings.Join(hist, "; "), "refused construction")
			return
		}
		d := &dict{append([]string{}, keys...), map[string]any{}, map[string]bool{}}
		for k, v := range vals {
			d.vals[k] = v
		}
		var other *util.OrderedMap
		check := func() {
			got := om.Keys()
			if x := sameList(got, d.visible()); x != "" {
				rt.Fatalf("Keys: %s\nhistory: %s", x, strings.Join(hist, "; "))
			}
			for i := range got {
				got[i] = "changed by the caller"
			}
			for _, k := range append([]string{"different", "another"}, pool...) {
				v, has := om.Get(k)
				want, whas := d.vals[k]
				if has != whas || (has && m.Diff(v, want) != "" && !reflect.DeepEqual(v, want)) {
					rt.Fatalf("Get(%q): %v %v, want %v %v\nhistory: %s", k, v, has, want, whas, strings.Join(hist, "; "))
				}
				ty, thas := om.GetType(k)
				gt, ghas := om.GetGoType(k)
				if thas != whas || ghas != whas {
					rt.Fatalf("GetType(%q): %q %v, GetGoType: %q %v, present: %v\nhistory: %s", k, ty, thas, gt, ghas, whas, strings.Join(hist, "; "))
				}
				if whas {
					wty, wgt := typeNames(reflect.ValueOf(want))
					if ty != wty || gt != wgt {
						rt.Fatalf("types of %q, a %T of %v: %q and %q, want %q and %q\nhistory: %s", k, want, want, ty, gt, wty, wgt, strings.Join(hist, "; "))
					}
				}
			}
		}
		check()
		for i := rapid.IntRange(0, 12).Draw(rt, "ops"); i > 0; i-- {
			k := rapid.SampledFrom(pool).Draw(rt, "k")
			switch rapid.IntRange(0, 6).Draw(rt, "op") {
			case 0, 1, 2:
				v := c16Value(rt)
				_, has := d.vals[k]
				switch {
				case d.hidden[k]:
					classes["hidden key added"], nontriv = true, true
				case has:
					classes["present key added"], nontriv = true, true
				default:
					classes["new key added"] = true
				}
				say("Add(%q, %T)", k, v)
				om.Add(k, v)
				if !has {
					d.order = append(d.order, k)
				}
				d.vals[k] = v
			case 3:
				say("Hide(%q)", k)
				om.Hide(k)
				d.hidden[k] = true
				classes["hidden"], nontriv = true, true
			case 4:
				if vals != nil {
					say("the caller changes its map")
					vals[k] = "changed by the caller"
					delete(vals, rapid.SampledFrom(pool).Draw(rt, "del"))
					classes["caller's map changed"] = true
				}
			case 5:
				if len(perm) > 0 {
					say("the caller changes its slice")
					perm[rapid.IntRange(0, len(perm)-1).Draw(rt, "at")] = "changed by the caller"
					classes["caller's slice changed"] = true
				}
			case 6:
				// another map made of the same slice and map
				if other == nil && good {
					ov := map[string]any{}
					for _, k := range keys {
						ov[k] = int8(1)
					}
					if o, err := util.NewOrderedMap(keys, ov); err == nil {
						other = o
					}
				}
				if other != nil {
					say("another map of the same keys: Add, Hide")
					other.Add("of another", int8(2))
					other.Hide(k)
				}
			}
			check()
		}
		// callbacks replace the types of the keys there are, and only those
		om.SetTypeCallbacks(func(n string) (string, bool) { return "cdl " + n, true }, func(n string) (string, bool) { return "go " + n, true })
		for _, k := range pool {
			_, whas := d.vals[k]
			ty, thas := om.GetType(k)
			gt, ghas := om.GetGoType(k)
			if thas != whas || ghas != whas || (whas && (ty != "cdl "+k || gt != "go "+k)) {
				rt.Fatalf("with callbacks: GetType(%q): %q %v, GetGoType: %q %v, present: %v\nhistory: %s", k, ty, thas, gt, ghas, whas, strings.Join(hist, "; "))
			}
		}
		r.Case(nontriv, strings.Join(hist, "; "), keysOf(classes)...)
	})
}
