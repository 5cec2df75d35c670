package checks

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

func TestC08NetCDF(t *testing.T) {
	rule := "NetCDF-4 files made by the NetCDF library with user-defined types (nested, of many members, with arrays, in nested groups); the lists of types, both descriptions of each, and all values of variables and attributes compared with what the C libraries report; non-trivial: at least one type"
	h.Check(t, "C08", rule, 8000, 200000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c08n.nc")
		g := ncProgram(rt, path, ncOpts{types: true, maxVars: 6, maxGroups: 3, maxElems: 60, maxAtts: 2, partial: true})
		f := makeNC(r, g, path)
		if f == nil {
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		if d := checkTypes(nc, f.h, nil, ""); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		if d := cmpGroup(nc, f.nc.Root, f.h, "", parts{values: true, attrs: true}); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(g.ntypes > 0, g.desc(), g.classList()...)
	})
}

// h5Types draws an HDF5 file with user-defined types.
func h5Types(g *hgen, path string, o utOpts, ds dsOpts) (ntypes int) {
	g.newFile(path)
	groups := []int{0}
	if g.pc("group", 40) {
		s := g.newSlot()
		g.add("HGRP %d 0 %s 0", s, capi.Hex("grp"))
		groups = append(groups, s)
	}
	var known []*capi.HType
	refs := map[string][]string{}
	used := map[string]bool{"grp": true}
	for i := g.pick("ntypes", 1, 3); i > 0; i-- {
		t := g.userType(0, o)
		known = append(known, t)
		for k := g.pick("named", 0, 2); k > 0; k-- {
			s := g.newSlot()
			g.add("HTYP %d %d %s %s", s, rapid.SampledFrom(groups).Draw(g.rt, "tg"), capi.Hex(g.ident("tname", used)), t.Text)
			refs[t.Text] = append(refs[t.Text], fmt.Sprintf("@%d", s))
			ntypes++
			g.class("named type")
		}
	}
	for i := g.pick("nds", 1, 4); i > 0; i-- {
		t := rapid.SampledFrom(known).Draw(g.rt, "dt")
		if g.pc("copyt", 0) {
			t = g.stdType(true)
		}
		parent := rapid.SampledFrom(groups).Draw(g.rt, "dg")
		text := t.Text
		if rs := refs[text]; len(rs) > 0 && g.pc("byref", 70) {
			text = rapid.SampledFrom(rs).Draw(g.rt, "ref")
		}
		small := most(t) < 10000 // enough for an attribute
		ds := ds
		ds.maxElems = max(1, min(ds.maxElems, 300000/max(1, most(t))))
		switch k := g.pick("obj", 0, 2); {
		case k == 0 && small:
			g.typedAtt(parent, fmt.Sprintf("a%d", i), t, text, o.attRank)
		default:
			d := g.datasetOf(parent, fmt.Sprintf("d%d", i), t, text, ds)
			if small && g.pc("dsatt", 30) {
				g.typedAtt(d.slot, "att", t, text, o.attRank)
			}
		}
	}
	g.add("HCLOSE")
	return ntypes
}

// typedAtt draws an attribute of the type.
func (g *hgen) typedAtt(obj int, name string, t *capi.HType, text string, maxRank int) {
	var dims []int
	n := 1
	for k := g.pick("arank", 0, maxRank); k > 0; k-- {
		d := g.pick("adim", 1, 3)
		dims = append(dims, d)
		n *= d
	}
	g.class("attribute of a user type")
	v := g.tokens(t, n)
	g.note(t, v)
	g.add("HATT %d %s %s %d%s %s", obj, capi.Hex(name), text, len(dims), ints(dims), v)
}

func TestC08HDF5(t *testing.T) {
	rule := "HDF5 files made by the HDF5 library with user-defined types as HDF5 allows them (gaps in compounds, big-endian members and enums, arrays of any type, nested sequences, named or not, under several names, both versions of the format), in datasets of any storage and in attributes; lists and descriptions of types and all values compared with the HDF5 library's; non-trivial: more than one element written"
	h.Check(t, "C08", rule, 24000, 600000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c08.nc")
		g := newHGen(rt)
		h5Types(g, path, utOpts{arrays: true, strings: true, attRank: 2}, dsOpts{maxRank: 3, maxElems: 60, filters: true, unwritten: true})
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + err.Error())
			return
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			r.Discarded("the C library does not read what it wrote")
			return
		}
		if !g.kept(root) {
			r.Discarded("the C library lost values it wrote")
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		if d := checkTypes(nc, root, nil, ""); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		if d := cmpTree(nc, root, ""); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(g.nontriv, g.desc(), g.classList()...)
	})
}

// isUser tells whether a type is a user-defined one.
func isUser(t *capi.HType) bool { return strings.IndexByte("ecov", t.Class) >= 0 }

// copyGroup writes the variables of user-defined types, the attributes and the groups
// read from one file to another.
func copyGroup(g api.Group, o *capi.HObj, w api.Writer) error {
	am, err := onlyUser(g.Attributes(), o)
	if err != nil {
		return err
	}
	if err := w.AddAttributes(am); err != nil {
		return fmt.Errorf("AddAttributes: %w", err)
	}
	for _, k := range o.Kids {
		switch {
		case k.Kind == "ds" && isUser(k.Type):
			v, err := g.GetVariable(k.Name)
			if err != nil {
				return err
			}
			if len(v.Dimensions) == 0 {
				for _, n := range k.Shape {
					v.Dimensions = append(v.Dimensions, fmt.Sprintf("dim_%d", n))
				}
			}
			if v.Attributes, err = onlyUser(v.Attributes, k); err != nil {
				return err
			}
			if err := w.AddVar(k.Name, *v); err != nil {
				return fmt.Errorf("AddVar(%.60q) of %T, dimensions %q: %w", k.Name, v.Values, v.Dimensions, err)
			}
		case k.Kind == "group":
			sub, err := g.GetGroup(k.Name)
			if err != nil {
				return err
			}
			ws, err := w.CreateGroup(k.Name)
			if err != nil {
				return err
			}
			if err := copyGroup(sub, k, ws); err != nil {
				return err
			}
			sub.Close()
		}
	}
	return nil
}

// onlyUser takes the attributes of user-defined types.
func onlyUser(am api.AttributeMap, o *capi.HObj) (api.AttributeMap, error) {
	var keys []string
	vals := map[string]any{}
	for _, a := range o.Atts {
		if isUser(a.Type) {
			v, has := am.Get(a.Name)
			if !has {
				return nil, fmt.Errorf("attribute %.60q is not found", a.Name)
			}
			keys = append(keys, a.Name)
			vals[a.Name] = v
		}
	}
	return util.NewOrderedMap(keys, vals)
}

// cmpCopy compares what the HDF5 library reads from a file and its copy.
func cmpCopy(o, c *capi.HObj, path string) string {
	cmp := func(what, name string, a, b *capi.HObj) string {
		in := fmt.Sprintf("%s %.60q of %.100q", what, name, path)
		if b == nil {
			return in + " is not in the copy"
		}
		kind := a.Type
		x, y := a.Value(), b.Value()
		switch {
		case what == "variable":
			if fmt.Sprint(a.Shape) != fmt.Sprint(b.Shape) {
				return fmt.Sprintf("%s: shape %v, was %v", in, b.Shape, a.Shape)
			}
		case kind.Class == 'v' && !sameKind(kind, b.Type) && (len(a.Shape) == 0 || len(a.Shape) == 1 && a.Shape[0] == 1):
			// An attribute with one sequence is an attribute with many values.
			kind = kind.Base
			x = a.AttValue()
			if len(a.Shape) == 0 {
				x = a.Value()
			}
			if len(b.Shape) == 0 {
				q, _ := x.(capi.Seq)
				q.Items = []any{y}
				y = q
			}
		default:
			x, y = a.AttValue(), b.AttValue()
		}
		if !sameKind(kind, b.Type) {
			return fmt.Sprintf("%s: copied as %.500s, was %.500s", in, b.Type.Text, a.Type.Text)
		}
		if d := capi.CanonDiff(y, x, ""); d != "" {
			return fmt.Sprintf("%s of type %.500s: %s", in, a.Type.Text, d)
		}
		return ""
	}
	atts := func(o, c *capi.HObj) string {
		for _, a := range o.Atts {
			if isUser(a.Type) {
				if d := cmp("attribute", a.Name, a, c.Att(a.Name)); d != "" {
					return d
				}
			}
		}
		return ""
	}
	if d := atts(o, c); d != "" {
		return d
	}
	for _, k := range o.Kids {
		switch {
		case k.Kind == "ds" && isUser(k.Type):
			b := c.Kid(k.Name)
			if d := cmp("variable", k.Name, k, b); d != "" {
				return d
			}
			if d := atts(k, b); d != "" {
				return d
			}
		case k.Kind == "group":
			b := c.Kid(k.Name)
			if b == nil {
				return fmt.Sprintf("group %.60q is not in the copy", k.Name)
			}
			if d := cmpCopy(k, b, path+"/"+k.Name); d != "" {
				return d
			}
		}
	}
	return ""
}

func TestC08Copy(t *testing.T) {
	rule := "variables and attributes of user-defined types read from files made by the C libraries and written to a new file with the HDF5 writer; kinds, members and values of both compared as the HDF5 library reads them; non-trivial: a variable or attribute was copied"
	h.Check(t, "C08", rule, 16000, 400000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c08c.nc")
		g := newHGen(rt)
		h5Types(g, path, utOpts{strings: true, attRank: 1, big: true}, dsOpts{maxRank: 3, maxElems: 40, filters: true, unwritten: true, noZero: true})
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + err.Error())
			return
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			r.Discarded("the C library does not read what it wrote")
			return
		}
		if !g.kept(root) {
			r.Discarded("the C library lost values it wrote")
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		out := h.Path("c08copy.nc")
		w, err := hdf5.OpenWriter(out)
		if err != nil {
			rt.Fatalf("OpenWriter: %v", err)
		}
		err = copyGroup(nc, root, w)
		cerr := w.Close()
		if err != nil && strings.Contains(err.Error(), "unsupported type") && untypedIn(root) {
			r.Discarded("refused: a list without elements does not tell their type")
			return
		}
		if err != nil {
			rt.Fatalf("%v\n%s", err, g.desc())
		}
		if cerr != nil {
			rt.Fatalf("Close: %v\n%s", cerr, g.desc())
		}
		copied, err := capi.HDumpFile(out)
		if err != nil {
			rt.Fatalf("the HDF5 library does not read the copy: %v\n%s", err, g.desc())
		}
		if d := cmpCopy(root, copied, ""); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(g.nontriv, g.desc(), g.classList()...)
	})
}

// untyped tells whether a value has a list of a user-defined type without elements,
// whose type cannot be told from the value.
func untyped(v any) bool {
	switch v := v.(type) {
	case capi.Seq:
		if len(v.Items) == 0 {
			return v.Elem == "compound" || v.Elem == "opaque" || strings.HasPrefix(v.Elem, "enum")
		}
		for _, x := range v.Items {
			if untyped(x) {
				return true
			}
		}
	case capi.Comp:
		for _, x := range v.Vals {
			if untyped(x) {
				return true
			}
		}
	}
	return false
}

func untypedIn(o *capi.HObj) bool {
	for _, a := range o.Atts {
		if untyped(a.Value()) {
			return true
		}
	}
	for _, k := range o.Kids {
		if k.Kind == "ds" && untyped(k.Value()) || untypedIn(k) {
			return true
		}
	}
	return false
}

// TestC08ArrayMember demonstrates a known defect: a member that is a fixed-size array
// is read as a slice, which the writer takes for a variable-length sequence.
func TestC08ArrayMember(t *testing.T) {
	h.Known(t, "C08", "array-member", "a compound variable whose member is an array of 3 ints, c(x int(3)), is copied with the member changed to a variable-length sequence of ints", func() bool {
		path, out := h.Path("c08k.nc"), h.Path("c08kcopy.nc")
		if _, err := capi.Do(fmt.Sprintf("HNEW %s 0 1 0 0 0 0 0", path), "HDS 1 0 64 c(12;78@0:a(3;i4)) 1 1 2 2 0 0 0 0", "HWR 1 1 0 2 "+strings.Repeat("010000000200000003000000 ", 2), "HCLOSE"); err != nil {
			capi.Infra("%v", err)
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			capi.Infra("%v", err)
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			t.Fatal(err)
		}
		defer nc.Close()
		w, err := hdf5.OpenWriter(out)
		if err != nil {
			t.Fatal(err)
		}
		if err := copyGroup(nc, root, w); err != nil {
			t.Fatal(err)
		}
		if err := w.Close(); err != nil {
			t.Fatal(err)
		}
		copied, err := capi.HDumpFile(out)
		if err != nil {
			t.Fatal(err)
		}
		v := copied.Kid("d")
		return v != nil && v.Type.Text == "c(16;78@0:v(i4))" || cmpCopy(root, copied, "") != ""
	})
}
