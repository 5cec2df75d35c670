package checks

import (
	"fmt"
	"os"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

const c02Rule = "random accepted call sequences on an HDF5 writer and its subgroups, interleaved (all types, ranks 0-32, shared/coordinate/unnamed dimensions, strings, variable-length values, empty extents, scalar/list/string-list/variable-length attributes, replaced attributes, long names); non-trivial: a variable with data and a group, an attribute or another variable"

func h5Classes(p *m.H5Program) (bool, []string) {
	var cl []string
	nv, na, ng := 0, 0, 0
	dims := map[string]bool{}
	for _, o := range p.Ops {
		if o.Var != nil {
			for _, d := range o.Var.Dims {
				dims[d] = true
			}
		}
	}
	for _, o := range p.Ops {
		if o.Create != "" {
			ng++
			continue
		}
		if o.Var == nil {
			na += len(o.Attrs)
			continue
		}
		nv++
		na += len(o.Var.Attrs)
		cl = append(cl, "type "+m.ElemType(o.Var.Val).String(), fmt.Sprintf("rank %d", len(o.Var.Dims)))
		if m.Depth(o.Var.Val) > len(o.Var.Dims) {
			cl = append(cl, "variable-length")
		}
		if o.Group == 0 && dims[o.Var.Name] {
			cl = append(cl, "coordinate variable")
		}
		for _, d := range o.Var.Dims {
			if d == "" {
				cl = append(cl, "unnamed dimension")
			}
		}
		for _, s := range m.Shape(o.Var.Val) {
			if s == 0 {
				cl = append(cl, "zero extent")
				break
			}
		}
	}
	if ng > 0 {
		cl = append(cl, "groups")
	}
	return nv > 0 && nv+na+ng > 1, cl
}

// writeH5 runs a program and returns the file's bytes.
func writeH5(rt *rapid.T, p *m.H5Program, path string) []byte {
	w, err := netcdf.OpenWriter(path, netcdf.KindHDF5)
	if err != nil {
		rt.Fatalf("OpenWriter: %v", err)
	}
	if err := p.Run(w); err != nil {
		rt.Fatalf("a call that should be accepted failed: %v\nprogram: %s", err, p)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	return b
}

func sorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)
	return r
}

// checkH5Content compares a group with what was written, recursively. dim finds the
// length of a dimension from the group's point of view.
func checkH5Content(g api.Group, want *m.Group, path string, dim func(string) (uint64, bool)) string {
	in := func(s string) string { return fmt.Sprintf("in group %.200q: %s", path, s) }
	if d := sameList(sorted(g.ListVariables()), sorted(m.VarNames(want.Vars))); d != "" {
		return in("ListVariables: " + d)
	}
	if d := sameList(sorted(g.ListSubgroups()), sorted(m.GroupNames(want.Groups))); d != "" {
		return in("ListSubgroups: " + d)
	}
	if l := g.ListTypes(); len(l) != 0 {
		return in(fmt.Sprintf("ListTypes: %q", l))
	}
	at, err := m.ReadAttrs(g.Attributes())
	if err != nil {
		return in(err.Error())
	}
	if d := m.DiffAttrs(at, want.Attrs, false); d != "" {
		return in("group " + d)
	}
	outer := dim
	dim = func(s string) (uint64, bool) {
		if n, has := g.GetDimension(s); has {
			return n, has
		}
		if outer == nil {
			return 0, false
		}
		return outer(s)
	}
	for _, v := range want.Vars {
		got, err := g.GetVariable(v.Name)
		if err != nil {
			return in(fmt.Sprintf("GetVariable(%.100q): %v", v.Name, err))
		}
		if d := m.Diff(got.Values, v.Val); d != "" {
			return in(fmt.Sprintf("variable %.60q: %s", v.Name, d))
		}
		at, err := m.ReadAttrs(got.Attributes)
		if err != nil {
			return in(err.Error())
		}
		if d := m.DiffAttrs(at, v.Attrs, false); d != "" {
			return in(fmt.Sprintf("variable %.60q %s", v.Name, d))
		}
		if len(got.Dimensions) != len(v.Dims) {
			return in(fmt.Sprintf("variable %.60q: dimensions %q, written with %q", v.Name, got.Dimensions, v.Dims))
		}
		shape := m.Shape(v.Val)
		for i, d := range got.Dimensions {
			if v.Dims[i] != "" && v.Dims[i] != d || d == "" {
				return in(fmt.Sprintf("variable %.60q: dimensions %q, written with %q", v.Name, got.Dimensions, v.Dims))
			}
			n, has := dim(d)
			if !has || n != uint64(shape[i]) {
				return in(fmt.Sprintf("variable %.60q: GetDimension(%.60q) = %d, %v, extent is %d", v.Name, d, n, has, shape[i]))
			}
		}
	}
	for _, s := range want.Groups {
		sub, err := g.GetGroup(s.Name)
		if err != nil {
			return in(fmt.Sprintf("GetGroup(%.100q): %v", s.Name, err))
		}
		d := checkH5Content(sub, s, path+"/"+s.Name, dim)
		sub.Close()
		if d != "" {
			return d
		}
	}
	return ""
}

func TestC02RoundTrip(t *testing.T) {
	h.Check(t, "C02", c02Rule, 48000, 1000000, func(rt *rapid.T, r *h.Rec) {
		p := m.H5Prog(rt, m.H5Opts{MaxVars: 6, MaxGroups: 4, MaxElems: 1000, MaxName: 700})
		path := h.Path("c02.nc")
		writeH5(rt, p, path)
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open after a successful Close: %v\nprogram: %s", err, p)
		}
		defer g.Close()
		if d := checkH5Content(g, p.H5Expect(), "", nil); d != "" {
			rt.Fatalf("%s\nprogram: %s", d, p)
		}
		nt, cl := h5Classes(p)
		r.Case(nt, p.String(), cl...)
	})
}
