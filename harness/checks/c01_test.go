package checks

import (
	"fmt"
	"os"
	"testing"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

const c01Rule = "random accepted call sequences on a CDF writer (all types, ranks 0-4, shared/own/unnamed dimensions, strings, empty slices, attributes, replaced global attributes); non-trivial: at least one variable with data and at least one attribute or a second variable"

func cdfClasses(p *m.Program) (bool, []string) {
	var cl []string
	nv, na, v5 := 0, 0, false
	for _, o := range p.Ops {
		if o.Var == nil {
			na += len(o.Attrs)
			continue
		}
		nv++
		na += len(o.Var.Attrs)
		e := m.ElemType(o.Var.Val)
		cl = append(cl, "type "+e.String(), fmt.Sprintf("rank %d", m.Depth(o.Var.Val)))
		for _, t := range m.NumTypes[5:] {
			if e == t {
				v5 = true
			}
		}
		for _, d := range o.Var.Dims {
			if d == "" {
				cl = append(cl, "unnamed dimension")
			}
		}
	}
	if v5 {
		cl = append(cl, "64-bit data format")
	}
	return nv > 0 && (na > 0 || nv > 1), cl
}

// checkCDFContent compares what a group delivers with the expected content.
func checkCDFContent(g api.Group, want *m.Group) string {
	if d := sameList(g.ListVariables(), m.VarNames(want.Vars)); d != "" {
		return "ListVariables: " + d
	}
	if l := g.ListSubgroups(); len(l) != 0 {
		return fmt.Sprintf("ListSubgroups: %q", l)
	}
	at, err := m.ReadAttrs(g.Attributes())
	if err != nil {
		return err.Error()
	}
	if d := m.DiffAttrs(at, want.Attrs, true); d != "" {
		return "global " + d
	}
	dimsSeen := map[string]bool{}
	for _, d := range g.ListDimensions() {
		if dimsSeen[d] {
			return fmt.Sprintf("ListDimensions lists %q twice", d)
		}
		dimsSeen[d] = true
	}
	named := map[string]bool{}
	for _, v := range want.Vars {
		for _, d := range v.Dims {
			named[d] = true
		}
	}
	for _, v := range want.Vars {
		got, err := g.GetVariable(v.Name)
		if err != nil {
			return fmt.Sprintf("GetVariable(%q): %v", v.Name, err)
		}
		if d := m.Diff(got.Values, v.Val); d != "" {
			return fmt.Sprintf("variable %.60q: %s", v.Name, d)
		}
		at, err := m.ReadAttrs(got.Attributes)
		if err != nil {
			return err.Error()
		}
		if d := m.DiffAttrs(at, v.Attrs, true); d != "" {
			return fmt.Sprintf("variable %.60q %s", v.Name, d)
		}
		shape := m.CDFShape(v.Val, v.Dims)
		if len(got.Dimensions) != len(shape) {
			return fmt.Sprintf("variable %.60q: dimensions %q for shape %v", v.Name, got.Dimensions, shape)
		}
		for i, d := range got.Dimensions {
			if i < len(v.Dims) && v.Dims[i] != "" && v.Dims[i] != d {
				return fmt.Sprintf("variable %.60q: dimensions %q, written with %q", v.Name, got.Dimensions, v.Dims)
			}
			if (i >= len(v.Dims) || v.Dims[i] == "") && shape[i] > 0 && named[d] {
				return fmt.Sprintf("variable %.60q: dimension %d was not named, but is now %q, as another", v.Name, i, d)
			}
			if d == "" {
				return fmt.Sprintf("variable %.60q: unnamed dimension in %q", v.Name, got.Dimensions)
			}
			n, has := g.GetDimension(d)
			if !has || n != uint64(shape[i]) {
				return fmt.Sprintf("variable %.60q: GetDimension(%q) = %d, %v, extent is %d", v.Name, d, n, has, shape[i])
			}
			if !dimsSeen[d] {
				return fmt.Sprintf("dimension %q not in ListDimensions %q", d, g.ListDimensions())
			}
		}
	}
	return ""
}

func sameList(got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("got %.300q want %.300q", got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("got %.300q want %.300q", got, want)
		}
	}
	return ""
}

// writeCDF runs a program and returns the file's bytes.
func writeCDF(rt *rapid.T, p *m.Program, path string) []byte {
	w, err := netcdf.OpenWriter(path, netcdf.KindCDF)
	if err != nil {
		rt.Fatalf("OpenWriter: %v", err)
	}
	if err := p.Run(w); err != nil {
		rt.Fatalf("a call that should be accepted failed: %v\nprogram: %s", err, p)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		rt.Fatalf("%v", err)
	}
	return b
}

func TestC01RoundTrip(t *testing.T) {
	h.Check(t, "C01", c01Rule, 120000, 3000000, func(rt *rapid.T, r *h.Rec) {
		p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 6, MaxElems: 2000, MaxName: 300, ClassicPc: 50})
		path := h.Path("c01.nc")
		writeCDF(rt, p, path)
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open after a successful Close: %v\nprogram: %s", err, p)
		}
		defer g.Close()
		if d := checkCDFContent(g, p.CDFExpect()); d != "" {
			rt.Fatalf("%s\nprogram: %s", d, p)
		}
		nt, cl := cdfClasses(p)
		r.Case(nt, p.String(), cl...)
	})
}
