package checks

import (
	"fmt"
	"reflect"
	"strings"
	"testing"
	"verifharness/capi"

	"pgregory.net/rapid"

	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/m"
)

const c03Rule = "as C01; the written bytes are decoded by an independent strict decoder of the format; non-trivial: at least one variable with data and at least one attribute or a second variable"

// cdfTypeOf is the format's type code for a Go element type.
func cdfTypeOf(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Int8:
		return cdfspec.Byte
	case reflect.String:
		return cdfspec.Char
	case reflect.Int16:
		return cdfspec.Short
	case reflect.Int32:
		return cdfspec.Int
	case reflect.Float32:
		return cdfspec.Float
	case reflect.Float64:
		return cdfspec.Double
	case reflect.Uint8:
		return cdfspec.UByte
	case reflect.Uint16:
		return cdfspec.UShort
	case reflect.Uint32:
		return cdfspec.UInt
	case reflect.Int64:
		return cdfspec.Int64
	case reflect.Uint64:
		return cdfspec.UInt64
	}
	return 0
}

func specAttrs(a []cdfspec.Att) []m.Attr {
	var ret []m.Attr
	for _, x := range a {
		ret = append(ret, m.Attr{Name: x.Name, Val: cdfspec.APIAttr(x)})
	}
	return ret
}

// checkSpecAttrTypes: the stored type must be the written one even for empty lists.
func checkSpecAttrTypes(got []cdfspec.Att, written []m.Attr) string {
	for i, a := range written {
		t := reflect.TypeOf(a.Val)
		if t.Kind() == reflect.Slice {
			t = t.Elem()
		}
		if got[i].Type != cdfTypeOf(t) {
			return fmt.Sprintf("attribute %.60q stored as type %d", a.Name, got[i].Type)
		}
	}
	return ""
}

// checkSpec compares decoded bytes with the program's content.
func checkSpec(f *cdfspec.File, p *m.Program) string {
	want := p.CDFExpect()
	var gattrs []m.Attr
	var vars []m.Var
	needV5 := false
	for _, o := range p.Ops {
		if o.Var == nil {
			gattrs = o.Attrs
		} else {
			vars = append(vars, *o.Var)
		}
	}
	for _, t := range m.NumTypes[5:] {
		for _, v := range vars {
			needV5 = needV5 || m.ElemType(v.Val) == t
		}
	}
	if needV5 && f.Version != 5 {
		return "needs version 5"
	}
	if d := m.DiffAttrs(specAttrs(f.Atts), want.Attrs, true); d != "" {
		return "global " + d
	}
	if d := checkSpecAttrTypes(f.Atts, gattrs); d != "" {
		return d
	}
	if len(f.Vars) != len(want.Vars) {
		return fmt.Sprintf("%d variables, want %d", len(f.Vars), len(want.Vars))
	}
	used := map[int]bool{}
	for i := range f.Vars {
		got, w := &f.Vars[i], want.Vars[i]
		if got.Name != w.Name {
			return fmt.Sprintf("variable %d is %q, want %q", i, got.Name, w.Name)
		}
		if t := cdfTypeOf(m.ElemType(w.Val)); got.Type != t {
			return fmt.Sprintf("variable %q has type %d want %d", got.Name, got.Type, t)
		}
		shape := m.CDFShape(w.Val, w.Dims)
		if fmt.Sprint(f.Shape(got)) != fmt.Sprint(shape) {
			return fmt.Sprintf("variable %q has shape %v want %v", got.Name, f.Shape(got), shape)
		}
		for k, d := range got.DimIDs {
			used[d] = true
			if k < len(w.Dims) && w.Dims[k] != "" && f.Dims[d].Name != w.Dims[k] {
				return fmt.Sprintf("variable %q dimension %d is %q want %q", got.Name, k, f.Dims[d].Name, w.Dims[k])
			}
		}
		if d := m.DiffAttrs(specAttrs(got.Atts), w.Attrs, true); d != "" {
			return fmt.Sprintf("variable %q %s", got.Name, d)
		}
		if d := checkSpecAttrTypes(got.Atts, vars[i].Attrs); d != "" {
			return fmt.Sprintf("variable %q %s", got.Name, d)
		}
		if m.Prod(shape) == 0 {
			continue
		}
		if d := m.Diff(cdfspec.APIValue(got.Type, got.Data, shape), w.Val); d != "" {
			return fmt.Sprintf("data of %q: %s", got.Name, d)
		}
	}
	for i := range f.Dims {
		if !used[i] {
			return fmt.Sprintf("dimension %q belongs to no variable", f.Dims[i].Name)
		}
	}
	return ""
}

func TestC03Spec(t *testing.T) {
	h.Check(t, "C03", c03Rule, 60000, 2000000, func(rt *rapid.T, r *h.Rec) {
		p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 6, MaxElems: 2000, MaxName: 250, ClassicPc: 50})
		b := writeCDF(rt, p, h.Path("c03.nc"))
		f, err := cdfspec.Decode(b, true)
		if err != nil {
			rt.Fatalf("not a valid file: %v\nprogram: %s", err, p)
		}
		if d := checkSpec(f, p); d != "" {
			rt.Fatalf("%s\nprogram: %s", d, p)
		}
		nt, cl := cdfClasses(p)
		r.Case(nt, p.String(), append(cl, fmt.Sprintf("version %d", f.Version))...)
	})
}

func cdfNamesPlain(p *m.Program) bool {
	ok := true
	see := func(s string) {
		if len(s) > 255 || strings.ContainsRune(s, 0x301) {
			ok = false
		}
	}
	for _, o := range p.Ops {
		for _, a := range o.Attrs {
			see(a.Name)
		}
		if o.Var != nil {
			see(o.Var.Name)
			for _, d := range o.Var.Dims {
				see(d)
			}
			for _, a := range o.Var.Attrs {
				see(a.Name)
			}
		}
	}
	return ok
}

// checkDumpWritten compares what the NetCDF library finds with what was written.
func checkDumpWritten(d *capi.Dump, want *m.Group) string {
	if x := m.DiffAttrs(dumpAttrs(d.Root.Atts), want.Attrs, true); x != "" {
		return "global " + x
	}
	if len(d.Root.Vars) != len(want.Vars) {
		return fmt.Sprintf("%d variables, written %d", len(d.Root.Vars), len(want.Vars))
	}
	for i := range want.Vars {
		g, w := &d.Root.Vars[i], want.Vars[i]
		if g.Name != w.Name || g.Type != cdfTypeOf(m.ElemType(w.Val)) {
			return fmt.Sprintf("variable %d is %q of type %d, written %q", i, g.Name, g.Type, w.Name)
		}
		shape := m.CDFShape(w.Val, w.Dims)
		if fmt.Sprint(g.Shape()) != fmt.Sprint(shape) {
			return fmt.Sprintf("variable %q has shape %v, written %v", g.Name, g.Shape(), shape)
		}
		for k, x := range w.Dims {
			if k < len(g.Dims) && x != "" && g.Dims[k].Name != x {
				return fmt.Sprintf("variable %q: dimension %d is %q, written %q", g.Name, k, g.Dims[k].Name, x)
			}
		}
		if x := m.DiffAttrs(dumpAttrs(g.Atts), w.Attrs, true); x != "" {
			return fmt.Sprintf("variable %q %s", g.Name, x)
		}
		if m.Prod(shape) == 0 {
			continue
		}
		if x := m.Diff(dumpValue(g.Type, g.Toks, shape), w.Val); x != "" {
			return fmt.Sprintf("data of %q: %s", g.Name, x)
		}
	}
	return ""
}

func TestC03CLibrary(t *testing.T) {
	rule := "as C01; the file is read back through the NetCDF C library and compared with what was written; non-trivial: at least one variable with data and at least one attribute or a second variable"
	h.Check(t, "C03", rule, 40000, 800000, func(rt *rapid.T, r *h.Rec) {
		p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 6, MaxElems: 2000, MaxName: 120, ClassicPc: 50})
		path := h.Path("c03c.nc")
		writeCDF(rt, p, path)
		if !cdfNamesPlain(p) {
			r.Discarded("a name the C library does not look up as it is")
			return
		}
		d, err := capi.DumpFile(path)
		if err != nil {
			rt.Fatalf("the NetCDF library does not accept the file: %v\nprogram: %s", err, p)
		}
		if x := checkDumpWritten(d, p.CDFExpect()); x != "" {
			rt.Fatalf("NetCDF library: %s\nprogram: %s", x, p)
		}
		nt, cl := cdfClasses(p)
		r.Case(nt, p.String(), append(cl, fmt.Sprintf("format %d", d.Format))...)
	})
}
