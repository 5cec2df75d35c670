package checks

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/m"
)

// h5Internal are attributes NetCDF-4 keeps for itself.
var h5Internal = map[string]bool{"CLASS": true, "NAME": true, "DIMENSION_LIST": true, "REFERENCE_LIST": true,
	"_Netcdf4Dimid": true, "_Netcdf4Coordinates": true, "_nc3_strict": true, "_NCProperties": true, "DIMENSION_LABELS": true}

const pureDim = "This is a netCDF dimension but not a netCDF variable"
const nonCoord = "_nc4_non_coord_"

func isScale(o *capi.HObj) bool {
	c := o.Att("CLASS")
	return c != nil && c.Type.Class == 's' && strings.TrimRight(fmt.Sprint(c.AttValue()), "\x00") == "DIMENSION_SCALE"
}

func isPureDim(o *capi.HObj) bool {
	if !isScale(o) {
		return false
	}
	n := o.Att("NAME")
	return n != nil && strings.HasPrefix(fmt.Sprint(n.AttValue()), pureDim)
}

// checkHAtts compares attributes the HDF5 library finds with those written.
func checkHAtts(o *capi.HObj, want []m.Attr) string {
	got := map[string]*capi.HObj{}
	for _, a := range o.Atts {
		if !h5Internal[a.Name] {
			got[a.Name] = a
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d attributes, %d written", len(got), len(want))
	}
	for _, a := range want {
		g := got[a.Name]
		if g == nil {
			return fmt.Sprintf("attribute %.60q not there", a.Name)
		}
		if d := capi.CanonDiff(g.AttValue(), capi.Canon(a.Val), ""); d != "" {
			return fmt.Sprintf("attribute %.60q: %s", a.Name, d)
		}
	}
	return ""
}

// checkHContent compares what the HDF5 library finds with what was written.
func checkHContent(o *capi.HObj, want *m.Group, path string) string {
	in := func(s string) string { return fmt.Sprintf("HDF5 library in group %.100q: %s", path, s) }
	if d := checkHAtts(o, want.Attrs); d != "" {
		return in(d)
	}
	vars := map[string]*capi.HObj{}
	groups := map[string]*capi.HObj{}
	for _, k := range o.Kids {
		switch {
		case k.Kind == "group":
			groups[k.Name] = k
		case k.Kind == "ds" && !isPureDim(k):
			vars[strings.TrimPrefix(k.Name, nonCoord)] = k
		case k.Kind == "ds":
		default:
			return in("unexpected " + k.Kind + " " + k.Name)
		}
	}
	if len(vars) != len(want.Vars) || len(groups) != len(want.Groups) {
		return in(fmt.Sprintf("%d variables and %d groups, written %d and %d", len(vars), len(groups), len(want.Vars), len(want.Groups)))
	}
	for _, v := range want.Vars {
		g := vars[v.Name]
		if g == nil {
			return in(fmt.Sprintf("variable %.60q not there", v.Name))
		}
		if d := capi.CanonDiff(g.Value(), capi.Canon(v.Val), ""); d != "" {
			return in(fmt.Sprintf("variable %.60q: %s", v.Name, d))
		}
		if d := checkHAtts(g, v.Attrs); d != "" {
			return in(fmt.Sprintf("variable %.60q: %s", v.Name, d))
		}
		if len(g.Shape) > 0 && !isScale(g) {
			dl := g.Att("DIMENSION_LIST")
			if dl == nil || len(dl.Shape) != 1 || dl.Shape[0] != len(g.Shape) {
				return in(fmt.Sprintf("variable %.60q has no proper DIMENSION_LIST", v.Name))
			}
		}
	}
	for _, s := range want.Groups {
		g := groups[s.Name]
		if g == nil {
			return in(fmt.Sprintf("group %.60q not there", s.Name))
		}
		if d := checkHContent(g, s, path+"/"+s.Name); d != "" {
			return d
		}
	}
	return ""
}

// hasVlen: the NetCDF library does not list what has a type of variable length
// without a name.
func hasVlen(v any, rank int) bool { return m.Depth(v) > rank }

func checkNCAtts(got []capi.Att, ho *capi.HObj, want []m.Attr) string {
	var w []m.Attr
	for _, a := range want {
		if x := ho.Att(a.Name); x != nil && x.Type.Class != 'v' {
			w = append(w, a)
		}
	}
	var g []m.Attr
	for _, a := range got {
		if a.Type > capi.String {
			return fmt.Sprintf("attribute %.60q has type %d", a.Name, a.Type)
		}
		v := dumpAttr(a)
		if s, is := v.(string); is && a.Type == cdfspec.Char {
			v = strings.TrimRight(s, "\x00")
		}
		g = append(g, m.Attr{Name: a.Name, Val: v})
	}
	return m.DiffAttrs(g, w, false)
}

// checkNCContent compares what the NetCDF library finds with what was written.
func checkNCContent(o *capi.Group, ho *capi.HObj, want *m.Group, path string) string {
	in := func(s string) string { return fmt.Sprintf("NetCDF library in group %.100q: %s", path, s) }
	if d := checkNCAtts(o.Atts, ho, want.Attrs); d != "" {
		return in(d)
	}
	vars := map[string]*capi.Var{}
	for i := range o.Vars {
		vars[o.Vars[i].Name] = &o.Vars[i]
	}
	if len(o.Types) != 0 {
		return in("types")
	}
	n := 0
	for _, v := range want.Vars {
		if hasVlen(v.Val, len(v.Dims)) {
			continue
		}
		n++
		g := vars[v.Name]
		if g == nil {
			return in(fmt.Sprintf("variable %.60q not there", v.Name))
		}
		shape := m.Shape(v.Val)
		if fmt.Sprint(g.Shape()) != fmt.Sprint(shape) {
			return in(fmt.Sprintf("variable %.60q has shape %v, written %v", v.Name, g.Shape(), shape))
		}
		for i, d := range v.Dims {
			if d != "" && g.Dims[i].Name != d {
				return in(fmt.Sprintf("variable %.60q: dimension %d is %.60q, written %.60q", v.Name, i, g.Dims[i].Name, d))
			}
		}
		val := dumpValue(g.Type, g.Toks, shape)
		if s, is := val.(string); is && g.Type == cdfspec.Char {
			val = strings.TrimRight(s, "\x00") // a scalar string of up to one byte is a character
		} else if g.Type != capi.TypeOf(m.ElemType(v.Val)) {
			return in(fmt.Sprintf("variable %.60q has type %d", v.Name, g.Type))
		}
		if d := m.Diff(val, v.Val); d != "" {
			return in(fmt.Sprintf("variable %.60q: %s", v.Name, d))
		}
		hv := ho.Kid(nonCoord + v.Name)
		if hv == nil {
			hv = ho.Kid(v.Name)
		}
		if d := checkNCAtts(g.Atts, hv, v.Attrs); d != "" {
			return in(fmt.Sprintf("variable %.60q: %s", v.Name, d))
		}
	}
	if n != len(o.Vars) {
		return in(fmt.Sprintf("%d variables, written %d", len(o.Vars), n))
	}
	groups := map[string]*capi.Group{}
	for _, g := range o.Groups {
		groups[g.Name] = g
	}
	if len(groups) != len(want.Groups) || len(groups) != len(o.Groups) {
		return in(fmt.Sprintf("%d groups, written %d", len(o.Groups), len(want.Groups)))
	}
	for _, s := range want.Groups {
		g := groups[s.Name]
		if g == nil {
			return in(fmt.Sprintf("group %.60q not there", s.Name))
		}
		if d := checkNCContent(g, ho.Kid(s.Name), s, path+"/"+s.Name); d != "" {
			return d
		}
	}
	return ""
}

func longestName(p *m.H5Program) int {
	n := 0
	see := func(s string) {
		if len(s) > n {
			n = len(s)
		}
		if strings.ContainsRune(s, 0x301) {
			n = 1 << 20 // the NetCDF library looks names up in composed form only
		}
	}
	for _, o := range p.Ops {
		see(o.Create)
		for _, a := range o.Attrs {
			see(a.Name)
		}
		if o.Var != nil {
			see(o.Var.Name)
			for _, d := range o.Var.Dims {
				see(d)
			}
			for _, a := range o.Var.Attrs {
				see(a.Name)
			}
		}
	}
	return n
}

const c04Rule = "as C02 (random accepted call sequences on an HDF5 writer and its subgroups); the file is read back completely through libhdf5 and, when its restrictions on names are met (under 256 bytes, Unicode composed form), through libnetcdf; non-trivial: a variable with data and a group, an attribute or another variable"

func checkC04(rt *rapid.T, r *h.Rec, p *m.H5Program) {
	path := h.Path("c04.nc")
	writeH5(rt, p, path)
	want := p.H5Expect()
	hd, err := capi.HDumpFile(path)
	if err != nil {
		rt.Fatalf("the HDF5 library does not accept the file: %v\nprogram: %s", err, p)
	}
	if d := checkHContent(hd, want, ""); d != "" {
		rt.Fatalf("%s\nprogram: %s", d, p)
	}
	nt, cl := h5Classes(p)
	if longestName(p) < 256 {
		nd, err := capi.DumpFile(path)
		if err != nil {
			rt.Fatalf("the NetCDF library does not accept the file: %v\nprogram: %s", err, p)
		}
		if nd.Format != 3 {
			rt.Fatalf("format %d\nprogram: %s", nd.Format, p)
		}
		if d := checkNCContent(nd.Root, hd, want, ""); d != "" {
			rt.Fatalf("%s\nprogram: %s", d, p)
		}
		cl = append(cl, "read by libnetcdf")
	}
	r.Case(nt, p.String(), cl...)
}

func TestC04CLibraries(t *testing.T) {
	h.Check(t, "C04", c04Rule, 32000, 600000, func(rt *rapid.T, r *h.Rec) {
		o := m.H5Opts{MaxVars: 6, MaxGroups: 4, MaxElems: 1000, MaxName: 200}
		switch rapid.IntRange(0, 9).Draw(rt, "kind") {
		case 0:
			o.MaxName = 1500
		case 1:
			o.MaxVars = 25
			o.MaxGroups = 12
			o.MaxElems = 60
		case 2:
			o.MaxElems = 20000
			o.MaxVars = 3
		}
		checkC04(rt, r, m.H5Prog(rt, o))
	})
}
