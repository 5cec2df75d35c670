package checks

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func TestC07NetCDF(t *testing.T) {
	rule := "NetCDF-4 files made by the NetCDF library: nested groups, many or few variables, attributes and dimensions (coordinate variables of any rank, variables named like dimensions, unlimited dimensions, dimensions of parent groups), user-defined types, empty and long attributes; names, tree, attributes with values and dimension names compared with what the NetCDF library reports and (values) the HDF5 library reads; non-trivial: at least two variables, groups or attributes"
	h.Check(t, "C07", rule, 8000, 200000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c07n.nc")
		o := ncOpts{maxVars: 10, maxGroups: 6, maxElems: 40, maxAtts: 4, many: true, plain: true, partial: true}
		o.types = rapid.Bool().Draw(rt, "types")
		if rapid.IntRange(0, 5).Draw(rt, "wide") == 0 {
			o.maxVars, o.maxGroups = 50, 25
		}
		g := ncProgram(rt, path, o)
		f := makeNC(r, g, path)
		if f == nil {
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		if d := cmpGroup(nc, f.nc.Root, f.h, "", parts{names: true, attrs: true, dimNames: true}); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(g.nvars+g.groups+g.natts >= 2, g.desc(), g.classList()...)
	})
}

// hAtt draws an attribute.
func (g *hgen) hAtt(obj int, name string) {
	t := g.stdType(true)
	rank := g.pick("arank", 0, 2)
	dims := make([]int, rank)
	n := 1
	for i := range dims {
		dims[i] = g.pick("adim", 1, 4)
		if g.pc("azero", 5) {
			dims[i] = 0
		}
		n *= dims[i]
	}
	if rank == 1 && n > 0 && g.pc("along", 5) {
		dims[0] = g.pick("alongn", 100, 4000)
		n = dims[0]
		g.class("long attribute")
	}
	v := ""
	if n > 0 {
		v = g.tokens(t, n)
	}
	g.add("HATT %d %s %s %d%s %s", obj, capi.Hex(name), t.Text, rank, ints(dims), v)
}

func (g *hgen) hAtts(obj int) {
	n := g.pick("na", 0, 3)
	if g.pc("manya", 12) {
		n = g.pick("manyan", 9, 150)
		g.class("many attributes")
	}
	for i := 0; i < n; i++ {
		g.hAtt(obj, g.hname("an", i))
	}
	if n > 2 && g.pc("adel", 25) {
		g.class("attributes deleted")
		del := map[string]bool{}
		for k := g.pick("adels", 1, min(n, 20)); k > 0; k-- {
			// the names are unique: take them from the commands
			i := len(g.cmds) - 1 - g.pick("adeli", 0, n-1)
			var o int
			var nm string
			if c, _ := fmt.Sscanf(g.cmds[i], "HATT %d %s", &o, &nm); c == 2 && o == obj && !del[nm] {
				del[nm] = true
				g.add("HADEL %d %s", obj, nm)
				break
			}
		}
	}
}

var hnameUnits = []string{"a", "name", "x_y", "Ж", "名"}

// hname is a name that is unique by its number.
func (g *hgen) hname(kind string, i int) string {
	s := fmt.Sprintf("%s%d", kind, i)
	switch g.pick("namek", 0, 12) {
	case 0:
		s += rapid.SampledFrom(hnameUnits).Draw(g.rt, "unit")
	case 1:
		s += strings.Repeat("long", g.pick("namelen", 1, 60))
	case 2:
		if g.pc("longname", 30) {
			s += strings.Repeat("longer", g.pick("namelen", 40, 500))
			g.class("name of more than 255 bytes")
		}
		if kind == "o" && g.pc("hugename", 1) {
			s += strings.Repeat("longest ", g.pick("namelen", 8100, 8300)) + "x"
			g.class("name of more than 64 kB or a little less")
		}
	}
	return s
}

func (g *hgen) hTree(parent, depth int, budget *int, linkable *[]int) {
	n := g.pick("kids", 0, 5)
	if g.pc("manyk", 15) {
		n = g.pick("manykn", 9, 120)
		g.class("many links")
	}
	if g.pc("hugek", 1) {
		n = g.pick("hugekn", 500, 3000)
		g.class("very many links")
	}
	var names []string
	for i := 0; i < n && *budget > 0; i++ {
		*budget--
		name := g.hname("o", i)
		k := g.pick("kid", 0, 9)
		if n > 8 && k >= 5 && k < 9 {
			k = 0
		}
		switch {
		case k < 5:
			d := g.smallDataset(parent, name)
			if n < 9 {
				g.hAtts(d)
			}
			*linkable = append(*linkable, d)
		case k == 9 && len(*linkable) > 0:
			g.add("HLNK h %d %s %d", parent, capi.Hex(name), rapid.SampledFrom(*linkable).Draw(g.rt, "target"))
			g.class("second hard link")
		case depth < 3:
			s := g.newSlot()
			g.add("HGRP %d %d %s %d", s, parent, capi.Hex(name), b2i(g.pc("gorder", 50)))
			g.class("groups")
			g.hAtts(s)
			g.hTree(s, depth+1, budget, linkable)
		default:
			continue
		}
		names = append(names, name)
	}
	if len(names) > 1 && g.pc("dels", 25) {
		g.class("links deleted")
		perm := rapid.Permutation(names).Draw(g.rt, "delorder")
		for _, nm := range perm[:g.pick("ndel", 1, len(perm))] {
			g.add("HDEL %d %s", parent, capi.Hex(nm))
		}
	}
	g.nontriv = g.nontriv || len(names) > 1
}

func (g *hgen) smallDataset(parent int, name string) int {
	s := g.newSlot()
	t := g.stdType(true)
	if g.pc("scalar", 50) {
		g.add("HDS %d %d %s %s 1 0 0 0 0 0", s, parent, capi.Hex(name), t.Text)
		g.add("HWR %d 0 %s", s, g.tokens(t, 1))
		return s
	}
	n := g.pick("sn", 1, 5)
	g.add("HDS %d %d %s %s 1 1 %d %d 0 0 0 0", s, parent, capi.Hex(name), t.Text, n, n)
	g.add("HWR %d 1 0 %d %s", s, n, g.tokens(t, n))
	return s
}

// cmpTree compares a group with what the HDF5 library lists and reads.
func cmpTree(g api.Group, o *capi.HObj, path string) string {
	in := func(s string) string { return fmt.Sprintf("in group %.100q: %s", path, s) }
	var vars, subs []string
	for _, k := range o.Kids {
		switch k.Kind {
		case "group":
			subs = append(subs, k.Name)
		case "ds":
			vars = append(vars, k.Name)
		}
	}
	if d := sameSet(g.ListVariables(), vars); d != "" {
		return in("ListVariables: " + d)
	}
	if d := sameSet(g.ListSubgroups(), subs); d != "" {
		return in("ListSubgroups: " + d)
	}
	atts := func(am api.AttributeMap, o *capi.HObj) string {
		var names []string
		for _, a := range o.Atts {
			names = append(names, a.Name)
		}
		if d := sameSet(am.Keys(), names); d != "" {
			return "attributes: " + d
		}
		for _, a := range o.Atts {
			v, has := am.Get(a.Name)
			if !has {
				return fmt.Sprintf("attribute %.60q is not found", a.Name)
			}
			if d := capi.CanonDiff(capi.Canon(v), a.AttValue(), ""); d != "" {
				return fmt.Sprintf("attribute %.60q of type %s, shape %v: %s", a.Name, a.Type.Text, a.Shape, d)
			}
		}
		return ""
	}
	if d := atts(g.Attributes(), o); d != "" {
		return in(d)
	}
	for _, k := range o.Kids {
		switch k.Kind {
		case "ds":
			vg, err := g.GetVarGetter(k.Name)
			if err != nil {
				return in(fmt.Sprintf("GetVarGetter(%.60q): %v", k.Name, err))
			}
			v, err := vg.Values()
			if err != nil {
				return in(fmt.Sprintf("Values of %.60q: %v", k.Name, err))
			}
			if d := capi.CanonDiff(capi.Canon(v), k.Value(), ""); d != "" {
				return in(fmt.Sprintf("variable %.60q: %s", k.Name, d))
			}
			if d := atts(vg.Attributes(), k); d != "" {
				return in(fmt.Sprintf("variable %.60q: %s", k.Name, d))
			}
			if n := vg.Dimensions(); len(n) != 0 {
				return in(fmt.Sprintf("variable %.60q has dimensions %q without dimension scales", k.Name, n))
			}
		case "group":
			sub, err := g.GetGroup(k.Name)
			if err != nil {
				return in(fmt.Sprintf("GetGroup(%.60q): %v", k.Name, err))
			}
			d := cmpTree(sub, k, path+"/"+k.Name)
			sub.Close()
			if d != "" {
				return d
			}
		}
	}
	return ""
}

func TestC07HDF5(t *testing.T) {
	rule := "HDF5 files made by the HDF5 library: groups of old and new style, with links and attributes stored compactly or densely (own thresholds, B-tree sizes), from none to thousands, with deletions, header continuations, second hard links and long names; tree, attributes and values compared with what the HDF5 library lists and reads; non-trivial: a group with at least two links"
	h.Check(t, "C07", rule, 8000, 200000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c07.nc")
		g := newHGen(rt)
		g.newFile(path)
		budget := 300
		if rapid.IntRange(0, 20).Draw(rt, "large") == 0 {
			budget = 4000
		}
		var linkable []int
		g.hAtts(0)
		g.hTree(0, 0, &budget, &linkable)
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + err.Error())
			return
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			capi.Infra("HDUMP: %v of %s", err, g.desc())
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, trimmed(g.desc()))
		}
		defer nc.Close()
		if d := cmpTree(nc, root, ""); d != "" {
			rt.Fatalf("%s\n%s", d, trimmed(g.desc()))
		}
		r.Case(g.nontriv, g.desc(), g.classList()...)
	})
}
