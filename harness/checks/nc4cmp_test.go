package checks

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"verifharness/capi"
	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// ncFile is a NetCDF-4 file as the C libraries see it.
type ncFile struct {
	nc *capi.Dump
	h  *capi.HObj
}

// what parts of a file's description to compare
type parts struct {
	names, attrs, dimNames, dims, values, types bool
}

func sameSet(got, want []string) string {
	g := append([]string{}, got...)
	w := append([]string{}, want...)
	sort.Strings(g)
	sort.Strings(w)
	if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
		return fmt.Sprintf("got %.1500q want %.1500q", g, w)
	}
	return ""
}

// hVar finds the dataset behind a NetCDF variable.
func hVar(ho *capi.HObj, name string) *capi.HObj {
	if o := ho.Kid(nonCoord + name); o != nil && o.Kind == "ds" {
		return o
	}
	return ho.Kid(name)
}

func attNames(a []capi.Att) []string {
	var r []string
	for _, x := range a {
		if !h5Internal[x.Name] {
			r = append(r, x.Name)
		}
	}
	return r
}

// cmpAttrs compares attributes with what the C libraries read.
func cmpAttrs(am api.AttributeMap, atts []capi.Att, ho *capi.HObj) string {
	if d := sameSet(am.Keys(), attNames(atts)); d != "" {
		return "attributes: " + d
	}
	for _, a := range atts {
		if h5Internal[a.Name] {
			continue
		}
		v, has := am.Get(a.Name)
		if !has {
			return fmt.Sprintf("attribute %.60q is not found", a.Name)
		}
		o := ho.Att(a.Name)
		if o == nil {
			return fmt.Sprintf("attribute %.60q: VERIF the HDF5 library does not have it", a.Name)
		}
		if d := capi.CanonDiff(capi.Canon(v), o.AttValue(), ""); d != "" {
			return fmt.Sprintf("attribute %.60q of type %.200s: %s", a.Name, o.Type.Text, d)
		}
	}
	return ""
}

// cmpGroup compares a group and all below it.
func cmpGroup(g api.Group, nc *capi.Group, ho *capi.HObj, path string, p parts) string {
	in := func(s string) string { return fmt.Sprintf("in group %.100q: %s", path, s) }
	if p.names {
		var vars, subs []string
		for _, v := range nc.Vars {
			vars = append(vars, v.Name)
		}
		for _, s := range nc.Groups {
			subs = append(subs, s.Name)
		}
		if d := sameSet(g.ListVariables(), vars); d != "" {
			return in("ListVariables: " + d)
		}
		if d := sameSet(g.ListSubgroups(), subs); d != "" {
			return in("ListSubgroups: " + d)
		}
	}
	if p.attrs {
		if d := cmpAttrs(g.Attributes(), nc.Atts, ho); d != "" {
			return in(d)
		}
	}
	if p.dims {
		var names []string
		for _, d := range nc.Dims {
			names = append(names, d.Name)
			n, has := g.GetDimension(d.Name)
			if !has || int64(n) != d.Len && !d.Unlim {
				return in(fmt.Sprintf("GetDimension(%.60q) = %d, %v, want %d", d.Name, n, has, d.Len))
			}
		}
		if d := sameSet(g.ListDimensions(), names); d != "" {
			return in("ListDimensions: " + d)
		}
	}
	for i := range nc.Vars {
		v := &nc.Vars[i]
		o := hVar(ho, v.Name)
		if o == nil || o.Kind != "ds" {
			capi.Infra("no dataset for variable %q", v.Name)
		}
		vg, err := g.GetVarGetter(v.Name)
		if err != nil {
			return in(fmt.Sprintf("GetVarGetter(%.60q): %v", v.Name, err))
		}
		if p.values {
			av, err := g.GetVariable(v.Name)
			if err != nil {
				return in(fmt.Sprintf("GetVariable(%.60q): %v", v.Name, err))
			}
			if d := capi.CanonDiff(capi.Canon(av.Values), o.Value(), ""); d != "" {
				return in(fmt.Sprintf("variable %.60q of type %.200s: %s", v.Name, o.Type.Text, d))
			}
			val, err := vg.Values()
			if err != nil {
				return in(fmt.Sprintf("Values of %.60q: %v", v.Name, err))
			}
			if d := capi.CanonDiff(capi.Canon(val), o.Value(), ""); d != "" {
				return in(fmt.Sprintf("Values of variable %.60q of type %.200s: %s", v.Name, o.Type.Text, d))
			}
		}
		if p.attrs {
			if d := cmpAttrs(vg.Attributes(), v.Atts, o); d != "" {
				return in(fmt.Sprintf("variable %.60q: %s", v.Name, d))
			}
		}
		if p.dimNames {
			var dn []string
			for _, d := range v.Dims {
				dn = append(dn, d.Name)
			}
			if d := sameList(vg.Dimensions(), dn); d != "" {
				return in(fmt.Sprintf("Dimensions of %.60q: %s", v.Name, d))
			}
		}
	}
	for _, s := range nc.Groups {
		sub, err := g.GetGroup(s.Name)
		if err != nil {
			return in(fmt.Sprintf("GetGroup(%.60q): %v", s.Name, err))
		}
		d := cmpGroup(sub, s, ho.Kid(s.Name), path+"/"+s.Name, p)
		sub.Close()
		if d != "" {
			return d
		}
	}
	return ""
}

// dumpNC reads a file through both C libraries; nil if they do not manage to.
func dumpNC(path string) *ncFile {
	d, err := capi.DumpFile(path)
	if err != nil {
		return nil
	}
	ho, err := capi.HDumpFile(path)
	if err != nil {
		return nil
	}
	return &ncFile{d, ho}
}

// makeNC makes a file with the C library and reads it through both C libraries.
func makeNC(r *h.Rec, g *ngen, path string) *ncFile {
	if _, err := capi.Do(g.cmds...); err != nil {
		r.Discarded("refused by the C library")
		if os.Getenv("VERIF_DEV") != "" {
			fmt.Println("REFUSED", err, g.desc())
		}
		return nil
	}
	f := dumpNC(path)
	if f == nil {
		r.Discarded("the C library does not read what it wrote")
		if os.Getenv("VERIF_DEV") != "" {
			_, err := capi.DumpFile(path)
			_, err2 := capi.HDumpFile(path)
			fmt.Println("UNREADABLE", err, err2, g.desc())
		}
		return nil
	}
	if !kept(g, f) {
		r.Discarded("the C library lost values it wrote")
		if os.Getenv("VERIF_DEV") != "" {
			fmt.Println("DAMAGED", g.desc())
		}
		return nil
	}
	return f
}

// kept checks that attributes and variables of user-defined types have the values
// they were given: the C library sometimes frees the strings in them (and then reads
// empty strings).
func kept(g *ngen, f *ncFile) bool {
	if g.dangling() {
		return false
	}
	n := map[string]int{}
	for _, c := range g.cmds {
		if w := strings.Fields(c); w[0] == "ATT" && len(w) > 6 && w[4][0] == '@' {
			n[strings.Join(w[6:], " ")]++
		}
	}
	count := func(atts []capi.Att) {
		for _, a := range atts {
			if a.Type > capi.String && a.Name != "_FillValue" {
				n[strings.Join(a.Toks, " ")]--
			}
		}
	}
	lost := false
	seen := map[string]bool{}
	for k := range g.cells {
		seen[k] = true
	}
	var walk func(gr *capi.Group, path string)
	walk = func(gr *capi.Group, path string) {
		count(gr.Atts)
		for i := range gr.Vars {
			v := &gr.Vars[i]
			count(v.Atts)
			if w := g.cells[path+"/"+v.Name]; w != nil {
				k := 0
				eachIndex(v.Shape(), func(ix []int) {
					if !w.t.vlen || w.t.class <= capi.String {
						return // these aren't lost
					}
					n := w.t.take(v.Toks[k:], 1)
					if e, has := w.at[fmt.Sprint(ix)]; has && e != strings.Join(v.Toks[k:k+n], " ") {
						lost = true
					}
					k += n
				})
				delete(seen, path+"/"+v.Name)
			}
		}
		for _, s := range gr.Groups {
			walk(s, path+"/"+s.Name)
		}
	}
	walk(f.nc.Root, "")
	if len(seen) > 0 {
		capi.Infra("variables %v not found in the dump", seen)
	}
	if lost {
		return false
	}
	for _, k := range n {
		if k != 0 {
			return false
		}
	}
	return true
}

// trimmed is for messages.
func trimmed(s string) string {
	if len(s) > 3000 {
		s = s[:3000] + fmt.Sprintf("..(%d)", len(s))
	}
	return strings.ToValidUTF8(s, "?")
}
