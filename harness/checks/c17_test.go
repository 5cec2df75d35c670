package checks

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// dimRules is what is known about the dimensions of a file.
type dimRules struct {
	classic   bool
	unlimited func(path, name string) bool // nil: the classic rule, length 0
	scaleless bool                         // datasets may have no dimension names at all
	exact     func(path string) []string   // the dimensions of a group in order, or nil
	foreign   []string                     // names to look up that may not be there
	vars      int
	dims      int
}

// check checks the dimensions of a group and of the groups below it.
func (p *dimRules) check(g api.Group, outer []api.Group, path string) string {
	in := func(f string, a ...any) string {
		return fmt.Sprintf("in group %.100q: ", path) + fmt.Sprintf(f, a...)
	}
	list := g.ListDimensions()
	if d := sameList(g.ListDimensions(), list); d != "" {
		return in("ListDimensions once more: %s", d)
	}
	if p.exact != nil {
		if want := p.exact(path); want != nil {
			if p.classic {
				if d := sameList(list, want); d != "" {
					return in("ListDimensions: %s", d)
				}
			} else if d := sameSet(list, want); d != "" {
				return in("ListDimensions: %s", d)
			}
		}
	}
	seen := map[string]uint64{}
	for _, d := range list {
		if _, has := seen[d]; has {
			return in("ListDimensions lists %.60q twice: %.300q", d, list)
		}
		n, has := g.GetDimension(d)
		if !has {
			return in("GetDimension(%.60q) finds nothing, but it is listed", d)
		}
		seen[d] = n
		p.dims++
	}
	vars := g.ListVariables()
	absent := append([]string{"", "/", ".", "no such dimension"}, p.foreign...)
	absent = append(absent, vars...)
	absent = append(absent, g.ListSubgroups()...)
	for _, o := range outer {
		absent = append(absent, o.ListDimensions()...)
	}
	for _, d := range list {
		absent = append(absent, d+"x", d[:len(d)-1], strings.ToUpper(d), "/"+d)
	}
	for _, a := range absent {
		if _, has := seen[a]; has {
			continue
		}
		if n, has := g.GetDimension(a); has {
			return in("GetDimension(%.60q) = %d, but it isn't listed: %.300q", a, n, list)
		}
	}
	for _, v := range vars {
		vg, err := g.GetVarGetter(v)
		if err != nil {
			return in("GetVarGetter(%.60q): %v", v, err)
		}
		dims, shape := vg.Dimensions(), vg.Shape()
		if len(dims) != len(shape) && !(p.scaleless && len(dims) == 0) {
			return in("variable %.60q: dimensions %.300q, shape %v", v, dims, shape)
		}
		av, err := g.GetVariable(v)
		if err != nil {
			return in("GetVariable(%.60q): %v", v, err)
		}
		if d := sameList(av.Dimensions, dims); d != "" {
			return in("dimensions of variable %.60q and of its getter: %s", v, d)
		}
		p.vars++
		for i, d := range dims {
			// the nearest dimension of that name, or one further out that it hides
			chain := append(append([]api.Group{}, outer...), g)
			found, fits, where := false, false, path
			n := uint64(0)
			for k := len(chain) - 1; k >= 0 && !fits; k-- {
				if k < len(chain)-1 {
					where = where[:strings.LastIndexByte(where, '/')]
				}
				l, has := chain[k].GetDimension(d)
				if !has {
					continue
				}
				if !found {
					n = l
				}
				found = true
				// the scale of an unlimited dimension may be of any length
				unlim := l == 0 && p.classic
				if p.unlimited != nil {
					unlim = p.unlimited(where, d)
				}
				fits = unlim || uint64(shape[i]) == l
			}
			if !found {
				return in("variable %.60q: its dimension %.60q is declared nowhere above it", v, d)
			}
			if !fits {
				return in("variable %.60q has shape %v and dimensions %.300q, but %.60q has length %d", v, shape, dims, d, n)
			}
		}
	}
	for _, s := range g.ListSubgroups() {
		sub, err := g.GetGroup(s)
		if err != nil {
			return in("GetGroup(%.60q): %v", s, err)
		}
		d := p.check(sub, append(append([]api.Group{}, outer...), g), path+"/"+s)
		sub.Close()
		if d != "" {
			return d
		}
	}
	return ""
}

func TestC17Writers(t *testing.T) {
	h.Check(t, "C17", "files of both writers: shared, own, unnamed, zero-length dimensions, groups, coordinate variables, strings; non-trivial: at least two dimensions", 16000, 400000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c17.nc")
		p := &dimRules{}
		desc := ""
		var named []string
		add := func(v *m.Var) {
			for _, d := range v.Dims {
				if d != "" && !has_(named, d) {
					named = append(named, d)
				}
			}
		}
		if rapid.Bool().Draw(rt, "hdf5") {
			prog := m.H5Prog(rt, m.H5Opts{MaxVars: 6, MaxGroups: 4, MaxElems: 60, MaxName: 60})
			writeH5(rt, prog, path)
			for _, o := range prog.Ops {
				if o.Var != nil {
					add(o.Var)
				}
			}
			p.unlimited = func(string, string) bool { return false }
			desc = prog.String()
		} else {
			prog := m.CDFProgram(rt, m.CDFOpts{MaxVars: 6, MaxElems: 60, MaxName: 60, ClassicPc: 60})
			writeCDF(rt, prog, path)
			for _, o := range prog.Ops {
				if o.Var != nil {
					add(o.Var)
				}
			}
			p.classic = true
			desc = prog.String()
		}
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, desc)
		}
		defer g.Close()
		if d := p.check(g, nil, ""); d != "" {
			rt.Fatalf("%s\n%s", d, desc)
		}
		// the root group has the named ones and made-up ones
		list := g.ListDimensions()
		for _, d := range named {
			if !has_(list, d) {
				rt.Fatalf("dimension %.60q isn't listed: %.300q\n%s", d, list, desc)
			}
		}
		for _, d := range list {
			if !has_(named, d) && !strings.HasPrefix(d, "_dimid_") && !strings.HasPrefix(d, "_stringlen_") {
				rt.Fatalf("a dimension %.60q that nobody asked for\n%s", d, desc)
			}
		}
		r.Case(p.dims > 1, desc, fmt.Sprintf("%d dimensions", min(p.dims, 8)))
	})
}

func TestC17Classic(t *testing.T) {
	h.Check(t, "C17", "classic files from an independent encoder: any order, unused dimensions, record dimension, truncated data; the dimensions in the file's order with their lengths; non-trivial: at least two dimensions", 16000, 400000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 6, MaxElems: 100, MaxName: 60, TruncatePc: 10, FillPc: 10})
		g, err := netcdf.New(newMem(s.Bytes))
		if err != nil {
			rt.Fatalf("New: %v\n%s", err, s)
		}
		defer g.Close()
		var names []string
		for _, d := range s.F.Dims {
			names = append(names, d.Name)
			if n, has := g.GetDimension(d.Name); !has || n != uint64(d.Len) {
				rt.Fatalf("GetDimension(%q) = %d, %v, want %d\n%s", d.Name, n, has, d.Len, s)
			}
		}
		if names == nil {
			names = []string{}
		}
		p := &dimRules{classic: true, exact: func(string) []string { return names }}
		if d := p.check(g, nil, ""); d != "" {
			rt.Fatalf("%s\n%s", d, s)
		}
		_, cl := specClasses(s)
		r.Case(len(names) > 1, s.String(), cl...)
	})
}

// ncRules are the rules for a file the NetCDF library knows.
func ncRules(root *capi.Group) *dimRules {
	at := map[string]*capi.Group{}
	var all []string
	var walk func(g *capi.Group, path string)
	walk = func(g *capi.Group, path string) {
		at[path] = g
		for _, d := range g.Dims {
			all = append(all, d.Name)
		}
		for _, s := range g.Groups {
			walk(s, path+"/"+s.Name)
		}
	}
	walk(root, "")
	return &dimRules{
		foreign: all,
		unlimited: func(path, name string) bool {
			for _, d := range at[path].Dims {
				if d.Name == name {
					return d.Unlim
				}
			}
			return false
		},
		exact: func(path string) []string {
			l := []string{}
			for _, d := range at[path].Dims {
				l = append(l, d.Name)
			}
			return l
		},
	}
}

func TestC17NetCDF(t *testing.T) {
	h.Check(t, "C17", "NetCDF-4 files made by the NetCDF library: dimensions in every group (also of the same name), used below, coordinate variables of any rank, variables named like dimensions, unlimited dimensions; sets and lengths compared with the NetCDF library; non-trivial: at least two dimensions", 16000, 400000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c17n.nc")
		g := ncProgram(rt, path, ncOpts{maxVars: 8, maxGroups: 4, maxElems: 40, maxAtts: 1, partial: true, types: rapid.Bool().Draw(rt, "types")})
		f := makeNC(r, g, path)
		if f == nil {
			return
		}
		nc, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		p := ncRules(f.nc.Root)
		d := p.check(nc, nil, "")
		if d == "" {
			d = cmpGroup(nc, f.nc.Root, f.h, "", parts{dims: true, dimNames: true})
		}
		if d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(p.dims > 1, g.desc(), g.classList()...)
	})
}

func TestC17ClassicNetCDF(t *testing.T) {
	h.Check(t, "C17", "classic files of the three versions made by the NetCDF library, with a record dimension at any place; lists and lengths compared with the NetCDF library; non-trivial: at least two dimensions", 1000, 20000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c17c.nc")
		cmds, desc := cdfCProgram(rt, path)
		if _, err := capi.Do(cmds...); err != nil {
			r.Discarded("refused by the C library")
			return
		}
		f, err := capi.DumpFile(path)
		if err != nil {
			r.Discarded("the C library does not read what it wrote")
			return
		}
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, desc)
		}
		defer g.Close()
		p := ncRules(f.Root)
		p.classic = true
		if d := p.check(g, nil, ""); d != "" {
			rt.Fatalf("%s\n%s", d, desc)
		}
		for _, d := range f.Root.Dims {
			want := uint64(d.Len)
			if d.Unlim {
				want = 0
			}
			if n, has := g.GetDimension(d.Name); !has || n != want {
				rt.Fatalf("GetDimension(%q) = %d, %v, want %d\n%s", d.Name, n, has, want, desc)
			}
		}
		r.Case(p.dims > 1, desc)
	})
}

func TestC17HDF5(t *testing.T) {
	h.Check(t, "C17", "HDF5 files without dimension scales, groups of any kind: no dimensions are listed or found, and none named; non-trivial: a dataset of rank 1 or more", 1500, 30000, func(rt *rapid.T, r *h.Rec) {
		g := newHGen(rt)
		path := h.Path("c17h.h5")
		g.newFile(path)
		budget := 12
		var linkable []int
		g.hTree(0, 0, &budget, &linkable)
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the HDF5 library")
			return
		}
		nc, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		p := &dimRules{scaleless: true, exact: func(string) []string { return []string{} }}
		if d := p.check(nc, nil, ""); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(p.vars > 0, g.desc(), g.classList()...)
	})
}

func TestC17Big(t *testing.T) {
	h.Check(t, "C17", "dimensions of up to 2^58, of classic files of all versions (virtual ones of an independent encoder, with variables of them) and of NetCDF-4 files made by the NetCDF library (not of variables); lists and lengths compared with what was declared; non-trivial: a dimension of more than 2^15", 6000, 150000, func(rt *rapid.T, r *h.Rec) {
		if rapid.IntRange(0, 4).Draw(rt, "nc4") > 0 {
			s := drawBig(rt)
			if s == nil {
				r.Discarded("not possible in the version")
				return
			}
			// dimensions of no variable
			for i := rapid.IntRange(0, 2).Draw(rt, "unused"); i > 0; i-- {
				e := rapid.SampledFrom([]int{15, 16, 24, 30, 31, 32, 33, 40, 62}).Draw(rt, "exp")
				n := int64(1)<<e + rapid.Int64Range(-3, 3).Draw(rt, "exp+")
				if s.f.Version < 5 {
					n = min(n, math.MaxInt32)
				}
				s.f.Dims = append(s.f.Dims, cdfspec.Dim{Name: fmt.Sprint("unused", i), Len: n})
			}
			s.file.header = s.f.Header() // the data, which move, are not read
			s.file.size = max(s.file.size, int64(len(s.file.header)))
			g, err := netcdf.New(s.file)
			if err != nil {
				rt.Fatalf("New: %v\nfile: %s", err, s)
			}
			defer g.Close()
			names := []string{}
			big := false
			for _, d := range s.f.Dims {
				names = append(names, d.Name)
				if n, has := g.GetDimension(d.Name); !has || n != uint64(d.Len) {
					rt.Fatalf("GetDimension(%q) = %d, %v, want %d\nfile: %s", d.Name, n, has, d.Len, s)
				}
				big = big || d.Len > 1<<15
			}
			if d := sameList(g.ListDimensions(), names); d != "" {
				rt.Fatalf("ListDimensions: %s\nfile: %s", d, s)
			}
			for i := range s.f.Vars {
				v := &s.f.Vars[i]
				vg, err := g.GetVarGetter(v.Name)
				if err != nil {
					rt.Fatalf("GetVarGetter(%s): %v\nfile: %s", v.Name, err, s)
				}
				want := []string{}
				for _, id := range v.DimIDs {
					want = append(want, s.f.Dims[id].Name)
				}
				if d := sameList(vg.Dimensions(), want); d != "" {
					rt.Fatalf("dimensions of %s: %s\nfile: %s", v.Name, d, s)
				}
				if d := checkExtents(vg, s.f.Shape(v)); d != "" {
					rt.Fatalf("%s: %s\nfile: %s", v.Name, d, s)
				}
			}
			r.Case(big, s.String(), "classic", fmt.Sprint("version ", s.f.Version))
			return
		}
		path := h.Path("c17b.nc")
		g := ncProgram(rt, path, ncOpts{maxVars: 3, maxGroups: 3, maxElems: 20, maxAtts: 1, bigDims: true})
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + err.Error())
			return
		}
		f, err := capi.DumpFile(path)
		if err != nil {
			r.Discarded("the C library does not read what it wrote")
			return
		}
		nc, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		p := ncRules(f.Root)
		if d := p.check(nc, nil, ""); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		big := false
		var walk func(g api.Group, o *capi.Group) string
		walk = func(g api.Group, o *capi.Group) string {
			for _, d := range o.Dims {
				if n, has := g.GetDimension(d.Name); !has || !d.Unlim && n != uint64(d.Len) {
					return fmt.Sprintf("GetDimension(%q) = %d, %v, want %d", d.Name, n, has, d.Len)
				}
				big = big || d.Len > 1<<15
			}
			for _, s := range o.Groups {
				sub, err := g.GetGroup(s.Name)
				if err != nil {
					return fmt.Sprintf("GetGroup(%q): %v", s.Name, err)
				}
				d := walk(sub, s)
				sub.Close()
				if d != "" {
					return d
				}
			}
			return ""
		}
		if d := walk(nc, f.Root); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(big, g.desc(), append(g.classList(), "NetCDF-4")...)
	})
}
