package checks

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// someProgram draws a program for a writer. Maps are made anew for each run.
func someProgram(rt *rapid.T) (run func(w api.Writer) error, kind netcdf.FileKind, desc string, many bool, cl []string) {
	if rapid.IntRange(0, 2).Draw(rt, "cdf") > 0 {
		p := m.H5Prog(rt, m.H5Opts{MaxVars: 6, MaxGroups: 5, MaxElems: 60, MaxName: 12})
		names := 0
		atts := 0
		for _, o := range p.Ops {
			if o.Create != "" {
				cl = append(cl, "group")
				names++
			}
			if o.Var != nil {
				names++
				atts = max(atts, len(o.Var.Attrs))
			}
			atts = max(atts, len(o.Attrs))
		}
		if atts > 1 {
			cl = append(cl, "several attributes")
		}
		return p.Run, netcdf.KindHDF5, p.String(), names > 1 || atts > 1, append(cl, "HDF5")
	}
	p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 6, MaxElems: 60, MaxName: 12, ClassicPc: 50})
	return p.Run, netcdf.KindCDF, p.String(), len(p.Ops) > 1, []string{"classic"}
}

func runTo(path string, kind netcdf.FileKind, run func(w api.Writer) error) ([]byte, error) {
	w, err := netcdf.OpenWriter(path, kind)
	if err != nil {
		return nil, err
	}
	if err := run(w); err != nil {
		return nil, err
	}
	return os.ReadFile(path)
}

func byteDiff(a, b []byte) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			lo := max(0, i-8)
			return fmt.Sprintf("%d and %d bytes, from byte %d on: ..%x and ..%x", len(a), len(b), i, a[lo:min(len(a), i+24)], b[min(lo, len(b)):min(len(b), i+24)])
		}
	}
	return fmt.Sprintf("%d and %d bytes", len(a), len(b))
}

const c21wRule = "a program for a writer, run repeatedly: into files of other names, over a longer file, with another program run in between or at the same time, and (in the second test) in another second; all of the files must have the same bytes, and in classic files variables and attributes must have the order of the calls; non-trivial: more than one object or attribute"

func TestC21Writes(t *testing.T) {
	h.Check(t, "C21", c21wRule, 12000, 300000, func(rt *rapid.T, r *h.Rec) {
		run, kind, desc, many, cl := someProgram(rt)
		desc = trimmed(desc)
		first, err := runTo(h.Path("c21.nc"), kind, run)
		if err != nil {
			rt.Fatalf("%v\nprogram: %s", err, desc)
		}
		other, okind, odesc, _, _ := someProgram(rt)
		for i := 0; i < 8; i++ {
			path, how := h.Path("c21.nc"), "again"
			switch i {
			case 2:
				path, how = h.Path("c21_another name.x"), "into a file of another name"
			case 3:
				how = "over a longer file"
				if err := os.WriteFile(path, bytes.Repeat([]byte("x"), len(first)+500), 0o644); err != nil {
					rt.Fatalf("%v", err)
				}
			case 4:
				how = "after another program"
				if _, err := runTo(h.Path("c21o.nc"), okind, other); err != nil {
					rt.Fatalf("%v\nprogram: %s", err, odesc)
				}
			case 5:
				how = "while another file is being written"
				w, err := netcdf.OpenWriter(h.Path("c21p.nc"), okind)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				defer w.Close()
			}
			b, err := runTo(path, kind, run)
			if err != nil {
				rt.Fatalf("%s: %v\nprogram: %s", how, err, desc)
			}
			if !bytes.Equal(first, b) {
				rt.Fatalf("%s: not the same: %s\nprogram: %s", how, byteDiff(first, b), desc)
			}
		}
		r.Case(many, desc, cl...)
	})
}

// Files must not say when they were made.
func TestC21Later(t *testing.T) {
	h.Check(t, "C21", c21wRule, 16, 400, func(rt *rapid.T, r *h.Rec) {
		type one struct {
			run  func(w api.Writer) error
			kind netcdf.FileKind
			desc string
			b    []byte
		}
		var ps []one
		some := false
		for i := 0; i < 12; i++ {
			run, kind, desc, many, _ := someProgram(rt)
			b, err := runTo(h.Path("c21l.nc"), kind, run)
			if err != nil {
				rt.Fatalf("%v\nprogram: %s", err, trimmed(desc))
			}
			ps = append(ps, one{run, kind, trimmed(desc), b})
			some = some || many
		}
		time.Sleep(1100 * time.Millisecond)
		for _, p := range ps {
			b, err := runTo(h.Path("c21l.nc"), p.kind, p.run)
			if err != nil {
				rt.Fatalf("%v\nprogram: %s", err, p.desc)
			}
			if !bytes.Equal(p.b, b) {
				rt.Fatalf("later: not the same: %s\nprogram: %s", byteDiff(p.b, b), p.desc)
			}
		}
		r.Case(some, ps[0].desc, "a second later")
	})
}

// listing is all that a group lists, in the order in which it lists it.
func listing(g api.Group, sb *strings.Builder, path string, depth int) (longest int) {
	note := func(what string, l []string) {
		longest = max(longest, len(l))
		fmt.Fprintf(sb, "%s%s: %q\n", path, what, l)
	}
	note("variables", g.ListVariables())
	note("types", g.ListTypes())
	note("dimensions", g.ListDimensions())
	note("attributes", g.Attributes().Keys())
	for _, t := range g.ListTypes() {
		s, _ := g.GetType(t)
		gs, _ := g.GetGoType(t)
		note("type "+t, []string{s, gs})
	}
	for _, v := range g.ListVariables() {
		vg, err := g.GetVarGetter(v)
		if err != nil {
			note("variable "+v, []string{err.Error()})
			continue
		}
		note("variable "+v, append([]string{vg.Type(), vg.GoType()}, vg.Dimensions()...))
		note("attributes of "+v, vg.Attributes().Keys())
		if av, err := g.GetVariable(v); err == nil {
			note("attributes of variable "+v, av.Attributes.Keys())
		}
	}
	subs := g.ListSubgroups()
	note("groups", subs)
	for _, s := range subs {
		sub, err := g.GetGroup(s)
		if err != nil {
			note("group "+s, []string{err.Error()})
			continue
		}
		if depth < 8 {
			longest = max(longest, listing(sub, sb, path+s+"/", depth+1))
		}
		sub.Close()
	}
	return longest
}

const c21rRule = "files of both formats, each opened eight times; all listings (variables, groups, types and what they say, dimensions, attributes everywhere) must be the same, in the same order, each time and when asked again, and in classic files those of variables and attributes must be in the order of the header; non-trivial: a listing of at least two names"

func TestC21Listings(t *testing.T) {
	h.Check(t, "C21", c21rRule, 8000, 200000, func(rt *rapid.T, r *h.Rec) {
		var b []byte
		var desc string
		var cl []string
		var vars []string
		atts := map[string][]string{}
		if rapid.IntRange(0, 3).Draw(rt, "cdf") == 0 {
			s := m.CDFFile(rt, m.FileOpts{MaxVars: 8, MaxElems: 5, MaxName: 8, TruncatePc: 10, FillPc: 20})
			b, desc, cl = s.Bytes, s.String(), []string{"classic"}
			vars = []string{}
			for i := range s.F.Vars {
				v := &s.F.Vars[i]
				vars = append(vars, v.Name)
				for _, a := range v.Atts {
					atts[v.Name] = append(atts[v.Name], a.Name)
				}
			}
			for _, a := range s.F.Atts {
				atts[""] = append(atts[""], a.Name)
			}
		} else {
			if b, desc, cl = someHDF5(rt, r, h.Path("c21r.nc")); b == nil {
				return
			}
			cl = append(cl, "HDF5")
		}
		desc = trimmed(desc)
		first, longest := "", 0
		for i := 0; i < 8; i++ {
			g, err := netcdf.New(newMem(b))
			if err != nil {
				rt.Fatalf("New: %v\n%s", err, desc)
			}
			for j := 0; j < 2; j++ {
				var sb strings.Builder
				longest = listing(g, &sb, "/", 0)
				if first == "" {
					first = sb.String()
				}
				if sb.String() != first {
					x, y := strings.Split(first, "\n"), strings.Split(sb.String(), "\n")
					for k := range x {
						if k >= len(y) || x[k] != y[k] {
							z := ""
							if k < len(y) {
								z = y[k]
							}
							rt.Fatalf("opening %d, listing %d: %.600s, but earlier %.600s\n%s", i, j, z, x[k], desc)
						}
					}
					rt.Fatalf("opening %d, listing %d: more lines than earlier\n%s", i, j, desc)
				}
			}
			if vars != nil && i == 0 {
				if d := inOrder("variables", g.ListVariables(), vars); d != "" {
					rt.Fatalf("%s\n%s", d, desc)
				}
				if d := inOrder("global attributes", g.Attributes().Keys(), atts[""]); d != "" {
					rt.Fatalf("%s\n%s", d, desc)
				}
				for _, v := range vars {
					av, err := g.GetVariable(v)
					if err != nil {
						continue
					}
					if d := inOrder("attributes of "+v, av.Attributes.Keys(), atts[v]); d != "" {
						rt.Fatalf("%s\n%s", d, desc)
					}
				}
			}
			g.Close()
		}
		r.Case(longest >= 2, desc, cl...)
	})
}

func inOrder(what string, got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s: %.400q, but the header has %.400q", what, got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%s: %.400q, but the header has them in the order %.400q", what, got, want)
		}
	}
	return ""
}
