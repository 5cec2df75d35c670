package checks

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// live is what is in use.
type live struct{ bytes, objects, goroutines int64 }

func alive() live {
	runtime.GC()
	runtime.GC()
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return live{int64(s.HeapAlloc), int64(s.HeapObjects), int64(runtime.NumGoroutine())}
}

// accrues tells whether each run of f leaves something behind. A leak grows with the
// number of runs, time after time; what the runtime keeps for itself does not.
func accrues(f func()) string {
	f()
	f()
	n := int64(40)
	for round := 0; ; round++ {
		before := alive()
		for i := int64(0); i < n; i++ {
			f()
		}
		after := alive()
		for i := 0; i < 20 && after.goroutines > before.goroutines; i++ {
			time.Sleep(10 * time.Millisecond) // they may be about to end
			after = alive()
		}
		d := live{after.bytes - before.bytes, after.objects - before.objects, after.goroutines - before.goroutines}
		if d.bytes < 8*n+2048 && d.objects < n+40 && d.goroutines < n {
			return ""
		}
		if round == 2 {
			return fmt.Sprintf("%d repetitions leave %d bytes in %d objects and %d goroutines", n, d.bytes, d.objects, d.goroutines)
		}
		n *= 4
	}
}

// at finds the handle of a group.
func at(g api.Group, path []string) (api.Group, error) {
	for _, p := range path {
		s, err := g.GetGroup(p)
		if err != nil {
			return nil, err
		}
		g = s
	}
	return g, nil
}

func c26File(rt *rapid.T, r *h.Rec, path string) (b []byte, desc string, cl []string) {
	if rapid.IntRange(0, 2).Draw(rt, "classic") == 0 {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 4, MaxElems: 120, MaxName: 10, TruncatePc: 15, FillPc: 20})
		if err := os.WriteFile(path, s.Bytes, 0o644); err != nil {
			panic(err)
		}
		return s.Bytes, s.String(), []string{"classic"}
	}
	b, desc, cl = someHDF5(rt, r, path)
	return b, desc, append(cl, "HDF5")
}

func TestC26Handle(t *testing.T) {
	rule := "a series of up to 12 calls (listings, lookups, whole reads, slices, failing ones) on the handles and getters of one open file, repeated 42 times (up to 800 more if in doubt): no repetition may read more of the file than the first, and the memory, objects and goroutines in use may not grow with the repetitions; non-trivial: at least 3 calls on a file with a variable"
	h.Check(t, "C26", rule, 4000, 120000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c26.nc")
		defer os.Remove(path)
		b, desc, cl := c26File(rt, r, path)
		if b == nil {
			return
		}
		mt := &meter{f: newMem(b), limit: 1 << 60}
		root, err := netcdf.New(mt)
		if err != nil {
			rt.Fatalf("New: %v\n%s", err, desc)
		}
		defer root.Close()
		tree, err := scan(root, nil)
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		nodes := tree.all()
		type step struct {
			g  api.Group
			vg api.VarGetter
			c  rcall
		}
		var steps []step
		var log []string
		nv := 0
		for _, n := range nodes {
			nv += len(n.names["v"])
		}
		for i := rapid.IntRange(1, 12).Draw(rt, "calls"); i > 0; i-- {
			n := rapid.SampledFrom(nodes).Draw(rt, "node")
			g, err := at(root, n.path)
			if err != nil {
				rt.Fatalf("GetGroup: %v\n%s", err, desc)
			}
			s := step{g: g}
			if len(n.names["v"]) > 0 && rapid.IntRange(0, 2).Draw(rt, "getter") == 0 {
				name := rapid.SampledFrom(n.names["v"]).Draw(rt, "of")
				if s.vg, err = g.GetVarGetter(name); err != nil {
					rt.Fatalf("GetVarGetter: %v\n%s", err, desc)
				}
				s.c = n.drawGetterCall(rt, name)
				log = append(log, "one getter's "+s.c.String())
			} else {
				s.c = n.drawCall(rt)
				log = append(log, s.c.String())
			}
			steps = append(steps, s)
		}
		first, more := int64(-1), ""
		run := func() {
			mt.n = 0
			for _, s := range steps {
				if s.vg != nil {
					s.c.getterCall(s.vg)
				} else {
					s.c.do(s.g)
				}
			}
			if first < 0 {
				first = mt.n
			}
			if mt.n > first && more == "" {
				more = fmt.Sprintf("the first time reads %d bytes, a later one %d", first, mt.n)
			}
		}
		d := accrues(run)
		if more != "" {
			d = more
		}
		if d != "" {
			rt.Fatalf("repeating %s: %s\n%s", strings.Join(log, "; "), d, desc)
		}
		r.Case(len(log) >= 3 && nv > 0, strings.Join(log, "; ")+" on "+desc, cl...)
	})
}

func TestC26Cycles(t *testing.T) {
	rule := "files of every kind, some of them damaged, opened by path or from memory, listed, read and closed, or refused, and files written, again and again (42 times, up to 800 more if in doubt): the memory, objects, goroutines and descriptors in use may not grow with the repetitions; non-trivial: every case"
	h.Check(t, "C26", rule, 3000, 90000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c26.nc")
		defer os.Remove(path)
		if k := rapid.IntRange(0, 7).Draw(rt, "write"); k <= 2 {
			var run func(w api.Writer) error
			kind, desc := netcdf.KindHDF5, ""
			if k == 0 {
				p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 4, MaxElems: 100, MaxName: 20, ClassicPc: 50})
				kind, run, desc = netcdf.KindCDF, func(w api.Writer) error { return p.Run(w) }, p.String()
			} else {
				p := m.H5Prog(rt, m.H5Opts{MaxVars: 4, MaxGroups: 2, MaxElems: 30, MaxName: 10})
				run, desc = func(w api.Writer) error { return p.Run(w) }, p.String()
			}
			bad := rapid.Bool().Draw(rt, "refused")
			var fail error
			d := accrues(func() {
				w, err := netcdf.OpenWriter(path, kind)
				if err != nil {
					fail = err
					return
				}
				if bad {
					w.AddVar("no/good", api.Variable{Values: int32(1)})
					w.AddVar("odd", api.Variable{Values: []any{1}})
				}
				if err := run(w); err != nil {
					fail = err
				}
			})
			if fail != nil {
				rt.Fatalf("%v\nprogram: %s", fail, desc)
			}
			if n := openFDs(path); n > 0 {
				d = fmt.Sprintf("the file is open %d times. %s", n, d)
			}
			if d != "" {
				rt.Fatalf("writing again and again: %s\nprogram: %s", d, desc)
			}
			r.Case(true, desc, fmt.Sprintf("writer %v", kind))
			return
		}
		b, desc, cl := c26File(rt, r, path)
		if b == nil {
			return
		}
		if rapid.IntRange(0, 3).Draw(rt, "damage") > 0 {
			var how string
			switch {
			case b[0] == 'C':
				b, how = mutate(rt, b, binary.BigEndian, 4, len(b))
			case rapid.IntRange(0, 3).Draw(rt, "cut") == 0:
				b, how = b[:rapid.IntRange(1, len(b)).Draw(rt, "len")], "cut"
			default:
				b, how = mutateH5(rt, b, hot(b))
			}
			desc += " damaged: " + how
		}
		open := opener(rt, path, b)
		h.Input("c26", b, false)
		h.Describe(desc)
		deep := rapid.Bool().Draw(rt, "deep")
		opened, refused := 0, 0
		var use func(g api.Group, depth int)
		use = func(g api.Group, depth int) {
			show(g.Attributes())
			g.ListTypes()
			g.ListDimensions()
			for i, v := range g.ListVariables() {
				if i == 3 {
					break
				}
				if vg, err := g.GetVarGetter(v); err == nil {
					if n := int64(1); vg.Len() < 10000 {
						for _, s := range vg.Shape() {
							n *= max(s, 1)
						}
						if n >= 0 && n < 10000 {
							vg.Values()
						}
					}
				} else {
					refused++
				}
			}
			for i, s := range g.ListSubgroups() {
				if i == 3 || depth == 3 {
					break
				}
				if sub, err := g.GetGroup(s); err == nil {
					use(sub, depth+1)
					sub.Close()
				} else {
					refused++
				}
			}
		}
		d := ""
		if p := h.Guard("repeated use", h.MemLimit(len(b))*40, func() {
			d = accrues(func() {
				g, err := open()
				if err != nil {
					refused++
					return
				}
				opened++
				if deep {
					use(g, 0)
				}
				g.Close()
			})
		}); p != "" {
			rt.Fatalf("%s\n%s", p, desc)
		}
		if n := openFDs(path); n > 0 {
			d = fmt.Sprintf("the file is open %d times. %s", n, d)
		}
		if d != "" {
			rt.Fatalf("opening again and again: %s\n%s", d, desc)
		}
		if opened > 0 {
			cl = append(cl, "opened")
		}
		if refused > 0 {
			cl = append(cl, "something refused")
		}
		r.Case(true, desc, cl...)
	})
}
