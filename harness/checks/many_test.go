package checks

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// Files with much of one thing: variables, dimensions, attributes, groups, ...

func TestC01Many(t *testing.T) {
	rule := "as C01, with up to 5000 variables, dimensions, coordinate variables or attributes, 20000 strings, or a variable of up to 60 dimensions; non-trivial: all"
	h.Check(t, "C01", rule, 1200, 40000, func(rt *rapid.T, r *h.Rec) {
		p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 3, MaxElems: 50, MaxName: 20, ClassicPc: 50})
		what := p.Swell(rt, m.SomeTypes(rt), 5000, 60)
		path := h.Path("c01.nc")
		writeCDF(rt, p, path)
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open after a successful Close: %v\nprogram: %.3000s", err, p)
		}
		defer g.Close()
		if d := checkCDFContent(g, p.CDFExpect()); d != "" {
			rt.Fatalf("%s\nprogram: %.3000s", d, p)
		}
		r.Case(true, p.Head(), "many "+what)
	})
}

func TestC03Many(t *testing.T) {
	rule := "as C01Many, decoded by the independent decoder and, if it takes the names, the NetCDF C library; non-trivial: all"
	h.Check(t, "C03", rule, 600, 20000, func(rt *rapid.T, r *h.Rec) {
		p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 3, MaxElems: 50, MaxName: 20, ClassicPc: 50})
		what := p.Swell(rt, m.SomeTypes(rt), 3000, 60)
		path := h.Path("c03.nc")
		b := writeCDF(rt, p, path)
		f, err := cdfspec.Decode(b, true)
		if err != nil {
			rt.Fatalf("not a valid file: %v\nprogram: %.3000s", err, p)
		}
		if d := checkSpec(f, p); d != "" {
			rt.Fatalf("%s\nprogram: %.3000s", d, p)
		}
		cl := []string{"many " + what}
		if cdfNamesPlain(p) {
			d, err := capi.DumpFile(path)
			if err != nil {
				rt.Fatalf("the NetCDF library does not accept the file: %v\nprogram: %.3000s", err, p)
			}
			if x := checkDumpWritten(d, p.CDFExpect()); x != "" {
				rt.Fatalf("NetCDF library: %s\nprogram: %.3000s", x, p)
			}
			cl = append(cl, "read by the C library")
		}
		r.Case(true, p.Head(), cl...)
	})
}

func TestC02Many(t *testing.T) {
	rule := "as C02, with up to 3000 variables, dimensions, coordinate variables, attributes or groups (beside or 300 within each other), 12000 strings, 6000 variable-length values, or a variable of up to 32 dimensions; non-trivial: all"
	h.Check(t, "C02", rule, 800, 24000, func(rt *rapid.T, r *h.Rec) {
		p := m.H5Prog(rt, m.H5Opts{MaxVars: 3, MaxGroups: 3, MaxElems: 50, MaxName: 20})
		what := p.Swell(rt, 3000)
		path := h.Path("c02.nc")
		writeH5(rt, p, path)
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open after a successful Close: %v\nprogram: %.3000s", err, p)
		}
		defer g.Close()
		if d := checkH5Content(g, p.H5Expect(), "", nil); d != "" {
			rt.Fatalf("%s\nprogram: %.3000s", d, p)
		}
		r.Case(true, p.Head(), "many "+what)
	})
}

func TestC04Many(t *testing.T) {
	rule := "as C02Many (up to 1000), read by both C libraries; non-trivial: all"
	h.Check(t, "C04", rule, 320, 10000, func(rt *rapid.T, r *h.Rec) {
		p := m.H5Prog(rt, m.H5Opts{MaxVars: 3, MaxGroups: 3, MaxElems: 50, MaxName: 20})
		r.Class("many " + p.Swell(rt, 1000))
		checkC04(rt, r, p)
	})
}

func TestC05Many(t *testing.T) {
	rule := "as C05, with up to 5000 variables, dimensions or attributes, 20000 records, or a variable of up to 60 dimensions; non-trivial: all"
	h.Check(t, "C05", rule, 1600, 50000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 3, MaxElems: 50, MaxName: 20, TruncatePc: 10, FillPc: 10, Many: 5000})
		g, err := netcdf.New(newMem(s.Bytes))
		if err != nil {
			rt.Fatalf("New: %v\nfile: %.3000s", err, s)
		}
		defer g.Close()
		if d := checkSpecRead(g, s); d != "" {
			rt.Fatalf("%s\nfile: %.3000s", d, s)
		}
		r.Case(true, s.Head(), "many "+s.Much)
	})
}

// large draws a large number, favouring no end of the range.
func (g *hgen) large(label string, most int) int {
	lo := g.pick(label+"/lg", 0, 6)
	n := most >> lo
	return n - g.pick(label+"/-", 0, n/2)
}

func TestC07Many(t *testing.T) {
	rule := "HDF5 files made by the HDF5 library with up to 12000 links in a group or 6000 attributes of an object, names of up to 1000 bytes, values of up to 100 kB, together up to about 10 MB (heaps and B-trees of several levels), in any order, some deleted; compared as in C07HDF5; non-trivial: all"
	h.Check(t, "C07", rule, 320, 10000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c07.nc")
		g := newHGen(rt)
		g.newFile(path)
		where := 0
		if g.pc("sub", 30) {
			where = g.newSlot()
			g.add("HGRP %d 0 %s %d", where, capi.Hex("sub"), b2i(g.pc("gorder", 50)))
		}
		what := rapid.SampledFrom([]string{"links", "links", "attributes", "large attributes"}).Draw(rt, "what")
		length := rapid.SampledFrom([]int{0, 0, 20, 150, 900}).Draw(rt, "len")
		n := g.large("n", min(12000, 10000000/(length+30)))
		step := rapid.SampledFrom([]int{1, 1, 7919, -1}).Draw(rt, "step") // the order of the names
		name := func(i int) string {
			k := ((i*step)%100000 + 100000) % 100000
			return fmt.Sprintf("%05d%s", k, strings.Repeat("n", i*31%(length+1)))
		}
		switch what {
		case "links":
			d := g.smallDataset(0, "target")
			sub := g.newSlot()
			g.add("HGRP %d 0 %s 0", sub, capi.Hex("empty"))
			for i := 0; i < n; i++ {
				if i%1000 == 7 {
					g.smallDataset(where, name(i))
				} else {
					g.add("HLNK h %d %s %d", where, capi.Hex(name(i)), []int{d, d, sub}[i%3])
				}
			}
		default:
			if where == 0 && g.pc("ofds", 50) {
				where = g.smallDataset(0, "d")
			}
			l := 1
			if what == "attributes" {
				n = min(n, 6000)
				if strings.Fields(g.cmds[0])[2] == "0" {
					n = min(n, 1000) // the library takes very long to delete some of more
				}
			} else {
				l = g.large("size", 100000)
				n = max(1, min(n/8, 8000000/l))
			}
			for i := 0; i < n; i++ {
				k := 1 + i*31%l
				g.add("HATT %d %s u1 1 %d %s", where, capi.Hex(name(i)), k, strings.Repeat(fmt.Sprintf("%02x", i%256), k))
			}
		}
		if g.pc("dels", 25) {
			g.class("some deleted")
			every := g.pick("every", 2, 20)
			for i := 0; i < n; i += every {
				if what == "links" {
					g.add("HDEL %d %s", where, capi.Hex(name(i)))
				} else {
					g.add("HADEL %d %s", where, capi.Hex(name(i)))
				}
			}
		}
		g.add("HCLOSE")
		g.class("many %s", what)
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + firstLine(err.Error()))
			return
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			capi.Infra("HDUMP: %v of %s", err, trimmed(g.desc()))
		}
		if st, err := os.Stat(path); err == nil {
			g.class("file of %d MB", st.Size()>>20)
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, trimmed(g.desc()))
		}
		defer nc.Close()
		if d := cmpTree(nc, root, ""); d != "" {
			rt.Fatalf("%.2000s\n%s", d, trimmed(g.desc()))
		}
		r.Case(true, trimmed(g.desc()), g.classList()...)
	})
}

func TestC06Many(t *testing.T) {
	rule := "datasets made by the HDF5 library of up to 20000 chunks (B-trees of several levels), with and without filters, written in any order, wholly or partly; compared as in C06Storage; non-trivial: all"
	h.Check(t, "C06", rule, 320, 10000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c06.nc")
		g := newHGen(rt)
		g.newFile(path)
		ty := g.stdType(false)
		rank := g.pick("rank", 1, 3)
		total := g.large("chunks", 20000)
		shape, chunk, maxd := make([]int64, rank), make([]int64, rank), make([]int64, rank)
		n := 1
		for i := range shape {
			k := total
			if i < rank-1 {
				k = g.pick("nch", 1, max(1, total))
				if g.pc("few", 60) {
					k = g.pick("nchfew", 1, min(20, max(1, total)))
				}
			}
			k = max(1, k)
			total = max(1, total/k)
			chunk[i] = int64(g.pick("c", 1, 3))
			shape[i] = max(1, int64(k)*chunk[i]-int64(g.pick("over", 0, 2)))
			chunk[i] = min(chunk[i], shape[i])
			maxd[i] = shape[i]
			if g.pc("unlim", 40) {
				maxd[i] = -1
			}
			n *= int(shape[i])
		}
		filters := rapid.SampledFrom([]string{" 0", " 0", " 1 d1", " 2 s d1", " 1 f"}).Draw(rt, "filters")
		s := g.newSlot()
		g.add("HDS %d 0 %s %s 2 %d%s%s%s%s 0 0 0", s, capi.Hex("d"), ty.Text, rank, ints(shape), ints(maxd), ints(chunk), filters)
		rows := shape[0]
		rowLen := n / int(rows)
		if rows > 1 && g.pc("rows", 60) {
			g.class("written piece by piece")
			pieces := int64(g.pick("pieces", 2, int(min(rows, 4000))))
			step := rapid.SampledFrom([]int64{1, 7919, 104729}).Draw(rt, "step")
			skip := int64(g.pick("skip", 2, 9))
			start, count := make([]int64, rank), append([]int64{}, shape...)
			pool := make([]string, 5)
			per := (rows + pieces - 1) / pieces
			for i := range pool {
				pool[i] = g.tokens(ty, min(rowLen*int(per), 40))
			}
			for i := int64(0); i < pieces; i++ {
				b := i * step % pieces * per
				if b >= rows || i%skip == 1 && skip < 6 {
					continue
				}
				start[0], count[0] = b, min(per, rows-b)
				k := rowLen * int(count[0])
				v := pool[i%5]
				w := len(v) / min(rowLen*int(per), 40)
				g.add("HWR %d %d%s%s %s", s, rank, ints(start), ints(count), strings.Repeat(v, 1+k*w/len(v))[:k*w])
			}
		} else {
			g.add("HWR %d %d%s%s %s", s, rank, ints(make([]int64, rank)), ints(shape), g.tokens(ty, n))
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + firstLine(err.Error()))
			return
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			capi.Infra("HDUMP: %v of %s", err, trimmed(g.desc()))
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, trimmed(g.desc()))
		}
		defer nc.Close()
		for _, o := range root.Kids {
			if d := diffVar(nc, o); d != "" {
				rt.Fatalf("%.2000s\ntype %s shape %v\n%s", d, o.Type.Text, o.Shape, trimmed(g.desc()))
			}
		}
		r.Case(true, trimmed(g.desc()), g.classList()...)
	})
}

func TestC07ManyNetCDF(t *testing.T) {
	rule := "NetCDF-4 files made by the NetCDF library with up to 4000 variables, dimensions, coordinate variables or groups, or as many uses of one dimension; names, tree, attributes and dimension names compared as in C07NetCDF; non-trivial: all"
	h.Check(t, "C07", rule, 80, 2400, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c07n.nc")
		g := &ngen{hgen: newHGen(rt), o: ncOpts{}}
		g.add("NEW %s %d 0", path, capi.ModeNetCDF4)
		what := rapid.SampledFrom([]string{"variables", "dimensions", "coordinates", "groups"}).Draw(rt, "what")
		n := g.large("n", 2000)
		dim, v := g.newSlot(), g.newSlot()
		tail := rapid.SampledFrom([]string{"", "_with_a_longer_name", "é"}).Draw(rt, "tail")
		if what == "variables" && g.pc("twice", 50) {
			n *= 2
		}
		g.add("DIM %d 0 %s %d", dim, capi.Hex("shared"), g.pick("dl", 0, 4))
		for i := 0; i < n; i++ {
			nm := capi.Hex(fmt.Sprintf("n%d%s", i, tail))
			switch what {
			case "variables":
				g.add("VAR %d 0 %s 4 1 %d", v, nm, dim)
			case "dimensions":
				d := g.newSlot()
				g.add("DIM %d 0 %s %d", d, nm, 1+i%3)
				if i%5 == 2 {
					g.add("VAR %d 0 %s 2 2 %d %d", v, capi.Hex(fmt.Sprintf("v%d%s", i, tail)), d, dim)
				}
			case "coordinates":
				d := g.newSlot()
				g.add("DIM %d 0 %s %d", d, nm, 1+i%3)
				g.add("VAR %d 0 %s 3 1 %d", v, nm, d)
			case "groups":
				s := g.newSlot()
				g.add("GRP %d 0 %s", s, nm)
				if i%5 == 2 {
					g.add("VAR %d %d %s 1 1 %d", v, s, capi.Hex("v"), dim)
				}
			}
		}
		g.add("ENDDEF")
		g.class("many %s", what)
		f := makeNC(r, g, path)
		if f == nil {
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, trimmed(g.desc()))
		}
		defer nc.Close()
		if d := cmpGroup(nc, f.nc.Root, f.h, "", parts{names: true, attrs: true, dimNames: true}); d != "" {
			rt.Fatalf("%.2000s\n%s", d, trimmed(g.desc()))
		}
		r.Case(true, trimmed(g.desc()), g.classList()...)
	})
}
