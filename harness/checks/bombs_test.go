package checks

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// Headers that are right, and promise much more than there is in the file.

// extents draws a shape of about 2^lg elements, a good part of it ones.
func extents(rt *rapid.T, rank int, lg int) []int64 {
	shape := make([]int64, rank)
	for i := range shape {
		shape[i] = 1
	}
	for k := rapid.IntRange(1, 3).Draw(rt, "pieces"); k > 0 && lg > 0 && rank > 0; k-- {
		p := lg
		if k > 1 {
			p = rapid.IntRange(0, lg).Draw(rt, "lg")
		}
		lg -= p
		shape[rapid.IntRange(0, rank-1).Draw(rt, "which")] <<= p
	}
	for i := range shape {
		if shape[i] > 2 && rapid.IntRange(0, 2).Draw(rt, "near") == 0 {
			shape[i] += rapid.Int64Range(-1, 1).Draw(rt, "+")
		}
	}
	return shape
}

func TestC11Promises(t *testing.T) {
	rule := "well-formed classic headers of variables of rank up to 9 and up to 2^60 elements, of which the file has few or none; everything of the read API is called under a panic, memory and CPU-time guard; non-trivial: the file opens, and a value is more than 100 times the file"
	h.Check(t, "C11", rule, 1200, 30000, func(rt *rapid.T, r *h.Rec) {
		f := &cdfspec.File{Version: rapid.SampledFrom([]int{1, 2, 5, 5}).Draw(rt, "version")}
		nt, maxLen := 6, int64(1<<31-1)
		if f.Version == 5 {
			nt, maxLen = 11, 1<<62
		}
		big := false
		var end int64
		for i := rapid.IntRange(1, 3).Draw(rt, "vars"); i > 0; i-- {
			v := cdfspec.Var{Name: fmt.Sprint("v", i), Type: rapid.IntRange(1, nt).Draw(rt, "type")}
			rank := rapid.IntRange(0, 9).Draw(rt, "rank")
			lg := rapid.SampledFrom([]int{10, 18, 20, 22, 24, 25, 26, 26, 27, 28, 30, 33, 40, 60}).Draw(rt, "lg")
			for j, n := range extents(rt, rank, lg) {
				n = min(n, maxLen)
				id := len(f.Dims)
				if j == 0 && rapid.IntRange(0, 2).Draw(rt, "rec") == 0 {
					for k, d := range f.Dims {
						if d.Len == 0 {
							id = k
						}
					}
					f.NumRecs, n = max(f.NumRecs, n), 0
				}
				if id == len(f.Dims) {
					f.Dims = append(f.Dims, cdfspec.Dim{Name: fmt.Sprint("d", id), Len: n})
				}
				v.DimIDs = append(v.DimIDs, id)
			}
			v.VSize = 1<<32 - 4
			big = big || rank > 0 && lg > 18
			f.Vars = append(f.Vars, v)
		}
		pos := cdfspec.HeaderLen(f)
		for i := range f.Vars {
			v := &f.Vars[i]
			v.Begin = pos + 4*rapid.Int64Range(0, 10).Draw(rt, "at")
			if n := elems64(f, v); n >= 0 && n < 1<<20 && rapid.Bool().Draw(rt, "whole") {
				pos = v.Begin + n*cdfspec.Size(v.Type)
			}
			end = max(end, v.Begin)
		}
		b := f.Header()
		have := rapid.SampledFrom([]int{0, 0, 100, 4000, 1 << 16}).Draw(rt, "have")
		b = append(b, bytes.Repeat([]byte{7}, have)...)
		desc := fmt.Sprintf("version %d, %d records, dims %v, vars %v, %d bytes", f.Version, f.NumRecs, f.Dims, f.Vars, len(b))
		h.Input("cdf", b, false)
		h.Describe(desc)
		x := exercise(openMem(b), len(b), rapid.IntRange(0, 3).Draw(rt, "full") > 0)
		if x.bad != "" {
			rt.Fatalf("%s\nfile: %s", x.bad, desc)
		}
		cl := []string{"refused at open"}
		if x.objs > 0 {
			cl[0] = "opened"
		}
		if x.valued > 0 {
			cl = append(cl, "values read")
		}
		if x.objs > 0 && x.errs > 0 {
			cl = append(cl, "opened, some call refused")
		}
		r.Case(x.objs > 0 && big, desc, cl...)
	})
}

// elems64 is the number of elements of a record or of the variable, -1 if there are many.
func elems64(f *cdfspec.File, v *cdfspec.Var) int64 {
	n := int64(1)
	for _, d := range v.DimIDs {
		l := max(1, f.Dims[d].Len)
		if n > 1<<40/l {
			return -1
		}
		n *= l
	}
	return n
}

func TestC12Promises(t *testing.T) {
	rule := "files made by the HDF5 library with datasets of rank up to 9, up to 2^60 elements of any type, of which few or none are written; everything of the read API is called under a panic, memory and CPU-time guard; non-trivial: the file opens, and a dataset is more than 100 times it"
	h.Check(t, "C12", rule, 480, 12000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c12p.nc")
		defer os.Remove(path)
		g := newHGen(rt)
		g.newFile(path)
		big := false
		for i := g.pick("sets", 1, 2); i > 0; i-- {
			ty := g.stdType(true)
			if g.pc("user", 50) {
				ty = g.userType(0, utOpts{arrays: true, strings: true})
			}
			rank := g.pick("rank", 1, 9)
			lg := rapid.SampledFrom([]int{10, 16, 18, 20, 22, 24, 26, 28, 30, 33, 40, 50, 58}).Draw(rt, "lg")
			shape := extents(rt, rank, lg)
			slot := g.newSlot()
			layout, chunks, filters, alloc := 1, "", " 0", 2
			maxd := append([]int64{}, shape...)
			if g.pc("chunked", 65) {
				layout, alloc = 2, 3
				n := int64(1)
				var c []int64
				for j := range shape {
					l := min(shape[j], rapid.SampledFrom([]int64{1, 2, 10, 1000}).Draw(rt, "chunk"))
					if n*l > 4000 {
						l = 1
					}
					n *= l
					c = append(c, l)
				}
				chunks = ints(c)
				if g.pc("unlim", 40) {
					maxd[g.pick("u", 0, rank-1)] = -1
				}
				if g.pc("filter", 40) {
					filters = rapid.SampledFrom([]string{" 1 d1", " 2 s d1", " 1 f"}).Draw(rt, "filters")
				}
			}
			g.add("HDS %d 0 %s %s %d %d%s%s%s%s 0 0 %d", slot, capi.Hex(fmt.Sprint("d", i)), ty.Text, layout, rank, ints(shape), ints(maxd), chunks, filters, alloc)
			if layout == 2 {
				for k := g.pick("writes", 0, 2); k > 0; k-- {
					st, ct := make([]int64, rank), make([]int64, rank)
					for j := range st {
						st[j], ct[j] = rapid.Int64Range(0, shape[j]-1).Draw(rt, "wr"), 1
					}
					g.add("HWR %d %d%s%s %s", slot, rank, ints(st), ints(ct), g.tokens(ty, 1))
				}
			}
			big = big || lg > 18
			g.class("lg %d", lg)
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + firstLine(err.Error()))
			return
		}
		st, err := os.Stat(path)
		if err != nil {
			capi.Infra("%v", err)
		}
		h.Describe(g.desc())
		x := exercise(func() (api.Group, error) { return netcdf.Open(path) }, int(st.Size()), rapid.IntRange(0, 3).Draw(rt, "full") > 0)
		if x.bad != "" {
			rt.Fatalf("%s\n%s", x.bad, g.desc())
		}
		r.Case(big && x.objs > 0, g.desc(), append(g.classList(), exClasses(x)...)...)
	})
}
