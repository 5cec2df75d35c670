package checks

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// sliceKinds: in-range requests must give the part, others an error.

// checkSlices makes slice requests on a getter whose whole value is want, of shape
// shape (chars: strings are the last dimension). It returns a description of the first
// mismatch and the classes of requests made.
func checkSlices(rt *rapid.T, vg api.VarGetter, want any, shape []int, chars bool, n int) (string, []string) {
	return checkSlicesBy(rt, vg, shape, n, func(got any, b, e []int64) string {
		return m.Diff(got, m.Rect(want, b, e, chars))
	})
}

// checkSlicesBy is checkSlices with a comparison of the value with a box.
func checkSlicesBy(rt *rapid.T, vg api.VarGetter, shape []int, n int, diff func(got any, b, e []int64) string) (string, []string) {
	var cl []string
	if d := checkExtents(vg, shape); d != "" {
		return d, nil
	}
	rows := 1
	if len(shape) > 0 {
		rows = shape[0]
	}
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(rt, "kind"); {
		case k <= 3 || (k <= 7 && len(shape) == 0): // rows in range
			b := rapid.IntRange(0, rows).Draw(rt, "b")
			e := rapid.IntRange(b, rows).Draw(rt, "e")
			if len(shape) == 0 {
				b, e = 0, 1
			}
			got, err := vg.GetSlice(int64(b), int64(e))
			if err != nil {
				return fmt.Sprintf("GetSlice(%d, %d) of shape %v: %v", b, e, shape, err), cl
			}
			bs, es := []int64{int64(b)}, []int64{int64(e)}
			if len(shape) == 0 {
				bs, es = nil, nil
			}
			if d := diff(got, bs, es); d != "" {
				return fmt.Sprintf("GetSlice(%d, %d) of shape %v: %s", b, e, shape, d), cl
			}
			cl = append(cl, "rows")
			if b > 0 && e > b {
				cl = append(cl, "rows not from the first")
			}
			if b == e {
				cl = append(cl, "no rows")
			}
		case k <= 7: // a box
			b := make([]int64, len(shape))
			e := make([]int64, len(shape))
			empty := false
			for j, s := range shape {
				b[j] = int64(rapid.IntRange(0, s).Draw(rt, "bb"))
				if rapid.IntRange(0, 7).Draw(rt, "emptybox") > 0 && s > 0 {
					if b[j] == int64(s) {
						b[j]--
					}
					e[j] = int64(rapid.IntRange(int(b[j])+1, s).Draw(rt, "be"))
				} else {
					e[j] = int64(rapid.IntRange(int(b[j]), s).Draw(rt, "be"))
				}
				empty = empty || b[j] == e[j]
			}
			got, err := vg.GetSliceMD(append([]int64{}, b...), append([]int64{}, e...))
			if err != nil {
				return fmt.Sprintf("GetSliceMD(%v, %v) of shape %v: %v", b, e, shape, err), cl
			}
			if d := diff(got, b, e); d != "" {
				return fmt.Sprintf("GetSliceMD(%v, %v) of shape %v: %s", b, e, shape, d), cl
			}
			cl = append(cl, fmt.Sprintf("box of rank %d", len(shape)))
			if empty {
				cl = append(cl, "empty box")
			}
		case k == 8: // rows out of range
			b := int64(rapid.SampledFrom([]int{0, 1, -1, rows, rows + 1, -rows, rows - 1, 1 << 40, -1 << 40}).Draw(rt, "ob"))
			e := int64(rapid.SampledFrom([]int{0, 1, -1, rows, rows + 1, rows + 7, rows - 1, 1 << 40, -1 << 40}).Draw(rt, "oe"))
			if b >= 0 && e >= b && e <= int64(rows) {
				continue
			}
			got, err := vg.GetSlice(b, e)
			if err == nil {
				return fmt.Sprintf("GetSlice(%d, %d) of shape %v gave %s and no error", b, e, shape, m.Short(got)), cl
			}
			cl = append(cl, "rows out of range")
		default: // a box out of range or of the wrong rank
			rank := len(shape)
			if rapid.IntRange(0, 3).Draw(rt, "badrank") == 0 || rank == 0 {
				rank = rapid.IntRange(0, 5).Draw(rt, "rank")
			}
			b := make([]int64, rank)
			e := make([]int64, rank)
			if rank == len(shape) {
				if rank == 0 {
					continue
				}
				for j, s := range shape {
					e[j] = int64(s)
				}
				j := rapid.IntRange(0, rank-1).Draw(rt, "which")
				s := int64(shape[j])
				bad := rapid.SampledFrom([][2]int64{{0, s + 1}, {-1, s}, {s + 1, s + 1}, {s, s - 1}, {-1, -1}, {s, s + 2}, {0, 1 << 40}, {-1 << 62, 1 << 62}}).Draw(rt, "bad")
				b[j], e[j] = bad[0], bad[1]
			}
			got, err := vg.GetSliceMD(b, e)
			if err == nil {
				return fmt.Sprintf("GetSliceMD(%v, %v) of shape %v gave %s and no error", b, e, shape, m.Short(got)), cl
			}
			cl = append(cl, "box out of range")
		}
	}
	return "", cl
}

// checkExtents compares Len and Shape with the shape.
func checkExtents(vg api.VarGetter, shape []int) string {
	rows := 1
	if len(shape) > 0 {
		rows = shape[0]
	}
	if vg.Len() != int64(rows) {
		return fmt.Sprintf("Len() = %d for shape %v", vg.Len(), shape)
	}
	sh := vg.Shape()
	if len(sh) != len(shape) {
		return fmt.Sprintf("Shape() = %v want %v", sh, shape)
	}
	for i := range sh {
		if sh[i] != int64(shape[i]) {
			return fmt.Sprintf("Shape() = %v want %v", sh, shape)
		}
	}
	if n := len(vg.Dimensions()); n != len(shape) && n != 0 { // no names without dimension scales
		return fmt.Sprintf("Dimensions() = %q for shape %v", vg.Dimensions(), shape)
	}
	return ""
}

func TestC09CDF(t *testing.T) {
	rule := "row ranges and boxes (in range, empty, out of range, reversed, wrong rank) of every variable of random classic files, compared with the same part of the independently decoded content; non-trivial: an in-range, non-empty request was made"
	h.Check(t, "C09", rule, 160000, 3000000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 3, MaxElems: 300, MaxName: 10, TruncatePc: 25, FillPc: 20})
		g, err := netcdf.New(newMem(s.Bytes))
		if err != nil {
			rt.Fatalf("New: %v\nfile: %s", err, s)
		}
		defer g.Close()
		_, cl := specClasses(s)
		nt := false
		for i := range s.F.Vars {
			v := &s.F.Vars[i]
			vg, err := g.GetVarGetter(v.Name)
			if err != nil {
				rt.Fatalf("GetVarGetter: %v\nfile: %s", err, s)
			}
			d, c := checkSlices(rt, vg, s.Want(v), s.F.Shape(v), v.Type == 2, 4)
			if d != "" {
				rt.Fatalf("variable %q: %s\nfile: %s", v.Name, d, s)
			}
			for _, x := range c {
				if x == "rows" || x[:3] == "box" {
					nt = true
				}
			}
			cl = append(cl, c...)
		}
		r.Case(nt, s.String(), cl...)
	})
}

// sliceVar makes slice requests on a variable of an HDF5 file, compared with what the
// C library reads.
func sliceVar(rt *rapid.T, g api.Group, o *capi.HObj, n int) (string, []string) {
	vg, err := g.GetVarGetter(strings.TrimPrefix(o.Name, nonCoord))
	if err != nil {
		return fmt.Sprintf("GetVarGetter: %v", err), nil
	}
	whole, err := vg.Values()
	if err != nil {
		return fmt.Sprintf("Values: %v", err), nil
	}
	want := o.Value()
	chars := o.Type.Class == 's' && o.Type.Size == 1
	nt := false
	d, cl := checkSlicesBy(rt, vg, o.Shape, n, func(got any, b, e []int64) string {
		if reflect.TypeOf(got) != reflect.TypeOf(whole) {
			return fmt.Sprintf("a %T, part of a %T", got, whole)
		}
		c := capi.Canon(got)
		if chars {
			c = trimNULs(c)
		}
		nt = true
		return capi.CanonDiff(c, capi.Rect(want, b, e, chars), "")
	})
	if d == "" {
		if x := capi.CanonDiff(capi.Canon(whole), want, ""); x != "" {
			d = "whole: " + x
		}
	}
	if nt {
		cl = append(cl, "nontrivial")
	}
	return d, append(cl, "class "+string(o.Type.Class))
}

// trimNULs removes trailing NULs of all strings.
func trimNULs(v any) any {
	switch v := v.(type) {
	case string:
		return strings.TrimRight(v, "\x00")
	case capi.Seq:
		for i := range v.Items {
			v.Items[i] = trimNULs(v.Items[i])
		}
		return v
	}
	return v
}

func sliceGroup(rt *rapid.T, g api.Group, o *capi.HObj, n int, cl *[]string) string {
	for _, k := range o.Kids {
		switch k.Kind {
		case "ds":
			if isPureDim(k) {
				continue
			}
			d, c := sliceVar(rt, g, k, n)
			if d != "" {
				return fmt.Sprintf("variable %.60q of type %s: %s", k.Name, k.Type.Text, d)
			}
			*cl = append(*cl, c...)
		case "group":
			sub, err := g.GetGroup(k.Name)
			if err != nil {
				return fmt.Sprintf("GetGroup(%.60q): %v", k.Name, err)
			}
			if d := sliceGroup(rt, sub, k, n, cl); d != "" {
				return d
			}
			sub.Close()
		}
	}
	return ""
}

func TestC09HDF5(t *testing.T) {
	rule := "row ranges and boxes (in range, empty, out of range, reversed, wrong rank) of datasets made by the HDF5 library, of every type, standard or user-defined, layout, chunk shape and filter, extended and partly written; compared with the same part of what the HDF5 library reads; non-trivial: an in-range request was made"
	h.Check(t, "C09", rule, 20000, 500000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c09.nc")
		g := newHGen(rt)
		g.newFile(path)
		for i := g.pick("nds", 1, 3); i > 0; i-- {
			o := dsOpts{maxRank: 4, maxElems: 200, filters: true, unwritten: true}
			t := g.stdType(true)
			if g.pc("user", 25) {
				t = g.userType(0, utOpts{strings: true})
				o.maxElems = 40
			}
			g.datasetOf(0, fmt.Sprintf("d%d", i), t, t.Text, o)
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			capi.Infra("HDUMP: %v of %s", err, g.desc())
		}
		if !g.kept(root) {
			r.Discarded("the C library lost values it wrote")
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		cl := g.classList()
		if d := sliceGroup(rt, nc, root, 5, &cl); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(g.nontriv, g.desc(), cl...)
	})
}

func TestC09NetCDF(t *testing.T) {
	rule := "row ranges and boxes of variables in groups of files made by the NetCDF library, compared with the same part of what the HDF5 library reads; non-trivial: something of more than one element was written"
	h.Check(t, "C09", rule, 12000, 300000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c09n.nc")
		g := ncProgram(rt, path, ncOpts{types: true, maxVars: 6, maxGroups: 2, maxElems: 100, maxAtts: 0, partial: true})
		f := makeNC(r, g, path)
		if f == nil {
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		cl := g.classList()
		if d := sliceGroup(rt, nc, f.h, 4, &cl); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(g.nontriv, g.desc(), cl...)
	})
}
