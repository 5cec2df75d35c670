package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/h5sum"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func TestC18Classic(t *testing.T) {
	rule := "classic files that end before all their data, encoded by an independent encoder, of all types, with and without own fill values; the elements missing must read as the fill value and the others as written, through whole reads and slices; non-trivial: at least one element is missing"
	h.Check(t, "C18", rule, 24000, 600000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 5, MaxElems: 400, MaxName: 8, TruncatePc: 90, FillPc: 50})
		g, err := netcdf.New(newMem(s.Bytes))
		if err != nil {
			rt.Fatalf("New: %v\nfile: %s", err, s)
		}
		defer g.Close()
		_, cl := specClasses(s)
		filled := 0
		for i := range s.F.Vars {
			v := &s.F.Vars[i]
			flat, n := s.FlatWant(v)
			filled += n
			if n > 0 {
				cl = append(cl, "missing in type "+cdfspec.CDLName(v.Type))
				if total := m.Prod(s.F.Shape(v)); n < total {
					cl = append(cl, "missing in part")
				}
				for _, a := range v.Atts {
					if a.Name == "_FillValue" {
						cl = append(cl, "own fill value", "own fill value of type "+cdfspec.CDLName(v.Type))
					}
				}
			}
			_ = flat
			want := s.Want(v)
			vg, err := g.GetVarGetter(v.Name)
			if err != nil {
				rt.Fatalf("GetVarGetter: %v\nfile: %s", err, s)
			}
			got, err := vg.Values()
			if err != nil {
				rt.Fatalf("Values of %q: %v\nfile: %s", v.Name, err, s)
			}
			if d := m.Diff(got, want); d != "" {
				rt.Fatalf("variable %q: %s\nfile: %s", v.Name, d, s)
			}
			d, c := checkSlices(rt, vg, want, s.F.Shape(v), v.Type == 2, 3)
			if d != "" {
				rt.Fatalf("variable %q: %s\nfile: %s", v.Name, d, s)
			}
			cl = append(cl, c...)
		}
		r.Case(filled > 0, s.String(), cl...)
	})
}

// oneTok tells whether several elements of the type make one token.
func oneTok(t *capi.HType) bool {
	for t.Class == 'a' {
		t = t.Base
	}
	return t.Class != 'S' && t.Class != 'c' && t.Class != 'v'
}

// zeroToks is an element of a type of nothing but zeros.
func zeroToks(t *capi.HType) string {
	switch t.Class {
	case 'S':
		return capi.Hex("")
	case 'v':
		return "0"
	case 'c':
		var out []string
		for _, f := range t.Flds {
			out = append(out, zeroToks(f.Type))
		}
		return strings.Join(out, " ")
	case 'a':
		n := m.Prod(t.Dims)
		var out []string
		for ; n > 0; n-- {
			out = append(out, zeroToks(t.Base))
		}
		return joinToks(t.Base, out)
	}
	return capi.Hex(string(make([]byte, t.Size)))
}

// joinToks joins elements of a type.
func joinToks(t *capi.HType, e []string) string {
	if oneTok(t) {
		return strings.Join(e, "")
	}
	return strings.Join(e, " ")
}

// defaultToks is the NetCDF default fill value.
func defaultToks(t *capi.HType) string {
	var x any
	switch fmt.Sprintf("%c%d", t.Class, t.Size) {
	case "i1":
		x = []int8{-127}
	case "u1":
		x = []uint8{255}
	case "i2":
		x = []int16{-32767}
	case "u2":
		x = []uint16{65535}
	case "i4":
		x = []int32{-2147483647}
	case "u4":
		x = []uint32{4294967295}
	case "i8":
		x = []int64{-9223372036854775806}
	case "u8":
		x = []uint64{18446744073709551614}
	case "f4":
		x = []float32{9.9692099683868690e+36}
	case "f8":
		x = []float64{9.9692099683868690e+36}
	default:
		capi.Infra("no default fill value for %s", t.Text)
	}
	return capi.HexLE(x)
}

// cellModel is a dataset drawn with what is known about its elements.
type cellModel struct {
	name  string
	t     *capi.HType
	shape []int
	at    map[string]string // written, by index
	fill  string
	kind  string
	own   []byte // fixed-size fill value in the file's bytes
}

func (c *cellModel) obj() *capi.HObj {
	var e []string
	eachIndex(c.shape, func(ix []int) {
		v, has := c.at[fmt.Sprint(ix)]
		if !has {
			v = c.fill
		}
		e = append(e, v)
	})
	o := &capi.HObj{Name: c.name, Kind: "ds", Type: c.t, Shape: c.shape}
	if s := joinToks(c.t, e); s != "" {
		o.Toks = strings.Split(s, " ")
	}
	return o
}

// fillSet draws a dataset that is partly written or not at all.
func fillSet(g *hgen, name string, t *capi.HType) *cellModel {
	rt := g.rt
	c := &cellModel{name: name, t: t, at: map[string]string{}}
	slot := g.newSlot()
	rank := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 4}).Draw(rt, "rank")
	layout := rapid.SampledFrom([]int{0, 1, 2, 2, 2}).Draw(rt, "layout")
	if rank == 0 && layout == 2 {
		layout = 1
	}
	limit := 60
	if !t.HasVlen() && layout > 0 && g.pc("large", 15) {
		limit = 6000
		g.class("many elements")
	}
	shape := make([]int, rank)
	n := 1
	for i := range shape {
		hi := max(1, limit/n)
		if hi > 7 && i < rank-1 {
			hi = 7
		}
		shape[i] = g.pick("ext", 1, hi)
		n *= shape[i]
	}
	// what is known of storage that was allocated and not filled is nothing
	kinds := []string{"own", "own", "default", "default", "own, never", "default, never"}
	if strings.IndexByte("iuf", t.Class) >= 0 {
		kinds = append(kinds, "undefined", "undefined, never")
	}
	c.kind = rapid.SampledFrom(kinds).Draw(rt, "kind")
	own := strings.HasPrefix(c.kind, "own")
	if own && t.HasVlen() {
		own = false
		c.kind = "default"
	}
	whole := strings.HasPrefix(c.kind, "undefined") || strings.HasSuffix(c.kind, "never")
	if whole && (layout == 0 || t.HasVlen()) {
		whole = false
		c.kind = "default"
		own = false
	}
	fm, ft := "0", g.pick("filltime", 0, 1)
	switch {
	case own:
		c.fill = g.tokens(t, 1)
		fm = "1 " + c.fill
	case strings.HasPrefix(c.kind, "undefined"):
		c.fill = defaultToks(t)
		fm = "2"
		ft = 0
	default:
		c.fill = zeroToks(t)
	}
	if strings.HasSuffix(c.kind, "never") {
		ft = 2
	}
	alloc := g.pick("alloc", 0, 3)
	if layout == 0 && alloc > 1 {
		alloc = 1
	}
	if whole {
		alloc = 0
	}
	maxd := append([]int{}, shape...)
	chunk := make([]int, rank)
	fl, nf := "", 0
	if layout == 2 {
		for i := range shape {
			if g.pc("unlim", 40) {
				maxd[i] = -1
			}
			switch g.pick("ck", 0, 4) {
			case 0:
				chunk[i] = 1
			case 1:
				chunk[i] = shape[i]
			case 2:
				chunk[i] = shape[i] + g.pick("cx", 0, 3)
			default:
				chunk[i] = g.pick("c", 1, shape[i])
			}
			if maxd[i] >= 0 && chunk[i] > maxd[i] {
				chunk[i] = maxd[i]
			}
		}
		nc := 1
		for i := range shape {
			nc *= (shape[i] + chunk[i] - 1) / chunk[i]
		}
		if nc > 500 {
			copy(chunk, shape)
		}
		for _, f := range rapid.Permutation([]string{"d5", "s", "f"}).Draw(rt, "filters")[:g.pick("nf", 0, 2)] {
			if f == "f" && t.HasVlen() {
				continue
			}
			fl += " " + f
			nf++
		}
	}
	cmd := fmt.Sprintf("HDS %d 0 %s %s %d %d%s%s", slot, capi.Hex(name), t.Text, layout, rank, ints(shape), ints(maxd))
	if layout == 2 {
		cmd += ints(chunk)
	}
	g.add("%s %d%s %s %d %d", cmd, nf, fl, fm, ft, alloc)
	g.class("layout %d, fill %s", layout, c.kind)
	g.class("class %c", t.Class)
	g.class("rank %d", rank)
	cur := append([]int{}, shape...)
	for k := g.pick("steps", 0, 4); k > 0; k-- {
		if layout == 2 && !whole && g.pc("extend", 30) {
			grow, shrink := false, false
			for i := range cur {
				if maxd[i] < 0 {
					hi := cur[i] + 5
					if limit > 1000 {
						hi = cur[i] + 1
					}
					x := g.pick("newext", 0, hi)
					grow = grow || x > cur[i]
					shrink = shrink || x < cur[i]
					cur[i] = x
				}
			}
			if grow || shrink {
				g.add("HEXT %d %d%s", slot, rank, ints(cur))
			}
			if grow {
				g.class("grown")
			}
			if shrink {
				g.class("shrunk")
				for ix := range c.at {
					var at []int
					for _, w := range strings.Fields(strings.Trim(ix, "[]")) {
						var x int
						fmt.Sscan(w, &x)
						at = append(at, x)
					}
					for i := range at {
						if at[i] >= cur[i] {
							delete(c.at, ix)
						}
					}
				}
			}
			continue
		}
		st, ct := make([]int, rank), make([]int, rank)
		nw := 1
		for i := range cur {
			if cur[i] == 0 {
				nw = 0
				break
			}
			switch {
			case whole && layout == 1:
				ct[i] = cur[i]
			case whole:
				a := g.pick("cst", 0, (cur[i]-1)/chunk[i])
				b := g.pick("cend", a, min(a+2, (cur[i]-1)/chunk[i]))
				st[i] = a * chunk[i]
				ct[i] = min((b+1)*chunk[i], cur[i]) - st[i]
			default:
				st[i] = g.pick("st", 0, cur[i]-1)
				ct[i] = g.pick("ct", 1, min(cur[i]-st[i], 8))
			}
			nw *= ct[i]
		}
		if nw == 0 || nw > 300 {
			continue
		}
		var e []string
		eachIndex(ct, func(ix []int) {
			at := make([]int, rank)
			for i := range ix {
				at[i] = st[i] + ix[i]
			}
			var v string
			if nw <= 40 || len(e) < 5 {
				v = g.tokens(t, 1)
			} else {
				v = e[len(e)%5]
			}
			c.at[fmt.Sprint(at)] = v
			e = append(e, v)
		})
		g.add("HWR %d %d%s%s %s", slot, rank, ints(st), ints(ct), joinToks(t, e))
	}
	c.shape = cur
	switch total := m.Prod(cur); {
	case total == 0:
		g.class("no elements")
	case len(c.at) == 0:
		g.class("never written")
		g.nontriv = true
	case len(c.at) < total:
		g.class("written in part")
		g.nontriv = true
	}
	if b := []byte(capi.Unhex(strings.Fields(c.fill + " x")[0])); own && oneTok(t) && len(b) >= 4 {
		if t.BE {
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		}
		c.own = b
	}
	return c
}

// checkCells compares a variable, and parts of it, with the model.
func checkCells(rt *rapid.T, nc api.Group, c *cellModel) (string, []string) {
	return sliceVar(rt, nc, c.obj(), 4)
}

func TestC18HDF5(t *testing.T) {
	rule := "HDF5 files made by the HDF5 library with datasets written in part or not at all, of every layout, type (user-defined ones as well), chunk shape, filter, allocation and fill time, with an own, the default and no fill value, extended and cut; a model of the cells written (it doesn't ask the C library) gives the value of each element, in whole reads and in slices; non-trivial: a dataset has unwritten elements"
	h.Check(t, "C18", rule, 16000, 400000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c18.nc")
		g := newHGen(rt)
		g.newFile(path)
		var sets []*cellModel
		for i := g.pick("nds", 1, 3); i > 0; i-- {
			t := g.stdType(true)
			if g.pc("user", 40) {
				for t = g.userType(0, utOpts{arrays: true}); t.HasVlen(); {
					t = g.userType(0, utOpts{arrays: true})
				}
			}
			sets = append(sets, fillSet(g, fmt.Sprintf("d%d", i), t))
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return
		}
		cl := fillMessages(g, path, sets)
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		for _, c := range sets {
			d, x := checkCells(rt, nc, c)
			if d != "" {
				if whoIsRight(nc, path, c) {
					r.Discarded("the C library has other contents than it was told to write")
					return
				}
				rt.Fatalf("dataset %s, fill %s: %s\n%s", c.name, c.kind, d, g.desc())
			}
			cl = append(cl, x...)
		}
		r.Case(g.nontriv, g.desc(), append(cl, g.classList()...)...)
	})
}

// whoIsRight tells whether the C library reads what the package reads although it isn't
// what was written.
func whoIsRight(nc api.Group, path string, c *cellModel) bool {
	if strings.HasPrefix(c.kind, "undefined") || strings.HasSuffix(c.kind, "never") {
		return false
	}
	root, err := capi.HDumpFile(path)
	if err != nil {
		return true
	}
	o := root.Kid(c.name)
	v, err := nc.GetVariable(c.name)
	if o == nil || err != nil || capi.CanonDiff(o.Value(), c.obj().Value(), "") == "" {
		return false
	}
	return capi.CanonDiff(capi.Canon(v.Values), o.Value(), "") == ""
}

// fillMessages changes the fill value messages of object headers in ways that don't change what they mean: the old kind of message
// counts only if there is no new one.
func fillMessages(g *hgen, path string, sets []*cellModel) (cl []string) {
	if !g.pc("messages", 40) {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		capi.Infra("%v", err)
	}
	sums, changed := h5sum.Find(b), false
	for _, c := range sets {
		if c.own == nil || bytes.Count(b, c.own) < 2 {
			continue
		}
		var oldAt, newAt []int
		for i := 0; ; i++ {
			k := bytes.Index(b[i:], c.own)
			if k < 0 {
				break
			}
			i += k
			if i < 16 || binary.LittleEndian.Uint32(b[i-4:]) != uint32(len(c.own)) {
				continue
			}
			// the type, size and flags come before a message, and in version 1 three
			// zeros, in version 2 there can be two more bytes
			pre := func(at int, typ byte) int {
				size := i + len(c.own) - at
				for _, n := range []int{8, 4, 6} {
					k := at - n
					if k < 0 || b[k] != typ {
						continue
					}
					if n == 8 && b[k+1] == 0 && bytes.Equal(b[k+5:k+8], make([]byte, 3)) {
						return k
					}
					if n < 8 && int(binary.LittleEndian.Uint16(b[k+1:])) == size {
						return k
					}
				}
				return -1
			}
			if k := pre(i-4, 4); k >= 0 {
				oldAt = append(oldAt, i)
			}
			if k := pre(i-8, 5); k >= 0 && b[i-8] == 2 && b[i-5] == 1 {
				newAt = append(newAt, k)
			}
		}
		if len(oldAt) != 1 || len(newAt) != 1 {
			continue
		}
		if g.pc("oldonly", 50) {
			b[newAt[0]] = 0 // nothing
			cl = append(cl, "only the old fill value message")
		} else {
			for i := range c.own {
				b[oldAt[0]+i] ^= 0x55
			}
			cl = append(cl, "another value in the old fill value message")
		}
		changed = true
	}
	if changed {
		h5sum.Repair(b, sums)
		if err := os.WriteFile(path, b, 0o666); err != nil {
			capi.Infra("%v", err)
		}
		g.class("fill value messages changed")
	}
	return cl
}

// ncModel compares the variables of a group, and of those below, with the elements
// written and the fill values of the others. It counts those.
func ncModel(rt *rapid.T, nc api.Group, g *ngen, gr *capi.Group, ho *capi.HObj, path string, cl *[]string) (bad string, filled int) {
	for i := range gr.Vars {
		v := &gr.Vars[i]
		c := g.cells[path+"/"+v.Name]
		o := hVar(ho, v.Name)
		if c == nil || o == nil {
			capi.Infra("variable %q isn't in the model or in the file", v.Name)
		}
		var e []string
		n := 0
		eachIndex(o.Shape, func(ix []int) {
			x, has := c.at[fmt.Sprint(ix)]
			if !has {
				x = c.fill
				n++
			}
			e = append(e, x)
		})
		filled += n
		if n > 0 {
			*cl = append(*cl, fmt.Sprintf("unwritten elements of class %d", c.t.class))
			if c.own {
				*cl = append(*cl, fmt.Sprintf("own fill value of class %d", c.t.class))
			}
		}
		mo := &capi.HObj{Name: o.Name, Kind: o.Kind, Type: o.Type, Shape: o.Shape}
		if len(e) > 0 {
			mo.Toks, _ = c.t.hToks(strings.Split(c.t.join(e), " "), len(e))
		}
		d, x := sliceVar(rt, nc, mo, 3)
		*cl = append(*cl, x...)
		if d != "" {
			if got, err := nc.GetVariable(v.Name); err == nil && capi.CanonDiff(capi.Canon(got.Values), o.Value(), "") == "" && capi.CanonDiff(mo.Value(), o.Value(), "") != "" {
				return "C", 0
			}
			return fmt.Sprintf("variable %q of group %q: %s", v.Name, path, d), 0
		}
	}
	for _, s := range gr.Groups {
		sub, err := nc.GetGroup(s.Name)
		if err != nil {
			return fmt.Sprintf("GetGroup(%q): %v", s.Name, err), 0
		}
		d, n := ncModel(rt, sub, g, s, ho.Kid(s.Name), path+"/"+s.Name, cl)
		sub.Close()
		if d != "" {
			return d, 0
		}
		filled += n
	}
	return "", filled
}

// fillAttrs compares the fill values the variables carry with those they were given.
func fillAttrs(nc api.Group, g *ngen, gr *capi.Group, ho *capi.HObj, path string) string {
	for i := range gr.Vars {
		v := &gr.Vars[i]
		c := g.cells[path+"/"+v.Name]
		vg, err := nc.GetVarGetter(v.Name)
		if err != nil {
			return fmt.Sprintf("GetVarGetter(%q): %v", v.Name, err)
		}
		if _, has := vg.Attributes().Get("_FillValue"); has != c.own {
			return fmt.Sprintf("variable %q has a _FillValue: %v, want %v", v.Name, has, c.own)
		}
		// the fill value is what an unwritten element reads as
		av, _ := vg.Attributes().Get("_FillValue")
		o := hVar(ho, v.Name)
		if c.own && o.Att("_FillValue") != nil {
			if d := capi.CanonDiff(capi.Canon(av), o.Att("_FillValue").AttValue(), ""); d != "" {
				return fmt.Sprintf("_FillValue of %q: %s", v.Name, d)
			}
		}
	}
	for _, s := range gr.Groups {
		sub, err := nc.GetGroup(s.Name)
		if err != nil {
			return fmt.Sprintf("GetGroup(%q): %v", s.Name, err)
		}
		d := fillAttrs(sub, g, s, ho.Kid(s.Name), path+"/"+s.Name)
		sub.Close()
		if d != "" {
			return d
		}
	}
	return ""
}

func TestC18NetCDF(t *testing.T) {
	rule := "NetCDF-4 files made by the NetCDF library with variables written in part or not at all, of every type, storage and place, with and without own fill values; a model of the elements written (it doesn't ask the C library) gives all values, in whole reads and in slices; non-trivial: a variable has unwritten elements"
	h.Check(t, "C18", rule, 8000, 200000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c18n.nc")
		g := ncProgram(rt, path, ncOpts{types: true, maxVars: 6, maxGroups: 2, maxElems: 80, maxAtts: 1, partial: true, track: true})
		f := makeNC(r, g, path)
		if f == nil {
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		cl := g.classList()
		bad, filled := ncModel(rt, nc, g, f.nc.Root, f.h, "", &cl)
		if bad == "C" {
			r.Discarded("the C library has other contents than it was told to write")
			if os.Getenv("VERIF_DEV") != "" {
				fmt.Println("OTHER", g.desc())
			}
			return
		}
		if bad != "" {
			rt.Fatalf("%s\n%s", bad, g.desc())
		}
		if d := fillAttrs(nc, g, f.nc.Root, f.h, ""); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(filled > 0, g.desc(), cl...)
	})
}
