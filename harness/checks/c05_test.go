package checks

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// memFile is a file in memory that counts closes.
type memFile struct {
	*bytes.Reader
	closed int
}

func (f *memFile) Close() error { f.closed++; return nil }

func newMem(b []byte) *memFile { return &memFile{Reader: bytes.NewReader(b)} }

var _ io.ReadSeeker = (*memFile)(nil)

// specClasses describes a classic file for the evidence.
func specClasses(s *m.SpecFile) (bool, []string) {
	cl := []string{fmt.Sprintf("version %d", s.F.Version)}
	nrec, data := 0, false
	for i := range s.F.Vars {
		v := &s.F.Vars[i]
		cl = append(cl, "type "+cdfspec.CDLName(v.Type), fmt.Sprintf("rank %d", len(v.DimIDs)))
		if s.F.IsRec(v) {
			nrec++
			cl = append(cl, "record variable")
			if s.F.SlabSize(v)%4 != 0 {
				cl = append(cl, "record slab needing padding")
			}
		}
		if m.Prod(s.F.Shape(v)) > 0 {
			data = true
		}
	}
	switch {
	case nrec == 1:
		cl = append(cl, "exactly one record variable")
	case nrec > 1:
		cl = append(cl, "several record variables")
	}
	if s.Cut {
		cl = append(cl, "data missing at the end")
	}
	if s.L.FixedOrder != nil || s.L.RecOrder != nil {
		cl = append(cl, "data not in header order")
	}
	return data, cl
}

// checkSpecRead compares everything the API gives with what the bytes mean.
func checkSpecRead(g api.Group, s *m.SpecFile) string {
	f := s.F
	var names, dims []string
	for _, v := range f.Vars {
		names = append(names, v.Name)
	}
	for _, d := range f.Dims {
		dims = append(dims, d.Name)
	}
	if d := sameList(g.ListVariables(), names); d != "" {
		return "ListVariables: " + d
	}
	if d := sameList(g.ListDimensions(), dims); d != "" {
		return "ListDimensions: " + d
	}
	if l := g.ListSubgroups(); len(l) != 0 {
		return fmt.Sprintf("ListSubgroups: %q", l)
	}
	if l := g.ListTypes(); len(l) != 0 {
		return fmt.Sprintf("ListTypes: %q", l)
	}
	for _, d := range f.Dims {
		// the record dimension is reported as 0, its declared length
		if n, has := g.GetDimension(d.Name); !has || n != uint64(d.Len) {
			return fmt.Sprintf("GetDimension(%q) = %d, %v, want %d", d.Name, n, has, d.Len)
		}
	}
	at, err := m.ReadAttrs(g.Attributes())
	if err != nil {
		return err.Error()
	}
	if d := m.DiffAttrs(at, specAttrs(f.Atts), true); d != "" {
		return "global " + d
	}
	for i := range f.Vars {
		v := &f.Vars[i]
		want := s.Want(v)
		got, err := g.GetVariable(v.Name)
		if err != nil {
			return fmt.Sprintf("GetVariable(%.60q): %v", v.Name, err)
		}
		if d := m.Diff(got.Values, want); d != "" {
			return fmt.Sprintf("variable %.60q: %s", v.Name, d)
		}
		vg, err := g.GetVarGetter(v.Name)
		if err != nil {
			return fmt.Sprintf("GetVarGetter(%.60q): %v", v.Name, err)
		}
		vals, err := vg.Values()
		if err != nil {
			return fmt.Sprintf("Values of %.60q: %v", v.Name, err)
		}
		if d := m.Diff(vals, want); d != "" {
			return fmt.Sprintf("Values of %.60q: %s", v.Name, d)
		}
		var vd []string
		for _, id := range v.DimIDs {
			vd = append(vd, f.Dims[id].Name)
		}
		if d := sameList(got.Dimensions, vd); d != "" {
			return fmt.Sprintf("dimensions of %.60q: %s", v.Name, d)
		}
		if d := sameList(vg.Dimensions(), vd); d != "" {
			return fmt.Sprintf("getter dimensions of %.60q: %s", v.Name, d)
		}
		for _, am := range []api.AttributeMap{got.Attributes, vg.Attributes()} {
			at, err := m.ReadAttrs(am)
			if err != nil {
				return err.Error()
			}
			if d := m.DiffAttrs(at, specAttrs(v.Atts), true); d != "" {
				return fmt.Sprintf("variable %.60q %s", v.Name, d)
			}
		}
	}
	return ""
}

const c05Rule = "well-formed CDF-1/2/5 files from an independent encoder (fixed and record variables of all types, data in any order with gaps, user fill values, part of the data missing at the end in a fifth of the files); everything the API reports is compared with the content; non-trivial: at least one variable with data"

func TestC05Spec(t *testing.T) {
	h.Check(t, "C05", c05Rule, 240000, 4000000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 6, MaxElems: 400, MaxName: 200, TruncatePc: 20, FillPc: 20})
		g, err := netcdf.New(newMem(s.Bytes))
		if err != nil {
			rt.Fatalf("New: %v\nfile: %s", err, s)
		}
		defer g.Close()
		if d := checkSpecRead(g, s); d != "" {
			rt.Fatalf("%s\nfile: %s", d, s)
		}
		nt, cl := specClasses(s)
		r.Case(nt, s.String(), cl...)
	})
}

// dumpValue turns what the C library read into the API's documented form.
func dumpValue(typ int, tk []string, shape []int) any {
	n := m.Prod(shape)
	flat := capi.Flat(typ, n, tk)
	if typ == cdfspec.Char {
		return cdfspec.APIValue(typ, flat, shape)
	}
	if n == 0 && len(shape) > 0 {
		return cdfspec.APIValue(cdfspec.Byte, flat, shape) // nests by the flat type
	}
	return m.Nest(flat, shape)
}

func dumpAttr(a capi.Att) any {
	flat := capi.Flat(a.Type, a.Len, a.Toks)
	if a.Type == cdfspec.Char {
		return string(flat.([]uint8))
	}
	return m.NormAttr(flat)
}

func dumpAttrs(a []capi.Att) []m.Attr {
	var ret []m.Attr
	for _, x := range a {
		ret = append(ret, m.Attr{Name: x.Name, Val: dumpAttr(x)})
	}
	return ret
}

// checkDumpClassic compares the API's view of a classic file with the C library's.
func checkDumpClassic(g api.Group, d *capi.Dump) string {
	var names, dims []string
	for _, v := range d.Root.Vars {
		names = append(names, v.Name)
	}
	for _, x := range d.Root.Dims {
		dims = append(dims, x.Name)
		want := uint64(x.Len)
		if x.Unlim {
			want = 0
		}
		if n, has := g.GetDimension(x.Name); !has || n != want {
			return fmt.Sprintf("GetDimension(%q) = %d, %v, want %d", x.Name, n, has, want)
		}
	}
	if d := sameList(g.ListVariables(), names); d != "" {
		return "ListVariables: " + d
	}
	if d := sameList(g.ListDimensions(), dims); d != "" {
		return "ListDimensions: " + d
	}
	at, err := m.ReadAttrs(g.Attributes())
	if err != nil {
		return err.Error()
	}
	if x := m.DiffAttrs(at, dumpAttrs(d.Root.Atts), true); x != "" {
		return "global " + x
	}
	for i := range d.Root.Vars {
		v := &d.Root.Vars[i]
		got, err := g.GetVariable(v.Name)
		if err != nil {
			return fmt.Sprintf("GetVariable(%.60q): %v", v.Name, err)
		}
		if x := m.Diff(got.Values, dumpValue(v.Type, v.Toks, v.Shape())); x != "" {
			return fmt.Sprintf("variable %.60q: %s (want is the C library's)", v.Name, x)
		}
		var vd []string
		for _, d := range v.Dims {
			vd = append(vd, d.Name)
		}
		if x := sameList(got.Dimensions, vd); x != "" {
			return fmt.Sprintf("dimensions of %.60q: %s", v.Name, x)
		}
		at, err := m.ReadAttrs(got.Attributes)
		if err != nil {
			return err.Error()
		}
		if x := m.DiffAttrs(at, dumpAttrs(v.Atts), true); x != "" {
			return fmt.Sprintf("variable %.60q %s", v.Name, x)
		}
	}
	return ""
}

// cdfCProgram draws commands that make a classic file with the C library.
func cdfCProgram(rt *rapid.T, path string) ([]string, string) {
	mode := rapid.SampledFrom([]int{capi.ModeClassic, capi.Mode64Offset, capi.Mode64Data}).Draw(rt, "mode")
	nt := 6
	if mode == capi.Mode64Data {
		nt = 11
	}
	nofill := rapid.IntRange(0, 4).Draw(rt, "nofill") == 0
	cmds := []string{fmt.Sprintf("NEW %s %d %d", path, mode, b2i(nofill))}
	slot := 1
	nd := rapid.IntRange(0, 4).Draw(rt, "nd")
	rec := -1
	if nd > 0 && rapid.IntRange(0, 3).Draw(rt, "hasrec") > 0 {
		rec = rapid.IntRange(0, nd-1).Draw(rt, "rec")
	}
	lens := make([]int, nd)
	dslot := make([]int, nd)
	for i := 0; i < nd; i++ {
		lens[i] = rapid.IntRange(1, 6).Draw(rt, "len")
		l := lens[i]
		if i == rec {
			l = 0
		}
		cmds = append(cmds, fmt.Sprintf("DIM %d 0 %s %d", slot, capi.Hex(fmt.Sprintf("d%d", i)), l))
		dslot[i] = slot
		slot++
	}
	att := func(v int, name string) {
		ty := rapid.IntRange(1, nt).Draw(rt, "at")
		n := rapid.IntRange(0, 6).Draw(rt, "an")
		flat := Flat(rt, ty, n)
		if n == 0 {
			cmds = append(cmds, fmt.Sprintf("ATT 0 %d %s %d 0", v, capi.Hex(name), ty))
			return
		}
		cmds = append(cmds, fmt.Sprintf("ATT 0 %d %s %d %d %s", v, capi.Hex(name), ty, n, capi.HexLE(flat)))
	}
	for i := rapid.IntRange(0, 3).Draw(rt, "nga"); i > 0; i-- {
		att(-1, fmt.Sprintf("ga%d", i))
	}
	type cv struct {
		slot, typ, rank, rec int
		dims                 []int
	}
	var vars []cv
	for i := rapid.IntRange(0, 5).Draw(rt, "nv"); i > 0; i-- {
		v := cv{slot: slot, typ: rapid.IntRange(1, nt).Draw(rt, "type")}
		slot++
		if rec >= 0 && rapid.Bool().Draw(rt, "isrec") {
			v.dims = append(v.dims, rec)
			v.rec = 1
		}
		for k := rapid.IntRange(0, 3).Draw(rt, "rank"); k > 0 && nd > 0; k-- {
			if d := rapid.IntRange(0, nd-1).Draw(rt, "d"); d != rec {
				v.dims = append(v.dims, d)
			}
		}
		c := fmt.Sprintf("VAR %d 0 %s %d %d", v.slot, capi.Hex(fmt.Sprintf("v%d", i)), v.typ, len(v.dims))
		for _, d := range v.dims {
			c += fmt.Sprintf(" %d", dslot[d])
		}
		cmds = append(cmds, c)
		for k := rapid.IntRange(0, 2).Draw(rt, "nva"); k > 0; k-- {
			att(v.slot, fmt.Sprintf("a%d", k))
		}
		if !nofill && rapid.IntRange(0, 3).Draw(rt, "fv") == 0 {
			cmds = append(cmds, fmt.Sprintf("ATT 0 %d %s %d 1 %s", v.slot, capi.Hex("_FillValue"), v.typ, capi.HexLE(Flat(rt, v.typ, 1))))
		}
		vars = append(vars, v)
	}
	cmds = append(cmds, "ENDDEF")
	for _, v := range vars {
		for k := rapid.IntRange(0, 2).Draw(rt, "writes"); k > 0; k-- {
			st, ct := "", ""
			n := 1
			for i, d := range v.dims {
				max := lens[d]
				s := rapid.IntRange(0, max-1).Draw(rt, "start")
				c := rapid.IntRange(1, max-s).Draw(rt, "count")
				if i == 0 && v.rec == 1 {
					s = rapid.IntRange(0, 4).Draw(rt, "rstart")
					c = rapid.IntRange(1, 3).Draw(rt, "rcount")
				}
				st += fmt.Sprintf(" %d", s)
				ct += fmt.Sprintf(" %d", c)
				n *= c
			}
			cmds = append(cmds, fmt.Sprintf("PUT 0 %d %d %d%s%s %s", v.slot, v.typ, len(v.dims), st, ct, capi.HexLE(Flat(rt, v.typ, n))))
		}
	}
	desc := ""
	for _, c := range cmds[1:] {
		if len(c) > 120 {
			c = c[:120] + "..."
		}
		desc += c + "; "
	}
	return cmds, fmt.Sprintf("mode %#x nofill=%v: %s", mode, nofill, desc)
}

// Flat draws flat data of a NetCDF type.
func Flat(rt *rapid.T, typ, n int) any {
	return m.Flat(rt, capi.GoType(typ), n, "v")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func TestC05CLibrary(t *testing.T) {
	rule := "classic files made by the NetCDF C library (partial writes, unwritten data with default or user fill values, no-fill mode) compared with what the C library reads; non-trivial: at least one variable was written"
	h.Check(t, "C05", rule, 40000, 600000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c05c.nc")
		cmds, desc := cdfCProgram(rt, path)
		if _, err := capi.Do(cmds...); err != nil {
			r.Discarded("refused by the C library")
			return
		}
		d, err := capi.DumpFile(path)
		if err != nil {
			capi.Infra("DUMP: %v of %s", err, desc)
		}
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, desc)
		}
		defer g.Close()
		if x := checkDumpClassic(g, d); x != "" {
			rt.Fatalf("%s\n%s", x, desc)
		}
		r.Case(bytes.Contains([]byte(desc), []byte("PUT ")), desc, fmt.Sprintf("format %d", d.Format))
	})
}
