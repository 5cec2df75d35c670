package checks

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"slices"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

// bigFile is a file of any size, which isn't stored: what follows the header is a
// function of the place.
type bigFile struct {
	header []byte
	size   int64
	seed   uint64
	pos    int64
}

func (f *bigFile) at(pos int64) byte {
	if pos < int64(len(f.header)) {
		return f.header[pos]
	}
	x := (uint64(pos)>>3 + f.seed) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return byte(x >> (8 * (uint(pos) & 7)))
}

func (f *bigFile) Read(p []byte) (int, error) {
	if f.pos >= f.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), f.size-f.pos))
	for i := range p[:n] {
		p[i] = f.at(f.pos + int64(i))
	}
	f.pos += int64(n)
	return n, nil
}

func (f *bigFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	f.pos = off
	return off, nil
}

func (f *bigFile) Close() error { return nil }

// bigSpec is a classic file that is big only by what it says.
type bigSpec struct {
	f    *cdfspec.File
	file *bigFile
}

func (s *bigSpec) String() string {
	t := fmt.Sprintf("CDF-%d numrecs=%d size=%d dims=%v", s.f.Version, s.f.NumRecs, s.file.size, s.f.Dims)
	for i := range s.f.Vars {
		v := &s.f.Vars[i]
		t += fmt.Sprintf("; %s %s%v begin=%d", v.Name, cdfspec.CDLName(v.Type), v.DimIDs, v.Begin)
	}
	return t
}

// rows is what rows [b, e) of v are, whole rows, flat.
func (s *bigSpec) rows(v *cdfspec.Var, b, e int64) any {
	shape := s.f.Shape(v)
	per := int64(1)
	for i := 1; i < len(shape); i++ {
		per *= int64(shape[i])
	}
	sz := cdfspec.Size(v.Type)
	fill := cdfspec.DefaultFill(v.Type)
	var raw []byte
	for i := b * per; i < e*per; i++ {
		at := s.f.Offset(v, i)
		for k := int64(0); k < sz; k++ {
			if at+sz > s.file.size {
				raw = append(raw, fill[k])
			} else {
				raw = append(raw, s.file.at(at+k))
			}
		}
	}
	flat := cdfspec.FromBE(v.Type, (e-b)*per, raw)
	if len(shape) > 0 {
		shape = append([]int{int(e - b)}, shape[1:]...)
	}
	return cdfspec.APIValue(v.Type, flat, shape)
}

var bigEdges = []int64{1 << 31, 1 << 32, 1 << 33, 3 << 31, 1 << 40, 1 << 48, 1 << 52}

func drawBig(rt *rapid.T) *bigSpec {
	f := &cdfspec.File{Version: rapid.SampledFrom([]int{1, 2, 2, 5, 5}).Draw(rt, "version")}
	nt := 6
	if f.Version == 5 {
		nt = 11
	}
	near := func(label string, max int64) int64 {
		x := rapid.SampledFrom([]int64{1000, 70000, 1 << 24, 1 << 28, 1 << 29, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, 1 << 36}).Draw(rt, label)
		x += rapid.Int64Range(-9, 9).Draw(rt, label+"+")
		return min(max, x)
	}
	maxLen := int64(math.MaxInt32)
	if f.Version == 5 {
		maxLen = 1 << 40
	}
	hasRec := rapid.Bool().Draw(rt, "rec")
	if hasRec {
		f.Dims = append(f.Dims, cdfspec.Dim{Name: "r", Len: 0})
		f.NumRecs = near("numrecs", maxLen)
	}
	// some small dimensions, and big ones only for the first of a variable
	nsmall := rapid.IntRange(1, 3).Draw(rt, "small")
	first := len(f.Dims)
	for i := 0; i < nsmall; i++ {
		f.Dims = append(f.Dims, cdfspec.Dim{Name: fmt.Sprint("s", i), Len: rapid.Int64Range(1, 5).Draw(rt, "len")})
	}
	big := len(f.Dims)
	nbig := rapid.IntRange(0, 2).Draw(rt, "big")
	for i := 0; i < nbig; i++ {
		f.Dims = append(f.Dims, cdfspec.Dim{Name: fmt.Sprint("b", i), Len: near("blen", maxLen)})
	}
	for i := rapid.IntRange(1, 4).Draw(rt, "vars"); i > 0; i-- {
		v := cdfspec.Var{Name: fmt.Sprint("v", i), Type: rapid.IntRange(1, nt).Draw(rt, "type")}
		switch k := rapid.IntRange(0, 3).Draw(rt, "first"); {
		case k == 0 && hasRec:
			v.DimIDs = append(v.DimIDs, 0)
		case k <= 2 && nbig > 0:
			v.DimIDs = append(v.DimIDs, rapid.IntRange(big, big+nbig-1).Draw(rt, "bd"))
		}
		for k := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "more"); k > 0; k-- {
			v.DimIDs = append(v.DimIDs, rapid.IntRange(first, big-1).Draw(rt, "sd"))
		}
		f.Vars = append(f.Vars, v)
	}
	// places
	const limit = 1 << 55
	for i := range f.Vars {
		v := &f.Vars[i]
		v.VSize = cdfspec.Pad4(f.SlabSize(v))
		if f.Version < 5 && v.VSize > 1<<32-4 {
			v.VSize = 1<<32 - 1
		}
	}
	pos := cdfspec.HeaderLen(f)
	ok := true
	jump := func() {
		if rapid.IntRange(0, 2).Draw(rt, "jump") == 0 {
			to := rapid.SampledFrom(bigEdges).Draw(rt, "to") + 4*rapid.Int64Range(-6, 6).Draw(rt, "to+")
			if to > pos && (f.Version > 1 || to < 1<<31) {
				pos = to
			}
		}
	}
	place := func(v *cdfspec.Var) {
		if f.Version == 1 && pos > math.MaxInt32 {
			ok = false
		}
		v.Begin = pos
		pos += cdfspec.Pad4(f.SlabSize(v))
	}
	for i := range f.Vars {
		if v := &f.Vars[i]; !f.IsRec(v) {
			jump()
			place(v)
		}
	}
	end := pos
	if hasRec {
		jump()
		start := pos
		for i := range f.Vars {
			if v := &f.Vars[i]; f.IsRec(v) {
				place(v)
				end = max(end, start+f.RecSize()*f.NumRecs)
			}
		}
	}
	if !ok || end > limit {
		return nil
	}
	size := end
	if rapid.IntRange(0, 5).Draw(rt, "cut") == 0 {
		size = max(cdfspec.HeaderLen(f), end-rapid.SampledFrom([]int64{1, 3, 4, 9, 1 << 31, 1 << 32, end / 2}).Draw(rt, "by"))
	}
	return &bigSpec{f, &bigFile{header: f.Header(), size: size, seed: rapid.Uint64().Draw(rt, "seed")}}
}

// checkBig reads parts of the variables, near the places where numbers overflow.
func checkBig(rt *rapid.T, s *bigSpec, g api.Group) (string, []string) {
	var cl []string
	if n, has := g.GetDimension("b0"); has {
		for _, d := range s.f.Dims {
			if d.Name == "b0" && n != uint64(d.Len) {
				return fmt.Sprintf("GetDimension(b0) = %d, not %d", n, d.Len), nil
			}
		}
	}
	for i := range s.f.Vars {
		v := &s.f.Vars[i]
		shape := s.f.Shape(v)
		vg, err := g.GetVarGetter(v.Name)
		if err != nil {
			return fmt.Sprintf("GetVarGetter(%s): %v", v.Name, err), nil
		}
		if d := checkExtents(vg, shape); d != "" {
			return v.Name + ": " + d, nil
		}
		n, total := int64(1), int64(1)
		if len(shape) > 0 {
			n = int64(shape[0])
			for _, x := range shape {
				total *= int64(x)
			}
		}
		if total <= 2000 {
			got, err := g.GetVariable(v.Name)
			if err != nil {
				return fmt.Sprintf("GetVariable(%s): %v", v.Name, err), nil
			}
			if d := m.Diff(got.Values, s.rows(v, 0, n)); d != "" {
				return fmt.Sprintf("%s: %s", v.Name, d), nil
			}
			if v.Begin >= 1<<31 {
				cl = append(cl, "whole variable past 2 GB")
			}
		}
		if len(shape) == 0 {
			continue
		}
		// rows of interest
		at := []int64{0, n - 1, n / 2}
		per := total / max(n, 1)
		for _, edge := range append(bigEdges, s.file.size) {
			// the row that crosses the edge, by the offsets
			lo, hi := int64(0), n
			for lo < hi {
				mid := (lo + hi) / 2
				if s.f.Offset(v, mid*per) < edge {
					lo = mid + 1
				} else {
					hi = mid
				}
			}
			at = append(at, lo)
		}
		for k := 0; k < 6; k++ {
			b := rapid.SampledFrom(at).Draw(rt, "at") + rapid.Int64Range(-3, 2).Draw(rt, "at+")
			if rapid.IntRange(0, 5).Draw(rt, "anywhere") == 0 {
				b = rapid.Int64Range(0, n-1).Draw(rt, "b")
			}
			b = max(0, min(b, n-1))
			e := min(n, b+rapid.Int64Range(0, 5).Draw(rt, "len"))
			want := s.rows(v, b, e)
			if v.Type == cdfspec.Char && len(shape) == 1 && e == b {
				want = ""
			}
			var got any
			what := ""
			if rapid.Bool().Draw(rt, "md") {
				bs, es := []int64{b}, []int64{e}
				rb, re := []int64{0}, []int64{e - b}
				for _, x := range shape[1:] {
					p := rapid.IntRange(0, x).Draw(rt, "p")
					q := rapid.IntRange(p, x).Draw(rt, "q")
					bs, es = append(bs, int64(p)), append(es, int64(q))
					rb, re = append(rb, int64(p)), append(re, int64(q))
				}
				want = m.Rect(want, rb, re, v.Type == cdfspec.Char)
				got, err = vg.GetSliceMD(bs, es)
				what = fmt.Sprintf("%s.GetSliceMD(%v, %v)", v.Name, bs, es)
			} else {
				got, err = vg.GetSlice(b, e)
				what = fmt.Sprintf("%s.GetSlice(%d, %d)", v.Name, b, e)
			}
			if err != nil {
				return fmt.Sprintf("%s: %v", what, err), nil
			}
			if d := m.Diff(got, want); d != "" {
				return fmt.Sprintf("%s: %s", what, d), nil
			}
			kind := "fixed"
			if s.f.IsRec(v) {
				kind = "record"
			}
			if b < e {
				switch off := s.f.Offset(v, b*per); {
				case off >= 1<<32:
					cl = append(cl, kind+" rows past 4 GB")
				case off >= 1<<31:
					cl = append(cl, kind+" rows past 2 GB")
				}
			}
		}
		for _, x := range [][2]int64{{0, n + 1}, {n + 1, n + 1}, {n, n - 1}, {-1, 0}, {n, math.MaxInt64}} {
			if _, err := vg.GetSlice(x[0], x[1]); err == nil {
				return fmt.Sprintf("%s.GetSlice(%d, %d) of %d rows gives no error", v.Name, x[0], x[1], n), nil
			}
		}
	}
	return "", cl
}

const bigRule = "classic files of up to 2^55 bytes, virtual (each byte a function of its place), with variables, record counts and data places around 2^31, 2^32 and above; parts of the variables around the places where numbers would overflow, small variables whole; non-trivial: something past 2 GB was read"

func bigTest(t *testing.T, prop string, quick, thorough int) {
	h.Check(t, prop, bigRule, quick, thorough, func(rt *rapid.T, r *h.Rec) {
		s := drawBig(rt)
		if s == nil {
			r.Discarded("not possible in the version")
			return
		}
		g, err := netcdf.New(s.file)
		if err != nil {
			rt.Fatalf("New: %v\nfile: %s", err, s)
		}
		defer g.Close()
		d, cl := checkBig(rt, s, g)
		if d != "" {
			rt.Fatalf("%s\nfile: %s", d, s)
		}
		r.Case(len(cl) > 0, s.String(), cl...)
	})
}

func TestC05Big(t *testing.T) { bigTest(t, "C05", 24000, 500000) }

func TestC09Big(t *testing.T) { bigTest(t, "C09", 12000, 300000) }

// bigSet is a dataset of which a few rows are written.
type bigSet struct {
	name  string
	t     int // a classic type number, for the Go type
	shape []int64
	cells map[int64][]byte // big-endian, by flat index
	per   int64
	fill  []byte
}

func (b *bigSet) rows(from, to int64) any {
	var raw []byte
	for i := from * b.per; i < to*b.per; i++ {
		if c, has := b.cells[i]; has {
			raw = append(raw, c...)
		} else {
			raw = append(raw, b.fill...)
		}
	}
	shape := []int{int(to - from)}
	for _, x := range b.shape[1:] {
		shape = append(shape, int(x))
	}
	return cdfspec.APIValue(b.t, cdfspec.FromBE(b.t, (to-from)*b.per, raw), shape)
}

const bigH5Rule = "sparse HDF5 files of more than 2 and 4 GB made by the HDF5 library, with contiguous and chunked datasets of up to 2^40 rows, some written around row and byte numbers of 2^31, 2^32 and above; rows around these, by slices of rows and boxes, against a model of what was written; non-trivial: something written past 2 GB or 2^31 rows was read"

func bigH5Test(t *testing.T, prop string, quick, thorough int) {
	types := []struct {
		h string
		t int
	}{{"i1", cdfspec.Byte}, {"u1", cdfspec.UByte}, {"i2", cdfspec.Short}, {"u2", cdfspec.UShort}, {"i4", cdfspec.Int},
		{"u4", cdfspec.UInt}, {"i8", cdfspec.Int64}, {"u8", cdfspec.UInt64}, {"f4", cdfspec.Float}, {"f8", cdfspec.Double}}
	h.Check(t, prop, bigH5Rule, quick, thorough, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("big.nc")
		defer os.Remove(path)
		g := newHGen(rt)
		g.newFile(path)
		var sets []*bigSet
		var cl []string
		for i := rapid.IntRange(1, 4).Draw(rt, "sets"); i > 0; i-- {
			ty := rapid.SampledFrom(types).Draw(rt, "type")
			size := cdfspec.Size(ty.t)
			n := rapid.SampledFrom([]int64{100, 1 << 28, 1 << 29, 1 << 30, 1 << 31, 1 << 32, 1 << 33, 1 << 40}).Draw(rt, "rows")
			n += rapid.Int64Range(-9, 9).Draw(rt, "rows+")
			b := &bigSet{name: fmt.Sprint("d", i), t: ty.t, cells: map[int64][]byte{}, per: 1, shape: []int64{n}, fill: make([]byte, size)}
			for k := rapid.IntRange(0, 2).Draw(rt, "rank"); k > 0; k-- {
				x := rapid.Int64Range(1, 4).Draw(rt, "len")
				b.shape = append(b.shape, x)
				b.per *= x
			}
			chunked := n*b.per*size > 1<<36 || rapid.Bool().Draw(rt, "chunked")
			layout, kind := 1, "contiguous"
			chunks, filters := []int64{}, " 0"
			fill := "0"
			if chunked {
				layout, kind = 2, "chunked"
				chunks = append(chunks, rapid.Int64Range(1, 40).Draw(rt, "chunk"))
				for _, x := range b.shape[1:] {
					chunks = append(chunks, rapid.Int64Range(1, x).Draw(rt, "chunk"))
				}
				filters = rapid.SampledFrom([]string{" 0", " 1 d1", " 2 s d1", " 1 f"}).Draw(rt, "filters")
				if rapid.Bool().Draw(rt, "fill") {
					for k := range b.fill {
						b.fill[k] = byte(rapid.IntRange(0, 120).Draw(rt, "fillbyte"))
					}
					fill = "1 " + nativeHex(b.fill, size)
				}
			}
			end := ""
			if rapid.Bool().Draw(rt, "be") && size > 1 {
				end = "b"
			}
			maxd := append([]int64{}, b.shape...)
			if chunked && rapid.Bool().Draw(rt, "unlim") {
				maxd[0] = -1
			}
			g.add("HDS %d 0 %s %s %d %d%s%s%s%s %s %d 0", 10+i, capi.Hex(b.name), ty.h+end, layout, len(b.shape), ints(b.shape), ints(maxd), ints(chunks), filters, fill, 0)
			at := []int64{0, n - 1}
			for _, e := range []int64{1 << 31, 1 << 32, 1 << 33} {
				at = append(at, e, e/(b.per*size), e/size/b.per)
			}
			for k := rapid.IntRange(1, 4).Draw(rt, "writes"); k > 0; k-- {
				from := rapid.SampledFrom(at).Draw(rt, "at") + rapid.Int64Range(-4, 2).Draw(rt, "at+")
				from = max(0, min(from, n-1))
				to := min(n, from+rapid.Int64Range(1, 9).Draw(rt, "count"))
				var raw []byte
				for j := from * b.per; j < to*b.per; j++ {
					c := make([]byte, size)
					for x := range c {
						c[x] = byte(rapid.IntRange(0, 126).Draw(rt, "byte")) // no NaNs
					}
					b.cells[j] = c
					raw = append(raw, c...)
				}
				st, ct := make([]int64, len(b.shape)), append([]int64{}, b.shape...)
				st[0], ct[0] = from, to-from
				g.add("HWR %d %d%s%s %s", 10+i, len(b.shape), ints(st), ints(ct), nativeHex(raw, size))
				if from >= 1<<31 {
					cl = append(cl, kind+": rows past 2^31 written")
				}
				if from*b.per*size >= 1<<32 {
					cl = append(cl, kind+": bytes past 4 GB written")
				}
			}
			sets = append(sets, b)
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return
		}
		st, err := os.Stat(path)
		if err != nil {
			capi.Infra("%v", err)
		}
		if st.Size() > 1<<32 {
			cl = append(cl, "file of more than 4 GB")
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		for _, b := range sets {
			vg, err := nc.GetVarGetter(b.name)
			if err != nil {
				rt.Fatalf("GetVarGetter(%s): %v\n%s", b.name, err, g.desc())
			}
			if vg.Len() != b.shape[0] || !reflect.DeepEqual(vg.Shape(), b.shape) {
				rt.Fatalf("%s: Len %d, Shape %v, not %v\n%s", b.name, vg.Len(), vg.Shape(), b.shape, g.desc())
			}
			if b.shape[0] < 1000 {
				v, err := nc.GetVariable(b.name)
				if err != nil {
					rt.Fatalf("GetVariable(%s): %v\n%s", b.name, err, g.desc())
				}
				if d := m.Diff(v.Values, b.rows(0, b.shape[0])); d != "" {
					rt.Fatalf("%s: %s\n%s", b.name, d, g.desc())
				}
			}
			var at []int64
			for i := range b.cells {
				at = append(at, i/b.per)
			}
			slices.Sort(at)
			for k := 0; k < 5; k++ {
				n := b.shape[0]
				from := rapid.SampledFrom(at).Draw(rt, "row") + rapid.Int64Range(-3, 1).Draw(rt, "row+")
				if rapid.IntRange(0, 5).Draw(rt, "anywhere") == 0 {
					from = rapid.Int64Range(0, n-1).Draw(rt, "from")
				}
				from = max(0, min(from, n-1))
				to := min(n, from+rapid.Int64Range(0, 6).Draw(rt, "len"))
				want := b.rows(from, to)
				var got any
				var what string
				if rapid.Bool().Draw(rt, "md") {
					bs, es, rb, re := []int64{from}, []int64{to}, []int64{0}, []int64{to - from}
					for _, x := range b.shape[1:] {
						p := rapid.Int64Range(0, x).Draw(rt, "p")
						q := rapid.Int64Range(p, x).Draw(rt, "q")
						bs, es, rb, re = append(bs, p), append(es, q), append(rb, p), append(re, q)
					}
					want = m.Rect(want, rb, re, false)
					got, err = vg.GetSliceMD(bs, es)
					what = fmt.Sprintf("%s.GetSliceMD(%v, %v)", b.name, bs, es)
				} else {
					got, err = vg.GetSlice(from, to)
					what = fmt.Sprintf("%s.GetSlice(%d, %d)", b.name, from, to)
				}
				if err != nil {
					rt.Fatalf("%s: %v\n%s", what, err, g.desc())
				}
				if d := m.Diff(got, want); d != "" {
					rt.Fatalf("%s: %s\n%s", what, d, g.desc())
				}
			}
		}
		r.Case(len(cl) > 0, g.desc(), cl...)
	})
}

// nativeHex turns big-endian elements into the machine's order.
func nativeHex(be []byte, size int64) string {
	out := make([]byte, len(be))
	for i := range be {
		e := int64(i) / size * size
		out[e+size-1-(int64(i)-e)] = be[i]
	}
	return strings.ToLower(hex.EncodeToString(out))
}

func TestC06Big(t *testing.T) { bigH5Test(t, "C06", 4000, 100000) }

// A variable of a big file to be written: rows times the same row, so that the
// values need little memory.
type bigOut struct {
	name string
	rows int // 0: one dimension
	row  []int8
	head int // bytes of row given as they are drawn, the rest are a pattern
}

func (o *bigOut) values() any {
	if o.rows == 0 {
		return o.row
	}
	v := make([][]int8, o.rows)
	for i := range v {
		v[i] = o.row
	}
	return v
}

const bigOutRule = "classic files of 2 to 6 GB, written by CDFWriter to a file: variables of one dimension (up to 2^31 and more elements) and of two, small ones before, between and after them; decoded by an independent decoder (offsets, lengths, every byte), and read back in slices by the library; non-trivial: every case"

// Writing big files takes long: there are two quick cases.
func TestC03Big(t *testing.T) {
	if h.Shard%4 != 0 {
		return
	}
	h.Check(t, "C03", bigOutRule, h.Shards, 8*h.Shards, func(rt *rapid.T, r *h.Rec) {
		var outs []*bigOut
		add := func(rows, n int, name string) {
			// (int8: the quickest type to write)
			o := &bigOut{name: name, rows: rows, row: make([]int8, n), head: min(n, 64)}
			if n > 1<<24 {
				// pages never written to take no memory
				o.row = o.row[:n:n]
			} else {
				for i := range o.row {
					o.row[i] = int8(i*7 + i>>8)
				}
			}
			for i := range o.head {
				o.row[i] = rapid.Int8().Draw(rt, "v")
			}
			o.row[n-1] = rapid.Int8().Draw(rt, "last")
			outs = append(outs, o)
		}
		small := func(name string) {
			if rapid.Bool().Draw(rt, "small") {
				add(0, rapid.IntRange(1, 9).Draw(rt, "n"), name)
			}
		}
		small("s0")
		kind := rapid.IntRange(0, 3).Draw(rt, "kind")
		if kind == 0 || kind == 3 {
			// a dimension that doesn't fit 32 bits with a sign
			add(0, 1<<31+rapid.IntRange(-2, 5).Draw(rt, "n"), "long")
			small("s1")
		}
		if kind == 1 || kind == 3 {
			// a big variable, not too big for version 2
			add(rapid.IntRange(2048, 3800).Draw(rt, "rows"), 1<<20+rapid.IntRange(-3, 3).Draw(rt, "n"), "wide")
			small("s2")
		}
		if kind == 2 {
			// one that is
			add(4096, 1<<20+rapid.IntRange(-1, 3).Draw(rt, "n"), "wider")
			small("s3")
		}
		if kind == 1 {
			add(rapid.IntRange(1, 2048).Draw(rt, "rows"), 1<<20-rapid.IntRange(0, 3).Draw(rt, "n"), "more")
		}
		add(0, rapid.IntRange(1, 9).Draw(rt, "n"), "end")
		desc := ""
		for _, o := range outs {
			desc += fmt.Sprintf("%s[%d][%d]byte; ", o.name, o.rows, len(o.row))
		}
		path := h.Path("c03big.nc")
		defer os.Remove(path)
		w, err := netcdf.OpenWriter(path, netcdf.KindCDF)
		if err != nil {
			rt.Fatalf("OpenWriter: %v", err)
		}
		for _, o := range outs {
			dims := []string{"d_" + o.name}
			if o.rows > 0 {
				dims = append([]string{"r_" + o.name}, dims...)
			}
			atts, err := util.NewOrderedMap([]string{"a"}, map[string]any{"a": o.name})
			if err == nil {
				err = w.AddVar(o.name, api.Variable{Values: o.values(), Dimensions: dims, Attributes: atts})
			}
			if err != nil {
				rt.Fatalf("AddVar(%s): %v\n%s", o.name, err, desc)
			}
		}
		if err := w.Close(); err != nil {
			rt.Fatalf("Close: %v\n%s", err, desc)
		}
		func() {
			f, err := os.Open(path)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			defer f.Close()
			fi, err := f.Stat()
			if err != nil {
				rt.Fatalf("%v", err)
			}
			b, err := syscall.Mmap(int(f.Fd()), 0, int(fi.Size()), syscall.PROT_READ, syscall.MAP_SHARED)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			defer syscall.Munmap(b)
			spec, err := cdfspec.DecodeBig(b, true)
			if err != nil {
				rt.Fatalf("not a right classic file: %v\n%s", err, desc)
			}
			if len(spec.Vars) != len(outs) {
				rt.Fatalf("%d variables\n%s", len(spec.Vars), desc)
			}
			for i, o := range outs {
				v := &spec.Vars[i]
				shape := []int{len(o.row)}
				if o.rows > 0 {
					shape = []int{o.rows, len(o.row)}
				}
				if v.Name != o.name || !slices.Equal(spec.Shape(v), shape) || v.Type != cdfspec.Byte {
					rt.Fatalf("variable %d is %s of type %d, shape %v; wanted %s, %v\n%s", i, v.Name, v.Type, spec.Shape(v), o.name, shape, desc)
				}
				at := spec.Offset(v, 0)
				row := unsafe.Slice((*byte)(unsafe.Pointer(&o.row[0])), len(o.row))
				for j := range max(o.rows, 1) {
					if !bytes.Equal(b[at+int64(j*len(row)):][:len(row)], row) {
						rt.Fatalf("%s: the values of row %d, at %d, are others\n%s", o.name, j, at, desc)
					}
				}
			}
			r.Class(fmt.Sprintf("version %d", spec.Version))
		}()
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, desc)
		}
		defer g.Close()
		for _, o := range outs {
			vg, err := g.GetVarGetter(o.name)
			if err != nil {
				rt.Fatalf("%s: %v\n%s", o.name, err, desc)
			}
			n := max(o.rows, len(o.row))
			if o.rows > 0 {
				n = o.rows
			}
			if vg.Len() != int64(n) {
				rt.Fatalf("%s: length %d, wanted %d\n%s", o.name, vg.Len(), n, desc)
			}
			for _, b := range []int{0, n / 2, n - 1} {
				e := min(b+3, n)
				got, err := vg.GetSlice(int64(b), int64(e))
				if err != nil {
					rt.Fatalf("%s: GetSlice(%d, %d): %v\n%s", o.name, b, e, err, desc)
				}
				var want any = o.row[b%len(o.row) : min(b%len(o.row)+e-b, len(o.row))]
				if o.rows > 0 {
					want = o.values().([][]int8)[b:e]
				}
				if !reflect.DeepEqual(got, want) {
					rt.Fatalf("%s: GetSlice(%d, %d) gave other values\n%s", o.name, b, e, desc)
				}
			}
		}
		r.Case(true, desc, fmt.Sprintf("kind %d", kind))
	})
}
