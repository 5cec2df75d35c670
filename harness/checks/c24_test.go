package checks

import (
	"errors"
	"fmt"
	"io"
	"os"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// meter counts the bytes read from a file, and gives no more than a limit.
type meter struct {
	f interface {
		io.ReadSeeker
		io.Closer
	}
	n, limit int64
}

var errMeter = errors.New("read more than the limit")

func (f *meter) Read(p []byte) (int, error) {
	if f.n > f.limit {
		return 0, errMeter
	}
	if int64(len(p)) > f.limit+1-f.n {
		p = p[:f.limit+1-f.n]
	}
	n, err := f.f.Read(p)
	f.n += int64(n)
	return n, err
}

func (f *meter) Seek(off int64, whence int) (int64, error) { return f.f.Seek(off, whence) }
func (f *meter) Close() error                              { return f.f.Close() }

const (
	readAhead = 64 << 10 // what may be read beyond a contiguous piece: buffers
	someMem   = 24 << 20 // what anything may allocate
)

// frugal runs f, which may read some bytes and allocate in proportion to others.
func (f *meter) frugal(what string, bytes, mem int64, call func() error) string {
	f.n, f.limit = 0, bytes
	var err error
	if d := h.Guard(what, uint64(someMem+mem), func() { err = call() }); d != "" {
		return d
	}
	if f.n > bytes {
		return fmt.Sprintf("%s: read more than %d bytes (%v)", what, bytes, err)
	}
	if err != nil {
		return fmt.Sprintf("%s: %v", what, err)
	}
	return ""
}

// extent is what is known of a variable.
type extent struct {
	name  string
	shape []int64
	total int64 // bytes of the whole
	// need gives the bytes to be read for rows [b, e), and the pieces they are in
	need func(b, e int64) (bytes, pieces int64)
	elem int64 // bytes per element
}

// checkParts reads parts of a variable. over is what may be read in any case.
func checkParts(rt *rapid.T, f *meter, g api.Group, x *extent, over int64, cl map[string]bool) string {
	var vg api.VarGetter
	if d := f.frugal(fmt.Sprintf("GetVarGetter(%s)", x.name), over, 0, func() (err error) {
		vg, err = g.GetVarGetter(x.name)
		if err == nil {
			vg.Dimensions()
			vg.Shape()
			vg.Type()
			vg.GoType()
			vg.Attributes().Keys()
		}
		return err
	}); d != "" {
		return d
	}
	per, slices := x.elem, int64(0) // bytes in a row, and Go slices for it
	for _, n := range x.shape[1:] {
		slices += per / x.elem
		per *= n
	}
	n := x.shape[0]
	for k := 0; k < 4; k++ {
		most := min(n, max(1, min((1<<19)/per, 20000/max(1, slices))))
		b := rapid.Int64Range(0, n-1).Draw(rt, "from")
		if rapid.IntRange(0, 3).Draw(rt, "edge") == 0 {
			b = rapid.SampledFrom([]int64{0, n / 2, n - 1}).Draw(rt, "at")
		}
		cnt := rapid.SampledFrom([]int64{0, 1, 1, 2, 5, 100, most}).Draw(rt, "rows")
		e := min(n, b+min(cnt, most))
		bytes, pieces := x.need(b, e)
		bytes += over + pieces*readAhead
		mem := (e-b)*(64*per+1000*slices) + 8*bytes
		var d, how string
		if rapid.Bool().Draw(rt, "md") {
			bs, es := []int64{b}, []int64{e}
			for _, l := range x.shape[1:] {
				p := rapid.Int64Range(0, l).Draw(rt, "p")
				q := rapid.Int64Range(p, l).Draw(rt, "q")
				bs, es = append(bs, p), append(es, q)
			}
			how = "GetSliceMD"
			d = f.frugal(fmt.Sprintf("%s.GetSliceMD(%v, %v) of %v", x.name, bs, es, x.shape), bytes, mem, func() error {
				_, err := vg.GetSliceMD(bs, es)
				return err
			})
		} else {
			how = "GetSlice"
			d = f.frugal(fmt.Sprintf("%s.GetSlice(%d, %d) of %v", x.name, b, e, x.shape), bytes, mem, func() error {
				_, err := vg.GetSlice(b, e)
				return err
			})
		}
		if d != "" {
			return d
		}
		if x.total > 4*bytes {
			cl[how+" of a small part"] = true
		}
	}
	return ""
}

// browse calls everything that gives no values.
func browse(g api.Group) error {
	for _, v := range g.ListVariables() {
		vg, err := g.GetVarGetter(v)
		if err != nil {
			return err
		}
		for _, k := range vg.Attributes().Keys() {
			vg.Attributes().Get(k)
		}
	}
	for _, d := range g.ListDimensions() {
		g.GetDimension(d)
	}
	for _, t := range g.ListTypes() {
		g.GetType(t)
	}
	g.Attributes().Keys()
	for _, s := range g.ListSubgroups() {
		sub, err := g.GetGroup(s)
		if err != nil {
			return err
		}
		err = browse(sub)
		sub.Close()
		if err != nil {
			return err
		}
	}
	return nil
}

func TestC24Classic(t *testing.T) {
	rule := "classic files of up to 2^55 bytes, virtual, fixed and record variables of all types; opening, browsing and getting slices of rows and boxes, on a file that counts: at most the rows wanted (64 kB more per contiguous piece) are read, and memory is in proportion; non-trivial: a slice of which a fourth of the variable would be too much"
	h.Check(t, "C24", rule, 24000, 500000, func(rt *rapid.T, r *h.Rec) {
		s := drawBig(rt)
		if s == nil {
			r.Discarded("not possible in the version")
			return
		}
		f := &meter{f: s.file}
		over := int64(len(s.file.header)) + readAhead
		var g api.Group
		if d := f.frugal("New", over, 0, func() (err error) { g, err = netcdf.New(f); return err }); d != "" {
			rt.Fatalf("%s\nfile: %s", d, s)
		}
		defer g.Close()
		if d := f.frugal("browsing", over, 0, func() error { return browse(g) }); d != "" {
			rt.Fatalf("%s\nfile: %s", d, s)
		}
		cl := map[string]bool{}
		for i := range s.f.Vars {
			v := &s.f.Vars[i]
			shape := s.f.Shape(v)
			if len(shape) == 0 {
				continue
			}
			x := &extent{name: v.Name, elem: cdfspec.Size(v.Type), total: cdfspec.Size(v.Type)}
			for _, n := range shape {
				x.shape = append(x.shape, int64(n))
				x.total *= int64(n)
			}
			if x.total == 0 {
				continue
			}
			x.need = func(b, e int64) (int64, int64) {
				n := (e - b) * x.total / x.shape[0]
				if x.total > 1<<45 { // it would overflow
					n = (e - b) * (x.total / x.shape[0])
				}
				if s.f.IsRec(v) {
					return n, e - b
				}
				return n, 1
			}
			if d := checkParts(rt, f, g, x, readAhead, cl); d != "" {
				rt.Fatalf("%s\nfile: %s", d, s)
			}
		}
		var classes []string
		for c := range cl {
			classes = append(classes, c)
		}
		r.Case(len(cl) > 0, s.String(), append(classes, fmt.Sprint("version ", s.f.Version))...)
	})
}

func TestC24HDF5(t *testing.T) {
	rule := "sparse HDF5 files made by the HDF5 library, contiguous datasets and chunked ones of up to thousands of chunks, all in the file or few, with and without filters; opening, browsing and getting slices of rows and boxes, on a file that counts: at most the rows wanted, or the chunks they are in, and metadata are read, and memory is in proportion; non-trivial: a slice of which a fourth of the variable would be too much"
	h.Check(t, "C24", rule, 6000, 150000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c24.nc")
		defer os.Remove(path)
		g := newHGen(rt)
		g.newFile(path)
		var xs []*extent
		nchunks := int64(0)
		for i := g.pick("sets", 1, 2); i > 0; i-- {
			ty := rapid.SampledFrom([]string{"i1", "u1", "i2", "u2b", "i4", "u4", "i8b", "u8", "f4", "f8"}).Draw(rt, "type")
			x := &extent{name: fmt.Sprint("d", i), elem: int64(capi.ParseHType(ty).Size)}
			var inner []int64
			row := x.elem
			for k := g.pick("rank", 0, 2); k > 0; k-- {
				n := rapid.Int64Range(1, 30).Draw(rt, "len")
				inner = append(inner, n)
				row *= n
			}
			chunked := g.pc("chunked", 65)
			whole := g.pc("whole", 70) // all is in the file
			layout := 1
			var chunks []int64
			filters := " 0"
			alloc, fillTime := 1, 2 // early, never
			var rows int64
			if !whole {
				alloc, fillTime = 0, 0
			}
			if chunked {
				layout = 2
				c0 := rapid.SampledFrom([]int64{1, 3, 10, 100, 1000, 4000}).Draw(rt, "chunkrows")
				csize := c0 * x.elem
				across := int64(1)
				chunks = append(chunks, c0)
				for _, n := range inner {
					c := rapid.Int64Range(1, n).Draw(rt, "chunk")
					if g.pc("wholerow", 50) {
						c = n
					}
					chunks = append(chunks, c)
					csize *= c
					across *= (n + c - 1) / c
				}
				along := min(max(1, 2000/across), max(1, (1<<30)/(across*csize)))
				along = rapid.Int64Range((along+1)/2, along).Draw(rt, "along")
				if !whole {
					along *= rapid.SampledFrom([]int64{1, 1 << 10, 1 << 20}).Draw(rt, "sparse")
					if g.pc("filter", 40) {
						filters = rapid.SampledFrom([]string{" 1 d1", " 2 s d1", " 1 f"}).Draw(rt, "filters")
					}
				} else {
					nchunks += along * across
				}
				rows = along*c0 - rapid.Int64Range(0, c0-1).Draw(rt, "short")
				x.need = func(b, e int64) (int64, int64) {
					if b == e {
						return 0, 0
					}
					k := ((e+c0-1)/c0 - b/c0) * across
					return k * (csize + 64), min(k, 2000)
				}
			} else {
				rows = rapid.SampledFrom([]int64{1 << 20, 1 << 24, 1 << 28, 1 << 32}).Draw(rt, "bytes") / row
				x.need = func(b, e int64) (int64, int64) { return (e - b) * row, 1 }
			}
			x.shape = append([]int64{rows}, inner...)
			x.total = rows * row
			maxd := append([]int64{}, x.shape...)
			if chunked && g.pc("unlim", 40) {
				maxd[0] = -1
			}
			slot := g.newSlot()
			g.add("HDS %d 0 %s %s %d %d%s%s%s%s 0 %d %d", slot, capi.Hex(x.name), ty, layout, len(x.shape), ints(x.shape), ints(maxd), ints(chunks), filters, fillTime, alloc)
			if !whole {
				for k := g.pick("writes", 0, 3); k > 0; k-- {
					at := rapid.Int64Range(0, rows-1).Draw(rt, "wr")
					cnt := min(rapid.Int64Range(1, 50).Draw(rt, "wrn"), rows-at)
					st, ct := make([]int64, len(x.shape)), append([]int64{}, x.shape...)
					st[0], ct[0] = at, cnt
					g.add("HRND %d %d%s%s %d", slot, len(x.shape), ints(st), ints(ct), g.pick("seed", 0, 1<<20))
					if chunked {
						_, p := x.need(at, at+cnt)
						nchunks += p
					}
				}
			}
			g.class("chunked %v, all in the file %v", chunked, whole)
			xs = append(xs, x)
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library: " + err.Error())
			return
		}
		file, err := os.Open(path)
		if err != nil {
			capi.Infra("%v", err)
		}
		f := &meter{f: file}
		over := 256<<10 + 200*nchunks
		var nc api.Group
		if d := f.frugal("New", over, 0, func() (err error) { nc, err = netcdf.New(f); return err }); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		defer nc.Close()
		if d := f.frugal("browsing", over, 0, func() error { return browse(nc) }); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		for _, x := range xs {
			cl := map[string]bool{}
			if d := checkParts(rt, f, nc, x, over, cl); d != "" {
				rt.Fatalf("%s\n%s", d, g.desc())
			}
			for c := range cl {
				g.class("%s", c)
				g.nontriv = true
			}
		}
		r.Case(g.nontriv, g.desc(), g.classList()...)
	})
}
