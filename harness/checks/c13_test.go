package checks

import (
	"encoding/binary"
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/h5sum"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
)

// view is everything the API says about a file: results by call. Errors are "error".
type view map[string]string

func (v view) call(key string, f func() (any, error)) {
	text := "error"
	if p := h.NoPanic(func() {
		if x, err := f(); err == nil {
			text = show(x)
		}
	}); p != "" {
		text = p
	}
	v[key] = text
}

// look fills in what a group says.
func (v view) look(g api.Group, path string, depth int) {
	var vars, subs, dims, types []string
	v.call(path+"\x00ListVariables", func() (any, error) { vars = g.ListVariables(); return vars, nil })
	v.call(path+"\x00ListSubgroups", func() (any, error) { subs = g.ListSubgroups(); return subs, nil })
	v.call(path+"\x00ListDimensions", func() (any, error) { dims = g.ListDimensions(); return dims, nil })
	v.call(path+"\x00ListTypes", func() (any, error) { types = g.ListTypes(); return types, nil })
	v.call(path+"\x00Attributes", func() (any, error) { return g.Attributes(), nil })
	for _, d := range dims {
		v.call(path+"\x00GetDimension "+d, func() (any, error) { n, has := g.GetDimension(d); return fmt.Sprint(n, has), nil })
	}
	for _, t := range types {
		v.call(path+"\x00GetType "+t, func() (any, error) { s, has := g.GetType(t); return fmt.Sprint(s, has), nil })
		v.call(path+"\x00GetGoType "+t, func() (any, error) { s, has := g.GetGoType(t); return fmt.Sprint(s, has), nil })
	}
	for _, n := range vars {
		v.call(path+"\x00GetVariable "+n, func() (any, error) { return g.GetVariable(n) })
		var vg api.VarGetter
		v.call(path+"\x00GetVarGetter "+n, func() (any, error) {
			var err error
			if vg, err = g.GetVarGetter(n); err != nil {
				return nil, err
			}
			return []any{vg.Len(), vg.Shape(), vg.Dimensions(), vg.Type(), vg.GoType(), show(vg.Attributes())}, nil
		})
		if vg == nil {
			continue
		}
		v.call(path+"\x00Values "+n, func() (any, error) { return vg.Values() })
		if l := vg.Len(); len(vg.Shape()) > 0 && l > 0 {
			v.call(path+"\x00GetSlice "+n, func() (any, error) { return vg.GetSlice(l-1, l) })
			b := make([]int64, len(vg.Shape()))
			v.call(path+"\x00GetSliceMD "+n, func() (any, error) { return vg.GetSliceMD(b, vg.Shape()) })
		}
	}
	for _, s := range subs {
		v.call(path+"\x00GetGroup "+s, func() (any, error) {
			sub, err := g.GetGroup(s)
			if err != nil {
				return nil, err
			}
			v.look(sub, path+"\x01"+s, depth+1)
			sub.Close()
			return "group", nil
		})
	}
}

// viewOf opens a file and looks at everything.
func viewOf(open func() (api.Group, error)) view {
	v := view{}
	v.call("open", func() (any, error) {
		g, err := open()
		if err != nil {
			return nil, err
		}
		v.look(g, "", 0)
		g.Close()
		return "group", nil
	})
	return v
}

// differs tells where a view has something else than the original that is not an error.
// same tells whether it has no errors either.
func differs(orig, got view) (where string, same bool) {
	same = true
	for k, o := range orig {
		switch g, has := got[k]; {
		case has && g == o:
		case has && g == "error":
			same = false
		case has:
			if cut := 300; len(o) > cut {
				o = o[:cut]
			}
			if cut := 1200; len(g) > cut {
				g = g[:cut]
			}
			return fmt.Sprintf("%q: was %s, is %s", k, o, g), false
		default:
			same = false
			// there must be an error that explains it
			if !explained(got, k) {
				return fmt.Sprintf("%q is missing", k), false
			}
		}
	}
	for k := range got {
		if _, has := orig[k]; !has {
			return fmt.Sprintf("%q is new", k), false
		}
	}
	return "", same
}

// explained: a call could not be made because something needed for it failed.
func explained(got view, k string) bool {
	if got["open"] == "error" {
		return true
	}
	path, call, _ := strings.Cut(k, "\x00")
	if _, n, ok := strings.Cut(call, " "); ok && got[path+"\x00GetVarGetter "+n] == "error" {
		return true
	}
	for path != "" {
		i := strings.LastIndexByte(path, 1)
		if got[path[:i]+"\x00GetGroup "+path[i+1:]] == "error" {
			return true
		}
		path = path[:i]
	}
	return false
}

// chunks finds the chunks that have a Fletcher-32 checksum.
func chunks(path string) []h5sum.Range {
	out, err := capi.Do("HCHUNKS " + path)
	if err != nil {
		capi.Infra("HCHUNKS: %v", err)
	}
	var rs []h5sum.Range
	for _, l := range out {
		var a, n int
		if k, _ := fmt.Sscanf(l, "chunk %d %d", &a, &n); k == 2 {
			rs = append(rs, h5sum.Range{Kind: "fletcher32", Start: a, End: a + n, Sum: a + n})
		}
	}
	return rs
}

// fletcher is a Fletcher checksum in two sums modulo 65535, for telling whether data
// with the same sum was made by chance.
func fletcher(b []byte) [2]uint32 {
	var s1, s2 uint32
	for i := 0; i < len(b); i += 2 {
		w := uint32(b[i]) << 8
		if i+1 < len(b) {
			w |= uint32(b[i+1])
		}
		s1 = (s1 + w) % 65535
		s2 = (s2 + s1) % 65535
	}
	return [2]uint32{s1, s2}
}

// corrupted draws a file with what its checksums cover, and looks at it.
func checksummed(rt *rapid.T, r *h.Rec, path string) (b []byte, rs []h5sum.Range, want view, desc string, cl []string) {
	if rapid.IntRange(0, 2).Draw(rt, "chunks") == 0 {
		g := newHGen(rt)
		g.newFile(path)
		for i := g.pick("nds", 1, 3); i > 0; i-- {
			g.dataset(0, fmt.Sprintf("d%d", i), g.stdType(true), dsOpts{maxRank: 3, maxElems: 60, filters: true, unwritten: true})
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return
		}
		b, desc, cl = readFile(path), g.desc(), []string{"datasets"}
	} else if b, desc, cl = someHDF5(rt, r, path); b == nil {
		return
	}
	rs = append(h5sum.Find(b), chunks(path)...)
	want = viewOf(openMem(b))
	if want["open"] == "error" { // C06 to C08 are about this
		r.Discarded("not opened")
		b = nil
	}
	return
}

// sumHolds tells whether a changed file still agrees with the checksum of the range, or
// might: then the change can't be noticed.
func sumHolds(b, c []byte, r h5sum.Range, all []h5sum.Range) bool {
	if r.Kind == "OHDR" && c[r.Start] == 1 && c[r.Start+1] == 0 {
		return true // it may be an object header of the old format now, which has no checksum
	}
	if r.Kind != "fletcher32" {
		d := append([]byte{}, c...)
		h5sum.Repair(d, []h5sum.Range{r})
		return string(d) == string(c)
	}
	// the last four bytes are the checksum, unless there are filters behind
	is := c[r.Start:r.End]
	if strings.Trim(string(is), "\x00") == "" || strings.Trim(strings.ReplaceAll(string(is), "\x00", "\xff"), "\xff") == "" {
		return true // sums of zeros are zeros, and -1 is 0
	}
	for _, o := range all { // another chunk, with its sum
		if o.Kind == r.Kind && o.End-o.Start == r.End-r.Start && string(b[o.Start:o.End]) == string(is) {
			return true
		}
	}
	for i := range is { // -1 and 0 are the same, wherever a filter behind puts the halves of them
		if was := b[r.Start+i]; was != is[i] && (was == 0 && is[i] == 255 || was == 255 && is[i] == 0) {
			return true
		}
	}
	n := len(is) - 4
	if n < 0 {
		return true
	}
	f := fletcher(is[:n])
	for _, order := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
		lo, hi := uint32(order.Uint16(is[n:])), uint32(order.Uint16(is[n+2:]))
		if same(f[0], lo) && same(f[1], hi) || same(f[0], hi) && same(f[1], lo) {
			return true
		}
	}
	was := b[r.Start:r.End]
	return fletcher(was[:n]) == f || fletcher(was) == fletcher(is)
}

// same sums, whatever the order of bytes in them
func same(f, stored uint32) bool {
	return stored%65535 == f || (stored>>8|stored<<8&0xffff)%65535 == f
}

func TestC13Bytes(t *testing.T) {
	rule := "small HDF5 files of every source; each byte covered by a checksum of the metadata or a Fletcher-32 chunk (about 2500 of a file) is changed, alone, and everything read again; each result must be the original or an error; non-trivial: the change is noticed (an error)"
	h.Check(t, "C13", rule, 400, 24000, func(rt *rapid.T, r *h.Rec) {
		b, rs, want, desc, cl := checksummed(rt, r, h.Path("c13.nc"))
		if b == nil {
			return
		}
		x := rapid.ByteRange(1, 255).Draw(rt, "xor")
		bits := rapid.Bool().Draw(rt, "bits")
		total := 0
		for _, s := range rs {
			total += s.End - s.Start
		}
		step := total/2500 + 1
		n := rapid.IntRange(0, step-1).Draw(rt, "off")
		for _, s := range rs {
			for at := s.Start; at < s.End; at++ {
				n++
				// of the long ranges some bytes only
				if n%step != 0 && (s.Kind == "OHDR" || s.Kind == "OCHK" || at-s.Start > 40) {
					continue
				}
				if bits {
					x = 1 << (n % 8)
				}
				c := append([]byte{}, b...)
				c[at] ^= x
				if sumHolds(b, c, s, rs) {
					continue
				}
				r.Case(lookAgain(rt, want, c, fmt.Sprintf("byte %d in %s at %d changed by %#x", at, s.Kind, s.Start, x), desc), fmt.Sprintf("%d^%#x %s", at, x, desc), append(cl, s.Kind)...)
			}
		}
	})
}

func lookAgain(rt *rapid.T, want view, c []byte, what, desc string) (noticed bool) {
	h.Begin("")
	h.Input("h5", c, false)
	h.Describe(what + "\n" + desc)
	where, same := differs(want, viewOf(openMem(c)))
	if where != "" {
		rt.Fatalf("%s\n%s\nof the file made by: %s", where, what, desc)
	}
	return !same
}

func TestC13Pieces(t *testing.T) {
	rule := "small HDF5 files of every source; 40 times a piece of up to 40 bytes covered by a checksum is overwritten (random bytes, zeros, ones, another piece of the file, or what the file has elsewhere under the same kind of checksum) or a copy of the checksum itself is damaged; each result must be the original or an error; non-trivial: the change is noticed"
	h.Check(t, "C13", rule, 8000, 500000, func(rt *rapid.T, r *h.Rec) {
		b, rs, want, desc, cl := checksummed(rt, r, h.Path("c13p.nc"))
		if b == nil || len(rs) == 0 {
			return
		}
		for k := 0; k < 40; k++ {
			s := rs[rapid.IntRange(0, len(rs)-1).Draw(rt, "range")]
			at := s.Start + rapid.IntRange(0, s.End-s.Start-1).Draw(rt, "at")
			n := rapid.IntRange(1, min(40, s.End-at)).Draw(rt, "n")
			c := append([]byte{}, b...)
			switch rapid.IntRange(0, 6).Draw(rt, "how") {
			case 0, 1:
				copy(c[at:], rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, "bytes"))
			case 2:
				copy(c[at:at+n], make([]byte, n))
			case 3:
				copy(c[at:], strings.Repeat("\xff", n))
			case 4:
				from := rapid.IntRange(0, len(b)-n).Draw(rt, "from")
				copy(c[at:], b[from:from+n])
			case 5: // two bytes exchanged
				o := s.Start + rapid.IntRange(0, s.End-s.Start-1).Draw(rt, "other")
				c[at], c[o] = c[o], c[at]
			default:
				if s.Sum+4 > len(c) || s.Kind == "fletcher32" {
					continue
				}
				c[s.Sum+rapid.IntRange(0, 3).Draw(rt, "sum")] ^= rapid.ByteRange(1, 255).Draw(rt, "x")
			}
			if string(b) == string(c) || sumHolds(b, c, s, rs) {
				continue
			}
			r.Case(lookAgain(rt, want, c, fmt.Sprintf("up to %d bytes at %d, in %s at %d, changed", n, at, s.Kind, s.Start), desc), fmt.Sprintf("%d:%x %s", at, c[at:at+n], desc), append(cl, s.Kind)...)
		}
	})
}

func TestC13Cut(t *testing.T) {
	rule := "small HDF5 files of every source, cut after each of at most 300 lengths; each result must be the original or an error; non-trivial: at least the signature is left"
	h.Check(t, "C13", rule, 1600, 60000, func(rt *rapid.T, r *h.Rec) {
		b, _, want, desc, cl := checksummed(rt, r, h.Path("c13c.nc"))
		if b == nil {
			return
		}
		step := len(b)/300 + 1
		off := rapid.IntRange(0, step-1).Draw(rt, "off")
		for at := off; at < len(b); at += step {
			if at+step >= len(b) {
				at = len(b) - 1 // always the last byte
			}
			noticed := lookAgain(rt, want, b[:at:at], fmt.Sprintf("cut to %d of %d", at, len(b)), desc)
			c := "nothing missing"
			if noticed {
				c = "refused"
			}
			r.Case(at > 8, fmt.Sprintf("cut to %d %s", at, desc), append(cl, c)...)
		}
	})
}

// TestC13CutCDF: a classic file cut short gives errors, original values or, for what is
// missing, fill values.
func TestC13CutCDF(t *testing.T) {
	rule := "classic files cut after each of at most 300 lengths; opening fails, or all listings and attributes are the original's and each element of each variable (whole and by rows) is the original or, if its bytes are gone, the fill value; non-trivial: some data is cut off"
	h.Check(t, "C13", rule, 1600, 60000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 4, MaxElems: 40, MaxName: 12, FillPc: 40})
		full := s.Bytes
		hl := int(cdfspec.HeaderLen(s.F))
		want := viewOf(func() (api.Group, error) { return cdf.New(newMem(full)) })
		if want["open"] == "error" {
			rt.Fatalf("Open failed: %s", s)
		}
		step := len(full)/300 + 1
		for at := rapid.IntRange(0, step-1).Draw(rt, "off"); at < len(full); at += step {
			if at+step >= len(full) {
				at = len(full) - 1
			}
			h.Input("cdf", full[:at], false)
			g, err := cdf.New(newMem(full[:at:at]))
			if err != nil {
				r.Case(false, fmt.Sprintf("%d %s", at, s), "refused")
				continue
			}
			if at < hl {
				rt.Fatalf("opens with the header cut to %d of %d\n%s", at, hl, s)
			}
			got := view{"open": want["open"]}
			got.look(g, "", 0)
			for k, o := range want {
				if strings.Contains(k, "\x00GetVariable") || strings.Contains(k, "\x00Values") || strings.Contains(k, "\x00GetSlice") || got[k] == o {
					continue
				}
				rt.Fatalf("cut to %d: %q: was %s, is %s\n%s", at, k, o, got[k], s)
			}
			s.Bytes = full[:at]
			missing := 0
			for i := range s.F.Vars {
				v := &s.F.Vars[i]
				_, n := s.FlatWant(v)
				missing += n
				w := s.Want(v)
				for _, val := range valuesOf(g, v.Name) {
					if d := m.Diff(val, w); val != nil && d != "" {
						rt.Fatalf("cut to %d: variable %q: %s\n%s", at, v.Name, d, s)
					}
				}
			}
			s.Bytes = full
			g.Close()
			c := "nothing missing"
			if missing > 0 {
				c = "data missing"
			}
			r.Case(missing > 0, fmt.Sprintf("%d %s", at, s), c)
		}
	})
}

// valuesOf reads a variable in three ways; a way that fails gives nil.
func valuesOf(g api.Group, name string) []any {
	var out []any
	if v, err := g.GetVariable(name); err == nil {
		out = append(out, v.Values)
	}
	vg, err := g.GetVarGetter(name)
	if err != nil {
		return out
	}
	if v, err := vg.Values(); err == nil {
		out = append(out, v)
	}
	// row by row; text of one dimension is a single value
	if n := vg.Len(); len(vg.Shape()) > 0 && n > 0 && vg.Type() != "char" {
		var whole reflect.Value
		for i := int64(0); i < n; i++ {
			v, err := vg.GetSlice(i, i+1)
			if err != nil {
				return out
			}
			if rv := reflect.ValueOf(v); !whole.IsValid() {
				whole = rv
			} else {
				whole = reflect.AppendSlice(whole, rv)
			}
		}
		out = append(out, whole.Interface())
	}
	return out
}

func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		capi.Infra("%v", err)
	}
	return b
}
