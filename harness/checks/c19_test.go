package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// openFDs is how many descriptors this process has open on the file.
func openFDs(path string) int {
	abs, err := filepath.Abs(path)
	if err != nil {
		return 0
	}
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (l == abs || l == abs+" (deleted)") {
			n++
		}
	}
	return n
}

// content is something to open.
type content struct {
	b      []byte
	kind   string // "CDF", "HDF5", "neither", or "damaged" (magic of one, anything behind it)
	desc   string
	format string // of the magic number
}

const h5Magic = "\x89HDF\r\n\x1a\n"

// drawContent draws what to open.
func drawContent(rt *rapid.T, r *h.Rec) *content {
	valid := func() *content {
		if rapid.Bool().Draw(rt, "valid cdf") {
			s := m.CDFFile(rt, m.FileOpts{MaxVars: 3, MaxElems: 40, MaxName: 8, TruncatePc: 10, FillPc: 20})
			return &content{s.Bytes, "CDF", s.String(), "CDF"}
		}
		if rapid.IntRange(0, 2).Draw(rt, "own") == 0 {
			p := m.H5Prog(rt, m.H5Opts{MaxVars: 3, MaxGroups: 2, MaxElems: 20, MaxName: 8})
			return &content{writeH5(rt, p, h.Path("c19w.nc")), "HDF5", p.String(), "HDF5"}
		}
		b, desc, _ := someHDF5(rt, r, h.Path("c19.nc"))
		if b == nil {
			return nil
		}
		return &content{b, "HDF5", desc, "HDF5"}
	}
	bytesN := func(label string, n int) []byte {
		return rapid.SliceOfN(rapid.Byte(), 0, n).Draw(rt, label)
	}
	switch k := rapid.IntRange(0, 13).Draw(rt, "content"); {
	case k <= 4:
		return valid()
	case k == 5: // anything
		b := bytesN("bytes", 200)
		if len(b) >= 4 && string(b[:3]) == "CDF" || bytes.HasPrefix(b, []byte(h5Magic)) {
			return nil
		}
		return &content{b, "neither", fmt.Sprintf("%x", b), ""}
	case k <= 7: // nearly the magic number of classic files
		s := rapid.SampledFrom([]string{"C", "CD", "CDF", "CDF\x00", "CDF\x03", "CDF\x04", "CDF\x06", "CDF\xff", "CDf\x01", "cdf\x01", "CDR\x01", "CCDF\x01", "\x00CDF\x01", "CDF1", "FDC\x01", "\x01FDC"}).Draw(rt, "cdfish")
		v := m.CDFFile(rt, m.FileOpts{MaxVars: 2, MaxElems: 10, MaxName: 4})
		b := []byte(s)
		if rapid.Bool().Draw(rt, "rest") && len(s) >= 4 {
			b = append(b, v.Bytes[4:]...)
		}
		return &content{b, "neither", fmt.Sprintf("%x", b), ""}
	case k <= 9: // nearly the other one
		v := valid()
		if v == nil || v.kind != "HDF5" {
			return nil
		}
		at := rapid.IntRange(0, 7).Draw(rt, "at")
		b := append([]byte{}, v.b...)
		b[at] ^= byte(rapid.IntRange(1, 255).Draw(rt, "flip"))
		if rapid.IntRange(0, 3).Draw(rt, "short") == 0 {
			b = append([]byte{}, v.b[:at]...)
		}
		return &content{b, "neither", "HDF5 with a damaged magic number: " + fmt.Sprintf("%x", b[:min(8, len(b))]), ""}
	case k == 10: // a file behind something
		v := valid()
		if v == nil {
			return nil
		}
		p := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "prefix")
		if p[0] == v.b[0] {
			p[0]++
		}
		return &content{append(p, v.b...), "neither", fmt.Sprintf("%x before %s", p, v.desc), ""}
	case k == 11: // the start of a file
		v := valid()
		if v == nil {
			return nil
		}
		n := rapid.IntRange(0, len(v.b)-1).Draw(rt, "n")
		if rapid.Bool().Draw(rt, "few") {
			n = min(n, rapid.IntRange(0, 60).Draw(rt, "few"))
		}
		kind := "damaged"
		if n < 4 || v.kind == "HDF5" && n < 8 {
			kind = "neither"
		}
		return &content{v.b[:n], kind, fmt.Sprintf("the first %d bytes of %s", n, v.desc), v.format}
	case k == 12: // the start of one and the rest of the other
		a, b := valid(), valid()
		if a == nil || b == nil {
			return nil
		}
		n := rapid.IntRange(8, len(a.b)).Draw(rt, "n")
		if rapid.Bool().Draw(rt, "few") {
			n = 8
		}
		return &content{append(append([]byte{}, a.b[:n]...), b.b[min(n, len(b.b)):]...), "damaged", fmt.Sprintf("the first %d bytes of %s, then of %s", n, a.desc, b.desc), a.format}
	default: // a changed file
		v := valid()
		if v == nil {
			return nil
		}
		b := append([]byte{}, v.b...)
		for i := rapid.IntRange(1, 4).Draw(rt, "changes"); i > 0; i-- {
			at := rapid.IntRange(8, len(b)).Draw(rt, "at")
			if at < len(b) {
				b[at] = byte(rapid.IntRange(0, 255).Draw(rt, "to"))
			}
		}
		return &content{b, "damaged", "changed: " + v.desc, v.format}
	}
}

// opened is what came of an attempt to open something.
type opened struct {
	how string
	g   api.Group
	err error
}

// formatOf is the format the package took something for.
func formatOf(g api.Group) string {
	switch g.(type) {
	case *cdf.CDF:
		return "CDF"
	case *hdf5.HDF5:
		return "HDF5"
	}
	return fmt.Sprintf("%T", g)
}

func TestC19Content(t *testing.T) {
	rule := "contents that are a valid file of one of the formats (made by independent encoders, the C libraries or the writers), nearly one, damaged, cut, mixed or nothing of the kind, opened by name and as an open file (at any position) with all functions that open; they must agree on the format, give a nil group exactly with an error, leave no file open when they fail and the caller's open (and readable), and close it once with the group; non-trivial: opened successfully or refused by the magic number"
	h.Check(t, "C19", rule, 16000, 400000, func(rt *rapid.T, r *h.Rec) {
		c := drawContent(rt, r)
		if c == nil {
			r.Discarded("nothing drawn")
			return
		}
		path := h.Path("c19c.nc")
		if err := os.WriteFile(path, c.b, 0o644); err != nil {
			rt.Fatalf("%v", err)
		}
		fail := func(f string, a ...any) { rt.Fatalf("%s\n%s: %s", fmt.Sprintf(f, a...), c.kind, trimmed(c.desc)) }
		var os_ []opened
		for _, o := range []struct {
			how  string
			open func(string) (api.Group, error)
		}{{"netcdf.Open", netcdf.Open}, {"cdf.Open", cdf.Open}, {"hdf5.Open", hdf5.Open}} {
			var g api.Group
			var err error
			if p := h.NoPanic(func() { g, err = o.open(path) }); p != "" {
				fail("%s: %s", o.how, p)
			}
			n := openFDs(path)
			if err != nil && n != 0 {
				fail("%s failed (%v) and leaves the file open", o.how, err)
			}
			if err == nil && n > 1 {
				fail("%s has the file open %d times", o.how, n)
			}
			os_ = append(os_, opened{o.how, g, err})
			if err == nil && g != nil {
				v := view{}
				v.look(g, "", 0)
				g.Close()
				if n := openFDs(path); n != 0 {
					fail("%s: closed, but the file is still open", o.how)
				}
				g.Close()
			}
		}
		for _, o := range []struct {
			how  string
			open func(api.ReadSeekerCloser) (api.Group, error)
		}{{"netcdf.New", netcdf.New}, {"cdf.New", cdf.New}, {"hdf5.New", hdf5.New}} {
			mf := newMem(c.b)
			at := int64(0)
			if rapid.IntRange(0, 2).Draw(rt, "elsewhere") == 0 {
				at = int64(rapid.IntRange(0, len(c.b)+9).Draw(rt, "pos"))
			}
			mf.Seek(at, io.SeekStart)
			var g api.Group
			var err error
			if p := h.NoPanic(func() { g, err = o.open(mf) }); p != "" {
				fail("%s: %s", o.how, p)
			}
			if mf.closed != 0 {
				fail("%s (%v) has closed the file", o.how, err)
			}
			os_ = append(os_, opened{fmt.Sprintf("%s (at %d)", o.how, at), g, err})
			if err != nil {
				if _, e := mf.Seek(0, io.SeekStart); e != nil {
					fail("%v", e)
				}
				if b, e := io.ReadAll(mf); e != nil || !bytes.Equal(b, c.b) {
					fail("%s failed and the file isn't readable", o.how)
				}
				continue
			}
			if g != nil {
				g.Close()
				if mf.closed != 1 {
					fail("%s: the group was closed, the file %d times", o.how, mf.closed)
				}
				g.Close()
				if mf.closed != 1 {
					fail("%s: the group was closed again, the file %d times", o.how, mf.closed)
				}
			}
		}
		ok := map[string]bool{}
		for _, o := range os_ {
			if (o.g == nil) != (o.err != nil) {
				fail("%s: group %v, error %v", o.how, o.g, o.err)
			}
			if o.err == nil {
				ok[formatOf(o.g)] = true
			}
		}
		for _, o := range os_ {
			fn := o.how[:strings.Index(o.how+" ", " ")]
			pkg := strings.ToUpper(fn[:strings.Index(fn, ".")])
			switch {
			case c.kind == "neither":
				if o.err == nil {
					fail("%s takes it for %s", o.how, formatOf(o.g))
				}
			case pkg == "NETCDF" || pkg == c.format:
				if c.kind != "damaged" && o.err != nil {
					fail("%s: %v", o.how, o.err)
				}
				if o.err == nil && formatOf(o.g) != c.format {
					fail("%s takes it for %s", o.how, formatOf(o.g))
				}
				if o.err != nil && len(ok) > 0 {
					fail("%s: %v, but others open it: %v", o.how, o.err, os_)
				}
			case o.err == nil:
				fail("%s takes it for %s", o.how, formatOf(o.g))
			}
		}
		cl := []string{c.kind}
		if len(ok) > 0 {
			cl = append(cl, "opened", "opened as "+c.format)
		} else {
			cl = append(cl, "refused")
		}
		r.Case(len(ok) > 0 || c.kind == "neither", c.kind+": "+c.desc, cl...)
	})
}

func TestC19Handles(t *testing.T) {
	rule := "histories of getting groups (by relative, absolute and missing names), using and closing handles, some of them again, on one open file; it must be closed exactly when the last handle is, once, and what is used before says what it said in a file of its own; non-trivial: at least three handles and one closed before another"
	h.Check(t, "C19", rule, 12000, 300000, func(rt *rapid.T, r *h.Rec) {
		var b []byte
		var desc string
		if rapid.IntRange(0, 2).Draw(rt, "cdf") == 0 {
			s := m.CDFFile(rt, m.FileOpts{MaxVars: 3, MaxElems: 20, MaxName: 8, TruncatePc: 10, FillPc: 20})
			b, desc = s.Bytes, s.String()
		} else {
			if b, desc, _ = someHDF5(rt, r, h.Path("c19h.nc")); b == nil {
				return
			}
		}
		fresh, err := netcdf.New(newMem(b))
		if err != nil {
			rt.Fatalf("New: %v\n%s", err, desc)
		}
		tree, err := scan(fresh, nil)
		fresh.Close()
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		nodes := tree.all()
		views := map[*gnode]view{}
		viewAt := func(n *gnode) view {
			if v := views[n]; v != nil {
				return v
			}
			v := view{}
			g, err := netcdf.New(newMem(b))
			if err == nil {
				defer g.Close()
				if len(n.path) > 0 {
					s, e := g.GetGroup("/" + strings.Join(n.path, "/"))
					if e != nil {
						return v
					}
					defer s.Close()
					g = s
				}
				v.look(g, "", 0)
			}
			views[n] = v
			return v
		}
		var log []string
		note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...any) {
			rt.Fatalf("%s\n%s\n%s", fmt.Sprintf(f, a...), strings.Join(log, "; "), trimmed(desc))
		}
		// by name or as a file that counts
		path := h.Path("c19o.nc")
		mf := newMem(b)
		var root api.Group
		byName := rapid.IntRange(0, 2).Draw(rt, "byname") == 0
		if byName {
			if err := os.WriteFile(path, b, 0o644); err != nil {
				rt.Fatalf("%v", err)
			}
			root, err = netcdf.Open(path)
		} else {
			root, err = netcdf.New(mf)
		}
		if err != nil {
			fail("open: %v", err)
		}
		type handle struct {
			g  api.Group
			n  *gnode
			id int
		}
		type getter struct {
			vg   api.VarGetter
			n    *gnode
			name string
		}
		hs := []handle{{root, tree, 0}}
		var gone []handle
		var gs []getter
		defer func() {
			for _, x := range hs {
				x.g.Close()
			}
		}()
		cl := map[string]bool{}
		ids, early := 0, false
		check := func() {
			want := 0
			if len(hs) == 0 {
				want = 1
			}
			if byName {
				if n := openFDs(path); n != 1-want {
					fail("%d handles open, and the file %d times", len(hs), n)
				}
			} else if mf.closed != want {
				fail("%d handles open, and the file was closed %d times", len(hs), mf.closed)
			}
		}
		for i := rapid.IntRange(2, 30).Draw(rt, "steps"); i > 0 && len(hs) > 0; i-- {
			x := hs[rapid.IntRange(0, len(hs)-1).Draw(rt, "handle")]
			switch k := rapid.IntRange(0, 19).Draw(rt, "step"); {
			case k <= 6: // a new handle
				var to *gnode
				arg := ""
				switch abs := rapid.IntRange(0, 4).Draw(rt, "abs"); {
				case abs == 0 || len(x.n.subs) == 0 && abs > 1:
					to = rapid.SampledFrom(nodes).Draw(rt, "to")
					arg = "/" + strings.Join(to.path, "/")
				case abs == 1:
					if formatOf(x.g) != "CDF" {
						continue
					}
					to = x.n
				default:
					to = rapid.SampledFrom(x.n.subs).Draw(rt, "sub")
					arg = to.path[len(to.path)-1]
				}
				note("%d = %d.GetGroup(%.40q)", ids+1, x.id, arg)
				g, err := x.g.GetGroup(arg)
				if err != nil {
					fail("%v", err)
				}
				ids++
				hs = append(hs, handle{g, to, ids})
			case k <= 8: // a name that isn't there, or not a group's
				arg := rapid.SampledFrom([]string{"no such", "/no such", "no/such", "/no/such", "..", "/.."}).Draw(rt, "missing")
				if l := append(x.n.names["v"], x.n.names["t"]...); len(l) > 0 && rapid.Bool().Draw(rt, "notgroup") {
					arg = rapid.SampledFrom(l).Draw(rt, "other")
				}
				if has_(x.n.names["g"], arg) {
					continue
				}
				note("%d.GetGroup(%.40q)", x.id, arg)
				if g, err := x.g.GetGroup(arg); err == nil || g != nil {
					if err == nil {
						continue // C10's business
					}
					fail("GetGroup gave a group and %v", err)
				}
				cl["missing group"] = true
			case k <= 11:
				note("use %d", x.id)
				v := view{}
				v.look(x.g, "", 0)
				if where, same := differs(viewAt(x.n), v); where != "" || !same {
					fail("handle %d: %s (or an error)", x.id, where)
				}
			case k == 12 && len(x.n.names["v"]) > 0:
				name := rapid.SampledFrom(x.n.names["v"]).Draw(rt, "v")
				vg, err := x.g.GetVarGetter(name)
				if err != nil {
					fail("GetVarGetter(%q): %v", name, err)
				}
				gs = append(gs, getter{vg, x.n, name})
			case k == 13 && len(gone) > 0: // a closed handle
				y := gone[rapid.IntRange(0, len(gone)-1).Draw(rt, "gone")]
				if rapid.Bool().Draw(rt, "again") {
					note("%d.Close() again", y.id)
					if p := h.NoPanic(y.g.Close); p != "" {
						fail("%s", p)
					}
					cl["handle closed again"] = true
					break
				}
				note("%d.GetGroup(\"/\") (closed)", y.id)
				var g api.Group
				var err error
				if p := h.NoPanic(func() { g, err = y.g.GetGroup("/") }); p != "" {
					fail("%s", p)
				}
				if err == nil || g != nil {
					fail("a closed handle gave a group")
				}
				cl["group of a closed handle"] = true
			case k >= 14:
				j := rapid.IntRange(0, len(hs)-1).Draw(rt, "close")
				note("%d.Close()", hs[j].id)
				hs[j].g.Close()
				gone = append(gone, hs[j])
				hs = append(hs[:j:j], hs[j+1:]...)
				if len(hs) > 0 {
					early = true
					cl["closed before others"] = true
				}
			}
			check()
		}
		for len(hs) > 0 {
			note("%d.Close()", hs[0].id)
			hs[0].g.Close()
			gone = append(gone, hs[0])
			hs = hs[1:]
			check()
		}
		// nothing of it reads a closed file
		for _, x := range gs {
			var err error
			var got any
			if p := h.NoPanic(func() { got, err = x.vg.Values() }); p != "" {
				fail("Values of %q with everything closed: %s", x.name, p)
			}
			if err == nil && m.Prod(int64s(x.n.shape[x.name])) > 0 && viewAt(x.n)["\x00Values "+x.name] != show(got) {
				fail("Values of %q with everything closed: other values and no error", x.name)
			}
			cl["getter of a closed file"] = true
		}
		for _, x := range gone {
			if p := h.NoPanic(x.g.Close); p != "" {
				fail("%s", p)
			}
		}
		check()
		if byName {
			cl["opened by name"] = true
		}
		r.Case(ids >= 2 && early, strings.Join(log, "; ")+" of "+desc, keysOf(cl)...)
	})
}

func int64s(s []int64) []int {
	var r []int
	for _, x := range s {
		r = append(r, int(x))
	}
	return r
}

func TestC19Kinds(t *testing.T) {
	rule := "writers opened with every kind; the two known ones make files that open as that format, others are refused with an error, a nil writer and no file; and names that can't be opened (missing, directories, not permitted parents) give errors and nil; non-trivial: all"
	h.Check(t, "C19", rule, 1600, 16000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c19k.nc")
		os.Remove(path)
		kind := netcdf.FileKind(rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, -1, -2, 1 << 30, 256, 257}).Draw(rt, "kind"))
		var w api.Writer
		var err error
		where := rapid.SampledFrom([]string{"", "", "", "/missing/x.nc", "/"}).Draw(rt, "where")
		p := path + where
		if where == "/" {
			p = h.Path("c19dir")
			os.MkdirAll(p, 0o755)
		}
		if x := h.NoPanic(func() { w, err = netcdf.OpenWriter(p, kind) }); x != "" {
			rt.Fatalf("OpenWriter(%q, %d): %s", p, kind, x)
		}
		if (w == nil) != (err != nil) {
			rt.Fatalf("OpenWriter(%q, %d): writer %v, error %v", p, kind, w, err)
		}
		known := kind == netcdf.KindCDF || kind == netcdf.KindHDF5
		if !known && err == nil {
			rt.Fatalf("OpenWriter takes the kind %d", kind)
		}
		if !known {
			if _, e := os.Stat(path); e == nil {
				rt.Fatalf("OpenWriter refused the kind %d and made a file", kind)
			}
		}
		if known && where == "" {
			if err != nil {
				rt.Fatalf("OpenWriter: %v", err)
			}
			val := m.Flat(rt, m.NumTypes[rapid.IntRange(0, 5).Draw(rt, "t")], 3, "v")
			if err := w.AddVar("v", api.Variable{Values: val, Dimensions: []string{"x"}}); err != nil {
				if e := w.Close(); e != nil {
					rt.Fatalf("Close: %v", e)
				}
				r.Discarded("type not in the format")
				return
			}
			if err := w.Close(); err != nil {
				rt.Fatalf("Close: %v", err)
			}
			if n := openFDs(path); n != 0 {
				rt.Fatalf("a closed writer leaves the file open")
			}
			b, _ := os.ReadFile(path)
			want := "CDF"
			if kind == netcdf.KindHDF5 {
				want = "HDF5"
			}
			if got := map[bool]string{true: "HDF5", false: "CDF"}[bytes.HasPrefix(b, []byte(h5Magic))]; got != want {
				rt.Fatalf("OpenWriter(kind %d) made %q", kind, b[:4])
			}
			g, err := netcdf.Open(path)
			if err != nil || formatOf(g) != want {
				rt.Fatalf("Open: %v, %v", g, err)
			}
			v, err := g.GetVariable("v")
			if err != nil || m.Diff(v.Values, val) != "" {
				rt.Fatalf("GetVariable: %v, %v, want %v", v, err, val)
			}
			g.Close()
		} else if known && err == nil {
			// maybe a writer that opens its file at the end
			if e := w.Close(); e == nil {
				rt.Fatalf("a writer of %q closed without an error", p)
			}
		}
		// names that aren't files
		for _, bad := range []string{path + "/x", h.Path("nothing here"), h.Path(""), ""} {
			for how, open := range map[string]func(string) (api.Group, error){"netcdf.Open": netcdf.Open, "cdf.Open": cdf.Open, "hdf5.Open": hdf5.Open} {
				var g api.Group
				var err error
				if x := h.NoPanic(func() { g, err = open(bad) }); x != "" {
					rt.Fatalf("%s(%q): %s", how, bad, x)
				}
				if err == nil || g != nil {
					rt.Fatalf("%s(%q): group %v, error %v", how, bad, g, err)
				}
			}
		}
		r.Case(true, fmt.Sprint(kind, where), fmt.Sprintf("kind %d", kind), "where "+where)
	})
}
