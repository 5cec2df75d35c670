package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

var errFault = errors.New("injected fault")

// faultFile is a file in memory, some of whose operations go wrong.
type faultFile struct {
	r      *bytes.Reader
	n      int    // operations so far
	at     int    // the operation that fails (-1: none)
	until  int    // and the first one after it that doesn't
	kind   string // how: "error", "partial" (some of the data and an error)
	lens   []int  // if set, how much the reads give at most, in turns (legal)
	eof    bool   // the read that gets to the end says so (legal)
	fired  int
	closed int
}

func (f *faultFile) faulty() bool {
	k := f.n
	f.n++
	if f.at < 0 || k < f.at || k >= f.until {
		return false
	}
	f.fired++
	return true
}

func (f *faultFile) Read(p []byte) (int, error) {
	if f.faulty() {
		if f.kind == "partial" && len(p) > 1 {
			n, _ := f.r.Read(p[:len(p)/2])
			return n, errFault
		}
		return 0, errFault
	}
	if len(f.lens) > 0 && len(p) > 0 {
		p = p[:min(len(p), f.lens[f.n%len(f.lens)])]
	}
	n, err := f.r.Read(p)
	if err == nil && f.eof && f.r.Len() == 0 && n > 0 {
		err = io.EOF
	}
	return n, err
}

func (f *faultFile) Seek(off int64, whence int) (int64, error) {
	if f.faulty() {
		return 0, errFault
	}
	return f.r.Seek(off, whence)
}

func (f *faultFile) Close() error { f.closed++; return errFault }

// wcall is a call of a script and what became of it.
type wcall struct {
	what  string
	text  string
	err   bool
	fired int // the faults there were by its end
	ops   int // the I/O operations there were by its end
}

// reading is a script: the groups to visit, and the calls to make on each.
type reading struct {
	nodes []*gnode
	calls [][]rcall
}

func drawReading(rt *rapid.T, tree *gnode) reading {
	var rd reading
	for _, n := range tree.all() {
		if len(rd.nodes) == 6 {
			break
		}
		var cs []rcall
		// all of the variables, each in some way, and some of everything
		for i, v := range n.names["v"] {
			if i == 12 {
				break
			}
			switch rapid.IntRange(0, 2).Draw(rt, "how") {
			case 0:
				cs = append(cs, rcall{op: "GetVariable", name: v})
			case 1:
				cs = append(cs, rcall{op: "Values", name: v})
			default:
				cs = append(cs, n.drawGetterCall(rt, v))
			}
		}
		for i := rapid.IntRange(0, 4).Draw(rt, "more"); i > 0; i-- {
			cs = append(cs, n.drawCall(rt))
		}
		if len(cs) > 1 && rapid.Bool().Draw(rt, "mix") {
			cs = rapid.Permutation(cs).Draw(rt, "order")
		}
		rd.nodes = append(rd.nodes, n)
		rd.calls = append(rd.calls, cs)
	}
	return rd
}

// run runs the script on a file, and says what each call gave.
func (rd reading) run(f *faultFile, open func(api.ReadSeekerCloser) (api.Group, error)) (ret []wcall, fail string) {
	do := func(what string, call func() string) (wcall, bool) {
		c := wcall{what: what}
		if p := h.NoPanic(func() { c.text = call() }); p != "" {
			fail = what + ": " + p
			return c, false
		}
		c.err = strings.HasPrefix(c.text, "error ")
		c.fired, c.ops = f.fired, f.n
		ret = append(ret, c)
		return c, true
	}
	var g api.Group
	c, ok := do("New", func() string {
		var err error
		if g, err = open(f); err != nil {
			g = nil
			return show(err)
		}
		return "opened"
	})
	if !ok || c.err {
		return
	}
	for i, n := range rd.nodes {
		at := g
		if len(n.path) > 0 {
			p := "/" + strings.Join(n.path, "/")
			c, ok := do(fmt.Sprintf("GetGroup(%.60q)", p), func() string {
				var err error
				if at, err = g.GetGroup(p); err != nil {
					return show(err)
				}
				return "group"
			})
			if !ok {
				return
			}
			if c.err {
				for range len(rd.calls[i]) + 1 {
					ret = append(ret, wcall{what: "no handle", err: true})
				}
				continue
			}
		}
		for _, rc := range rd.calls[i] {
			if _, ok := do(fmt.Sprintf("%s in group %.60q", rc, n.path), func() string { t, _ := rc.do(at); return t }); !ok {
				return
			}
		}
		if at != g {
			do("Close", func() string { at.Close(); return "closed" })
		}
	}
	do("Close", func() string { g.Close(); return "closed" })
	return
}

// within runs f, which must come to an end.
func within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

const c20rRule = "a file of either format, a script of calls on all of its groups and variables, and the I/O operations that the script takes on a fault-free file object; then one run for each of these operations (for at most 120 of them if there are more) with that operation failing, once, a few times or from there on, with and without part of the data; every call must return an error or what it returned without a fault, calls without an error result must return the latter, and none may panic or hang; runs with legal short reads must go as if there were none; non-trivial: at least ten faults that hit a call that otherwise succeeds"

func TestC20Reads(t *testing.T) {
	h.Check(t, "C20", c20rRule, 4800, 60000, func(rt *rapid.T, r *h.Rec) {
		var b []byte
		var desc string
		cl := []string{}
		open := netcdf.New
		direct := rapid.Bool().Draw(rt, "direct")
		if rapid.IntRange(0, 2).Draw(rt, "cdf") == 0 {
			s := m.CDFFile(rt, m.FileOpts{MaxVars: 4, MaxElems: 3000, MaxName: 8, TruncatePc: 10, FillPc: 20})
			b, desc = s.Bytes, s.String()
			cl = append(cl, "classic")
			if direct {
				open = cdf.New
			}
		} else {
			if b, desc, cl = someHDF5(rt, r, h.Path("c20r.nc")); b == nil {
				return
			}
			cl = append(cl, "HDF5")
			if direct {
				open = hdf5.New
			}
		}
		desc = trimmed(desc)
		fresh, err := open(newMem(b))
		if err != nil {
			rt.Fatalf("New: %v\n%s", err, desc)
		}
		tree, err := scan(fresh, nil)
		fresh.Close()
		if err != nil {
			rt.Fatalf("%v\n%s", err, desc)
		}
		rd := drawReading(rt, tree)
		whole := &faultFile{r: bytes.NewReader(b), at: -1}
		want, fail := rd.run(whole, open)
		if fail != "" {
			rt.Fatalf("without a fault: %s\n%s", fail, desc)
		}
		// short reads and early news of the end are legal
		for i := 0; i < 2; i++ {
			f := &faultFile{r: bytes.NewReader(b), at: -1, eof: i == 1}
			if i == 0 || rapid.Bool().Draw(rt, "both") {
				f.lens = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 7, 8, 100, 511, 1 << 20}), 1, 5).Draw(rt, "lens")
			}
			var got []wcall
			if !within(2*time.Minute, func() { got, fail = rd.run(f, open) }) {
				rt.Fatalf("with reads of at most %v bytes (end told early: %v): doesn't come to an end\n%s", f.lens, f.eof, desc)
			}
			if fail != "" {
				rt.Fatalf("with reads of at most %v bytes (end told early: %v): %s\n%s", f.lens, f.eof, fail, desc)
			}
			for k := range want {
				if k >= len(got) || got[k].text != want[k].text {
					t := "nothing"
					if k < len(got) {
						t = got[k].text
					}
					rt.Fatalf("with reads of at most %v bytes (end told early: %v): %s gives %.300s but otherwise %.300s\n%s", f.lens, f.eof, want[k].what, t, want[k].text, desc)
				}
			}
		}
		var at []int
		if whole.n <= 120 {
			for i := 0; i < whole.n; i++ {
				at = append(at, i)
			}
			cl = append(cl, "every operation")
		} else {
			// one in each of the calls, and others
			last := 0
			for _, c := range want {
				if c.ops > last && len(at) < 60 {
					at = append(at, rapid.IntRange(last, c.ops-1).Draw(rt, "at"))
				}
				last = max(last, c.ops)
			}
			for len(at) < 120 {
				at = append(at, rapid.IntRange(0, whole.n-1).Draw(rt, "at"))
			}
			sort.Ints(at)
			cl = append(cl, "some of the operations")
		}
		hits, after := 0, 0
		for _, k := range at {
			f := &faultFile{r: bytes.NewReader(b), at: k}
			f.kind = rapid.SampledFrom([]string{"error", "partial"}).Draw(rt, "kind")
			f.until = k + rapid.SampledFrom([]int{1, 1, 1, 2, 5, 1 << 40}).Draw(rt, "times")
			where := func() string {
				times := "from there on"
				if f.until < 1<<40 {
					times = fmt.Sprintf("%d times", f.until-k)
				}
				return fmt.Sprintf("with operation %d of %d failing (%s, %s)", k, whole.n, f.kind, times)
			}
			var got []wcall
			if !within(2*time.Minute, func() { got, fail = rd.run(f, open) }) {
				rt.Fatalf("%s: doesn't come to an end\n%s", where(), desc)
			}
			if fail != "" {
				rt.Fatalf("%s: %s\n%s", where(), fail, desc)
			}
			for i, c := range got {
				switch {
				case c.err && i == 0 && f.fired > 0:
					hits++
				case c.err && c.fired == 0 && c.what != "no handle" && !want[i].err:
					rt.Fatalf("%s: %s gives an error before that: %s\n%s", where(), c.what, c.text, desc)
				case c.err && !want[i].err:
					hits++
				case c.err || c.what == "no handle":
				case c.text != want[i].text:
					rt.Fatalf("%s: %s gives %.300s, no error, but without the fault %.300s\n%s", where(), c.what, c.text, want[i].text, desc)
				case c.fired > 0:
					after++
				}
			}
			if f.closed > 1 {
				rt.Fatalf("%s: the file is closed %d times\n%s", where(), f.closed, desc)
			}
		}
		if after > 0 {
			cl = append(cl, "right results after a fault")
		}
		for _, c := range want {
			if !c.err {
				cl = append(cl, "call "+strings.SplitN(c.what, "(", 2)[0])
			}
		}
		r.Case(hits >= 10, fmt.Sprintf("%d of %d operations: %s", len(at), whole.n, desc), cl...)
	})
}

// fsizeLimited runs f with a limit on the size of files.
func fsizeLimited(n uint64, f func()) error {
	signal.Ignore(syscall.SIGXFSZ)
	const rlimitFsize = 1
	var old syscall.Rlimit
	if err := syscall.Getrlimit(rlimitFsize, &old); err != nil {
		return err
	}
	lim := old
	lim.Cur = n
	if err := syscall.Setrlimit(rlimitFsize, &lim); err != nil {
		return err
	}
	defer func() {
		if err := syscall.Setrlimit(rlimitFsize, &old); err != nil {
			panic(err)
		}
	}()
	f()
	return nil
}

// fdOf finds the descriptor of an open file.
func fdOf(path string) int {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == path {
			n := -1
			fmt.Sscan(e.Name(), &n)
			return n
		}
	}
	return -1
}

const c20wRule = "a program for a writer, run once without a fault, and then again with a device that is full after so many bytes (every possible number if the file is small, and otherwise some, all around the ends of buffers, and all near the end), with /dev/full, and with a descriptor that can't be written to; unless all of the bytes reached the file, a call of the program must return an error, none may panic, Close may be called again, and the file must not stay open; non-trivial: at least 20 faults"

func TestC20Writes(t *testing.T) {
	h.Check(t, "C20", c20wRule, 4000, 60000, func(rt *rapid.T, r *h.Rec) {
		var run func(w api.Writer) error
		var desc string
		var cl []string
		kind := netcdf.FileKind(netcdf.KindCDF)
		if rapid.Bool().Draw(rt, "hdf5") {
			kind = netcdf.KindHDF5
			p := m.H5Prog(rt, m.H5Opts{MaxVars: 4, MaxGroups: 2, MaxElems: 1500, MaxName: 12})
			run, desc, cl = p.Run, p.String(), []string{"HDF5"}
		} else {
			p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 5, MaxElems: 3000, MaxName: 12, ClassicPc: 50})
			run, desc, cl = p.Run, p.String(), []string{"classic"}
		}
		desc = trimmed(desc)
		path := h.Path("c20w.nc")
		w, err := netcdf.OpenWriter(path, kind)
		if err != nil {
			rt.Fatalf("OpenWriter: %v", err)
		}
		if err := run(w); err != nil {
			rt.Fatalf("a call that should be accepted failed: %v\nprogram: %s", err, desc)
		}
		whole, err := os.ReadFile(path)
		if err != nil {
			rt.Fatalf("%v", err)
		}
		// attempt returns the error, and fails if something else is wrong
		attempt := func(how, path string, around func(func())) error {
			var w api.Writer
			var err error
			ok := within(2*time.Minute, func() {
				p := h.NoPanic(func() {
					w, err = netcdf.OpenWriter(path, kind)
					if err != nil {
						return
					}
					around(func() { err = run(w) })
				})
				if p == "" && w != nil {
					if p = h.NoPanic(func() { w.Close() }); p != "" {
						p = "Close again: " + p
					}
				}
				if p != "" {
					err = errors.New("panic")
					how += ": " + p
				}
			})
			if !ok {
				rt.Fatalf("%s: doesn't come to an end\nprogram: %s", how, desc)
			}
			if err != nil && err.Error() == "panic" {
				rt.Fatalf("%s\nprogram: %s", how, desc)
			}
			if n := openFDs(path); n != 0 {
				rt.Fatalf("%s: the file is still open after Close (which said %v)\nprogram: %s", how, err, desc)
			}
			return err
		}
		// a device that is full after some bytes
		var at []int
		if len(whole) <= 150 {
			for i := 0; i <= len(whole); i++ {
				at = append(at, i)
			}
			cl = append(cl, "every length")
		} else {
			for _, k := range []int{0, 1, 2, 4, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536} {
				if k < len(whole)-20 {
					at = append(at, k)
				}
			}
			for k := len(whole) - 20; k <= len(whole); k++ {
				at = append(at, k)
			}
			for i := 0; i < 25; i++ {
				at = append(at, rapid.IntRange(0, len(whole)-1).Draw(rt, "at"))
			}
		}
		faults := 0
		for _, k := range at {
			how := fmt.Sprintf("with room for %d of %d bytes", k, len(whole))
			full := h.Path("c20f.nc")
			os.Remove(full)
			var e2 error
			err := attempt(how, full, func(f func()) { e2 = fsizeLimited(uint64(k), f) })
			if e2 != nil {
				rt.Fatalf("setrlimit: %v", e2)
			}
			if k < len(whole) {
				faults++
				if err == nil {
					st, _ := os.Stat(full)
					rt.Fatalf("%s: no error (there are %d)\nprogram: %s", how, st.Size(), desc)
				}
			} else if err != nil {
				rt.Fatalf("%s: %v\nprogram: %s", how, err, desc)
			}
		}
		if len(whole) > 4096 {
			cl = append(cl, "more than a buffer")
		}
		// a full device
		if err := attempt("with a full device", "/dev/full", func(f func()) { f() }); err == nil {
			rt.Fatalf("with a full device: no error\nprogram: %s", desc)
		}
		// a file that can't be written to
		ro := h.Path("c20o.nc")
		var e2 error
		err = attempt("with a descriptor that can't be written to", ro, func(f func()) {
			fd := fdOf(ro)
			null, err := os.Open("/dev/null")
			if fd < 0 || err != nil {
				e2 = fmt.Errorf("descriptor %d, %v", fd, err)
				return
			}
			e2 = syscall.Dup3(int(null.Fd()), fd, syscall.O_CLOEXEC)
			null.Close()
			f()
		})
		if e2 != nil {
			rt.Fatalf("%v", e2)
		}
		if err == nil {
			rt.Fatalf("with a descriptor that can't be written to: no error\nprogram: %s", desc)
		}
		r.Case(faults+2 >= 20, fmt.Sprintf("%d faults, %d bytes: %s", faults+2, len(whole), desc), cl...)
	})
}
