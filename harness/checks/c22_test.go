package checks

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// slowFile is a file in memory that lets other goroutines go on between operations.
type slowFile struct {
	*memFile
	seed  int64
	count atomic.Int64
}

func (f *slowFile) pause() {
	k := f.count.Add(1)
	switch rand.New(rand.NewSource(f.seed + k)).Intn(6) {
	case 0:
		time.Sleep(time.Microsecond)
	case 1, 2, 3:
		runtime.Gosched()
	}
}

func (f *slowFile) Read(p []byte) (int, error) {
	f.pause()
	n, err := f.memFile.Read(p)
	f.pause()
	return n, err
}

func (f *slowFile) Seek(off int64, whence int) (int64, error) {
	f.pause()
	n, err := f.memFile.Seek(off, whence)
	f.pause()
	return n, err
}

// task is what one goroutine does on its own handle.
type task struct {
	n     *gnode
	own   int // the file it opens itself, or -1 for a handle of the shared one
	calls []rcall
	over  []bool // then overwrites what it got
	via   []bool // through a getter kept from the first call on the variable
}

// run makes the calls and says what each gave.
func (tk *task) run(g api.Group) (ret []string, fail string) {
	kept := map[string]api.VarGetter{}
	for i, c := range tk.calls {
		var t string
		var result any
		if p := h.NoPanic(func() {
			switch {
			case c.op == "GetGroup/":
				// a handle of the handle, used, and closed again
				s, err := g.GetGroup("/")
				if err != nil {
					t = show(err)
					return
				}
				t = fmt.Sprintf("%q %q %s", s.ListVariables(), s.ListSubgroups(), show(s.Attributes()))
				s.Close()
			case tk.via[i] && c.name != "" && (c.op == "Values" || strings.HasPrefix(c.op, "GetSlice")):
				vg := kept[c.name]
				if vg == nil {
					var err error
					if vg, err = g.GetVarGetter(c.name); err != nil {
						t = show(err)
						return
					}
					kept[c.name] = vg
				}
				t, result = c.getterCall(vg)
			default:
				t, result = c.do(g)
			}
			if tk.over[i] {
				scribble(result)
			}
		}); p != "" {
			return ret, fmt.Sprintf("%s: %s", c, p)
		}
		ret = append(ret, t)
	}
	return ret, ""
}

const c22Rule = "one or two files of either format and two to six goroutines, each with a handle of its own: of a file it opens itself (by name or from memory) or got with GetGroup (before, or by the goroutine) from one file opened for all; each makes a list of calls on it (reads, slices, listings, attributes, new handles) and overwrites some of the results, at the same time as the others, on a file object that pauses between operations, under the race detector; every call must give what the same list gives alone, and there must be no data race; the shared file must be closed once, at the end; non-trivial: at least two goroutines on one open file, with at least one read of data each"

func TestC22Concurrent(t *testing.T) {
	if !raceBuild && os.Getenv("VERIF_SHARD") != "" {
		t.Fatal("not built with the race detector")
	}
	h.Check(t, "C22", c22Rule, 4000, 120000, func(rt *rapid.T, r *h.Rec) {
		var files [][]byte
		var trees []*gnode
		var cl []string
		desc := ""
		nf := 1 + rapid.IntRange(0, 3).Draw(rt, "files")/3
		for i := 0; i < nf; i++ {
			var b []byte
			var d string
			if rapid.IntRange(0, 2).Draw(rt, "cdf") == 0 {
				s := m.CDFFile(rt, m.FileOpts{MaxVars: 4, MaxElems: 300, MaxName: 8, TruncatePc: 10, FillPc: 20})
				b, d = s.Bytes, s.String()
				cl = append(cl, "classic")
			} else {
				var c []string
				if b, d, c = someHDF5(rt, r, h.Path("c22.nc")); b == nil {
					return
				}
				cl = append(append(cl, c...), "HDF5")
			}
			desc += trimmed(d) + "\n"
			g, err := netcdf.New(newMem(b))
			if err != nil {
				rt.Fatalf("New: %v\n%s", err, desc)
			}
			tree, err := scan(g, nil)
			g.Close()
			if err != nil {
				rt.Fatalf("%v\n%s", err, desc)
			}
			path := h.Path(fmt.Sprintf("c22_%d.nc", i))
			if err := os.WriteFile(path, b, 0o644); err != nil {
				rt.Fatalf("%v", err)
			}
			files, trees = append(files, b), append(trees, tree)
		}
		// what to do
		var tasks []*task
		shared, reads := 0, 0
		for i := rapid.IntRange(2, 6).Draw(rt, "goroutines"); i > 0; i-- {
			tk := &task{own: -1}
			tree := trees[0]
			if rapid.IntRange(0, 3).Draw(rt, "own") == 0 {
				tk.own = rapid.IntRange(0, nf-1).Draw(rt, "file")
				tree = trees[tk.own]
			} else {
				shared++
			}
			tk.n = rapid.SampledFrom(tree.all()).Draw(rt, "group")
			data := 0
			for j := rapid.IntRange(1, 8).Draw(rt, "calls"); j > 0; j-- {
				var c rcall
				switch {
				case rapid.IntRange(0, 9).Draw(rt, "handle") == 0:
					c = rcall{op: "GetGroup/"}
				case len(tk.n.names["v"]) > 0 && rapid.IntRange(0, 3).Draw(rt, "read") > 0:
					c = tk.n.drawGetterCall(rt, rapid.SampledFrom(tk.n.names["v"]).Draw(rt, "var"))
					data++
				default:
					c = tk.n.drawCall(rt)
				}
				tk.calls = append(tk.calls, c)
				tk.over = append(tk.over, rapid.Bool().Draw(rt, "overwrite"))
				tk.via = append(tk.via, rapid.Bool().Draw(rt, "kept"))
			}
			if data > 0 && tk.own < 0 {
				reads++
			}
			tasks = append(tasks, tk)
		}
		openOwn := func(tk *task, byName bool) (api.Group, func(), error) {
			k := max(tk.own, 0)
			var g api.Group
			var err error
			if byName {
				g, err = netcdf.Open(h.Path(fmt.Sprintf("c22_%d.nc", k)))
			} else {
				g, err = netcdf.New(newMem(files[k]))
			}
			if err != nil {
				return nil, nil, err
			}
			s, err := g.GetGroup("/" + strings.Join(tk.n.path, "/"))
			if err != nil {
				g.Close()
				return nil, nil, err
			}
			return s, func() { s.Close(); g.Close() }, nil
		}
		// alone
		want := make([][]string, len(tasks))
		for i, tk := range tasks {
			g, done, err := openOwn(tk, false)
			if err != nil {
				rt.Fatalf("alone: %v\n%s", err, desc)
			}
			var fail string
			want[i], fail = tk.run(g)
			if fail != "" {
				rt.Fatalf("alone: %s\n%s", fail, desc)
			}
			done()
		}
		// together, a few times
		before := raceErrors()
		for round := 0; round < 3; round++ {
			f := &slowFile{memFile: newMem(files[0]), seed: rapid.Int64Range(0, 1<<40).Draw(rt, "seed")}
			root, err := netcdf.New(f)
			if err != nil {
				rt.Fatalf("New: %v\n%s", err, desc)
			}
			early := rapid.Bool().Draw(rt, "early")
			byName := rapid.Bool().Draw(rt, "byname")
			hs := make([]api.Group, len(tasks))
			for i, tk := range tasks {
				if tk.own < 0 && early {
					if hs[i], err = root.GetGroup("/" + strings.Join(tk.n.path, "/")); err != nil {
						rt.Fatalf("GetGroup: %v\n%s", err, desc)
					}
				}
			}
			rootDone := early && rapid.Bool().Draw(rt, "rootfirst")
			if rootDone {
				root.Close() // the handles go on
			}
			fails := make([]string, len(tasks))
			start := make(chan bool)
			var wg sync.WaitGroup
			for i, tk := range tasks {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					g, done := hs[i], func() {}
					switch {
					case tk.own >= 0:
						var err error
						if g, done, err = openOwn(tk, byName); err != nil {
							fails[i] = "opening: " + err.Error()
							return
						}
					case g == nil:
						var err error
						if g, err = root.GetGroup("/" + strings.Join(tk.n.path, "/")); err != nil {
							fails[i] = "GetGroup: " + err.Error()
							return
						}
						done = g.Close
					default:
						done = g.Close
					}
					got, fail := tk.run(g)
					if fail != "" {
						fails[i] = fail
						return
					}
					for k := range got {
						if got[k] != want[i][k] {
							fails[i] = fmt.Sprintf("%s in group %.60q gives %.400s, but alone %.400s", tk.calls[k], tk.n.path, got[k], want[i][k])
							return
						}
					}
					if p := h.NoPanic(done); p != "" {
						fails[i] = "Close: " + p
					}
				}()
			}
			ok := within(3*time.Minute, func() { close(start); wg.Wait() })
			if !ok {
				rt.Fatalf("doesn't come to an end\n%s", desc)
			}
			for i, x := range fails {
				if x != "" {
					rt.Fatalf("goroutine %d of %d (%s): %s\n%s", i, len(tasks), describe(tasks), x, desc)
				}
			}
			if !rootDone {
				root.Close()
			}
			if f.closed != 1 {
				rt.Fatalf("the shared file was closed %d times\n%s", f.closed, desc)
			}
			if n := raceErrors(); n > before {
				rt.Fatalf("there was a data race (see above) with %s\n%s", describe(tasks), desc)
			}
		}
		r.Case(reads >= 2, describe(tasks)+"\n"+desc, append(cl, fmt.Sprintf("%d goroutines on one file", shared))...)
	})
}

func describe(tasks []*task) string {
	var ret []string
	for _, tk := range tasks {
		ret = append(ret, fmt.Sprintf("{file %d, group %.40q: %v}", tk.own, tk.n.path, tk.calls))
	}
	return strings.Join(ret, " ")
}
