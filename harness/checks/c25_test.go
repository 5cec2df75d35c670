package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// quietly runs f with standard output going to a file and standard error to nowhere. It
// returns what is written to standard output.
func quietly(f func()) string {
	out, err := os.OpenFile(h.Path("c25.out"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		capi.Infra("%v", err)
	}
	defer out.Close()
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		capi.Infra("%v", err)
	}
	defer null.Close()
	var saved [3]int
	for fd, to := range map[int]*os.File{1: out, 2: null} {
		if saved[fd], err = syscall.Dup(fd); err == nil {
			err = syscall.Dup3(int(to.Fd()), fd, 0)
		}
		if err != nil {
			capi.Infra("%v", err)
		}
	}
	defer func() {
		for fd := 1; fd < 3; fd++ {
			syscall.Dup3(saved[fd], fd, 0)
			syscall.Close(saved[fd])
		}
	}()
	f()
	b := make([]byte, 200)
	n, _ := out.ReadAt(b, 0)
	return string(b[:n])
}

// atLevel runs f at a log level.
func atLevel(rt *rapid.T, level int, f func()) {
	oldC, oldH := cdf.SetLogLevel(level), hdf5.SetLogLevel(level)
	defer func() {
		if c, h := cdf.SetLogLevel(oldC), hdf5.SetLogLevel(oldH); c != level || h != level {
			rt.Fatalf("SetLogLevel returned %d and %d after %d was set", c, h, level)
		}
	}()
	if d := quietly(f); d != "" {
		rt.Fatalf("written to standard output at log level %d: %q", level, d)
	}
}

func TestC25Writers(t *testing.T) {
	rule := "programs for both writers run several times, in files of different names, at different log levels, some with more than a second between: the files have the same bytes; non-trivial: more than one variable, attribute or group"
	h.Check(t, "C25", rule, 24000, 600000, func(rt *rapid.T, r *h.Rec) {
		var kind netcdf.FileKind
		var run func(api.Writer) error
		var desc string
		var nt bool
		var cl []string
		if rapid.IntRange(0, 3).Draw(rt, "format") == 0 {
			p := m.CDFProgram(rt, m.CDFOpts{MaxVars: 8, MaxElems: 200, MaxName: 30, ClassicPc: 50})
			nt, cl = cdfClasses(p)
			kind, run, desc = netcdf.KindCDF, p.Run, p.String()
			cl = []string{"classic"}
		} else {
			p := m.H5Prog(rt, m.H5Opts{MaxVars: 10, MaxGroups: 6, MaxElems: 100, MaxName: 30})
			nt, cl = h5Classes(p)
			kind, run, desc = netcdf.KindHDF5, p.Run, p.String()
			cl = append(cl, "HDF5")
		}
		var first []byte
		wait := rapid.IntRange(0, 299).Draw(rt, "wait") == 151
		for i := 0; i < 3; i++ {
			path := h.Path(fmt.Sprintf("c25-%s.nc", "abcdefghijklmnop"[:1+5*i]))
			level := 0
			if i > 0 {
				level = rapid.IntRange(0, 3).Draw(rt, "level")
			}
			var err error
			atLevel(rt, level, func() {
				var w api.Writer
				if w, err = netcdf.OpenWriter(path, kind); err == nil {
					err = run(w)
				}
			})
			if err != nil {
				rt.Fatalf("a call that should be accepted failed: %v\nprogram: %s", err, desc)
			}
			b, err := os.ReadFile(path)
			if err != nil {
				capi.Infra("%v", err)
			}
			os.Remove(path)
			if i == 0 {
				first = b
			} else if !bytes.Equal(first, b) {
				at := 0
				for at < min(len(b), len(first)) && b[at] == first[at] {
					at++
				}
				rt.Fatalf("the same calls (log level %d) made a file of %d bytes that differs at %d from the first, of %d bytes\nprogram: %s", level, len(b), at, len(first), desc)
			}
			if wait && i == 1 {
				time.Sleep(1100 * time.Millisecond)
			}
		}
		if wait {
			cl = append(cl, "more than a second between")
		}
		r.Case(nt, desc, cl...)
	})
}

// alike is a file in memory which accepts the positions that the file f does: file systems
// refuse those beyond the largest file they can hold, and damaged files lead there.
type alike struct {
	*memFile
	f *os.File
}

func (a *alike) Seek(offset int64, whence int) (int64, error) {
	at, err := a.memFile.Seek(offset, whence)
	if err != nil {
		return at, err
	}
	return a.f.Seek(at, io.SeekStart)
}

func (a *alike) Close() error { return a.f.Close() }

func TestC25Readers(t *testing.T) {
	rule := "classic and HDF5 files of every source, half of them damaged, looked at as a whole at log levels 0 to 3, by path and from memory: the same results and failures, order included, and nothing on standard output; non-trivial: the file opens"
	h.Check(t, "C25", rule, 6000, 150000, func(rt *rapid.T, r *h.Rec) {
		var b []byte
		var desc string
		var cl []string
		path := h.Path("c25.nc")
		if rapid.IntRange(0, 3).Draw(rt, "format") == 0 {
			s := m.CDFFile(rt, m.FileOpts{MaxVars: 5, MaxElems: 120, MaxName: 10, TruncatePc: 15, FillPc: 20})
			b, desc, cl = s.Bytes, s.String(), []string{"classic"}
		} else {
			b, desc, cl = someHDF5(rt, r, path)
			if b == nil {
				return
			}
		}
		if rapid.Bool().Draw(rt, "damage") {
			var at []int
			for i := range b {
				if b[i] != 0 {
					at = append(at, i)
				}
			}
			var d string
			b, d = mutateH5(rt, append([]byte{}, b...), at)
			desc += d
			cl = append(cl, "damaged")
		}
		if err := os.WriteFile(path, b, 0o644); err != nil {
			capi.Infra("%v", err)
		}
		var views [3]view
		for i := range views {
			level := 0
			if i > 0 {
				level = rapid.IntRange(0, 3).Draw(rt, "level")
			}
			atLevel(rt, level, func() {
				if i == 1 {
					views[i] = viewOf(func() (api.Group, error) {
						f, err := os.Open(path)
						if err != nil {
							capi.Infra("%v", err)
						}
						return netcdf.New(&alike{newMem(b), f})
					})
				} else {
					views[i] = viewOf(func() (api.Group, error) { return netcdf.Open(path) })
				}
			})
			if len(views[i]) != len(views[0]) {
				rt.Fatalf("%d results at log level %d, %d before\nfile: %s", len(views[i]), level, len(views[0]), desc)
			}
			for k, x := range views[0] {
				if y, has := views[i][k]; !has || x != y {
					rt.Fatalf("%q: was %.300s, is %.300s at log level %d\nfile: %s", k, x, y, level, desc)
				}
			}
		}
		r.Case(views[0]["open"] == `string "group"`, desc, cl...)
	})
}
