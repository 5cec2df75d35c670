package checks

import (
	"fmt"
	"math"
	"strings"

	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// exerciser calls everything of the read API on an input that need not be well formed.
type exerciser struct {
	limit  uint64
	full   bool // also read middle-sized variables
	bad    string
	calls  int
	vars   int
	errs   int
	objs   int
	valued int
}

func (x *exerciser) do(what string, f func()) {
	if x.bad != "" {
		return
	}
	x.calls++
	x.bad = h.Guard(what, x.limit, f)
}

func (x *exerciser) attrs(where string, am api.AttributeMap) {
	if am == nil {
		return
	}
	var keys []string
	x.do(where+".Keys", func() { keys = am.Keys() })
	for i, k := range keys {
		if i > 300 {
			break
		}
		x.do(fmt.Sprintf("%s.Get(%q)", where, k), func() { am.Get(k) })
		x.do(fmt.Sprintf("%s.GetType(%q)", where, k), func() { am.GetType(k) })
		x.do(fmt.Sprintf("%s.GetGoType(%q)", where, k), func() { am.GetGoType(k) })
	}
	x.do(where+".Get(absent)", func() { am.Get("\x01absent") })
}

// elems is the product of extents, saturating.
func elems(shape []int64) float64 {
	n := 1.0
	for _, s := range shape {
		n *= float64(s)
	}
	return n
}

func (x *exerciser) group(g api.Group, path string, depth int) {
	if x.bad != "" || depth > 40 || x.objs > 400 {
		return
	}
	x.objs++
	var vars, subs, types, dims []string
	x.do(path+" ListVariables", func() { vars = g.ListVariables() })
	x.do(path+" ListSubgroups", func() { subs = g.ListSubgroups() })
	x.do(path+" ListTypes", func() { types = g.ListTypes() })
	x.do(path+" ListDimensions", func() { dims = g.ListDimensions() })
	x.do(path+" Attributes", func() { x.attrs(path+" Attributes", g.Attributes()) })
	for i, t := range append(types, "nosuch") {
		if i > 100 {
			break
		}
		x.do(fmt.Sprintf("%s GetType(%q)", path, t), func() { g.GetType(t) })
		x.do(fmt.Sprintf("%s GetGoType(%q)", path, t), func() { g.GetGoType(t) })
	}
	for i, d := range append(dims, "nosuch") {
		if i > 100 {
			break
		}
		x.do(fmt.Sprintf("%s GetDimension(%q)", path, d), func() { g.GetDimension(d) })
	}
	for i, v := range append(vars, "nosuch") {
		if i > 300 {
			break
		}
		x.variable(g, path, v)
	}
	x.do(path+" GetGroup(nosuch)", func() {
		if s, err := g.GetGroup("nosuch"); err == nil {
			s.Close()
		}
	})
	for i, s := range append(subs, "/", "") {
		if i > 50 {
			break
		}
		var sub api.Group
		x.do(fmt.Sprintf("%s GetGroup(%q)", path, s), func() {
			var err error
			sub, err = g.GetGroup(s)
			if err != nil {
				x.errs++
				sub = nil
			}
		})
		if sub == nil {
			continue
		}
		if s != "/" && s != "" {
			x.group(sub, path+"/"+s, depth+1)
		}
		x.do(path+" Close", sub.Close)
	}
}

func (x *exerciser) variable(g api.Group, path, v string) {
	at := fmt.Sprintf("%s variable %q", path, v)
	var vg api.VarGetter
	x.do(at+" GetVarGetter", func() {
		var err error
		vg, err = g.GetVarGetter(v)
		if err != nil {
			x.errs++
			vg = nil
		}
	})
	if vg == nil {
		x.do(at+" GetVariable", func() {
			if _, err := g.GetVariable(v); err == nil && v != "nosuch" {
				// possible for other reasons, nothing to say
				x.valued++
			}
		})
		return
	}
	x.vars++
	var n int64
	var shape []int64
	x.do(at+" Len", func() { n = vg.Len() })
	x.do(at+" Shape", func() { shape = vg.Shape() })
	x.do(at+" Type", func() { vg.Type() })
	x.do(at+" GoType", func() { vg.GoType() })
	x.do(at+" Dimensions", func() { vg.Dimensions() })
	x.attrs(at, vg.Attributes())
	total := elems(shape)
	row := total / math.Max(1, float64(n))
	readable := func(e float64) bool { return e <= 1<<20 || e > 1<<26 || x.full }
	if readable(total) {
		x.do(at+" Values", func() {
			if _, err := vg.Values(); err != nil {
				x.errs++
			} else {
				x.valued++
			}
		})
		x.do(at+" GetVariable", func() {
			if v, err := g.GetVariable(v); err == nil {
				x.attrs(at, v.Attributes)
			}
		})
	}
	if readable(row) {
		x.do(at+" GetSlice(0,1)", func() { _, _ = vg.GetSlice(0, 1) })
		x.do(at+" GetSlice(last)", func() { _, _ = vg.GetSlice(n-1, n) })
		x.do(at+" GetSlice(mid)", func() { _, _ = vg.GetSlice(n/2, n/2+1) })
		x.do(at+" GetSlice(0,0)", func() { _, _ = vg.GetSlice(0, 0) })
		x.do(at+" GetSlice(n,n+1)", func() { _, _ = vg.GetSlice(n, n+1) })
		x.do(at+" GetSlice(-1,0)", func() { _, _ = vg.GetSlice(-1, 0) })
		b := make([]int64, len(shape))
		e := make([]int64, len(shape))
		for i := range shape {
			b[i] = shape[i] / 2
			e[i] = b[i] + 1
		}
		x.do(at+" GetSliceMD(mid)", func() { _, _ = vg.GetSliceMD(b, e) })
		x.do(at+" GetSliceMD(0)", func() { _, _ = vg.GetSliceMD(make([]int64, len(shape)), make([]int64, len(shape))) })
		x.do(at+" GetSliceMD(nil)", func() { _, _ = vg.GetSliceMD(nil, nil) })
	}
}

// exercise opens an input and calls everything; it returns what went wrong, if
// anything.
func exercise(open func() (api.Group, error), size int, full bool) *exerciser {
	x := &exerciser{limit: h.MemLimit(size), full: full}
	var g api.Group
	x.do("open", func() {
		var err error
		g, err = open()
		if err != nil {
			x.errs++
			g = nil
		}
	})
	if g == nil {
		return x
	}
	x.group(g, "", 0)
	x.do("Close", g.Close)
	return x
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
