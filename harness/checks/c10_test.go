package checks

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// show is a text that tells results apart.
func show(v any) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case error:
		return "error " + v.Error()
	case api.AttributeMap:
		var sb strings.Builder
		for _, k := range v.Keys() {
			x, has := v.Get(k)
			t, ht := v.GetType(k)
			gt, hg := v.GetGoType(k)
			fmt.Fprintf(&sb, "%q %v %T %#v %q %v %q %v;", k, has, x, x, t, ht, gt, hg)
		}
		return sb.String()
	case []any:
		var sb strings.Builder
		for _, x := range v {
			sb.WriteString(show(x) + "; ")
		}
		return sb.String()
	case *api.Variable:
		if v == nil {
			return "no variable"
		}
		return fmt.Sprintf("%T %#v %q %s", v.Values, v.Values, v.Dimensions, show(v.Attributes))
	}
	return fmt.Sprintf("%T %#v", v, v)
}

// rcall is a call on a group handle, and what its results look like.
type rcall struct {
	op   string
	name string
	b, e []int64
}

func (c rcall) String() string {
	if c.b != nil {
		return fmt.Sprintf("%s(%.40q, %v, %v)", c.op, c.name, c.b, c.e)
	}
	return fmt.Sprintf("%s(%.40q)", c.op, c.name)
}

// getterCall makes a call on a getter. kept is what the result is made of.
func (c rcall) getterCall(vg api.VarGetter) (text string, kept any) {
	var v any
	var err error
	switch c.op {
	case "Values":
		v, err = vg.Values()
	case "GetSlice":
		v, err = vg.GetSlice(c.b[0], c.e[0])
	case "GetSliceMD":
		v, err = vg.GetSliceMD(append([]int64{}, c.b...), append([]int64{}, c.e...))
	default:
		a := vg.Attributes()
		s := []any{vg.Len(), vg.Shape(), vg.Dimensions(), vg.Type(), vg.GoType(), show(a)}
		return show(s), []any{s[1], s[2]} // the getter's attributes are one map
	}
	if err != nil {
		return show(err), nil
	}
	return show(v), v
}

func (c rcall) do(g api.Group) (text string, kept any) {
	switch c.op {
	case "ListVariables":
		kept = g.ListVariables()
	case "ListSubgroups":
		kept = g.ListSubgroups()
	case "ListTypes":
		kept = g.ListTypes()
	case "ListDimensions":
		kept = g.ListDimensions()
	case "Attributes":
		kept = g.Attributes()
	case "GetType":
		s, has := g.GetType(c.name)
		return fmt.Sprintf("%q %v", s, has), nil
	case "GetGoType":
		s, has := g.GetGoType(c.name)
		return fmt.Sprintf("%q %v", s, has), nil
	case "GetDimension":
		n, has := g.GetDimension(c.name)
		return fmt.Sprintf("%d %v", n, has), nil
	case "GetVariable":
		v, err := g.GetVariable(c.name)
		if err != nil {
			return show(err), nil
		}
		kept = v
	case "GetGroup":
		s, err := g.GetGroup(c.name)
		if err != nil {
			return show(err), nil
		}
		t := fmt.Sprintf("group %q %q %s", s.ListVariables(), s.ListSubgroups(), show(s.Attributes()))
		s.Close()
		return t, nil
	default:
		vg, err := g.GetVarGetter(c.name)
		if err != nil {
			return show(err), nil
		}
		return c.getterCall(vg)
	}
	return show(kept), kept
}

// scribble overwrites what a call returned, which is the caller's.
func scribble(kept any) {
	switch x := kept.(type) {
	case *api.Variable:
		scribble(x.Values)
		scribble(x.Dimensions)
		scribble(x.Attributes)
	case api.AttributeMap:
		keys := x.Keys()
		for _, k := range keys {
			if v, has := x.Get(k); has {
				scribble(v)
			}
		}
		scribble(keys)
	case []any:
		for i := range x {
			scribble(x[i])
		}
	default:
		scribbleValue(reflect.ValueOf(kept))
	}
}

func scribbleValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			scribbleValue(v.Elem())
		}
	case reflect.Struct:
		for i := range v.NumField() {
			scribbleValue(v.Field(i))
		}
	case reflect.Slice:
		for i := range v.Len() {
			e := v.Index(i)
			scribbleValue(e)
			switch {
			case !e.CanSet():
			case e.CanInt():
				e.SetInt(^e.Int())
			case e.CanUint():
				e.SetUint(^e.Uint() & (1<<e.Type().Bits() - 1))
			case e.CanFloat():
				e.SetFloat(123.5)
			case e.Kind() == reflect.String:
				e.SetString("scribbled")
			default:
				e.SetZero()
			}
		}
	}
}

// gnode is a group as a fresh handle lists it.
type gnode struct {
	path  []string
	names map[string][]string // of "v"ariables, "t"ypes, "d"imensions, "g"roups
	shape map[string][]int64
	subs  []*gnode
}

func scan(g api.Group, path []string) (*gnode, error) {
	n := &gnode{path: append([]string{}, path...), names: map[string][]string{}, shape: map[string][]int64{}}
	n.names["v"], n.names["t"], n.names["d"], n.names["g"] = g.ListVariables(), g.ListTypes(), g.ListDimensions(), g.ListSubgroups()
	for _, v := range n.names["v"] {
		vg, err := g.GetVarGetter(v)
		if err != nil {
			return nil, fmt.Errorf("GetVarGetter(%.60q): %w", v, err)
		}
		n.shape[v] = vg.Shape()
	}
	for _, s := range n.names["g"] {
		sub, err := g.GetGroup(s)
		if err != nil {
			return nil, fmt.Errorf("GetGroup(%.60q): %w", s, err)
		}
		c, err := scan(sub, append(path[:len(path):len(path)], s))
		sub.Close()
		if err != nil {
			return nil, err
		}
		n.subs = append(n.subs, c)
	}
	return n, nil
}

func (n *gnode) all() []*gnode {
	r := []*gnode{n}
	for _, s := range n.subs {
		r = append(r, s.all()...)
	}
	return r
}

// drawCall draws a call on a handle of the group.
func (n *gnode) drawCall(rt *rapid.T) rcall {
	name := func(k string) string {
		l := n.names[k]
		if len(l) == 0 || rapid.IntRange(0, 9).Draw(rt, "absent") == 0 {
			return rapid.SampledFrom([]string{"nosuch", "", "/", "a/b", "v0", "d0"}).Draw(rt, "bad")
		}
		return rapid.SampledFrom(l).Draw(rt, "name")
	}
	switch rapid.IntRange(0, 17).Draw(rt, "call") {
	case 0:
		return rcall{op: "ListVariables"}
	case 1:
		return rcall{op: "ListSubgroups"}
	case 2:
		return rcall{op: "ListTypes"}
	case 3:
		return rcall{op: "ListDimensions"}
	case 4:
		return rcall{op: "Attributes"}
	case 5:
		return rcall{op: "GetType", name: name("t")}
	case 6:
		return rcall{op: "GetGoType", name: name("t")}
	case 7:
		return rcall{op: "GetDimension", name: name("d")}
	case 8:
		return rcall{op: "GetGroup", name: name("g")}
	case 9, 10, 11:
		return rcall{op: "GetVariable", name: name("v")}
	}
	return n.drawGetterCall(rt, name("v"))
}

func (n *gnode) drawGetterCall(rt *rapid.T, v string) rcall {
	sh := n.shape[v]
	switch k := rapid.IntRange(0, 7).Draw(rt, "getter"); {
	case k <= 1:
		return rcall{op: "Values", name: v}
	case k == 2:
		return rcall{op: "getter", name: v}
	case k <= 4 && len(sh) > 0:
		b := rapid.Int64Range(0, sh[0]).Draw(rt, "b")
		return rcall{op: "GetSlice", name: v, b: []int64{b}, e: []int64{rapid.Int64Range(b, sh[0]).Draw(rt, "e")}}
	case k == 5:
		return rcall{op: "GetSlice", name: v, b: []int64{rapid.Int64Range(-1, 3).Draw(rt, "b")}, e: []int64{rapid.Int64Range(-1, 3).Draw(rt, "e")}}
	}
	c := rcall{op: "GetSliceMD", name: v, b: []int64{}, e: []int64{}}
	for _, s := range sh {
		b := rapid.Int64Range(0, s).Draw(rt, "b")
		c.b = append(c.b, b)
		c.e = append(c.e, rapid.Int64Range(b, s).Draw(rt, "e"))
	}
	return c
}

// history makes a history of calls on handles of one file, comparing each with the
// same call on a freshly opened file.
func history(rt *rapid.T, open func() (api.Group, error), steps int) (fail string, log []string, classes []string) {
	fresh, err := open()
	if err != nil {
		return "open: " + err.Error(), nil, nil
	}
	tree, err := scan(fresh, nil)
	fresh.Close()
	if err != nil {
		return err.Error(), nil, nil
	}
	nodes := tree.all()
	memo := map[string]string{}
	expect := func(n *gnode, c rcall) (string, error) {
		key := fmt.Sprintf("%q %s %q %v %v", n.path, c.op, c.name, c.b, c.e)
		if t, has := memo[key]; has {
			return t, nil
		}
		g, err := open()
		if err != nil {
			return "", err
		}
		at := g
		for _, p := range n.path {
			s, err := at.GetGroup(p)
			if err != nil {
				g.Close()
				return "", err
			}
			defer s.Close()
			at = s
		}
		t, _ := c.do(at)
		g.Close()
		memo[key] = t
		return t, nil
	}
	type handle struct {
		g  api.Group
		n  *gnode
		id int
	}
	type getter struct {
		vg   api.VarGetter
		n    *gnode
		name string
		h    int
	}
	type result struct {
		kept any
		text string
		what string
	}
	var hs []handle
	var gs []getter
	var old []result
	ids := 0
	root, err := open()
	if err != nil {
		return "open: " + err.Error(), nil, nil
	}
	hs = append(hs, handle{root, tree, 0})
	defer func() {
		for _, x := range hs {
			x.g.Close()
		}
	}()
	note := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	cl := map[string]bool{}
	for i := 0; i < steps && fail == ""; i++ {
		x := hs[rapid.IntRange(0, len(hs)-1).Draw(rt, "handle")]
		switch k := rapid.IntRange(0, 19).Draw(rt, "step"); {
		case k <= 3 && len(hs) < 8: // a new handle
			var to *gnode
			arg := ""
			abs := rapid.IntRange(0, 3).Draw(rt, "abs")
			switch {
			case abs == 0:
				to = rapid.SampledFrom(nodes).Draw(rt, "to")
				arg = "/" + strings.Join(to.path, "/")
			case len(x.n.subs) == 0:
				continue
			default:
				to = rapid.SampledFrom(x.n.subs).Draw(rt, "sub")
				arg = to.path[len(to.path)-1]
				if len(to.subs) > 0 && abs == 1 {
					to = rapid.SampledFrom(to.subs).Draw(rt, "subsub")
					arg += "/" + to.path[len(to.path)-1]
				}
			}
			g, err := x.g.GetGroup(arg)
			if err != nil {
				fail = fmt.Sprintf("handle %d: GetGroup(%.80q): %v", x.id, arg, err)
				break
			}
			ids++
			note("%d = %d.GetGroup(%.40q)", ids, x.id, arg)
			hs = append(hs, handle{g, to, ids})
			cl["handles from "+map[bool]string{true: "absolute paths", false: "relative paths"}[abs == 0]] = true
		case k == 4 && len(hs) > 1: // close one
			j := rapid.IntRange(0, len(hs)-1).Draw(rt, "close")
			note("%d.Close()", hs[j].id)
			hs[j].g.Close()
			cl["handle closed before others"] = true
			if hs[j].id == 0 {
				cl["root handle closed before others"] = true
			}
			var left []getter
			for _, y := range gs {
				if y.h != hs[j].id {
					left = append(left, y)
				}
			}
			gs = left
			hs = append(hs[:j:j], hs[j+1:]...)
		case k <= 6 && len(x.n.names["v"]) > 0: // keep a getter
			v := rapid.SampledFrom(x.n.names["v"]).Draw(rt, "gv")
			vg, err := x.g.GetVarGetter(v)
			if err != nil {
				fail = fmt.Sprintf("handle %d: GetVarGetter(%.60q): %v", x.id, v, err)
				break
			}
			note("getter %d.GetVarGetter(%.40q)", x.id, v)
			gs = append(gs, getter{vg, x.n, v, x.id})
		case k <= 10 && len(gs) > 0:
			y := gs[rapid.IntRange(0, len(gs)-1).Draw(rt, "which")]
			c := y.n.drawGetterCall(rt, y.name)
			want, err := expect(y.n, c)
			if err != nil {
				return "fresh file: " + err.Error(), log, nil
			}
			got, kept := c.getterCall(y.vg)
			note("getter of %d: %s", y.h, c)
			if got != want {
				fail = fmt.Sprintf("a getter of handle %d (group %q): %s gave %.400s, but on a fresh file %.400s", y.h, y.n.path, c, got, want)
			}
			if kept != nil && rapid.IntRange(0, 2).Draw(rt, "scribble") == 0 {
				scribble(kept)
				note("(result overwritten)")
				cl["result overwritten by the caller"] = true
			} else if kept != nil && len(old) < 12 {
				old = append(old, result{kept, show(kept), c.String()})
			}
			cl["calls on getters kept"] = true
		default:
			c := x.n.drawCall(rt)
			want, err := expect(x.n, c)
			if err != nil {
				return "fresh file: " + err.Error(), log, nil
			}
			got, kept := c.do(x.g)
			note("%d.%s", x.id, c)
			if got != want {
				fail = fmt.Sprintf("handle %d (group %q): %s gave %.400s, but on a fresh file %.400s", x.id, x.n.path, c, got, want)
			}
			if kept != nil && rapid.IntRange(0, 2).Draw(rt, "scribble") == 0 {
				scribble(kept)
				note("(result overwritten)")
				cl["result overwritten by the caller"] = true
			} else if kept != nil && len(old) < 12 {
				old = append(old, result{kept, show(kept), c.String()})
			}
			if strings.HasPrefix(want, "error") {
				cl["failing call"] = true
			}
		}
	}
	for _, o := range old {
		if now := show(o.kept); fail == "" && now != o.text {
			fail = fmt.Sprintf("the result of %s changed later, from %.400s to %.400s", o.what, o.text, now)
		}
	}
	for c := range cl {
		classes = append(classes, c)
	}
	return fail, log, sorted(classes)
}

// openers are the ways to open a file.
func opener(rt *rapid.T, path string, b []byte) func() (api.Group, error) {
	if rapid.Bool().Draw(rt, "new") {
		if b == nil {
			var err error
			if b, err = os.ReadFile(path); err != nil {
				capi.Infra("%v", err)
			}
		}
		return func() (api.Group, error) { return netcdf.New(newMem(b)) }
	}
	if b != nil {
		if err := os.WriteFile(path, b, 0o644); err != nil {
			capi.Infra("%v", err)
		}
	}
	return func() (api.Group, error) { return netcdf.Open(path) }
}

func TestC10CDF(t *testing.T) {
	rule := "histories of up to 40 calls on handles and getters of a random classic file, opened by path or from memory: listings, whole reads, slices, failing lookups, closing; each call's result compared with the same call on a freshly opened file, some results overwritten by the caller, others kept and compared again at the end; non-trivial: at least 5 calls on a file with a variable"
	h.Check(t, "C10", rule, 24000, 400000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 4, MaxElems: 120, MaxName: 10, TruncatePc: 15, FillPc: 20})
		d, log, cl := history(rt, opener(rt, h.Path("c10.nc"), s.Bytes), rapid.IntRange(1, 40).Draw(rt, "steps"))
		if d != "" {
			rt.Fatalf("%s\nhistory: %s\nfile: %s", d, strings.Join(log, "; "), s)
		}
		r.Case(len(log) >= 5 && len(s.F.Vars) > 0, strings.Join(log, "; ")+" on "+s.String(), cl...)
	})
}

func TestC10HDF5(t *testing.T) {
	rule := "the same histories on files made by the C libraries: groups, user-defined types, all storage; non-trivial: at least 5 calls"
	h.Check(t, "C10", rule, 8000, 200000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c10.nc")
		var desc string
		var classes []string
		if rapid.IntRange(0, 2).Draw(rt, "maker") > 0 {
			g := ncProgram(rt, path, ncOpts{types: true, maxVars: 6, maxGroups: 5, maxElems: 40, maxAtts: 2, partial: true})
			if makeNC(r, g, path) == nil {
				return
			}
			desc, classes = g.desc(), g.classList()
		} else {
			g := newHGen(rt)
			h5Types(g, path, utOpts{arrays: true, strings: true, attRank: 1}, dsOpts{maxRank: 3, maxElems: 60, filters: true, unwritten: true})
			if _, err := capi.Do(g.cmds...); err != nil {
				r.Discarded("refused by the C library")
				return
			}
			root, err := capi.HDumpFile(path)
			if err != nil || !g.kept(root) {
				r.Discarded("the C library lost values it wrote")
				return
			}
			desc, classes = g.desc(), g.classList()
		}
		d, log, cl := history(rt, opener(rt, path, nil), rapid.IntRange(1, 40).Draw(rt, "steps"))
		if d != "" {
			rt.Fatalf("%s\nhistory: %s\nfile: %s", d, strings.Join(log, "; "), desc)
		}
		r.Case(len(log) >= 5, strings.Join(log, "; ")+" on "+desc, append(classes, cl...)...)
	})
}
