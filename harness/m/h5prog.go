package m

import (
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// H5Op is one call on an HDF5 writer or one of its subgroups: AddVar if Var is set,
// CreateGroup if Create is set, AddAttributes otherwise.
type H5Op struct {
	Group  int // handle the call is made on: 0 is the root, then in order of creation
	Var    *Var
	Create string
	Attrs  []Attr
	NilMap bool // AddAttributes(nil)
}

// H5Program is a sequence of calls on an HDF5 writer.
type H5Program struct {
	Ops []H5Op
}

func (o H5Op) String() string {
	switch {
	case o.Var != nil:
		return fmt.Sprintf("#%d.AddVar(%.60q %.200q %s %s)", o.Group, o.Var.Name, o.Var.Dims, Short(o.Var.Val), attrStr(o.Var.Attrs))
	case o.Create != "":
		return fmt.Sprintf("#%d.CreateGroup(%.60q)", o.Group, o.Create)
	case o.NilMap:
		return fmt.Sprintf("#%d.AddAttributes(nil)", o.Group)
	}
	return fmt.Sprintf("#%d.AddAttributes(%s)", o.Group, attrStr(o.Attrs))
}

func (p *H5Program) String() string {
	var s []string
	for _, o := range p.Ops {
		s = append(s, o.String())
	}
	return strings.Join(s, "; ")
}

// H5Opts steers H5Program.
type H5Opts struct {
	MaxVars   int
	MaxGroups int
	MaxElems  int
	MaxName   int
	NoVlen    bool // no variable-length values
	NoEmpty   bool // no zero extents
}

// H5Reserved are attribute names the format uses itself.
var H5Reserved = map[string]bool{"CLASS": true, "NAME": true, "DIMENSION_LIST": true, "REFERENCE_LIST": true}

// vlenVal draws a value with dims of the given shape, and depth more levels of
// variable length below.
func vlenVal(rt *rapid.T, t reflect.Type, shape []int, depth int, label string) any {
	vt := t
	for i := 0; i < depth; i++ {
		vt = reflect.SliceOf(vt)
	}
	var one func(t reflect.Type, depth int) reflect.Value
	one = func(t reflect.Type, depth int) reflect.Value {
		n := rapid.IntRange(0, 4).Draw(rt, label+"/vn")
		if depth == 1 {
			return reflect.ValueOf(Flat(rt, t.Elem(), n, label))
		}
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(one(t.Elem(), depth-1))
		}
		return s
	}
	n := Prod(shape)
	flat := reflect.MakeSlice(reflect.SliceOf(vt), n, n)
	for i := 0; i < n; i++ {
		if i < 12 {
			flat.Index(i).Set(one(vt, depth))
		} else {
			flat.Index(i).Set(flat.Index(i % 12))
		}
	}
	return Nest(flat.Interface(), shape)
}

// h5Attrs draws attributes, including lists of strings and of variable length.
func h5Attrs(rt *rapid.T, label string, o H5Opts) []Attr {
	var ret []Attr
	max := 4
	if rapid.IntRange(0, 29).Draw(rt, label+"/many") == 0 {
		max = 40
	}
	for _, a := range Attrs(rt, label, max, o.MaxName, NumTypes, 1, 9, true) {
		if H5Reserved[a.Name] {
			continue
		}
		switch k := rapid.IntRange(0, 14).Draw(rt, label+"/vl"); {
		case k == 0 && !o.NoVlen:
			t := rapid.SampledFrom(append([]reflect.Type{StringType}, NumTypes...)).Draw(rt, label+"/vt")
			a.Val = vlenVal(rt, t, []int{rapid.IntRange(1, 4).Draw(rt, label+"/n")}, 1, label)
		case k == 1 && !o.NoEmpty:
			t := rapid.SampledFrom(append([]reflect.Type{StringType}, NumTypes...)).Draw(rt, label+"/vt")
			a.Val = reflect.MakeSlice(reflect.SliceOf(t), 0, 0).Interface()
		case k == 2:
			a.Val = strings.Repeat(rapid.SampledFrom([]string{"x", "long ", "é"}).Draw(rt, label+"/rep"), rapid.IntRange(1, 3000).Draw(rt, label+"/rn"))
		}
		ret = append(ret, a)
	}
	return ret
}

// H5Prog draws a program every call of which an HDF5 writer should accept.
func H5Prog(rt *rapid.T, o H5Opts) *H5Program {
	types := append([]reflect.Type{StringType, StringType}, NumTypes...)
	nd := rapid.IntRange(0, 4).Draw(rt, "ndims")
	ng := rapid.IntRange(0, o.MaxGroups).Draw(rt, "ngroups")
	nv := rapid.IntRange(0, o.MaxVars).Draw(rt, "nvars")
	if rapid.IntRange(0, 19).Draw(rt, "many") == 0 {
		nv *= 5
	}
	// root names are distinct among dimensions, variables and groups; elsewhere they
	// are drawn from the same pool, so that the same name occurs in several places
	pool := Names(rt, "name", nd+ng+nv, o.MaxName)
	dnames := pool[:nd]
	gnames := pool[nd : nd+ng]
	vnames := pool[nd+ng:]
	dlens := make([]int, nd)
	for i := range dlens {
		switch rapid.IntRange(0, 9).Draw(rt, "dimsize") {
		case 0:
			dlens[i] = rapid.IntRange(1, 300).Draw(rt, "dlen")
		case 1:
			dlens[i] = rapid.IntRange(0, 1).Draw(rt, "dlen")
			if o.NoEmpty {
				dlens[i] = 1
			}
		default:
			dlens[i] = rapid.IntRange(1, 7).Draw(rt, "dlen")
		}
	}
	p := &H5Program{}
	type gstate struct{ used map[string]bool }
	handles := []gstate{{map[string]bool{}}}
	for _, d := range dnames {
		handles[0].used[d] = true
	}
	// interleave the making of groups, variables and attributes
	todo := []string{}
	for i := 0; i < ng; i++ {
		todo = append(todo, "g")
	}
	for i := 0; i < nv; i++ {
		todo = append(todo, "v")
	}
	for i := rapid.IntRange(0, 3).Draw(rt, "nattrs"); i > 0; i-- {
		todo = append(todo, "a")
	}
	todo = rapid.Permutation(todo).Draw(rt, "order")
	coord := map[string]bool{}
	gi, vi := 0, 0
	for _, what := range todo {
		h := rapid.IntRange(0, len(handles)-1).Draw(rt, "in")
		switch what {
		case "a":
			op := H5Op{Group: h, Attrs: h5Attrs(rt, "ga", o)}
			if rapid.IntRange(0, 9).Draw(rt, "nilmap") == 0 {
				op = H5Op{Group: h, NilMap: true}
			}
			p.Ops = append(p.Ops, op)
		case "g":
			name := gnames[gi]
			gi++
			if h > 0 && rapid.IntRange(0, 3).Draw(rt, "reuse") == 0 {
				name = rapid.SampledFrom(pool).Draw(rt, "gname")
			}
			if handles[h].used[name] {
				continue
			}
			handles[h].used[name] = true
			p.Ops = append(p.Ops, H5Op{Group: h, Create: name})
			handles = append(handles, gstate{map[string]bool{}})
		case "v":
			v := &Var{Name: vnames[vi]}
			vi++
			if h > 0 && rapid.IntRange(0, 3).Draw(rt, "reuse") == 0 {
				v.Name = rapid.SampledFrom(pool).Draw(rt, "vname")
			}
			t := rapid.SampledFrom(types).Draw(rt, "type")
			var shape []int
			if h == 0 && nd > 0 && rapid.IntRange(0, 3).Draw(rt, "coord") == 0 {
				x := rapid.IntRange(0, nd-1).Draw(rt, "which")
				if coord[dnames[x]] {
					continue
				}
				coord[dnames[x]] = true
				v.Name = dnames[x]
				v.Dims = []string{dnames[x]}
				shape = []int{dlens[x]}
			} else {
				if handles[h].used[v.Name] {
					continue
				}
				handles[h].used[v.Name] = true
				rank := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 4}).Draw(rt, "rank")
				if rapid.IntRange(0, 49).Draw(rt, "deep") == 0 {
					rank = rapid.IntRange(5, 32).Draw(rt, "rank")
				}
				total := 1
				for d := 0; d < rank; d++ {
					name, n := "", 0
					k := rapid.IntRange(0, 5).Draw(rt, "dimkind")
					switch {
					case k <= 3 && nd > 0:
						x := rapid.IntRange(0, nd-1).Draw(rt, "which")
						name, n = dnames[x], dlens[x]
					case k == 4:
						n = rapid.IntRange(1, 5).Draw(rt, "len")
						name = fmt.Sprintf("own%d_%d", len(p.Ops), d)
					default:
						n = rapid.IntRange(1, 5).Draw(rt, "len")
					}
					if rank > 4 && n > 2 {
						n, name = 1, ""
					}
					if total*n > o.MaxElems {
						break
					}
					total *= n
					shape = append(shape, n)
					v.Dims = append(v.Dims, name)
				}
				// the extents below an empty one aren't in a Go value, so they must be
				// known from elsewhere: keep the empty one last
				for d, n := range shape {
					if n == 0 {
						shape, v.Dims = shape[:d+1], v.Dims[:d+1]
						break
					}
				}
			}
			depth := 0
			if !o.NoVlen && rapid.IntRange(0, 6).Draw(rt, "vlen") == 0 {
				depth = rapid.SampledFrom([]int{1, 1, 1, 1, 2}).Draw(rt, "depth")
			}
			if depth > 0 {
				v.Val = vlenVal(rt, t, shape, depth, "val")
			} else {
				v.Val = Nest(Flat(rt, t, Prod(shape), "val"), shape)
			}
			if rapid.Bool().Draw(rt, "hasattrs") {
				v.Attrs = h5Attrs(rt, "va", o)
			}
			p.Ops = append(p.Ops, H5Op{Group: h, Var: v})
		}
		// asking for a group again gives the same group
		if rapid.IntRange(0, 19).Draw(rt, "again") == 0 {
			for _, op := range p.Ops {
				if op.Create != "" {
					p.Ops = append(p.Ops, op)
					handles = append(handles, handles[p.handleOf(len(p.Ops)-1)])
					break
				}
			}
		}
	}
	return p
}

// handleOf tells which handle index the first CreateGroup with the same group and name
// as the one at op i made.
func (p *H5Program) handleOf(i int) int {
	n := 0
	for _, op := range p.Ops {
		if op.Create != "" {
			n++
			if op.Create == p.Ops[i].Create && op.Group == p.Ops[i].Group {
				return n
			}
		}
	}
	return 0
}

// H5Expect is the tree a reader should find after the program.
func (p *H5Program) H5Expect() *Group {
	root := &Group{}
	handles := []*Group{root}
	for _, o := range p.Ops {
		g := handles[o.Group]
		switch {
		case o.Create != "":
			var sub *Group
			for _, s := range g.Groups {
				if s.Name == o.Create {
					sub = s
				}
			}
			if sub == nil {
				sub = &Group{Name: o.Create}
				g.Groups = append(g.Groups, sub)
			}
			handles = append(handles, sub)
		case o.Var != nil:
			v := *o.Var
			v.Attrs = nil
			for _, a := range o.Var.Attrs {
				v.Attrs = append(v.Attrs, Attr{a.Name, NormAttr(a.Val)})
			}
			g.Vars = append(g.Vars, v)
		default:
			g.Attrs = nil
			for _, a := range o.Attrs {
				g.Attrs = append(g.Attrs, Attr{a.Name, NormAttr(a.Val)})
			}
		}
	}
	return root
}

// Call makes one call; handles are the writers of the groups so far.
func (o H5Op) Call(handles []api.Writer) (api.Writer, error) {
	w := handles[o.Group]
	switch {
	case o.Var != nil:
		var am api.AttributeMap
		if o.Var.Attrs != nil {
			am = AttrMap(o.Var.Attrs)
		}
		var dims []string
		if o.Var.Dims != nil {
			dims = append([]string{}, o.Var.Dims...)
		}
		err := w.AddVar(o.Var.Name, api.Variable{Values: o.Var.Val, Dimensions: dims, Attributes: am})
		for i := range dims {
			dims[i] = "reused" // the slice is the caller's
		}
		return nil, err
	case o.Create != "":
		return w.CreateGroup(o.Create)
	case o.NilMap:
		return nil, w.AddAttributes(nil)
	}
	return nil, w.AddAttributes(AttrMap(o.Attrs))
}

// Run makes the calls on a writer and closes it, subgroup handles first or not at all.
func (p *H5Program) Run(w api.Writer) error {
	handles := []api.Writer{w}
	for i, o := range p.Ops {
		sub, err := o.Call(handles)
		if err != nil {
			w.Close()
			return fmt.Errorf("call %d %s: %w", i, o, err)
		}
		if o.Create != "" {
			handles = append(handles, sub)
		}
	}
	for _, s := range handles[1:] {
		if err := s.Close(); err != nil {
			return fmt.Errorf("Close of a subgroup: %w", err)
		}
	}
	if err := w.Close(); err != nil {
		return fmt.Errorf("Close: %w", err)
	}
	return nil
}
