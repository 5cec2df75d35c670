package m

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"pgregory.net/rapid"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// Program is a sequence of accepted writer calls for one file.
type Program struct {
	Ops []Op
}

// Op is AddVar (Var set) or AddAttributes (Var nil).
type Op struct {
	Var   *Var
	Attrs []Attr
}

func (p *Program) String() string {
	var sb strings.Builder
	for _, o := range p.Ops {
		if o.Var == nil {
			fmt.Fprintf(&sb, "AddAttributes(%s); ", attrStr(o.Attrs))
		} else {
			fmt.Fprintf(&sb, "AddVar(%.60q %.200q %s %s); ", o.Var.Name, o.Var.Dims, Short(o.Var.Val), attrStr(o.Var.Attrs))
		}
	}
	return sb.String()
}

func attrStr(a []Attr) string {
	var s []string
	for _, x := range a {
		s = append(s, fmt.Sprintf("@%.60q=%s", x.Name, Short(x.Val)))
	}
	return strings.Join(s, " ")
}

// CDFOpts steers CDFProgram.
type CDFOpts struct {
	MaxVars   int
	MaxElems  int
	MaxName   int
	ClassicPc int // percentage of programs restricted to classic types
}

// CDFProgram draws a program every call of which a CDF writer should accept.
func CDFProgram(rt *rapid.T, o CDFOpts) *Program {
	types := NumTypes
	if rapid.IntRange(0, 99).Draw(rt, "classic") < o.ClassicPc {
		types = ClassicTypes
	}
	attrTypes := types
	if rapid.IntRange(0, 5).Draw(rt, "v5attrs") == 0 {
		attrTypes = NumTypes
	}
	// shared dimensions
	nd := rapid.IntRange(0, 4).Draw(rt, "ndims")
	dnames := Names(rt, "dim", nd, o.MaxName)
	dlens := make([]int, nd)
	for i := range dlens {
		if rapid.IntRange(0, 7).Draw(rt, "bigdim") == 0 {
			dlens[i] = rapid.IntRange(1, 300).Draw(rt, "dlen")
		} else {
			dlens[i] = rapid.IntRange(1, 7).Draw(rt, "dlen")
		}
	}
	nv := rapid.IntRange(0, o.MaxVars).Draw(rt, "nvars")
	vnames := Names(rt, "var", nv, o.MaxName)
	p := &Program{}
	// names like those the writer makes up, declared by the first variable
	if rapid.IntRange(0, 5).Draw(rt, "madeup") == 0 {
		v := &Var{Name: "madeup first"}
		total := 1
		var shape []int
		for d := rapid.IntRange(1, 4).Draw(rt, "muRank"); d > 0; d-- {
			n := rapid.IntRange(1, 4).Draw(rt, "muLen")
			total *= n
			shape = append(shape, n)
			name := ""
			switch k := rapid.IntRange(0, 9).Draw(rt, "muKind"); {
			case k < 6:
				name = fmt.Sprintf("_dimid_%d", rapid.IntRange(0, 7).Draw(rt, "muNum"))
			case k < 8 && nv > 0:
				name = "_stringlen_" + rapid.SampledFrom(vnames).Draw(rt, "muVar")
			}
			if name != "" {
				for i, x := range v.Dims {
					if x == name {
						n = shape[i]
						total = total / shape[len(shape)-1] * n
						shape[len(shape)-1] = n
					}
				}
				if x := slices.Index(dnames, name); x < 0 {
					dnames, dlens = append(dnames, name), append(dlens, n)
					nd++
				}
			}
			v.Dims = append(v.Dims, name)
		}
		v.Val = Nest(Flat(rt, reflect.TypeOf(int8(0)), total, "mu"), shape)
		p.Ops = append(p.Ops, Op{Var: v})
	}
	attrs := func(label string) []Attr {
		return Attrs(rt, label, 4, o.MaxName, attrTypes, 0, 9, false)
	}
	gatt := rapid.IntRange(0, 3).Draw(rt, "gattr")
	if gatt >= 2 {
		p.Ops = append(p.Ops, Op{Attrs: attrs("g1")})
	}
	emptied := false
	for i := 0; i < nv; i++ {
		v := &Var{Name: vnames[i]}
		isStr := rapid.IntRange(0, 4).Draw(rt, "isstr") == 0
		if !emptied && rapid.IntRange(0, 14).Draw(rt, "empty") == 0 {
			// a one-dimensional empty slice: zero-length dimension
			emptied = true
			if isStr {
				v.Val = ""
			} else {
				t := rapid.SampledFrom(types).Draw(rt, "type")
				v.Val = reflect.MakeSlice(reflect.SliceOf(t), 0, 0).Interface()
			}
			if rapid.Bool().Draw(rt, "named") {
				v.Dims = []string{fmt.Sprintf("nil%d", i)}
			}
		} else {
			// shape from shared, own named, or unnamed dimensions
			rank := rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 4}).Draw(rt, "rank")
			var shape []int
			total := 1
			for d := 0; d < rank; d++ {
				name, n := "", 0
				k := rapid.IntRange(0, 5).Draw(rt, "dimkind")
				switch {
				case k <= 3 && nd > 0:
					x := rapid.IntRange(0, nd-1).Draw(rt, "which")
					name, n = dnames[x], dlens[x]
				case k == 4:
					n = rapid.IntRange(1, 5).Draw(rt, "len")
					name = fmt.Sprintf("own%d_%d", i, d)
				default:
					n = rapid.IntRange(1, 5).Draw(rt, "len")
				}
				if total*n > o.MaxElems {
					break
				}
				total *= n
				shape = append(shape, n)
				v.Dims = append(v.Dims, name)
			}
			if isStr {
				v.Val = strVal(rt, v, shape)
			} else {
				t := rapid.SampledFrom(types).Draw(rt, "type")
				v.Val = Nest(Flat(rt, t, total, "val"), shape)
			}
			// trailing unnamed dimensions may just be left out
			for len(v.Dims) > 0 && v.Dims[len(v.Dims)-1] == "" && rapid.Bool().Draw(rt, "omit") {
				v.Dims = v.Dims[:len(v.Dims)-1]
			}
		}
		if rapid.Bool().Draw(rt, "hasattrs") {
			v.Attrs = attrs("va")
		}
		p.Ops = append(p.Ops, Op{Var: v})
		if gatt == 1 && i == nv/2 {
			p.Ops = append(p.Ops, Op{Attrs: attrs("g2")})
		}
	}
	if gatt == 3 {
		p.Ops = append(p.Ops, Op{Attrs: attrs("g3")})
	}
	return p
}

func strVal(rt *rapid.T, v *Var, shape []int) any {
	flat := Flat(rt, StringType, Prod(shape), "str").([]string)
	max := 0
	for i := range flat {
		if rapid.IntRange(0, 9).Draw(rt, "nul") == 0 && len(flat) <= 8 {
			flat[i] = "a\x00b" + flat[i]
		}
		if len(flat[i]) > max {
			max = len(flat[i])
		}
	}
	if max == 0 {
		flat[0] = "zz"
		max = 2
	}
	// the string length is a dimension too
	if rapid.Bool().Draw(rt, "namedlen") {
		v.Dims = append(v.Dims, fmt.Sprintf("len%d", max))
	} else if len(shape) > 0 && rapid.Bool().Draw(rt, "emptylen") {
		v.Dims = append(v.Dims, "")
	}
	return Nest(flat, shape)
}

// CDFExpect is the content a reader should find after the program.
func (p *Program) CDFExpect() *Group {
	g := &Group{}
	for _, o := range p.Ops {
		if o.Var == nil {
			g.Attrs = nil
			for _, a := range o.Attrs {
				g.Attrs = append(g.Attrs, Attr{a.Name, NormAttr(a.Val)})
			}
			continue
		}
		v := Var{Name: o.Var.Name, Val: CDFValue(o.Var.Val), Dims: o.Var.Dims}
		for _, a := range o.Var.Attrs {
			v.Attrs = append(v.Attrs, Attr{a.Name, NormAttr(a.Val)})
		}
		g.Vars = append(g.Vars, v)
	}
	return g
}

// CDFShape is the shape a value has in a classic file, given its dimension names.
func CDFShape(val any, dims []string) []int {
	s := Shape(val)
	if ElemType(val).Kind() == reflect.String {
		max := 0
		for _, x := range Flatten(val).([]string) {
			if len(x) > max {
				max = len(x)
			}
		}
		if len(s) == 0 && max == 1 && len(dims) == 0 {
			return s // a single character
		}
		s = append(s, max)
	}
	return s
}

// CDFValue pads strings to the longest of the variable.
func CDFValue(val any) any {
	if ElemType(val).Kind() != reflect.String {
		return val
	}
	flat := append([]string{}, Flatten(val).([]string)...)
	max := 0
	for _, x := range flat {
		if len(x) > max {
			max = len(x)
		}
	}
	for i := range flat {
		flat[i] += strings.Repeat("\x00", max-len(flat[i]))
	}
	return Nest(flat, Shape(val))
}

// Run makes the calls on a writer and closes it. It returns the first error and
// which call gave it.
func (p *Program) Run(w api.Writer) error {
	for i, o := range p.Ops {
		if o.Var == nil {
			if err := w.AddAttributes(AttrMap(o.Attrs)); err != nil {
				w.Close()
				return fmt.Errorf("call %d AddAttributes: %w", i, err)
			}
			continue
		}
		var am api.AttributeMap
		if o.Var.Attrs != nil {
			am = AttrMap(o.Var.Attrs)
		}
		dims := append([]string{}, o.Var.Dims...)
		if err := w.AddVar(o.Var.Name, api.Variable{Values: o.Var.Val, Dimensions: dims, Attributes: am}); err != nil {
			w.Close()
			return fmt.Errorf("call %d AddVar(%q): %w", i, o.Var.Name, err)
		}
		for i := range dims {
			dims[i] = "reused" // the slice is the caller's
		}
	}
	if err := w.Close(); err != nil {
		return fmt.Errorf("Close: %w", err)
	}
	return nil
}
