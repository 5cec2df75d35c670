package checks

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"strings"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// ---- drawing user-defined HDF5 types ----

type utOpts struct {
	arrays  bool // array types, also by themselves
	strings bool
	big     bool // some elements of 64 kB and more
	attRank int  // of attributes, at most
	names   func(label string, used map[string]bool) string
}

func (g *hgen) ident(label string, used map[string]bool) string {
	s := rapid.StringMatching(`[A-Za-z][A-Za-z0-9_]{0,8}`).Draw(g.rt, label)
	if g.pc("anyname", 20) {
		s = strings.TrimRight(m.Name(g.rt, label, 40), " ")
	}
	for k := 0; used[s] || s == ""; k++ {
		s = fmt.Sprintf("%s%d", s, k)
	}
	used[s] = true
	return s
}

// intType draws an integer type in the helper's notation.
func (g *hgen) intType() string {
	s := rapid.SampledFrom(stdHTypes[:8]).Draw(g.rt, "it")
	if g.pc("be", 25) {
		s += "b"
	}
	return s
}

func hsize(t *capi.HType) int {
	switch t.Class {
	case 'v', 'S':
		return 16
	case 'a':
		return hsize(t.Base) * m.Prod(t.Dims)
	case 'e':
		return hsize(t.Base)
	}
	return t.Size
}

// most is what an element of the type can take with its lists.
func most(t *capi.HType) int {
	switch t.Class {
	case 'c':
		n := 0
		for _, f := range t.Flds {
			n += most(f.Type)
		}
		return n
	case 'v':
		return 4 * most(t.Base)
	case 'a':
		return most(t.Base) * m.Prod(t.Dims)
	}
	return hsize(t)
}

// userType draws a type that is not a standard one.
func (g *hgen) userType(depth int, o utOpts) *capi.HType {
	kinds := []string{"e", "c", "c", "o", "v"}
	if o.arrays {
		kinds = append(kinds, "a")
	}
	switch rapid.SampledFrom(kinds).Draw(g.rt, "uk") {
	case "e":
		base := g.intType()
		bt := capi.ParseHType(base)
		n := g.pick("nmem", 1, 6)
		if g.pc("manymem", 3) {
			n = g.pick("manymems", 50, 400)
			if bt.Size == 1 {
				n = min(n, 200)
			}
			g.class("enum of many members")
		}
		used, seen := map[string]bool{}, map[string]bool{}
		s := "e(" + base
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("m%d", i)
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], uint64(i)*0x9e3779b97f4a7c15)
			v := capi.Hex(string(b[:bt.Size]))
			if n <= 10 {
				nm = g.ident("mem", used)
				v = capi.HexLE(m.Flat(g.rt, capi.BasicGoType(bt), 1, "ev"))
			}
			if i == 0 && bt.BE {
				// the C library converts what is not a member to something else
				v = capi.Hex(string(make([]byte, bt.Size)))
			}
			if seen[v] {
				continue
			}
			seen[v] = true
			s += fmt.Sprintf(";%s=%s", capi.Hex(nm), v)
		}
		g.class("type enum")
		return capi.ParseHType(s + ")")
	case "o":
		g.class("type opaque")
		n := g.pick("osize", 1, 20)
		if o.big && g.pc("bigo", 15) {
			// around the sizes where the offsets of what follows take more bytes
			n = rapid.SampledFrom([]int{1 << 8, 1 << 16, 1 << 16}).Draw(g.rt, "bigsize") - g.pick("less", 0, 40)
			g.class("big opaque")
			if rapid.IntRange(0, 39).Draw(g.rt, "huge") == 23 {
				n += 1<<24 - 1<<16
				g.class("opaque of 16 MB")
			}
		}
		return capi.ParseHType(fmt.Sprintf("o%d", n))
	case "v":
		g.class("type vlen")
		return capi.ParseHType("v(" + g.subType(depth+1, o).Text + ")")
	case "a":
		g.class("type array")
		var dims []string
		for k := g.pick("arank", 1, 3); k > 0; k-- {
			dims = append(dims, fmt.Sprint(g.pick("adim", 1, 3)))
		}
		b := g.subType(depth+1, o)
		for b.Class == 'a' {
			b = b.Base
		}
		return capi.ParseHType("a(" + strings.Join(dims, ",") + ";" + b.Text + ")")
	}
	g.class("type compound")
	n := g.pick("nf", 1, 5)
	if g.pc("manyf", 3) {
		n = g.pick("manyfs", 30, 200)
		g.class("compound of many members")
	}
	off := 0
	used := map[string]bool{}
	var flds []string
	for i := 0; i < n; i++ {
		var f *capi.HType
		nm := fmt.Sprintf("f%d", i)
		if n > 10 {
			f = capi.ParseHType(stdHTypes[i%10])
		} else {
			f = g.subType(depth+1, o)
			if o.big && depth == 0 && i == 0 && n > 1 && g.pc("bigfirst", 6) {
				k := rapid.SampledFrom([]int{1 << 8, 1 << 16, 1 << 16, 1 << 16, 1 << 24}).Draw(g.rt, "firstsize")
				f = capi.ParseHType(fmt.Sprintf("o%d", k-g.pick("less", 0, 40)))
			}
			nm = g.ident("fld", used)
		}
		if g.pc("gap", 20) {
			off += g.pick("gapn", 1, 9)
			g.class("gaps in compound")
		}
		flds = append(flds, fmt.Sprintf(";%s@%d:%s", capi.Hex(nm), off, f.Text))
		off += hsize(f)
	}
	if g.pc("tail", 20) {
		off += g.pick("tailn", 1, 300)
	}
	if off > 60000 {
		g.class("compound of about 2^%d bytes or more", bits.Len(uint(off+200))-1)
	}
	return capi.ParseHType(fmt.Sprintf("c(%d%s)", off, strings.Join(flds, "")))
}

// subType draws a part of a type.
func (g *hgen) subType(depth int, o utOpts) *capi.HType {
	if depth < 4 && g.pc("nested", 30) {
		g.class("types nested")
		return g.userType(depth, o)
	}
	return g.stdType(o.strings)
}

// ---- descriptions of types ----

// sameKind compares types as the user sees them, who does not know their layout.
func sameKind(a, b *capi.HType) bool {
	isStr := func(t *capi.HType) bool { return t.Class == 's' || t.Class == 'S' }
	if isStr(a) && isStr(b) {
		return true
	}
	if a.Class != b.Class || len(a.Flds) != len(b.Flds) || len(a.Enum) != len(b.Enum) || fmt.Sprint(a.Dims) != fmt.Sprint(b.Dims) {
		return false
	}
	switch a.Class {
	case 'i', 'u', 'f', 'o', 'r':
		return a.Size == b.Size
	case 'v', 'a':
		return sameKind(a.Base, b.Base)
	case 'e':
		for i := range a.Enum {
			if a.Enum[i] != b.Enum[i] {
				return false
			}
		}
		return sameKind(a.Base, b.Base)
	case 'c':
		for i := range a.Flds {
			if a.Flds[i].Name != b.Flds[i].Name || !sameKind(a.Flds[i].Type, b.Flds[i].Type) {
				return false
			}
		}
	}
	return true
}

// matcher finds all ways in which a text can be a description of a type.
type matcher struct {
	s      string
	named  []*capi.HObj // types that can be referred to by name
	top    string       // name of the type described
	goLang bool
}

func (mt *matcher) lit(ends []int, lit string) []int {
	var r []int
	for _, p := range ends {
		if strings.HasPrefix(mt.s[p:], lit) {
			r = append(r, p+len(lit))
		}
	}
	return r
}

var cdlNames = map[string]string{"i1": "byte", "i2": "short", "i4": "int", "i8": "int64", "u1": "ubyte", "u2": "ushort", "u4": "uint", "u8": "uint64", "f4": "float", "f8": "double"}

func (mt *matcher) std(t *capi.HType) string {
	if mt.goLang {
		return capi.BasicGoType(t).String()
	}
	return cdlNames[fmt.Sprintf("%c%d", t.Class, t.Size)]
}

func (mt *matcher) typ(ends []int, t *capi.HType, top bool) []int {
	if len(ends) == 0 {
		return nil
	}
	var r []int
	if !top {
		for _, n := range mt.named {
			if sameKind(n.Type, t) {
				r = append(r, mt.lit(ends, n.Name)...)
			}
		}
	}
	switch t.Class {
	case 'i', 'u', 'f':
		r = append(r, mt.lit(ends, mt.std(t))...)
	case 's', 'S':
		r = append(r, mt.lit(ends, "string")...)
	case 'o':
		if mt.goLang {
			r = append(r, mt.lit(ends, fmt.Sprintf("[%d]uint8", t.Size))...)
		} else {
			r = append(r, mt.lit(ends, fmt.Sprintf("opaque(%d)", t.Size))...)
		}
	case 'v':
		if mt.goLang {
			r = append(r, mt.typ(mt.lit(ends, "[]"), t.Base, false)...)
		} else {
			r = append(r, mt.lit(mt.typ(ends, t.Base, false), "(*)")...)
		}
	case 'a':
		d := strings.Join(strings.Fields(strings.Trim(fmt.Sprint(t.Dims), "[]")), ",")
		if mt.goLang {
			r = append(r, mt.typ(mt.lit(ends, "["+strings.ReplaceAll(d, ",", "][")+"]"), t.Base, false)...)
		} else {
			r = append(r, mt.lit(mt.typ(ends, t.Base, false), "("+d+")")...)
		}
	case 'e':
		e := mt.lit(ends, mt.std(t.Base))
		if mt.goLang {
			e = mt.lit(e, "\nconst (\n")
		} else {
			e = mt.lit(e, " enum {\n")
		}
		for i, x := range t.Enum {
			v := capi.EnumValue(t, x)
			l := fmt.Sprintf("\t%s = %v", x.Name, v)
			if mt.goLang && i == 0 {
				l = fmt.Sprintf("\t%s %s = %v", x.Name, mt.top, v)
			}
			if i < len(t.Enum)-1 {
				if !mt.goLang {
					l += ","
				}
			}
			e = mt.lit(e, l+"\n")
		}
		if mt.goLang {
			e = mt.lit(e, ")\n")
		} else {
			e = mt.lit(e, "}")
		}
		r = append(r, e...)
	case 'c':
		e := mt.lit(ends, "compound {\n")
		if mt.goLang {
			e = mt.lit(ends, "struct {\n")
		}
		for _, f := range t.Flds {
			if mt.goLang {
				e = mt.lit(mt.typ(mt.lit(e, "\t"+f.Name+" "), f.Type, false), "\n")
			} else {
				e = mt.lit(mt.typ(mt.lit(e, "\t"), f.Type, false), " "+f.Name+";\n")
			}
		}
		if mt.goLang {
			e = mt.lit(e, "}\n")
		} else {
			e = mt.lit(e, "}")
		}
		r = append(r, e...)
	}
	if len(r) > 20 { // many equal ways
		seen := map[int]bool{}
		var u []int
		for _, p := range r {
			if !seen[p] {
				seen[p] = true
				u = append(u, p)
			}
		}
		r = u
	}
	return r
}

// describes checks a description.
func describes(s string, t *capi.HType, top string, named []*capi.HObj, goLang bool) bool {
	mt := &matcher{s: s, named: named, top: top, goLang: goLang}
	start := []int{0}
	if goLang {
		start = mt.lit(start, "type "+top+" ")
	}
	for _, p := range mt.typ(start, t, true) {
		if p == len(s) {
			return true
		}
	}
	return false
}

// describesUse checks what is said of the type of the values of something, which can be the
// name of a type.
func describesUse(s string, t *capi.HType, name string, named []*capi.HObj, goLang bool) bool {
	mt := &matcher{s: s, named: named, top: name, goLang: goLang}
	for _, p := range mt.typ([]int{0}, t, false) {
		if p == len(s) {
			return true
		}
	}
	return false
}

// checkAttUses checks what is said of the types of attributes, of which there may be fewer
// than in the file.
func checkAttUses(am api.AttributeMap, o *capi.HObj, named []*capi.HObj) string {
	for _, k := range am.Keys() {
		a := o.Att(k)
		if a == nil || !isUser(a.Type) && a.Type.Class != 'a' {
			continue
		}
		rank := len(a.Shape)
		switch {
		case a.Null:
			rank = 1
		case rank == 1 && a.Shape[0] == 1:
			rank = 0
		}
		s, has := am.GetType(k)
		base, cut := strings.CutSuffix(s, strings.Repeat("(*)", rank))
		if !has || !cut || !describesUse(base, a.Type, k, named, false) {
			return fmt.Sprintf("attribute %.60q: GetType is %.1500q, %v for %.1500s, shape %v", k, s, has, a.Type.Text, a.Shape)
		}
		s, has = am.GetGoType(k)
		base, cut = strings.CutPrefix(s, strings.Repeat("[]", rank))
		if !has || !cut || !describesUse(base, a.Type, k, named, true) {
			return fmt.Sprintf("attribute %.60q: GetGoType is %.1500q, %v for %.1500s, shape %v", k, s, has, a.Type.Text, a.Shape)
		}
	}
	return ""
}

// checkTypes checks the named types of a group and those below. HDF5 types that are
// standard ones under another name are not user-defined, they may be listed.
func checkTypes(g api.Group, o *capi.HObj, outer []*capi.HObj, path string) string {
	in := func(s string) string { return fmt.Sprintf("in group %.100q: %s", path, s) }
	var names []string
	named := append([]*capi.HObj{}, outer...)
	for _, k := range o.Kids {
		if k.Kind == "typ" {
			names = append(names, k.Name)
			named = append(named, k)
		}
	}
	if d := sameSet(g.ListTypes(), names); d != "" {
		return in("ListTypes: " + d)
	}
	for _, k := range o.Kids {
		if k.Kind != "typ" {
			continue
		}
		s, has := g.GetType(k.Name)
		if !has || !describes(s, k.Type, k.Name, named, false) {
			return in(fmt.Sprintf("GetType(%.60q) = %.1500q, %v for %.1500s", k.Name, s, has, k.Type.Text))
		}
		s, has = g.GetGoType(k.Name)
		if !has || !describes(s, k.Type, k.Name, named, true) {
			return in(fmt.Sprintf("GetGoType(%.60q) = %.1500q, %v for %.1500s", k.Name, s, has, k.Type.Text))
		}
	}
	if d := checkAttUses(g.Attributes(), o, named); d != "" {
		return in(d)
	}
	for _, name := range g.ListVariables() {
		k := o.Kid(name)
		if k == nil || k.Kind != "ds" {
			continue
		}
		vg, err := g.GetVarGetter(name)
		if err != nil {
			return in(fmt.Sprintf("GetVarGetter(%.60q): %v", name, err))
		}
		if isUser(k.Type) || k.Type.Class == 'a' {
			if s := vg.Type(); !describesUse(s, k.Type, name, named, false) {
				return in(fmt.Sprintf("variable %.60q: Type is %.1500q for %.1500s", name, s, k.Type.Text))
			}
			if s := vg.GoType(); !describesUse(s, k.Type, name, named, true) {
				return in(fmt.Sprintf("variable %.60q: GoType is %.1500q for %.1500s", name, s, k.Type.Text))
			}
		}
		if d := checkAttUses(vg.Attributes(), k, named); d != "" {
			return in(fmt.Sprintf("variable %.60q: %s", name, d))
		}
	}
	for _, k := range o.Kids {
		switch k.Kind {
		case "ds", "group":
			if _, has := g.GetType(k.Name); has {
				return in(fmt.Sprintf("GetType(%.60q) finds a %s", k.Name, k.Kind))
			}
			if _, has := g.GetGoType(k.Name); has {
				return in(fmt.Sprintf("GetGoType(%.60q) finds a %s", k.Name, k.Kind))
			}
		}
		if k.Kind == "group" {
			sub, err := g.GetGroup(k.Name)
			if err != nil {
				return in(fmt.Sprintf("GetGroup(%.60q): %v", k.Name, err))
			}
			d := checkTypes(sub, k, named, path+"/"+k.Name)
			sub.Close()
			if d != "" {
				return d
			}
		}
	}
	return ""
}
