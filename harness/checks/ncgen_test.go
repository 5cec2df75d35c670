package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/m"
)

// ngen draws files made with the NetCDF C library, as commands for the helper.
type ngen struct {
	*hgen
	o      ncOpts
	puts   []string
	budget int // variables left
	ngrp   int
	groups int
	nvars  int
	ntypes int
	natts  int
	cells  map[string]*ncCells // by path
}

// ncCells are the elements written to a variable.
type ncCells struct {
	t    *ntype
	at   map[string]string
	fill string // of those that aren't, if all variables are tracked
	own  bool   // a fill value of its own
}

// eachIndex goes over all indexes of a shape in order.
func eachIndex(shape []int, f func(ix []int)) {
	ix := make([]int, len(shape))
	for i := m.Prod(shape); i > 0; i-- {
		f(ix)
		for j := len(ix) - 1; j >= 0; j-- {
			if ix[j]++; ix[j] < shape[j] {
				break
			}
			ix[j] = 0
		}
	}
}

// take is how many tokens n values of a type have.
func (t *ntype) take(tk []string, n int) int {
	k := 0
	switch t.class {
	case capi.String, capi.Opaque, capi.Enum:
		return n
	case capi.VLen:
		for ; n > 0; n-- {
			m, _ := strconv.Atoi(tk[k])
			k++
			if m == 0 {
				k++
			} else {
				k += t.base.take(tk[k:], m)
			}
		}
	case capi.Compound:
		for ; n > 0; n-- {
			for _, f := range t.flds {
				k += f.t.take(tk[k:], m.Prod(f.dims))
			}
		}
	default:
		return 1
	}
	return k
}

// join joins elements of a type.
func (t *ntype) join(e []string) string {
	if t.class < capi.String {
		return strings.Join(e, "")
	}
	return strings.Join(e, " ")
}

// hToks is n values in the notation for HDF5 files, and how many tokens they have here.
func (t *ntype) hToks(tk []string, n int) (out []string, k int) {
	switch t.class {
	case capi.String:
		return tk[:n], n
	case capi.Opaque, capi.Enum:
		if n == 0 {
			return nil, 0
		}
		return []string{strings.Join(tk[:n], "")}, n
	case capi.VLen, capi.Compound:
		part := func(t *ntype, m int) {
			o, u := t.hToks(tk[k:], m)
			out = append(out, o...)
			k += u
		}
		for ; n > 0; n-- {
			if t.class == capi.Compound {
				for _, f := range t.flds {
					part(f.t, m.Prod(f.dims))
				}
				continue
			}
			m, _ := strconv.Atoi(tk[k])
			out = append(out, tk[k])
			k++
			if m == 0 {
				k++
			} else {
				part(t.base, m)
			}
		}
		return out, k
	}
	return tk[:1], 1
}

// ncDefault is the element that is read where nothing was written.
func ncDefault(t *ntype) string {
	switch t.class {
	case 1:
		return defaultToks(capi.ParseHType("i1"))
	case 2:
		return "00"
	case 3:
		return defaultToks(capi.ParseHType("i2"))
	case 4:
		return defaultToks(capi.ParseHType("i4"))
	case 5:
		return defaultToks(capi.ParseHType("f4"))
	case 6:
		return defaultToks(capi.ParseHType("f8"))
	case 7:
		return defaultToks(capi.ParseHType("u1"))
	case 8:
		return defaultToks(capi.ParseHType("u2"))
	case 9:
		return defaultToks(capi.ParseHType("u4"))
	case 10:
		return defaultToks(capi.ParseHType("i8"))
	case 11:
		return defaultToks(capi.ParseHType("u8"))
	case capi.String:
		return capi.Hex("")
	case capi.Enum:
		return ncDefault(t.base)
	}
	return ncZero(t, 1)
}

// ncZero is n elements of nothing but zeros.
func ncZero(t *ntype, n int) string {
	var out []string
	for i := 0; i < n; i++ {
		switch t.class {
		case capi.String:
			out = append(out, capi.Hex(""))
		case capi.VLen:
			out = append(out, "0 -")
		case capi.Compound:
			for _, f := range t.flds {
				out = append(out, ncZero(f.t, m.Prod(f.dims)))
			}
		default:
			out = append(out, capi.Hex(string(make([]byte, t.size))))
		}
	}
	if t.class < capi.String {
		return strings.Join(out, "")
	}
	return strings.Join(out, " ")
}

type ncOpts struct {
	types     bool // user-defined types
	maxVars   int
	maxGroups int
	maxElems  int
	maxAtts   int
	many      bool // sometimes many things of a kind
	partial   bool // leave parts of variables unwritten
	plain     bool // no filters, chunk shapes and so on
	track     bool // keep the elements of all variables
	bigDims   bool // dimensions that no variable could have
}

type ndim struct {
	slot, len int
	unlim     bool
	name      string
}

// ntype is a NetCDF type: a standard one or one defined in the file.
type ntype struct {
	tok         string
	class       int
	size, align int
	base        *ntype
	flds        []nfld
	mem         []string // enum values in hex
	depth       int
	vlen        bool // of variable size, or with such a part
}

type nfld struct {
	name string
	off  int
	t    *ntype
	dims []int
}

type ngroup struct {
	slot  int
	path  string
	dims  []*ndim // visible ones, nearest last
	own   []*ndim
	big   []*ndim
	types []*ntype
	names map[string]bool
}

var ncSizes = []int{0, 1, 1, 2, 4, 4, 8, 1, 2, 4, 8, 8, 8}

func ncStd(t int) *ntype {
	return &ntype{tok: fmt.Sprint(t), class: t, size: ncSizes[t], align: ncSizes[t], vlen: t == capi.String}
}

// ncName draws a name libnetcdf takes as it is: it knows no more than 256 bytes and
// normalizes combining characters.
func (g *ngen) name(label string, used map[string]bool) string {
	s := strings.ReplaceAll(m.Name(g.rt, label, 120), "\u0301", "")
	for strings.HasSuffix(s, " ") {
		s = s[:len(s)-1]
	}
	if s == "" {
		s = "n"
	}
	for k := 0; used[s] || h5Internal[s]; k++ {
		s = fmt.Sprintf("%s%d", s, k)
	}
	used[s] = true
	return s
}

func (g *ngen) stdNC(strs, chars bool) *ntype {
	var ts []int
	for t := 1; t <= 12; t++ {
		if t == 2 && !chars || t == 12 && !strs {
			continue
		}
		ts = append(ts, t)
	}
	return ncStd(rapid.SampledFrom(ts).Draw(g.rt, "t"))
}

// anyType draws a type visible in the group.
func (g *ngen) anyType(gr *ngroup) *ntype {
	if len(gr.types) > 0 && g.pc("usertype", 60) {
		return rapid.SampledFrom(gr.types).Draw(g.rt, "ut")
	}
	return g.stdNC(true, true)
}

func roundUp(n, a int) int { return (n + a - 1) / a * a }

// defType defines a type in the group.
func (g *ngen) defType(gr *ngroup) {
	t := &ntype{}
	slot := g.newSlot()
	t.tok = fmt.Sprintf("@%d", slot)
	kind := rapid.SampledFrom([]string{"opaque", "vlen", "enum", "compound", "compound"}).Draw(g.rt, "kind")
	name := g.name("tn", gr.names)
	pre := fmt.Sprintf("TYPE %d %d %s %s", slot, gr.slot, kind, capi.Hex(name))
	sub := func() *ntype {
		b := g.anyType(gr)
		for b.depth > 2 {
			b = g.stdNC(true, true)
		}
		t.depth = max(t.depth, b.depth+1)
		return b
	}
	switch kind {
	case "opaque":
		t.class, t.align, t.size = capi.Opaque, 1, g.pick("osize", 1, 20)
		g.add("%s %d", pre, t.size)
	case "vlen":
		t.class, t.align, t.size, t.base, t.vlen = capi.VLen, 8, 16, sub(), true
		g.add("%s %s", pre, t.base.tok)
	case "enum":
		ints := []int{1, 3, 4, 7, 8, 9, 10, 11}
		b := ncStd(rapid.SampledFrom(ints).Draw(g.rt, "ebase"))
		t.class, t.align, t.size, t.base = capi.Enum, b.align, b.size, b
		n := g.pick("nmem", 1, 6)
		if g.pc("manymem", 4) {
			n = g.pick("manymems", 100, 600)
			if b.size == 1 {
				n = min(n, 250)
			}
			g.class("enum of many members")
		}
		used := map[string]bool{}
		seen := map[string]bool{}
		s := ""
		for i := 0; i < n; i++ {
			var nm string
			if n > 10 {
				nm = fmt.Sprintf("m%d", i)
			} else {
				nm = g.name("mem", used)
			}
			v := fmt.Sprintf("%02x", i%256) + strings.Repeat("00", b.size-1)
			if b.size > 1 {
				v = fmt.Sprintf("%02x%02x", i%256, i/256) + strings.Repeat("00", b.size-2)
			}
			if n <= 10 {
				v = capi.HexLE(m.Flat(g.rt, capi.GoType(b.class), 1, "ev"))
			}
			if seen[v] {
				continue
			}
			seen[v] = true
			s += " " + capi.Hex(nm) + " " + v
			t.mem = append(t.mem, v)
		}
		g.add("%s %s %d%s", pre, b.tok, len(t.mem), s)
	case "compound":
		n := g.pick("nf", 1, 5)
		if g.pc("manyf", 4) {
			n = g.pick("manyfs", 30, 300)
			g.class("compound of many members")
		}
		used := map[string]bool{}
		t.class, t.align = capi.Compound, 1
		off := 0
		s := ""
		for i := 0; i < n; i++ {
			f := nfld{}
			if n > 10 {
				f.name = fmt.Sprintf("f%d", i)
				f.t = ncStd(1 + i%11)
			} else {
				f.name = g.name("fld", used)
				f.t = sub()
			}
			if f.t.class != capi.String && g.pc("arr", 20) {
				for k := g.pick("ard", 1, 3); k > 0; k-- {
					f.dims = append(f.dims, g.pick("are", 1, 3))
				}
				g.class("array member")
			}
			off = roundUp(off, f.t.align)
			f.off = off
			off += f.t.size * m.Prod(f.dims)
			t.align = max(t.align, f.t.align)
			t.flds = append(t.flds, f)
			t.vlen = t.vlen || f.t.vlen
			s += fmt.Sprintf(" %s %d %s %d%s", capi.Hex(f.name), f.off, f.t.tok, len(f.dims), ints(f.dims))
		}
		t.size = roundUp(off, t.align)
		g.add("%s %d %d%s", pre, t.size, n, s)
	}
	g.class("type %s", kind)
	if t.depth > 1 {
		g.class("types nested")
	}
	g.ntypes++
	gr.types = append(gr.types, t)
}

// ncTokens draws n values.
func (g *ngen) ncTokens(t *ntype, n int) string {
	var out []string
	switch t.class {
	case capi.String:
		for _, s := range m.Flat(g.rt, m.StringType, n, "v").([]string) {
			out = append(out, capi.Hex(s))
		}
	case capi.Opaque:
		for i := 0; i < n; i++ {
			b := make([]byte, t.size)
			mul := g.pick("mul", 0, 255)
			for j := range b {
				b[j] = byte((j + 1) * mul)
			}
			out = append(out, capi.Hex(string(b)))
		}
	case capi.Enum:
		for i := 0; i < n; i++ {
			out = append(out, rapid.SampledFrom(t.mem).Draw(g.rt, "em"))
		}
	case capi.VLen:
		for i := 0; i < n; i++ {
			k := g.pick("vlen", 0, 3)
			out = append(out, fmt.Sprint(k))
			if k == 0 {
				out = append(out, "-")
			} else {
				out = append(out, g.ncTokens(t.base, k))
			}
		}
	case capi.Compound:
		for i := 0; i < n; i++ {
			for _, f := range t.flds {
				out = append(out, g.ncTokens(f.t, m.Prod(f.dims)))
			}
		}
	case 2:
		b := make([]byte, n)
		s := m.Str(g.rt, "chars", n)
		copy(b, s)
		if g.pc("fullchars", 60) {
			for i := len(s); i < n; i++ {
				b[i] = "abcdefgh xyz"[i%12]
			}
		}
		return capi.Hex(string(b))
	default:
		return capi.HexLE(m.Flat(g.rt, capi.GoType(t.class), n, "v"))
	}
	return strings.Join(out, " ")
}

func (g *ngen) atts(gr *ngroup, v int, max int) {
	n := g.pick("natts", 0, max)
	if g.o.many && g.pc("manyatts", 5) {
		n = g.pick("manyattsn", 9, 60)
		g.class("many attributes")
	}
	used := map[string]bool{"_FillValue": true}
	for i := 0; i < n; i++ {
		t := g.anyType(gr)
		k := g.pick("alen", 0, 4)
		switch {
		case t.class == 2:
			k = g.pick("clen", 0, 20)
		case t.class > capi.String && k == 0:
			k = 1 // the C library makes a null attribute of no values
		}
		if g.o.many && t.class <= 11 && g.pc("longatt", 2) {
			k = g.pick("longattn", 100, 9000)
			g.class("long attribute")
		}
		nm := g.name("an", used)
		if n > 8 {
			nm = fmt.Sprintf("%.20s%d", nm, i)
			if used[nm] || strings.ToValidUTF8(nm, "") != nm {
				nm = fmt.Sprintf("att%d", i)
			}
			used[nm] = true
		}
		c := fmt.Sprintf("ATT %d %d %s %s %d", gr.slot, v, capi.Hex(nm), t.tok, k)
		if k > 0 {
			c += " " + g.ncTokens(t, k)
		}
		g.add("%s", c)
		g.natts++
		if t.class > capi.String {
			g.class("attribute of a user type")
		}
		if k == 0 {
			g.class("empty attribute")
		}
	}
}

func (g *ngen) variable(gr *ngroup) {
	g.budget--
	g.nvars++
	slot := g.newSlot()
	t := g.anyType(gr)
	var dims []*ndim
	name := ""
	switch k := g.pick("coord", 0, 5); {
	case k == 0 && len(gr.own) > 0: // a coordinate variable, or one only named like a dimension
		d := rapid.SampledFrom(gr.own).Draw(g.rt, "cd")
		if !gr.names[d.name] {
			name = d.name
			if !g.pc("noncoord", 20) {
				dims = append(dims, d)
				g.class("coordinate variable")
				if g.pc("coordmd", 15) && len(gr.dims) > 0 {
					dims = append(dims, rapid.SampledFrom(gr.dims).Draw(g.rt, "cd2"))
					g.class("coordinate variable of rank 2")
				}
			} else {
				for i := g.pick("ncrank", 0, 2); i > 0 && len(gr.dims) > 0; i-- {
					dims = append(dims, rapid.SampledFrom(gr.dims).Draw(g.rt, "vd"))
				}
				if len(dims) == 0 || dims[0] != d {
					g.class("variable named like a dimension not its own")
				}
			}
		}
	}
	if name == "" {
		for name == "" || len(name) > 0 && g.isDim(gr, name) {
			name = g.name("vn", gr.names)
		}
		for i := g.pick("vrank", 0, 4); i > 0 && len(gr.dims) > 0; i-- {
			d := rapid.SampledFrom(gr.dims).Draw(g.rt, "vd")
			if m.Prod(lens(dims))*max(d.len, 1) <= g.o.maxElems {
				dims = append(dims, d)
			}
		}
	} else {
		gr.names[name] = true
	}
	c := fmt.Sprintf("VAR %d %d %s %s %d", slot, gr.slot, capi.Hex(name), t.tok, len(dims))
	unlim := false
	zero := false
	for _, d := range dims {
		c += fmt.Sprintf(" %d", d.slot)
		unlim = unlim || d.unlim
		zero = zero || d.len == 0
	}
	g.add("%s", c)
	rank := len(dims)
	g.class("rank %d", rank)
	if unlim && (g.pc("smallchunks", 97) || rank > 1) {
		// otherwise the chunks take megabytes; what's chosen below replaces this
		cs := ""
		for _, d := range dims {
			cs += fmt.Sprintf(" %d", max(1, d.len))
		}
		g.add("CHUNK %d %d 0 %d%s", gr.slot, slot, rank, cs)
	}
	if rank > 0 && !g.o.plain {
		switch k := g.pick("storage", 0, 5); {
		case k == 0 && !unlim:
			g.add("CHUNK %d %d 1 0", gr.slot, slot)
			g.class("contiguous")
		case k == 1 && !unlim && !zero && t.size*m.Prod(lens(dims)) < 60000:
			g.add("CHUNK %d %d 2 0", gr.slot, slot)
			g.class("compact")
		case k >= 3 && !zero:
			cs := ""
			for _, d := range dims {
				hi := d.len
				if d.unlim {
					hi += 2
				}
				cs += fmt.Sprintf(" %d", g.pick("chunk", 1, hi))
			}
			g.add("CHUNK %d %d 0 %d%s", gr.slot, slot, rank, cs)
			g.class("chunked")
			if g.pc("defl", 50) && !t.vlen {
				g.add("DEFLATE %d %d %d %d %d", gr.slot, slot, b2i(g.pc("sh", 50)), 1, g.pick("lev", 1, 9))
				g.class("deflated")
			}
			if g.pc("flet", 30) && !t.vlen {
				g.add("FLETCHER %d %d", gr.slot, slot)
				g.class("fletcher32")
			}
		}
	}
	if t.class <= 11 && t.class != 2 && !g.o.plain && g.pc("endian", 25) {
		g.add("ENDIAN %d %d %d", gr.slot, slot, g.pick("en", 1, 2))
		g.class("byte order set")
	}
	full := !g.o.partial || !g.pc("part", 40)
	key := gr.path + "/" + name
	var cells *ncCells
	if g.o.track {
		cells = &ncCells{t: t, at: map[string]string{}, fill: ncDefault(t)}
		if g.cells == nil {
			g.cells = map[string]*ncCells{}
		}
		g.cells[key] = cells
	}
	if (t.class <= 12 || g.o.track && (t.class == capi.Enum || t.class == capi.Opaque)) && g.pc("fv", 25) {
		fv := g.ncTokens(t, 1)
		g.add("FILL %d %d 0 %s %s", gr.slot, slot, t.tok, fv)
		if cells != nil {
			cells.fill = fv
			cells.own = true
		}
		g.class("fill value")
	} else if full && t.class <= 11 && g.pc("nofill", 10) {
		g.add("FILL %d %d 1 1", gr.slot, slot)
		g.class("no fill")
	}
	g.atts(gr, slot, g.o.maxAtts)
	put := func(st, ct []int) {
		n := m.Prod(ct)
		if n == 0 {
			return
		}
		var text string
		if t.vlen && t.class > capi.String || g.o.track {
			// keep the elements, to see whether the C library does
			v := g.cells[key]
			if v == nil {
				v = &ncCells{t: t, at: map[string]string{}}
				if g.cells == nil {
					g.cells = map[string]*ncCells{}
				}
				g.cells[key] = v
			}
			var all []string
			eachIndex(ct, func(ix []int) {
				at := make([]int, rank)
				for i := range ix {
					at[i] = st[i] + ix[i]
				}
				e := g.ncTokens(t, 1)
				v.at[fmt.Sprint(at)] = e
				all = append(all, e)
			})
			text = t.join(all)
		} else {
			text = g.ncTokens(t, n)
		}
		g.puts = append(g.puts, fmt.Sprintf("PUT %d %d %s %d%s%s %s", gr.slot, slot, t.tok, rank, ints(st), ints(ct), text))
		if n > 1 {
			g.nontriv = true
		}
	}
	if full {
		put(make([]int, rank), lens(dims))
		return
	}
	g.class("partly written")
	for k := g.pick("nput", 0, 2); k > 0; k-- {
		st, ct := make([]int, rank), make([]int, rank)
		for i, d := range dims {
			if d.len == 0 {
				ct[i] = 0
				continue
			}
			st[i] = g.pick("pst", 0, d.len-1)
			ct[i] = g.pick("pct", 1, d.len-st[i])
		}
		put(st, ct)
	}
}

func (g *ngen) isDim(gr *ngroup, name string) bool {
	for _, d := range append(gr.own, gr.big...) {
		if d.name == name {
			return true
		}
	}
	return false
}

func lens(d []*ndim) []int {
	r := make([]int, len(d))
	for i := range d {
		r[i] = d[i].len
	}
	return r
}

func (g *ngen) group(gr *ngroup, depth int) {
	dimNames := map[string]bool{}
	nd := g.pick("ndims", 0, 4)
	if depth == 0 && nd == 0 && g.pc("somedims", 80) {
		nd = 2
	}
	for i := 0; i < nd; i++ {
		d := &ndim{slot: g.newSlot(), name: g.name("dn", dimNames)}
		d.len = g.pick("dlen", 1, 6)
		if g.pc("longdim", 5) {
			d.len = g.pick("ldlen", 7, g.o.maxElems)
		}
		l := d.len
		if g.pc("unl", 25) {
			d.unlim = true
			l = 0
			if g.pc("norecs", 10) {
				d.len = 0
			}
			g.class("unlimited dimension")
		}
		g.add("DIM %d %d %s %d", d.slot, gr.slot, capi.Hex(d.name), l)
		gr.own = append(gr.own, d)
		gr.dims = append(gr.dims, d)
	}
	if g.o.bigDims {
		for i := g.pick("bigdims", 0, 2); i > 0; i-- {
			d := &ndim{slot: g.newSlot(), name: g.name("bdn", dimNames)}
			e := rapid.SampledFrom([]int{15, 16, 24, 31, 32, 33, 40, 48, 58}).Draw(g.rt, "bdl")
			d.len = 1<<e + g.pick("bdl+", -3, 3)
			g.class("dimension of 2^%d or so", e)
			g.add("DIM %d %d %s %d", d.slot, gr.slot, capi.Hex(d.name), d.len)
			gr.big = append(gr.big, d)
		}
	}
	if g.o.types {
		for i := g.pick("ntypes", 0, 3); i > 0; i-- {
			g.defType(gr)
		}
	}
	g.atts(gr, -1, g.o.maxAtts)
	nv := g.pick("nvars", 0, 4)
	if g.o.many && g.pc("manyvars", 4) {
		nv = g.pick("manyvarsn", 9, 40)
		g.class("many variables")
	}
	for i := 0; i < nv && g.budget > 0; i++ {
		g.variable(gr)
	}
	ng := g.pick("nsub", 0, 2)
	if g.o.many && g.pc("manygrps", 3) {
		ng = g.pick("manygrpsn", 9, 20)
		g.class("many groups")
	}
	for i := 0; i < ng && depth < 3 && g.groups < g.o.maxGroups; i++ {
		g.groups++
		sub := &ngroup{slot: g.newSlot(), names: map[string]bool{}}
		nm := g.name("gn", gr.names)
		for g.isDim(gr, nm) { // the C library takes dimensions and groups of one name for one
			nm = g.name("gn", gr.names)
		}
		sub.path = gr.path + "/" + nm
		sub.dims = append(sub.dims, gr.dims...)
		sub.types = append(sub.types, gr.types...)
		g.add("GRP %d %d %s", sub.slot, gr.slot, capi.Hex(nm))
		g.class("groups")
		g.group(sub, depth+1)
	}
}

// ncProgram draws a whole file. It returns false if the C library refuses it.
func ncProgram(rt *rapid.T, path string, o ncOpts) *ngen {
	g := &ngen{hgen: newHGen(rt), o: o, budget: o.maxVars}
	g.add("NEW %s %d 0", path, capi.ModeNetCDF4)
	root := &ngroup{names: map[string]bool{}}
	g.group(root, 0)
	g.add("ENDDEF")
	if g.o.many { // the order of writing is up to the program
		sort.SliceStable(g.puts, func(i, j int) bool { return len(g.puts[i])%7 < len(g.puts[j])%7 })
	}
	g.cmds = append(g.cmds, g.puts...)
	return g
}
