package checks

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h5sum"
	"verifharness/m"
)

// hgen draws files made with the HDF5 C library, as commands for the helper.
type hgen struct {
	rt      *rapid.T
	cmds    []string
	slot    int
	classes map[string]bool
	nontriv bool
	hidden  bool           // references to values stored elsewhere may be compressed
	written map[string]int // values with parts stored elsewhere, to see if the C library kept them
}

// note remembers values that must be read back by the C library.
func (g *hgen) note(t *capi.HType, toks string) {
	if t.HasVlen() && t.Class != 'S' {
		if g.written == nil {
			g.written = map[string]int{}
		}
		g.written[normToks(strings.Fields(toks))]++
	}
}

func normToks(toks []string) string {
	return strings.Join(toks, " ")
}

// kept checks that the C library still has the values that were written: it sometimes
// loses strings and sequences inside compounds and arrays.
func (g *hgen) kept(root *capi.HObj) bool {
	if g.dangling() {
		return false
	}
	n := map[string]int{}
	for k, v := range g.written {
		n[k] = v
	}
	var walk func(o *capi.HObj)
	walk = func(o *capi.HObj) {
		if o.Kind == "ds" || o.Kind == "att" {
			n[normToks(o.Toks)]--
		}
		for _, k := range o.Kids {
			walk(k)
		}
		for _, k := range o.Atts {
			walk(k)
		}
	}
	walk(root)
	for _, k := range n {
		if k > 0 {
			return false
		}
	}
	return true
}

// dangling tells whether the file made by the commands refers to values the C library
// freed: they may still read as the right ones by chance.
func (g *hgen) dangling() bool {
	b, err := os.ReadFile(strings.Fields(g.cmds[0])[1])
	if err != nil {
		capi.Infra("%v", err)
	}
	return h5sum.Dangling(b, g.hidden)
}

func newHGen(rt *rapid.T) *hgen { return &hgen{rt: rt, slot: 1, classes: map[string]bool{}} }

func (g *hgen) add(format string, a ...any) { g.cmds = append(g.cmds, fmt.Sprintf(format, a...)) }
func (g *hgen) class(format string, a ...any) {
	g.classes[fmt.Sprintf(format, a...)] = true
}
func (g *hgen) newSlot() int { g.slot++; return g.slot - 1 }
func (g *hgen) pick(label string, lo, hi int) int {
	return rapid.IntRange(lo, hi).Draw(g.rt, label)
}
func (g *hgen) pc(label string, pc int) bool {
	return rapid.IntRange(0, 99).Draw(g.rt, label) >= 100-pc
}

// desc describes the file: the commands, shortened.
func (g *hgen) desc() string {
	var sb strings.Builder
	for _, c := range g.cmds {
		if f := strings.Fields(c); f[0] == "HNEW" || f[0] == "NEW" {
			c = f[0] + " " + strings.Join(f[2:], " ")
		}
		if len(c) > 160 {
			c = c[:160] + fmt.Sprintf("..(%d)", len(c))
		}
		sb.WriteString(c)
		sb.WriteString("; ")
	}
	return sb.String()
}

func (g *hgen) classList() []string {
	var r []string
	for c := range g.classes {
		r = append(r, c)
	}
	sort.Strings(r)
	return r
}

// newFile draws how the file is made. (What HDF5 writes when told to use only its
// newest format has a superblock the library refuses, and NetCDF-4 files do not use it.)
func (g *hgen) newFile(path string) {
	lo := g.pick("libver", 0, 1)
	hi := g.pick("libhigh", max(lo, 1), 2)
	order := b2i(g.pc("order", 60))
	k := ""
	if lo == 0 && g.pc("ks", 15) { // with newer superblocks these need an extension, which NetCDF-4 files do not have
		k = fmt.Sprintf(" %d %d %d", g.pick("ik", 1, 40), g.pick("sik", 1, 20), g.pick("slk", 1, 10))
		g.class("own B-tree sizes")
	}
	if k == "" {
		k = " 0 0 0"
	}
	g.add("HNEW %s %d %d %d 0%s", path, lo, hi, order, k)
	g.class("format level %d", lo)
	if g.pc("phase", 40) {
		mc := g.pick("maxc", 0, 8)
		ac := g.pick("amaxc", 0, 8)
		g.add("HPHASE %d %d %d %d", mc, g.pick("mind", 0, mc), ac, g.pick("amind", 0, ac))
		g.class("own storage thresholds")
	}
}

var stdHTypes = []string{"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"}

// stdType draws a standard type.
func (g *hgen) stdType(strs bool) *capi.HType {
	k := g.pick("tk", 0, 9)
	switch {
	case strs && k == 0:
		g.class("variable-length strings")
		return capi.ParseHType("vs")
	case strs && k == 1:
		g.class("fixed-length strings")
		return capi.ParseHType(fmt.Sprintf("s%d%s", g.pick("ss", 1, 11), rapid.SampledFrom([]string{"t", "n"}).Draw(g.rt, "pad")))
	}
	s := rapid.SampledFrom(stdHTypes).Draw(g.rt, "t")
	if g.pc("be", 40) {
		s += "b"
		g.class("big-endian")
	}
	return capi.ParseHType(s)
}

// tokens draws values of the type in the helper's notation. Long runs are cheap.
func (g *hgen) tokens(t *capi.HType, n int) string {
	rt := g.rt
	var out []string
	switch t.Class {
	case 'i', 'u', 'f':
		return capi.HexLE(m.Flat(rt, capi.BasicGoType(t), n, "v"))
	case 'S':
		for _, s := range m.Flat(rt, m.StringType, n, "v").([]string) {
			out = append(out, capi.Hex(s))
		}
	case 's':
		var sb strings.Builder
		for _, s := range m.Flat(rt, m.StringType, n, "v").([]string) {
			if t.Pad == 'p' {
				s = fmt.Sprintf("%-*s", t.Size, s)
			} else if g.pc("fillup", 30) {
				s += strings.Repeat("x", t.Size)
			}
			s += strings.Repeat("\x00", t.Size)
			sb.WriteString(s[:t.Size])
		}
		return capi.Hex(sb.String())
	case 'o':
		b := make([]byte, t.Size*n)
		mul := g.pick("mul", 1, 255)
		for i := range b {
			b[i] = byte((i+1)*mul + i/7)
		}
		return capi.Hex(string(b))
	case 'e':
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteString(rapid.SampledFrom(t.Enum).Draw(rt, "em").Val)
		}
		return capi.Hex(sb.String())
	case 'c':
		for i := 0; i < n; i++ {
			for _, f := range t.Flds {
				out = append(out, g.tokens(f.Type, 1))
			}
		}
	case 'v':
		for i := 0; i < n; i++ {
			k := g.pick("vlen", 0, 4)
			out = append(out, fmt.Sprint(k))
			if k > 0 {
				out = append(out, g.tokens(t.Base, k))
			}
		}
	case 'a':
		return g.tokens(t.Base, n*m.Prod(t.Dims))
	}
	return strings.Join(out, " ")
}

func ints[T int | int64](s []T) string {
	r := ""
	for _, x := range s {
		r += fmt.Sprintf(" %d", x)
	}
	return r
}

// dsOpts of a dataset drawn.
type dsOpts struct {
	maxRank, maxElems int
	filters           bool
	unwritten         bool // may leave parts unwritten
	noZero            bool // no extents of zero
}

// dset is a dataset drawn.
type dset struct {
	slot, parent int
	name         string
	t            *capi.HType
	shape        []int
	chunk        []int
	layout       int
	fill         bool
	all          bool // completely written
}

// dataset draws a dataset with its creation and writes.
func (g *hgen) dataset(parent int, name string, t *capi.HType, o dsOpts) *dset {
	return g.datasetOf(parent, name, t, t.Text, o)
}

// datasetOf does it with a type that is written another way (a named one).
func (g *hgen) datasetOf(parent int, name string, t *capi.HType, text string, o dsOpts) *dset {
	rt := g.rt
	d := &dset{slot: g.newSlot(), parent: parent, name: name, t: t}
	rank := g.pick("rank", 0, o.maxRank)
	d.layout = rapid.SampledFrom([]int{0, 1, 2, 2, 2, 2}).Draw(rt, "layout")
	if rank == 0 && d.layout == 2 {
		d.layout = 1
	}
	budget := o.maxElems
	if d.layout == 0 && budget > 300 {
		budget = 300
	}
	shape := make([]int, rank)
	total := 1
	for i := range shape {
		lim := budget / total
		if lim > 6 && g.pick("big", 0, 5) != 0 {
			lim = 6
		}
		shape[i] = g.pick("ext", 1, max(1, lim))
		total *= shape[i]
	}
	if rank > 0 && !o.noZero && g.pc("zero", 4) {
		shape[g.pick("zdim", 0, rank-1)] = 0
		g.class("zero extent")
	}
	maxd := append([]int{}, shape...)
	unlim := false
	if d.layout == 2 {
		d.chunk = make([]int, rank)
		csize := 1
		for i := range shape {
			if maxd[i] == 0 || g.pc("unlim", 35) {
				maxd[i] = -1
				unlim = true
			} else if g.pc("maxd", 15) {
				maxd[i] += g.pick("maxdx", 0, 5)
			}
			// chunks of one, several, exactly or more than the extent
			switch g.pick("ck", 0, 5) {
			case 0:
				d.chunk[i] = 1
			case 1:
				d.chunk[i] = shape[i]
			case 2:
				d.chunk[i] = shape[i] + g.pick("cx", 0, 4)
			default:
				d.chunk[i] = g.pick("c", 1, max(1, shape[i]))
			}
			if maxd[i] >= 0 && d.chunk[i] > maxd[i] {
				d.chunk[i] = maxd[i]
			}
			if d.chunk[i] < 1 {
				d.chunk[i] = 1
			}
			csize *= d.chunk[i]
		}
		n := 1
		for i := range shape {
			n *= (shape[i] + d.chunk[i] - 1) / d.chunk[i]
		}
		switch {
		case n > 64:
			g.class("many chunks")
		case n > 1:
			g.class("several chunks")
		default:
			g.class("one chunk")
		}
		if n > 1 && rank > 2 {
			g.class("several chunks, rank > 2")
		}
		if unlim {
			g.class("unlimited dimension")
		}
	}
	g.class("layout %d", d.layout)
	g.class("rank %d", rank)
	fl := ""
	nf := 0
	if d.layout == 2 && o.filters {
		perm := rapid.Permutation([]string{fmt.Sprintf("d%d", g.pick("level", 0, 9)), "s", "f"}).Draw(rt, "filters")
		nf = g.pick("nf", 0, 3)
		kinds := []string{}
		for _, f := range perm[:nf] {
			if f == "f" && t.HasVlen() { // not possible
				continue
			}
			fl += " " + f
			kinds = append(kinds, f[:1])
		}
		nf = len(kinds)
		g.class("filters %s", strings.Join(kinds, ""))
	}
	fill := "0"
	// the C library does not reliably manage fill values that are variable-length strings
	if !t.HasVlen() && g.pc("fill", 40) {
		fill = "1 " + g.tokens(t, 1)
		d.fill = true
		g.class("own fill value")
	}
	filltime := g.pick("filltime", 0, 1)
	alloc := g.pick("alloc", 0, 3)
	if d.layout == 0 && alloc > 1 {
		alloc = 1 // compact storage is allocated early
	}
	// the sequence of writes and extents is drawn before the command is made, because
	// data of which some was never filled nor written is nothing in particular
	var steps []string
	cur := append([]int{}, shape...)
	nw := g.pick("writes", 0, 3)
	if !o.unwritten || !g.pc("partial", 55) || t.HasVlen() && t.Class != 'S' && (t.Class != 'v' || t.Base.HasVlen()) {
		nw = -1
	}
	if nw >= 0 {
		for i := 0; i < nw; i++ {
			if d.layout == 2 && g.pc("extend", 35) {
				for j := range cur {
					if maxd[j] != shape[j] && g.pc("extdim", 60) {
						hi := cur[j] + 4
						if maxd[j] >= 0 && hi > maxd[j] {
							hi = maxd[j]
						}
						cur[j] = g.pick("newext", b2i(o.noZero), hi)
					}
				}
				steps = append(steps, fmt.Sprintf("HEXT %d %d%s", d.slot, rank, ints(cur)))
				g.class("extent changed")
			}
			st := make([]int, rank)
			ct := make([]int, rank)
			n := 1
			for j := range cur {
				if cur[j] == 0 {
					n = 0
					break
				}
				st[j] = g.pick("st", 0, cur[j]-1)
				ct[j] = g.pick("ct", 1, cur[j]-st[j])
				n *= ct[j]
			}
			if n == 0 || n > 4*o.maxElems {
				continue
			}
			steps = append(steps, fmt.Sprintf("HWR %d %d%s%s %s", d.slot, rank, ints(st), ints(ct), g.tokens(t, n)))
		}
		g.class("partly written")
	} else {
		if n := m.Prod(cur); n > 0 {
			v := g.tokens(t, n)
			g.note(t, v)
			steps = append(steps, fmt.Sprintf("HWR %d %d%s%s %s", d.slot, rank, ints(make([]int, rank)), ints(cur), v))
		}
		d.all = true
		if !t.HasVlen() && g.pc("never", 15) {
			filltime = 2
		}
	}
	c := fmt.Sprintf("HDS %d %d %s %s %d %d%s%s", d.slot, parent, capi.Hex(name), text, d.layout, rank, ints(shape), ints(maxd))
	if d.layout == 2 {
		c += ints(d.chunk)
	}
	if nf > 0 && t.HasVlen() {
		g.hidden = true
	}
	g.add("%s %d%s %s %d %d", c, nf, fl, fill, filltime, alloc)
	g.cmds = append(g.cmds, steps...)
	d.shape = cur
	if m.Prod(cur) > 1 {
		g.nontriv = true
	}
	return d
}
