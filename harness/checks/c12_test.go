package checks

import (
	"encoding/binary"
	"fmt"
	"os"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h"
	"verifharness/h5sum"
	"verifharness/m"
)

// someHDF5 draws a small valid HDF5 file, from the C libraries or the library's own
// writer. It returns nil if the C library refused to make it.
func someHDF5(rt *rapid.T, r *h.Rec, path string) (b []byte, desc string, classes []string) {
	switch k := rapid.IntRange(0, 11).Draw(rt, "source"); {
	case k >= 10:
		g := newHGen(rt)
		g.newFile(path)
		if rapid.Bool().Draw(rt, "dense") {
			g.add("HPHASE 1 0 1 0")
		}
		budget := rapid.IntRange(5, 60).Draw(rt, "budget")
		var linkable []int
		g.hAtts(0)
		g.hTree(0, 0, &budget, &linkable)
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return nil, "", nil
		}
		if !intact(r, g, path) {
			return nil, "", nil
		}
		desc, classes = g.desc(), []string{"groups"}
	case k <= 2:
		g := newHGen(rt)
		h5Types(g, path, utOpts{arrays: true, strings: true, attRank: 1}, dsOpts{maxRank: 3, maxElems: 12, filters: true, unwritten: true})
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return nil, "", nil
		}
		if !intact(r, g, path) {
			return nil, "", nil
		}
		desc, classes = g.desc(), []string{"user-defined types"}
	case k <= 5:
		g := newHGen(rt)
		g.newFile(path)
		for i := g.pick("nds", 1, 3); i > 0; i-- {
			g.dataset(0, fmt.Sprintf("d%d", i), g.stdType(true), dsOpts{maxRank: 3, maxElems: 40, filters: true, unwritten: true})
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return nil, "", nil
		}
		if !intact(r, g, path) {
			return nil, "", nil
		}
		desc, classes = g.desc(), []string{"datasets"}
	case k <= 7:
		g := ncProgram(rt, path, ncOpts{types: k == 6, maxVars: 4, maxGroups: 2, maxElems: 20, maxAtts: 3, partial: true, many: rapid.IntRange(0, 4).Draw(rt, "many") == 0})
		if makeNC(r, g, path) == nil {
			return nil, "", nil
		}
		desc, classes = g.desc(), []string{"NetCDF-4"}
	default:
		p := m.H5Prog(rt, m.H5Opts{MaxVars: 4, MaxGroups: 2, MaxElems: 20, MaxName: 10})
		return writeH5(rt, p, path), p.String(), []string{"own writer"}
	}
	b, err := os.ReadFile(path)
	if err != nil {
		capi.Infra("%v", err)
	}
	if len(b) > 1<<18 {
		r.Discarded("too large")
		return nil, "", nil
	}
	return b, desc, classes
}

// intact tells whether the file holds what the C library was told to write.
// It sometimes leaves a reference to a heap object it never wrote.
func intact(r *h.Rec, g *hgen, path string) bool {
	root, err := capi.HDumpFile(path)
	if err != nil {
		r.Discarded("the C library does not read what it wrote")
		return false
	}
	if !g.kept(root) {
		r.Discarded("the C library lost values it wrote")
		return false
	}
	return true
}

// hot lists the places of a file at or next to something that is not zero.
func hot(b []byte) []int {
	near := make([]bool, len(b))
	for i, c := range b {
		if c != 0 {
			for j := max(0, i-3); j <= i+3 && j < len(b); j++ {
				near[j] = true
			}
		}
	}
	var r []int
	for i, n := range near {
		if n {
			r = append(r, i)
		}
	}
	return r
}

// mutateH5 makes a few changes to the hot places.
func mutateH5(rt *rapid.T, b []byte, at []int) ([]byte, string) {
	b = append([]byte{}, b...)
	desc := ""
	le := binary.LittleEndian
	pick := func() int { return at[rapid.IntRange(0, len(at)-1).Draw(rt, "at")] }
	put := func(p, w int, v uint64) {
		for i := 0; i < w && p+i < len(b); i++ {
			b[p+i] = byte(v >> (8 * i))
		}
		desc += fmt.Sprintf("u%d@%d=%#x ", 8*w, p, v)
	}
	for k := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 3, 4}).Draw(rt, "mutations"); k > 0; k-- {
		p := pick()
		if p >= len(b) {
			continue
		}
		switch kind := rapid.IntRange(0, 15).Draw(rt, "how"); kind {
		case 0, 1:
			put(p, 1, uint64(b[p])^1<<rapid.IntRange(0, 7).Draw(rt, "bit"))
		case 2, 3, 4:
			put(p, 1, uint64(rapid.Byte().Draw(rt, "byte")))
		case 5:
			put(p, 1, uint64(b[p])+uint64(rapid.IntRange(-2, 2).Draw(rt, "delta")))
		case 6, 7:
			put(p, 2, rapid.SampledFrom(odd64).Draw(rt, "v16"))
		case 8, 9:
			put(p, 4, rapid.SampledFrom(odd64).Draw(rt, "v32"))
		case 10, 11:
			put(p, 8, rapid.SampledFrom(odd64).Draw(rt, "v64"))
		case 12: // an address of something else
			put(p-p%8, 8, uint64(pick()))
		case 13:
			if rapid.IntRange(0, 3).Draw(rt, "cut") == 0 {
				b = b[:p]
				desc += fmt.Sprintf("cut@%d ", p)
			} else if p+8 <= len(b) {
				put(p, 8, le.Uint64(b[p:])+uint64(rapid.IntRange(-9, 9).Draw(rt, "delta")))
			}
		default: // copy a piece elsewhere
			n := rapid.SampledFrom([]int{1, 2, 4, 8, 8, 16, 32, 100}).Draw(rt, "n")
			to := pick()
			if p+n <= len(b) && to+n <= len(b) {
				copy(b[to:], append([]byte{}, b[p:p+n]...))
				desc += fmt.Sprintf("copy@%d->%d+%d ", p, to, n)
			}
		}
	}
	return b, desc
}

func exClasses(x *exerciser) []string {
	if x.objs == 0 {
		return []string{"refused at open"}
	}
	cl := []string{"opened"}
	if x.valued > 0 {
		cl = append(cl, "values read")
	}
	if x.errs > 0 {
		cl = append(cl, "opened, some call refused")
	}
	return cl
}

func TestC12Mutated(t *testing.T) {
	rule := "small valid HDF5 files of every source (C libraries, own writer; user-defined types, filters, groups, dense storage), each with 12 times 1-4 mutations (odd values in fields of 1 to 8 bytes, bit flips, addresses exchanged, pieces copied, cuts) at places that are not all zeros, with the metadata checksums repaired 4 times of 5; everything of the read API is called under a panic, memory and CPU-time guard; non-trivial: the mutated file still opens"
	h.Check(t, "C12", rule, 8000, 400000, func(rt *rapid.T, r *h.Rec) {
		orig, src, cl := someHDF5(rt, r, h.Path("c12.nc"))
		if orig == nil {
			return
		}
		sums := h5sum.Find(orig)
		at := hot(orig)
		for k := 0; k < 12; k++ {
			b, desc := mutateH5(rt, orig, at)
			if rapid.IntRange(0, 4).Draw(rt, "repair") > 0 {
				h5sum.Repair(b, sums)
				desc += "repaired"
			}
			h.Begin("")
			h.Input("h5", b, false)
			h.Describe(desc + "\n" + src)
			x := exercise(openMem(b), len(b), rapid.IntRange(0, 30).Draw(rt, "full") == 0)
			if x.bad != "" {
				rt.Fatalf("%s\nmutations: %s\nof the file made by: %s", x.bad, desc, src)
			}
			r.Case(x.objs > 0, desc+src, append(exClasses(x), cl...)...)
		}
	})
}

// TestC12Fields goes through all places of a file.
func TestC12Fields(t *testing.T) {
	rule := "at every place of small valid HDF5 files that is not all zeros, three odd values of drawn widths, one at a time, with the metadata checksums repaired; non-trivial: the mutated file still opens"
	h.Check(t, "C12", rule, 64, 8000, func(rt *rapid.T, r *h.Rec) {
		orig, src, cl := someHDF5(rt, r, h.Path("c12f.nc"))
		if orig == nil {
			return
		}
		sums := h5sum.Find(orig)
		at := hot(orig)
		if len(at) > 1500 {
			at = at[:1500]
		}
		seed := rapid.Uint64().Draw(rt, "seed")
		next := func() uint64 {
			seed ^= seed << 13
			seed ^= seed >> 7
			seed ^= seed << 17
			return seed
		}
		seed |= 1
		for _, p := range at {
			for k := 0; k < 3; k++ {
				b := append([]byte{}, orig...)
				w := []int{1, 1, 2, 4, 8}[next()%5]
				v := odd64[next()%uint64(len(odd64))]
				if w == 1 && next()%2 == 0 {
					v = next() % 256
				}
				for i := 0; i < w && p+i < len(b); i++ {
					b[p+i] = byte(v >> (8 * i))
				}
				h5sum.Repair(b, sums)
				h.Begin("")
				h.Input("h5", b, false)
				desc := fmt.Sprintf("u%d@%d=%#x", 8*w, p, v)
				h.Describe(desc + "\n" + src)
				x := exercise(openMem(b), len(b), false)
				if x.bad != "" {
					rt.Fatalf("%s\nmutation: %s\nof the file made by: %s", x.bad, desc, src)
				}
				r.Case(x.objs > 0, desc+src, append(exClasses(x), cl...)...)
			}
		}
	})
}

// TestC12Garbage: bytes that only start like an HDF5 file.
func TestC12Garbage(t *testing.T) {
	rule := "random bytes behind the HDF5 signature (at offset 0 or 512) and a superblock of drawn version; non-trivial: at least 48 bytes"
	h.Check(t, "C12", rule, 20000, 400000, func(rt *rapid.T, r *h.Rec) {
		var b []byte
		if rapid.IntRange(0, 9).Draw(rt, "userblock") == 0 {
			b = make([]byte, 512)
		}
		base := len(b)
		b = append(b, "\x89HDF\r\n\x1a\n"...)
		b = append(b, rapid.SampledFrom([]byte{0, 0, 1, 2, 2, 3, 3, 4, 255}).Draw(rt, "version"))
		if rapid.IntRange(0, 5).Draw(rt, "plain") == 0 {
			b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 150).Draw(rt, "rest")...)
		} else {
			if b[base+8] < 2 {
				b = append(b, 0, 0, 0, 0, 8, 8, 0, 4, 0, 16, 0, 0, 0, 0, 0)
				if b[base+8] == 1 {
					b = append(b, 32, 0, 0, 0)
				}
			} else {
				b = append(b, 8, 8, 0)
			}
			for n := rapid.IntRange(0, 12).Draw(rt, "words"); n > 0; n-- {
				v := rapid.SampledFrom(odd64).Draw(rt, "w")
				if rapid.Bool().Draw(rt, "small") {
					v = uint64(rapid.IntRange(0, 256).Draw(rt, "addr"))
				}
				b = binary.LittleEndian.AppendUint64(b, v)
			}
			if b[base+8] >= 2 && len(b) >= base+48 {
				binary.LittleEndian.PutUint32(b[base+44:], h5sum.Lookup3(b[base:base+44]))
			}
			if rapid.Bool().Draw(rt, "ohdr") {
				// an object header with random messages where the superblock says
				p := uint64(len(b))
				if b[base+8] >= 2 && len(b) >= base+48 {
					binary.LittleEndian.PutUint64(b[base+36:], p-uint64(base))
					binary.LittleEndian.PutUint32(b[base+44:], h5sum.Lookup3(b[base:base+44]))
				}
				o := []byte("OHDR\x02\x02")
				var ms []byte
				for n := rapid.IntRange(0, 5).Draw(rt, "messages"); n > 0; n-- {
					body := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 1, 2, 3, 4, 5, 8, 16, 255}), 0, 40).Draw(rt, "body")
					ms = append(ms, byte(rapid.IntRange(0, 0x17).Draw(rt, "type")), byte(len(body)), byte(len(body)>>8), rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 0xff}).Draw(rt, "flags"))
					ms = append(ms, body...)
				}
				o = binary.LittleEndian.AppendUint32(o, uint32(len(ms)))
				o = append(o, ms...)
				o = binary.LittleEndian.AppendUint32(o, h5sum.Lookup3(o))
				b = append(b, o...)
			}
		}
		h.Begin("")
		h.Input("h5", b, false)
		x := exercise(openMem(b), len(b), false)
		if x.bad != "" {
			rt.Fatalf("%s\nfile: %x", x.bad, b)
		}
		r.Case(len(b) >= 48, fmt.Sprintf("%x", b), exClasses(x)...)
	})
}
