package checks

import (
	"encoding/binary"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verifharness/cdfspec"
	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// odd32 and odd64 are values likely to upset a parser.
var odd64 = []uint64{0, 1, 2, 3, 4, 5, 7, 8, 10, 11, 12, 13, 0x7f, 0x80, 0xff, 0x100, 0x3ff, 0x400, 0x401, 0x7fff, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff,
	0x80000000, 0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x100000000, 0xffffffffffff, 1 << 40, 1 << 56, 1 << 60, 1<<61 + 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 4, 1<<64 - 3, 1<<64 - 2, 1<<64 - 1}

// mutate makes up to n changes to b at places chosen by place (nil: anywhere).
func mutate(rt *rapid.T, b []byte, order binary.ByteOrder, align, limit int) ([]byte, string) {
	b = append([]byte{}, b...)
	desc := ""
	for k := rapid.IntRange(1, 4).Draw(rt, "mutations"); k > 0 && len(b) > 0; k-- {
		lim := len(b)
		if limit > 0 && limit < lim && rapid.IntRange(0, 9).Draw(rt, "anywhere") > 0 {
			lim = limit
		}
		at := rapid.IntRange(0, lim-1).Draw(rt, "at")
		if rapid.IntRange(0, 4).Draw(rt, "aligned") > 0 {
			at -= at % align
		}
		switch kind := rapid.IntRange(0, 11).Draw(rt, "how"); kind {
		case 0:
			b[at] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			desc += fmt.Sprintf("flip@%d ", at)
		case 1:
			b[at] = rapid.Byte().Draw(rt, "byte")
			desc += fmt.Sprintf("byte@%d=%d ", at, b[at])
		case 2, 3, 4, 5:
			if at+4 <= len(b) {
				v := uint32(rapid.SampledFrom(odd64).Draw(rt, "v32"))
				order.PutUint32(b[at:], v)
				desc += fmt.Sprintf("u32@%d=%#x ", at, v)
			}
		case 6, 7:
			if at+8 <= len(b) {
				v := rapid.SampledFrom(odd64).Draw(rt, "v64")
				order.PutUint64(b[at:], v)
				desc += fmt.Sprintf("u64@%d=%#x ", at, v)
			}
		case 8: // small change of a field
			if at+4 <= len(b) {
				v := order.Uint32(b[at:]) + uint32(rapid.IntRange(-3, 3).Draw(rt, "delta"))
				order.PutUint32(b[at:], v)
				desc += fmt.Sprintf("u32@%d=%#x ", at, v)
			}
		case 9: // truncate
			b = b[:at]
			desc += fmt.Sprintf("cut@%d ", at)
		case 10: // remove some bytes
			n := rapid.IntRange(1, 16).Draw(rt, "n")
			if at+n <= len(b) {
				b = append(b[:at:at], b[at+n:]...)
				desc += fmt.Sprintf("del@%d+%d ", at, n)
			}
		default: // copy a piece elsewhere
			n := rapid.IntRange(1, 64).Draw(rt, "n")
			to := rapid.IntRange(0, lim-1).Draw(rt, "to")
			if rapid.Bool().Draw(rt, "al") {
				to -= to % align
			}
			if at+n <= len(b) && to+n <= len(b) {
				copy(b[to:], append([]byte{}, b[at:at+n]...))
				desc += fmt.Sprintf("copy@%d->%d+%d ", at, to, n)
			}
		}
	}
	return b, desc
}

func openMem(b []byte) func() (api.Group, error) {
	return func() (api.Group, error) { return netcdf.New(newMem(b)) }
}

func TestC11Mutated(t *testing.T) {
	rule := "valid classic files with 1-4 mutations (odd values in 4- and 8-byte fields, bit flips, cuts, deletions, copies), mostly in the header; everything of the read API is called under a panic, memory and CPU-time guard; non-trivial: the mutated file still opens"
	h.Check(t, "C11", rule, 120000, 3000000, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 4, MaxElems: 60, MaxName: 12, TruncatePc: 10, FillPc: 20})
		b, desc := mutate(rt, s.Bytes, binary.BigEndian, 4, int(cdfspec.HeaderLen(s.F)))
		h.Input("cdf", b, false)
		h.Describe(desc)
		x := exercise(openMem(b), len(b), rapid.IntRange(0, 30).Draw(rt, "full") == 0)
		if x.bad != "" {
			rt.Fatalf("%s\nmutations: %s\nfile: %x\nbefore: %s", x.bad, desc, b, s)
		}
		cl := []string{"refused at open"}
		if x.objs > 0 {
			cl[0] = "opened"
		}
		if x.valued > 0 {
			cl = append(cl, "values read")
		}
		if x.objs > 0 && x.errs > 0 {
			cl = append(cl, "opened, some call refused")
		}
		r.Case(x.objs > 0, desc+s.String(), cl...)
	})
}

// TestC11Fields puts every odd value in every 4-aligned header place of a few files.
func TestC11Fields(t *testing.T) {
	rule := "every odd value at every 4-byte place in the header (both widths) of small drawn files, one at a time; non-trivial: the file still opens"
	h.Check(t, "C11", rule, 64, 1600, func(rt *rapid.T, r *h.Rec) {
		s := m.CDFFile(rt, m.FileOpts{MaxVars: 3, MaxElems: 20, MaxName: 6, TruncatePc: 10, FillPc: 30})
		hl := int(cdfspec.HeaderLen(s.F))
		for at := 0; at+4 <= hl && at < 700; at += 4 {
			for i, v := range odd64 {
				b := append([]byte{}, s.Bytes...)
				if s.F.Version == 5 && at+8 <= len(b) {
					binary.BigEndian.PutUint64(b[at:], v)
				} else if at+4 <= len(b) {
					if i > 0 && uint32(v) == uint32(odd64[i-1]) {
						continue
					}
					binary.BigEndian.PutUint32(b[at:], uint32(v))
				}
				h.Input("cdf", b, false)
				x := exercise(openMem(b), len(b), false)
				if x.bad != "" {
					rt.Fatalf("%s\n%#x at %d\nfile: %x\nbefore: %s", x.bad, v, at, b, s)
				}
				c := "refused at open"
				if x.objs > 0 {
					c = "opened"
				}
				r.Case(x.objs > 0, fmt.Sprintf("%#x@%d %s", v, at, s), c)
			}
		}
	})
}

// TestC11Garbage: bytes that only start like a classic file.
func TestC11Garbage(t *testing.T) {
	rule := "random bytes, behind a valid magic number and sometimes a valid start; non-trivial: at least 16 bytes"
	h.Check(t, "C11", rule, 60000, 1500000, func(rt *rapid.T, r *h.Rec) {
		b := append([]byte("CDF"), rapid.SampledFrom([]byte{1, 2, 5, 0, 3, 255}).Draw(rt, "v"))
		n := rapid.IntRange(0, 40).Draw(rt, "words")
		for i := 0; i < n; i++ {
			w := rapid.SampledFrom(odd64).Draw(rt, "w")
			if b[3] == 5 && rapid.Bool().Draw(rt, "wide") {
				b = binary.BigEndian.AppendUint64(b, w)
			} else {
				b = binary.BigEndian.AppendUint32(b, uint32(w))
			}
		}
		if rapid.Bool().Draw(rt, "tail") {
			b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "tailbytes")...)
		}
		h.Input("cdf", b, false)
		x := exercise(openMem(b), len(b), false)
		if x.bad != "" {
			rt.Fatalf("%s\nfile: %x", x.bad, b)
		}
		c := "refused at open"
		if x.objs > 0 {
			c = "opened"
		}
		r.Case(len(b) >= 16, fmt.Sprintf("%x", b), c)
	})
}
