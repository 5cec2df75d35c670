package checks

import (
	"fmt"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verifharness/h"
	"verifharness/m"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// validName is the documented rule: the first character is a letter or digit, no
// character is a control character or a slash, and the last one is not white space.
func validName(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	rs := []rune(s)
	if len(rs) == 0 || !unicode.In(rs[0], unicode.L, unicode.N) || unicode.Is(unicode.Z, rs[len(rs)-1]) {
		return false
	}
	for _, r := range rs {
		if r == '/' || unicode.In(r, unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs) {
			return false
		}
	}
	return true
}

// open tells whether a name has characters that Unicode hasn't assigned yet, so that it
// depends on the Unicode version whether they are control characters: the writers may
// take or refuse these.
func openName(s string) bool {
	for _, r := range s {
		if !unicode.In(r, unicode.L, unicode.M, unicode.N, unicode.P, unicode.S, unicode.Z, unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs) {
			return true
		}
	}
	return false
}

// scripts are the tables names are drawn from.
var scripts = func() []*unicode.RangeTable {
	l := []*unicode.RangeTable{unicode.Cc, unicode.Cf, unicode.Co, unicode.Zs, unicode.Zl, unicode.Zp, unicode.Nd, unicode.Nl, unicode.No,
		unicode.Lu, unicode.Ll, unicode.Lt, unicode.Lm, unicode.Lo, unicode.Mn, unicode.Mc, unicode.Me, unicode.Pc, unicode.Pd, unicode.Ps, unicode.Pi, unicode.Po,
		unicode.Sm, unicode.Sc, unicode.Sk, unicode.So}
	for _, n := range sorted(keysOf(unicode.Scripts)) {
		l = append(l, unicode.Scripts[n])
	}
	return l
}()

func runeOf(rt *rapid.T, t *unicode.RangeTable) rune {
	n := 0
	for _, r := range t.R16 {
		n += int(r.Hi-r.Lo)/int(r.Stride) + 1
	}
	for _, r := range t.R32 {
		n += int(r.Hi-r.Lo)/int(r.Stride) + 1
	}
	i := rapid.IntRange(0, n-1).Draw(rt, "rune")
	for _, r := range t.R16 {
		k := int(r.Hi-r.Lo)/int(r.Stride) + 1
		if i < k {
			return rune(int(r.Lo) + i*int(r.Stride))
		}
		i -= k
	}
	for _, r := range t.R32 {
		k := int(r.Hi-r.Lo)/int(r.Stride) + 1
		if i < k {
			return rune(int(r.Lo) + i*int(r.Stride))
		}
		i -= k
	}
	panic("harness: no rune")
}

// anyName draws a name, valid or not.
func anyName(rt *rapid.T) string {
	one := func() string {
		switch rapid.IntRange(0, 19).Draw(rt, "char") {
		case 0, 1:
			return string(rune(rapid.IntRange(0, 255).Draw(rt, "latin")))
		case 2, 3, 4, 5, 6, 7, 8:
			return string(rune(rapid.IntRange(' ', '~').Draw(rt, "ascii")))
		case 9:
			return rapid.SampledFrom([]string{"/", " ", "_", "\t", "\n", ".", "-", "\x00", "\x7f", "\u00a0", "\u2028", "\ufeff", "\\", ":"}).Draw(rt, "special")
		case 10:
			if rapid.IntRange(0, 3).Draw(rt, "broken") == 0 {
				return string([]byte{byte(rapid.IntRange(128, 255).Draw(rt, "byte"))})
			}
			fallthrough
		case 11, 12, 13, 14, 15:
			return string(runeOf(rt, rapid.SampledFrom(scripts).Draw(rt, "script")))
		default:
			return rapid.SampledFrom([]string{"a", "Z", "0", "9", "é", "Ж", "中", "ب", "א", "ก", "अ", "한", "ǅ", "ʰ", "Ⅻ", "½", "𝔄"}).Draw(rt, "letter")
		}
	}
	switch rapid.IntRange(0, 5).Draw(rt, "kind") {
	case 0:
		return m.Name(rt, "name", 300)
	case 1:
		// a valid name of great length
		n := rapid.SampledFrom([]int{127, 128, 250, 255, 256, 257, 511, 1000, 1023, 4096, 20000, 32000}).Draw(rt, "len") + rapid.IntRange(-3, 3).Draw(rt, "off")
		return m.Name(rt, "name", 8) + strings.ToValidUTF8(strings.Repeat(rapid.SampledFrom([]string{"x", "é", "中", " y"}).Draw(rt, "unit"), 32100)[:n], "") + "z"
	case 2:
		return one()
	}
	var sb strings.Builder
	if rapid.Bool().Draw(rt, "start") {
		sb.WriteString(rapid.SampledFrom([]string{"a", "5", "ñ", "ア"}).Draw(rt, "first"))
	}
	for n := rapid.IntRange(1, 8).Draw(rt, "n"); n > 0; n-- {
		sb.WriteString(one())
	}
	return sb.String()
}

func TestC15Names(t *testing.T) {
	h.Check(t, "C15", "sets of names from all Unicode categories and scripts (single characters, short mixtures, long names up to 32000 bytes, broken UTF-8) as names of variables, attributes, groups and dimensions of both writers: accepted exactly if valid, read back unchanged; non-trivial: a valid name that isn't plain ASCII, or an invalid name", 60000, 1500000, func(rt *rapid.T, r *h.Rec) {
		hdf5 := rapid.Bool().Draw(rt, "hdf5")
		n := rapid.IntRange(1, 8).Draw(rt, "n")
		path := h.Path("c15.nc")
		w, err := netcdf.OpenWriter(path, c14Kind(hdf5))
		if err != nil {
			rt.Fatalf("OpenWriter: %v", err)
		}
		root := &m.Group{}
		used := map[string]bool{}
		nontriv, classes := false, map[string]bool{}
		note := func(s string, ok bool) {
			switch {
			case !ok:
				nontriv = true
				classes["invalid"] = true
			case len(s) > 255:
				nontriv = true
				classes["long"] = true
			case len(s) != utf8.RuneCountInString(s):
				nontriv = true
				classes["valid, not ASCII"] = true
			default:
				classes["valid ASCII"] = true
			}
		}
		var all []string
		verdict := func(what, s string, err error) bool {
			ok := validName(s)
			if openName(s) {
				ok = err == nil
			}
			if ok && err != nil {
				rt.Fatalf("%s %+.100q (%d bytes) is valid, but was refused: %v", what, s, len(s), err)
			}
			if !ok && err == nil {
				rt.Fatalf("%s %+.100q (%d bytes) is not valid, but was accepted", what, s, len(s))
			}
			note(s, ok)
			classes[what] = true
			all = append(all, fmt.Sprintf("%s %+.60q", what, s))
			return ok
		}
		for i := 0; i < n; i++ {
			s := anyName(rt)
			if used[s] {
				continue
			}
			kind := rapid.IntRange(0, 4).Draw(rt, "what")
			if kind == 3 && !hdf5 {
				kind = 0
			}
			if kind == 2 || kind == 1 {
				if m.H5Reserved[s] {
					continue
				}
			} else {
				used[s] = true
			}
			switch kind {
			case 0: // variable
				if verdict("variable", s, w.AddVar(s, api.Variable{Values: int32(i)})) {
					root.Vars = append(root.Vars, m.Var{Name: s, Val: int32(i)})
				}
			case 1: // global attribute, with those there are
				at := rapid.IntRange(0, len(root.Attrs)).Draw(rt, "at")
				for _, a := range root.Attrs {
					if a.Name == s {
						at = -1
					}
				}
				if at < 0 {
					continue
				}
				l := append(append(append([]m.Attr{}, root.Attrs[:at]...), m.Attr{Name: s, Val: int32(i)}), root.Attrs[at:]...)
				if verdict("global attribute", s, w.AddAttributes(rawMap(l))) {
					root.Attrs = l
				}
			case 2: // attribute of a variable
				name := fmt.Sprintf("carrier%d", i)
				used[name] = true
				if verdict("variable attribute", s, w.AddVar(name, api.Variable{Values: int32(i), Attributes: rawMap{{Name: s, Val: "v"}}})) {
					root.Vars = append(root.Vars, m.Var{Name: name, Val: int32(i), Attrs: []m.Attr{{Name: s, Val: "v"}}})
				}
			case 3: // group
				_, err := w.CreateGroup(s)
				if verdict("group", s, err) {
					root.Groups = append(root.Groups, &m.Group{Name: s})
				}
			case 4: // dimension
				name := fmt.Sprintf("carrier%d", i)
				used[name] = true
				err := w.AddVar(name, api.Variable{Values: []int32{int32(i), 1}, Dimensions: []string{s}})
				// a dimension needs no letter to begin with
				if ok := validName("d" + s); ok && s != "" && !openName(s) {
					if err != nil {
						rt.Fatalf("dimension %+.100q is valid, but was refused: %v", s, err)
					}
					note(s, true)
					root.Vars = append(root.Vars, m.Var{Name: name, Val: []int32{int32(i), 1}, Dims: []string{s}})
				} else if s != "" && err == nil && !openName(s) {
					rt.Fatalf("dimension %+.100q is not valid, but was accepted", s)
				} else if err == nil {
					root.Vars = append(root.Vars, m.Var{Name: name, Val: []int32{int32(i), 1}, Dims: []string{s}})
				}
			}
		}
		if err := w.Close(); err != nil {
			rt.Fatalf("Close: %v", err)
		}
		g, err := netcdf.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v: %q", err, all)
		}
		defer g.Close()
		var d string
		if hdf5 {
			d = checkH5Content(g, root, "", nil)
		} else {
			d = checkCDFContent(g, root)
		}
		if d != "" {
			rt.Fatalf("%s\nnames: %q", d, all)
		}
		r.Case(nontriv, fmt.Sprintf("HDF5 %v: %s", hdf5, strings.Join(all, ", ")), keysOf(classes)...)
	})
}

// TestC15Everything: every character there is, at the start, in the middle and at the
// end of a name.
func TestC15Everything(t *testing.T) {
	h.Enum(t, "C15", "every Unicode code point (and every byte that isn't UTF-8) as the first, a middle, the last and the only character of an attribute name, both writers; non-trivial: every case", func(r *h.Rec) {
		for _, hdf5 := range []bool{false, true} {
			w, err := netcdf.OpenWriter(h.Path("c15e.nc"), c14Kind(hdf5))
			if err != nil {
				t.Fatalf("OpenWriter: %v", err)
			}
			defer w.Close()
			n, ok := 0, 0
			one := func(c string) bool {
				for _, s := range []string{c, c + "b", "a" + c + "b", "a" + c} {
					err := w.AddAttributes(rawMap{{Name: s, Val: int8(1)}})
					n++
					if (err == nil) != validName(s) && !openName(s) {
						t.Errorf("attribute name %+q: valid %v, but AddAttributes of the writer (HDF5 %v) returns %v", s, validName(s), hdf5, err)
						return false
					}
					if err == nil {
						ok++
					}
				}
				return true
			}
			bad := 0
			for c := rune(h.Shard); c <= unicode.MaxRune && bad < 20; c += rune(h.Shards) {
				if !one(string(c)) {
					bad++
				}
			}
			for b := 128; b < 256; b++ {
				if !one(string([]byte{byte(b)})) {
					break
				}
			}
			r.Evals += n
			r.Case(true, fmt.Sprintf("HDF5 %v: %d names, shard %d of %d", hdf5, n, h.Shard, h.Shards))
			r.Classes["accepted"] += ok
			r.Classes["refused"] += n - ok
		}
	})
}
