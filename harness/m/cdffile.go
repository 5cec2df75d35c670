package m

import (
	"fmt"
	"reflect"
	"strings"

	"pgregory.net/rapid"

	"verifharness/cdfspec"
)

// FileOpts steers CDFFile.
type FileOpts struct {
	MaxVars    int
	MaxElems   int
	MaxName    int
	TruncatePc int // percentage of files with data missing at the end
	FillPc     int // percentage of variables with a _FillValue
	Many       int // if not 0, there is much of one thing, up to about this
}

// SpecFile is an encoded file with what it means.
type SpecFile struct {
	F     *cdfspec.File
	L     cdfspec.Layout
	Bytes []byte
	Cut   bool // some data is missing
	Much  string
}

func (s *SpecFile) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "CDF-%d numrecs=%d dims=%v size=%d cut=%d", s.F.Version, s.F.NumRecs, dimStr(s.F.Dims), len(s.Bytes), s.L.Truncate)
	fmt.Fprintf(&sb, " order=%v/%v gaps=%v", s.L.FixedOrder, s.L.RecOrder, s.L.Gaps)
	atts := func(a []cdfspec.Att) {
		for _, x := range a {
			fmt.Fprintf(&sb, " @%.40q:%s=%s", x.Name, cdfspec.CDLName(x.Type), Short(x.Data))
		}
	}
	atts(s.F.Atts)
	for i := range s.F.Vars {
		v := &s.F.Vars[i]
		fmt.Fprintf(&sb, "; %.40q %s%v begin=%d %s", v.Name, cdfspec.CDLName(v.Type), v.DimIDs, v.Begin, Short(v.Data))
		atts(v.Atts)
	}
	return sb.String()
}

func dimStr(d []cdfspec.Dim) string {
	var s []string
	for _, x := range d {
		s = append(s, fmt.Sprintf("%.30q:%d", x.Name, x.Len))
	}
	return strings.Join(s, " ")
}

func specAtts(rt *rapid.T, label string, nt, maxName int) []cdfspec.Att {
	n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 5}).Draw(rt, label+"/n")
	var ret []cdfspec.Att
	for _, nm := range Names(rt, label, n, maxName) {
		ty := rapid.IntRange(1, nt).Draw(rt, label+"/t")
		ln := rapid.IntRange(0, 9).Draw(rt, label+"/len")
		ret = append(ret, cdfspec.Att{Name: nm, Type: ty, Data: Flat(rt, cdfspec.GoType(ty), ln, label+"/v")})
	}
	return ret
}

// CDFFile draws a well-formed classic file and its bytes.
func CDFFile(rt *rapid.T, o FileOpts) *SpecFile {
	f := &cdfspec.File{Version: rapid.SampledFrom([]int{1, 2, 5, 5}).Draw(rt, "version")}
	nt := 6
	if f.Version == 5 {
		nt = 11
	}
	nd := rapid.IntRange(0, 5).Draw(rt, "nd")
	rec := -1
	if nd > 0 && rapid.IntRange(0, 9).Draw(rt, "hasrec") < 7 {
		rec = rapid.IntRange(0, nd-1).Draw(rt, "rec")
		f.NumRecs = int64(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 7, 23}).Draw(rt, "numrecs"))
	}
	for i, nm := range Names(rt, "dim", nd, o.MaxName) {
		l := rapid.IntRange(1, 5).Draw(rt, "dl")
		if rapid.IntRange(0, 9).Draw(rt, "dbig") == 0 {
			l = rapid.IntRange(6, 90).Draw(rt, "dl2")
		}
		if i == rec {
			l = 0
		}
		f.Dims = append(f.Dims, cdfspec.Dim{Name: nm, Len: int64(l)})
	}
	f.Atts = specAtts(rt, "ga", nt, o.MaxName)
	nv := rapid.IntRange(0, o.MaxVars).Draw(rt, "nv")
	oneRec := rapid.IntRange(0, 2).Draw(rt, "onerec") == 0 // favour the single record variable
	recs, nfixed, nrec := 0, 0, 0
	for _, nm := range Names(rt, "var", nv, o.MaxName) {
		v := cdfspec.Var{Name: nm, Type: rapid.IntRange(1, nt).Draw(rt, "type")}
		isRec := rec >= 0 && rapid.Bool().Draw(rt, "isrec")
		if oneRec && recs > 0 {
			isRec = false
		}
		n := int64(1)
		if isRec {
			recs++
			v.DimIDs = append(v.DimIDs, rec)
			n = f.NumRecs
		}
		for k := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "rank"); k > 0; k-- {
			d := rapid.IntRange(0, nd).Draw(rt, "d")
			if d == nd || d == rec || n*f.Dims[d].Len > int64(o.MaxElems) {
				continue
			}
			n *= f.Dims[d].Len
			v.DimIDs = append(v.DimIDs, d)
		}
		v.Atts = specAtts(rt, "va", nt, o.MaxName)
		if rapid.IntRange(0, 99).Draw(rt, "fill") < o.FillPc {
			at := cdfspec.Att{Name: "_FillValue", Type: v.Type, Data: Flat(rt, cdfspec.GoType(v.Type), 1, "fv")}
			p := rapid.IntRange(0, len(v.Atts)).Draw(rt, "fvat")
			v.Atts = append(v.Atts[:p:p], append([]cdfspec.Att{at}, v.Atts[p:]...)...)
		}
		v.Data = Flat(rt, cdfspec.GoType(v.Type), int(n), "data")
		f.Vars = append(f.Vars, v)
		if isRec {
			nrec++
		} else {
			nfixed++
		}
	}
	much := ""
	if o.Many > 0 {
		much = swell(rt, f, nt, o.Many)
		nv, nfixed = len(f.Vars), 0
		for i := range f.Vars {
			if !f.IsRec(&f.Vars[i]) {
				nfixed++
			}
		}
	}
	var l cdfspec.Layout
	if rapid.IntRange(0, 2).Draw(rt, "shuffle") == 0 && nv > 1 && nv < 50 {
		var fi, ri []int
		for i := range f.Vars {
			if f.IsRec(&f.Vars[i]) {
				ri = append(ri, i)
			} else {
				fi = append(fi, i)
			}
		}
		if len(fi) > 0 {
			l.FixedOrder = rapid.Permutation(fi).Draw(rt, "forder")
		}
		if len(ri) > 0 {
			l.RecOrder = rapid.Permutation(ri).Draw(rt, "rorder")
		}
	}
	if rapid.IntRange(0, 3).Draw(rt, "gaps") == 0 {
		for i := 0; i <= min(nfixed, 20); i++ {
			l.Gaps = append(l.Gaps, int64(4*rapid.IntRange(0, 5).Draw(rt, "gap")))
		}
		l.GapByte = byte(rapid.IntRange(0, 255).Draw(rt, "gapbyte"))
	}
	s := &SpecFile{F: f, Much: much}
	full := cdfspec.Encode(f, l)
	data := int64(len(full)) - cdfspec.HeaderLen(f)
	if data > 0 && rapid.IntRange(0, 99).Draw(rt, "cut") < o.TruncatePc {
		l.Truncate = rapid.Int64Range(1, data).Draw(rt, "cutlen")
	}
	s.L = l
	s.Bytes = full[:int64(len(full))-l.Truncate]
	s.Cut = l.Truncate > 0
	return s
}

// FlatWant is the flat data of a variable with what is missing filled in, and how
// many elements are fill.
func (s *SpecFile) FlatWant(v *cdfspec.Var) (any, int) {
	src := reflect.ValueOf(v.Data)
	out := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
	reflect.Copy(out, src)
	fill := cdfspec.FillOf(v)
	size := cdfspec.Size(v.Type)
	n := 0
	for i := 0; i < src.Len(); i++ {
		if s.F.Offset(v, int64(i))+size > int64(len(s.Bytes)) {
			out.Index(i).Set(fill)
			n++
		}
	}
	return out.Interface(), n
}

// Want is the value the API should give for a variable.
func (s *SpecFile) Want(v *cdfspec.Var) any {
	flat, _ := s.FlatWant(v)
	return cdfspec.APIValue(v.Type, flat, s.F.Shape(v))
}
