// Package cdfspec is an independent encoder and strict decoder of the classic
// NetCDF formats (CDF-1, CDF-2, CDF-5), written from the format specification.
// It shares no code with the library under test.
package cdfspec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"sort"
	"unicode/utf8"
)

// Type codes of the format.
const (
	Byte   = 1
	Char   = 2
	Short  = 3
	Int    = 4
	Float  = 5
	Double = 6
	UByte  = 7
	UShort = 8
	UInt   = 9
	Int64  = 10
	UInt64 = 11
)

// Size of a type in bytes.
func Size(t int) int64 {
	switch t {
	case Byte, Char, UByte:
		return 1
	case Short, UShort:
		return 2
	case Int, Float, UInt:
		return 4
	case Double, Int64, UInt64:
		return 8
	}
	return 0
}

// GoType of the elements (Char is byte here).
func GoType(t int) reflect.Type {
	switch t {
	case Byte:
		return reflect.TypeOf(int8(0))
	case Char, UByte:
		return reflect.TypeOf(uint8(0))
	case Short:
		return reflect.TypeOf(int16(0))
	case UShort:
		return reflect.TypeOf(uint16(0))
	case Int:
		return reflect.TypeOf(int32(0))
	case UInt:
		return reflect.TypeOf(uint32(0))
	case Float:
		return reflect.TypeOf(float32(0))
	case Double:
		return reflect.TypeOf(float64(0))
	case Int64:
		return reflect.TypeOf(int64(0))
	case UInt64:
		return reflect.TypeOf(uint64(0))
	}
	return nil
}

// CDLName and GoName per the documented mapping.
func CDLName(t int) string {
	return []string{"", "byte", "char", "short", "int", "float", "double", "ubyte", "ushort", "uint", "int64", "uint64"}[t]
}

// GoName per the documented mapping.
func GoName(t int) string {
	if t == Char {
		return "string"
	}
	return GoType(t).String()
}

// DefaultFill bytes of a type, big endian.
func DefaultFill(t int) []byte {
	switch t {
	case Byte:
		return []byte{0x81}
	case Char:
		return []byte{0}
	case Short:
		return []byte{0x80, 0x01}
	case Int:
		return []byte{0x80, 0, 0, 1}
	case Float:
		return []byte{0x7c, 0xf0, 0, 0}
	case Double:
		return []byte{0x47, 0x9e, 0, 0, 0, 0, 0, 0}
	case UByte:
		return []byte{255}
	case UShort:
		return []byte{255, 255}
	case UInt:
		return []byte{255, 255, 255, 255}
	case Int64:
		return []byte{0x80, 0, 0, 0, 0, 0, 0, 2}
	case UInt64:
		return []byte{255, 255, 255, 255, 255, 255, 255, 254}
	}
	return nil
}

// Dim is a dimension; Len 0 is the record dimension.
type Dim struct {
	Name string
	Len  int64
}

// Att is an attribute; Data is a flat slice of GoType(Type).
type Att struct {
	Name string
	Type int
	Data any
}

// Var is a variable. Data is flat, all records included.
type Var struct {
	Name   string
	DimIDs []int
	Atts   []Att
	Type   int
	Data   any
	// filled by Decode and Encode
	VSize int64
	Begin int64
}

// File is a whole file.
type File struct {
	Version int
	NumRecs int64
	Dims    []Dim
	Atts    []Att
	Vars    []Var
}

// IsRec tells whether v is a record variable.
func (f *File) IsRec(v *Var) bool { return len(v.DimIDs) > 0 && f.Dims[v.DimIDs[0]].Len == 0 }

// Shape with the current record count filled in.
func (f *File) Shape(v *Var) []int {
	s := make([]int, len(v.DimIDs))
	for i, d := range v.DimIDs {
		s[i] = int(f.Dims[d].Len)
		if i == 0 && f.Dims[d].Len == 0 {
			s[i] = int(f.NumRecs)
		}
	}
	return s
}

// SlabSize is the unpadded size in bytes of the variable (of one record of it).
func (f *File) SlabSize(v *Var) int64 {
	n := Size(v.Type)
	for i, d := range v.DimIDs {
		if i == 0 && f.Dims[d].Len == 0 {
			continue
		}
		n *= f.Dims[d].Len
	}
	return n
}

// Pad4 rounds up.
func Pad4(n int64) int64 { return (n + 3) &^ 3 }

// RecSize is the size of one record.
func (f *File) RecSize() int64 {
	n, last := 0, int64(0)
	total := int64(0)
	for i := range f.Vars {
		if f.IsRec(&f.Vars[i]) {
			n++
			last = f.SlabSize(&f.Vars[i])
			total += Pad4(last)
		}
	}
	if n == 1 {
		return last // no padding between records of a single record variable
	}
	return total
}

// Layout says where the encoder puts data.
type Layout struct {
	FixedOrder []int   // permutation of fixed variable indices (positions in Vars); nil: in order
	RecOrder   []int   // likewise for record variables
	Gaps       []int64 // bytes (multiple of 4) put before each variable's data, fixed then first record
	GapByte    byte
	Truncate   int64 // bytes cut off the end of the file
}

type enc struct {
	bytes.Buffer
	v int
}

func (e *enc) u32(x uint32) { _ = binary.Write(e, binary.BigEndian, x) }
func (e *enc) num(x int64) {
	if e.v == 5 {
		_ = binary.Write(e, binary.BigEndian, x)
	} else {
		e.u32(uint32(x))
	}
}
func (e *enc) pad() {
	for e.Len()%4 != 0 {
		e.WriteByte(0)
	}
}
func (e *enc) name(s string) { e.num(int64(len(s))); e.WriteString(s); e.pad() }
func (e *enc) list(tag uint32, n int) {
	if n == 0 {
		e.u32(0)
		e.num(0)
		return
	}
	e.u32(tag)
	e.num(int64(n))
}
func (e *enc) atts(a []Att) {
	e.list(0xC, len(a))
	for _, x := range a {
		e.name(x.Name)
		e.u32(uint32(x.Type))
		e.num(int64(reflect.ValueOf(x.Data).Len()))
		_ = binary.Write(e, binary.BigEndian, x.Data)
		e.pad()
	}
}

// BE is the big-endian image of flat data.
func BE(data any) []byte {
	var b bytes.Buffer
	if err := binary.Write(&b, binary.BigEndian, data); err != nil {
		panic(err)
	}
	return b.Bytes()
}

func (f *File) header() []byte {
	e := &enc{v: f.Version}
	e.WriteString("CDF")
	e.WriteByte(byte(f.Version))
	e.num(f.NumRecs)
	e.list(0xA, len(f.Dims))
	for _, d := range f.Dims {
		e.name(d.Name)
		e.num(d.Len)
	}
	e.atts(f.Atts)
	e.list(0xB, len(f.Vars))
	for i := range f.Vars {
		v := &f.Vars[i]
		e.name(v.Name)
		e.num(int64(len(v.DimIDs)))
		for _, d := range v.DimIDs {
			e.num(int64(d))
		}
		e.atts(v.Atts)
		e.u32(uint32(v.Type))
		e.num(v.VSize)
		if f.Version == 1 {
			e.u32(uint32(v.Begin))
		} else {
			_ = binary.Write(e, binary.BigEndian, v.Begin)
		}
	}
	return e.Bytes()
}

// Encode lays the file out and gives its bytes.
func Encode(f *File, l Layout) []byte {
	var fixed, recs []int
	for i := range f.Vars {
		v := &f.Vars[i]
		v.VSize = Pad4(f.SlabSize(v))
		if f.IsRec(v) {
			recs = append(recs, i)
		} else {
			fixed = append(fixed, i)
		}
	}
	if l.FixedOrder != nil {
		fixed = l.FixedOrder
	}
	if l.RecOrder != nil {
		recs = l.RecOrder
	}
	pos := int64(len(f.header()))
	gi := 0
	gap := func() {
		if gi < len(l.Gaps) {
			pos += l.Gaps[gi]
			gi++
		}
	}
	end := pos
	for _, i := range fixed {
		gap()
		f.Vars[i].Begin = pos
		pos += f.Vars[i].VSize
		end = pos
	}
	recSize := f.RecSize()
	if len(recs) > 0 {
		gap()
		at := pos
		for _, i := range recs {
			f.Vars[i].Begin = at
			at += f.Vars[i].VSize
		}
		end = pos + recSize*f.NumRecs
		if f.NumRecs == 0 {
			end = pos
		}
	}
	out := bytes.Repeat([]byte{l.GapByte}, int(end))
	copy(out, f.header())
	put := func(at int64, b []byte, padTo int64, v *Var) {
		copy(out[at:], b)
		// padding: the specification says fill with the variable's fill value; zero is also seen
		for k := at + int64(len(b)); k < at+padTo && k < int64(len(out)); k++ {
			out[k] = 0
		}
	}
	for _, i := range fixed {
		v := &f.Vars[i]
		put(v.Begin, BE(v.Data), v.VSize, v)
	}
	be := make([][]byte, len(f.Vars))
	for _, i := range recs {
		be[i] = BE(f.Vars[i].Data)
	}
	for r := int64(0); r < f.NumRecs; r++ {
		for _, i := range recs {
			v := &f.Vars[i]
			slab := f.SlabSize(v)
			b := be[i][r*slab : (r+1)*slab]
			padTo := v.VSize
			if len(recs) == 1 {
				padTo = slab
			}
			put(v.Begin+r*recSize, b, padTo, v)
		}
	}
	if l.Truncate > 0 && l.Truncate <= int64(len(out)) {
		out = out[:int64(len(out))-l.Truncate]
	}
	return out
}

type dec struct {
	b   []byte
	pos int64
	v   int
}

type decErr struct{ s string }

func bad(format string, a ...any) { panic(decErr{fmt.Sprintf(format, a...)}) }

func (d *dec) take(n int64) []byte {
	if n < 0 || d.pos+n > int64(len(d.b)) {
		bad("header runs past the end of the file at offset %d (+%d of %d)", d.pos, n, len(d.b))
	}
	x := d.b[d.pos : d.pos+n]
	d.pos += n
	return x
}
func (d *dec) u32() uint32 { return binary.BigEndian.Uint32(d.take(4)) }
func (d *dec) num() int64 {
	if d.v == 5 {
		return int64(binary.BigEndian.Uint64(d.take(8)))
	}
	return int64(int32(d.u32()))
}
func (d *dec) pad(what string) {
	for d.pos%4 != 0 {
		if c := d.take(1)[0]; c != 0 {
			bad("padding of %s at offset %d is %#x, not zero", what, d.pos-1, c)
		}
	}
}
func (d *dec) name() string {
	n := d.num()
	if n <= 0 {
		bad("name of length %d at offset %d", n, d.pos)
	}
	s := string(d.take(n))
	d.pad("name")
	return s
}
func (d *dec) list(tag uint32, what string) int64 {
	t := d.u32()
	n := d.num()
	if t == 0 {
		if n != 0 {
			bad("ABSENT %s list with count %d", what, n)
		}
		return 0
	}
	if t != tag {
		bad("tag %#x where a %s list is due (offset %d)", t, what, d.pos)
	}
	if n <= 0 {
		bad("%s list with count %d", what, n)
	}
	return n
}

func (d *dec) typ() int {
	t := d.u32()
	if t < 1 || t > 11 || (t > 6 && d.v != 5) {
		bad("type code %d not allowed in version %d", t, d.v)
	}
	return int(t)
}

// FromBE decodes n elements.
func FromBE(t int, n int64, b []byte) any {
	s := reflect.MakeSlice(reflect.SliceOf(GoType(t)), int(n), int(n))
	if err := binary.Read(bytes.NewReader(b), binary.BigEndian, s.Interface()); err != nil && n > 0 {
		panic(err)
	}
	return s.Interface()
}

func (d *dec) atts() []Att {
	n := d.list(0xC, "attribute")
	var ret []Att
	seen := map[string]bool{}
	for i := int64(0); i < n; i++ {
		nm := d.name()
		if seen[nm] {
			bad("attribute %q twice", nm)
		}
		seen[nm] = true
		t := d.typ()
		cnt := d.num()
		if cnt < 0 || cnt > int64(len(d.b)) {
			bad("attribute %q has %d values", nm, cnt)
		}
		raw := d.take(cnt * Size(t))
		ret = append(ret, Att{nm, t, FromBE(t, cnt, raw)})
		d.pad("attribute " + nm)
	}
	return ret
}

// Decode strictly decodes a file; anything the format does not allow is an error.
// exactSize also demands that the file ends where its data does.
func Decode(b []byte, exactSize bool) (f *File, err error) { return decode(b, exactSize, true) }

// DecodeBig is Decode without the values.
func DecodeBig(b []byte, exactSize bool) (f *File, err error) { return decode(b, exactSize, false) }

func decode(b []byte, exactSize, values bool) (f *File, err error) {
	defer func() {
		if e := recover(); e != nil {
			if de, ok := e.(decErr); ok {
				f, err = nil, fmt.Errorf("%s", de.s)
				return
			}
			panic(e)
		}
	}()
	d := &dec{b: b}
	if string(d.take(3)) != "CDF" {
		bad("magic")
	}
	d.v = int(d.take(1)[0])
	if d.v != 1 && d.v != 2 && d.v != 5 {
		bad("version %d", d.v)
	}
	f = &File{Version: d.v}
	f.NumRecs = d.num()
	if f.NumRecs < 0 {
		bad("numrecs %d", f.NumRecs)
	}
	nd := d.list(0xA, "dimension")
	seen := map[string]bool{}
	rec := -1
	for i := int64(0); i < nd; i++ {
		nm := d.name()
		if seen[nm] {
			bad("dimension %q twice", nm)
		}
		seen[nm] = true
		l := d.num()
		if l < 0 {
			bad("dimension %q has length %d", nm, l)
		}
		if l == 0 {
			if rec >= 0 {
				bad("two record dimensions: %q and %q", f.Dims[rec].Name, nm)
			}
			rec = int(i)
		}
		f.Dims = append(f.Dims, Dim{nm, l})
	}
	f.Atts = d.atts()
	nv := d.list(0xB, "variable")
	seen = map[string]bool{}
	for i := int64(0); i < nv; i++ {
		var v Var
		v.Name = d.name()
		if seen[v.Name] {
			bad("variable %q twice", v.Name)
		}
		seen[v.Name] = true
		n := d.num()
		if n < 0 || n > 1024 {
			bad("variable %q has rank %d", v.Name, n)
		}
		for j := int64(0); j < n; j++ {
			id := d.num()
			if id < 0 || id >= nd {
				bad("variable %q: dimension id %d of %d", v.Name, id, nd)
			}
			if int(id) == rec && j > 0 {
				bad("variable %q: record dimension not first", v.Name)
			}
			v.DimIDs = append(v.DimIDs, int(id))
		}
		v.Atts = d.atts()
		v.Type = d.typ()
		v.VSize = d.num()
		if d.v == 1 {
			v.Begin = int64(d.u32())
		} else {
			v.Begin = int64(binary.BigEndian.Uint64(d.take(8)))
		}
		f.Vars = append(f.Vars, v)
	}
	hdr := d.pos
	// extents
	type ext struct {
		a, b int64
		name string
	}
	var exts []ext
	recSize := f.RecSize()
	end := hdr
	nrec := 0
	for i := range f.Vars {
		if f.IsRec(&f.Vars[i]) {
			nrec++
		}
	}
	for i := range f.Vars {
		v := &f.Vars[i]
		slab := f.SlabSize(v)
		if d.v < 5 {
			v.VSize &= 1<<32 - 1
			if Pad4(slab) > 1<<32-4 {
				bad("variable %q has %d bytes, too many for version %d", v.Name, slab, d.v) // unless it is the last
			}
		}
		if v.VSize != Pad4(slab) {
			bad("variable %q: vsize %d, should be %d", v.Name, v.VSize, Pad4(slab))
		}
		if v.Begin < hdr {
			bad("variable %q begins at %d inside the header of %d bytes", v.Name, v.Begin, hdr)
		}
		if v.Begin%4 != 0 {
			bad("variable %q begins at %d, not a multiple of 4", v.Name, v.Begin)
		}
		var raw []byte
		if f.IsRec(v) {
			for r := int64(0); r < f.NumRecs; r++ {
				at := v.Begin + r*recSize
				if at+slab > int64(len(b)) {
					bad("variable %q record %d ends at %d past the end of the file (%d)", v.Name, r, at+slab, len(b))
				}
				if values {
					raw = append(raw, b[at:at+slab]...)
				}
				size := v.VSize
				if nrec == 1 {
					size = slab
				}
				exts = append(exts, ext{at, at + size, v.Name})
			}
		} else {
			if v.Begin+slab > int64(len(b)) {
				bad("variable %q ends at %d past the end of the file (%d)", v.Name, v.Begin+slab, len(b))
			}
			raw = b[v.Begin : v.Begin+slab]
			exts = append(exts, ext{v.Begin, v.Begin + v.VSize, v.Name})
		}
		if values {
			v.Data = FromBE(v.Type, int64(len(raw))/Size(v.Type), raw)
		}
	}
	sort.SliceStable(exts, func(i, j int) bool { return exts[i].a < exts[j].a })
	for i, e := range exts {
		if i > 0 && e.a < exts[i-1].b {
			bad("data of %q (%d-%d) and %q (%d-%d) overlap", exts[i-1].name, exts[i-1].a, exts[i-1].b, e.name, e.a, e.b)
		}
		if e.b > end {
			end = e.b
		}
	}
	if exactSize && int64(len(b)) != end {
		bad("file has %d bytes, header and data need %d", len(b), end)
	}
	return f, nil
}

// APIValue is what the library documents for data of this type and shape:
// numbers as nested slices, char as strings along the last dimension.
func APIValue(t int, flat any, shape []int) any {
	if t != Char {
		return nestNum(reflect.ValueOf(flat), shape).Interface()
	}
	b := flat.([]byte)
	if len(shape) == 0 {
		return string(b[:1])
	}
	return nestStr(b, shape).Interface()
}

func nestNum(rv reflect.Value, shape []int) reflect.Value {
	if len(shape) == 0 {
		return rv.Index(0)
	}
	t := rv.Type().Elem()
	for range shape {
		t = reflect.SliceOf(t)
	}
	out := reflect.MakeSlice(t, shape[0], shape[0])
	n := 1
	for _, s := range shape[1:] {
		n *= s
	}
	for i := 0; i < shape[0]; i++ {
		out.Index(i).Set(nestNum(rv.Slice(i*n, (i+1)*n), shape[1:]))
	}
	return out
}

func nestStr(b []byte, shape []int) reflect.Value {
	if len(shape) == 1 {
		return reflect.ValueOf(string(b[:shape[0]]))
	}
	t := reflect.TypeOf("")
	for range shape[1:] {
		t = reflect.SliceOf(t)
	}
	out := reflect.MakeSlice(t, shape[0], shape[0])
	n := 1
	for _, s := range shape[1:] {
		n *= s
	}
	for i := 0; i < shape[0]; i++ {
		out.Index(i).Set(nestStr(b[i*n:(i+1)*n], shape[1:]))
	}
	return out
}

// APIAttr is the documented form of an attribute.
func APIAttr(a Att) any {
	if a.Type == Char {
		return string(a.Data.([]byte))
	}
	rv := reflect.ValueOf(a.Data)
	if rv.Len() == 1 {
		return rv.Index(0).Interface()
	}
	return a.Data
}

var _ = math.Pi
var _ = utf8.RuneError

// HeaderLen is the length of the header.
func HeaderLen(f *File) int64 { return int64(len(f.header())) }

// Offset is the place in the file of element i (all records counted) of v.
func (f *File) Offset(v *Var, i int64) int64 {
	sz := Size(v.Type)
	if !f.IsRec(v) {
		return v.Begin + i*sz
	}
	per := f.SlabSize(v) / sz
	return v.Begin + (i/per)*f.RecSize() + (i%per)*sz
}

// FillOf is the value unwritten elements of v have.
func FillOf(v *Var) reflect.Value {
	for _, a := range v.Atts {
		if a.Name == "_FillValue" && a.Type == v.Type && reflect.ValueOf(a.Data).Len() == 1 {
			return reflect.ValueOf(a.Data).Index(0)
		}
	}
	return reflect.ValueOf(FromBE(v.Type, 1, DefaultFill(v.Type))).Index(0)
}

// Header is the header's bytes, with the places of the data as they are in f.
func (f *File) Header() []byte { return f.header() }
