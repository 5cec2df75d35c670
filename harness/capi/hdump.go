package capi

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// HType is an HDF5 datatype as libhdf5 describes it. Class is one of
// i u f s(fixed string) S(variable-length string) o r e c v a x(other).
type HType struct {
	Class byte
	Size  int
	BE    bool
	Pad   byte
	Base  *HType
	Enum  []HMember
	Flds  []HField
	Dims  []int
	Text  string
}

// HMember of an enum; Val is its raw little-endian value.
type HMember struct{ Name, Val string }

// HField of a compound.
type HField struct {
	Name string
	Off  int
	Type *HType
}

// HObj is a group, dataset, named type, link or attribute.
type HObj struct {
	Kind  string // group ds typ link att
	Name  string
	Type  *HType
	Shape []int
	Null  bool
	Toks  []string
	Atts  []*HObj
	Kids  []*HObj
	LKind string
}

// Att finds an attribute.
func (o *HObj) Att(name string) *HObj {
	for _, a := range o.Atts {
		if a.Name == name {
			return a
		}
	}
	return nil
}

// Kid finds a child.
func (o *HObj) Kid(name string) *HObj {
	for _, a := range o.Kids {
		if a.Name == name {
			return a
		}
	}
	return nil
}

type tparse struct {
	s string
	i int
}

func (p *tparse) num() int {
	j := p.i
	for j < len(p.s) && p.s[j] >= '0' && p.s[j] <= '9' {
		j++
	}
	n, err := strconv.Atoi(p.s[p.i:j])
	if err != nil {
		Infra("type %q at %d: %v", p.s, p.i, err)
	}
	p.i = j
	return n
}

func (p *tparse) expect(c byte) {
	if p.i >= len(p.s) || p.s[p.i] != c {
		Infra("type %q at %d: expected %c", p.s, p.i, c)
	}
	p.i++
}

func (p *tparse) is(c byte) bool {
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *tparse) until(c byte) string {
	j := strings.IndexByte(p.s[p.i:], c)
	if j < 0 {
		Infra("type %q at %d: no %c", p.s, p.i, c)
	}
	r := p.s[p.i : p.i+j]
	p.i += j + 1
	return r
}

func (p *tparse) hexword() string {
	j := p.i
	for j < len(p.s) && (p.s[j] == '-' || strings.IndexByte("0123456789abcdef", p.s[j]) >= 0) {
		j++
	}
	r := unhex(p.s[p.i:j])
	p.i = j
	return r
}

func (p *tparse) parse() *HType {
	start := p.i
	t := &HType{Class: p.s[p.i]}
	p.i++
	switch t.Class {
	case 'i', 'u', 'f':
		t.Size = p.num()
		t.BE = p.is('b')
	case 's':
		t.Size = p.num()
		t.Pad = p.s[p.i]
		p.i++
	case 'o', 'r', 'x':
		t.Size = p.num()
	case 'v':
		if p.is('s') {
			t.Class = 'S'
			break
		}
		p.expect('(')
		t.Base = p.parse()
		p.expect(')')
	case 'a':
		p.expect('(')
		for {
			t.Dims = append(t.Dims, p.num())
			if !p.is(',') {
				break
			}
		}
		p.expect(';')
		t.Base = p.parse()
		p.expect(')')
	case 'e':
		p.expect('(')
		t.Base = p.parse()
		t.Size = t.Base.Size
		for p.is(';') {
			n := unhex(p.until('='))
			t.Enum = append(t.Enum, HMember{n, p.hexword()})
		}
		p.expect(')')
	case 'c':
		p.expect('(')
		t.Size = p.num()
		for p.is(';') {
			n := unhex(p.until('@'))
			off := p.num()
			p.expect(':')
			t.Flds = append(t.Flds, HField{n, off, p.parse()})
		}
		p.expect(')')
	default:
		Infra("type %q at %d", p.s, p.i)
	}
	t.Text = p.s[start:p.i]
	return t
}

// ParseHType parses the helper's notation of a type.
func ParseHType(s string) *HType { return (&tparse{s: s}).parse() }

// HDumpFile reads everything through libhdf5.
func HDumpFile(path string) (*HObj, error) {
	lines, err := Do("HDUMP " + path)
	if err != nil {
		return nil, err
	}
	root := &HObj{Kind: "group"}
	stack := []*HObj{root}
	cur := root
	for _, l := range lines {
		t := &toks{t: strings.Fields(l)}
		g := stack[len(stack)-1]
		switch k := t.s(); k {
		case "att", "ds":
			o := &HObj{Kind: k, Name: unhex(t.s()), Type: ParseHType(t.s())}
			n := t.n()
			o.Null = n < 0
			o.Shape = []int{}
			for ; n > 0; n-- {
				o.Shape = append(o.Shape, t.n())
			}
			t.s()
			o.Toks = t.rest()
			if k == "ds" {
				g.Kids = append(g.Kids, o)
				cur = o
			} else {
				cur.Atts = append(cur.Atts, o)
			}
		case "typ":
			o := &HObj{Kind: k, Name: unhex(t.s()), Type: ParseHType(t.s())}
			g.Kids = append(g.Kids, o)
			cur = o
		case "link":
			g.Kids = append(g.Kids, &HObj{Kind: k, Name: unhex(t.s()), LKind: t.s()})
		case "group":
			o := &HObj{Kind: k, Name: unhex(t.s())}
			g.Kids = append(g.Kids, o)
			stack = append(stack, o)
			cur = o
		case "endgroup":
			stack = stack[:len(stack)-1]
		default:
			Infra("dump line %.100q", l)
		}
	}
	return root, nil
}

// ---- canonical values: what the API's values and the C library's are both turned into ----

// Seq is a slice: the class of its innermost elements, how deep, and its items.
type Seq struct {
	Elem  string
	Depth int
	Items []any
}

// Comp is a compound value.
type Comp struct {
	Names []string
	Vals  []any
}

// En is an enum value.
type En struct{ Val any }

// Op is an opaque value.
type Op struct{ Bytes string }

func leafName(t *HType) string {
	switch t.Class {
	case 'i', 'u', 'f':
		return basicType(t).String()
	case 's', 'S':
		return "string"
	case 'r':
		return "uint64"
	case 'o':
		return "opaque"
	case 'e':
		return "enum " + basicType(t.Base).String()
	case 'c':
		return "compound"
	}
	return "?" + string(t.Class)
}

func basicType(t *HType) reflect.Type {
	var b map[int]any
	switch t.Class {
	case 'i':
		b = map[int]any{1: int8(0), 2: int16(0), 4: int32(0), 8: int64(0)}
	case 'u':
		b = map[int]any{1: uint8(0), 2: uint16(0), 4: uint32(0), 8: uint64(0)}
	case 'f':
		b = map[int]any{4: float32(0), 8: float64(0)}
	}
	if b[t.Size] == nil {
		Infra("no Go type for %s", t.Text)
	}
	return reflect.TypeOf(b[t.Size])
}

func decodeNum(t *HType, b string) any {
	var x uint64
	for i := t.Size - 1; i >= 0; i-- {
		x = x<<8 | uint64(b[i])
	}
	switch t.Class {
	case 'f':
		if t.Size == 4 {
			return math.Float32frombits(uint32(x))
		}
		return math.Float64frombits(x)
	}
	return reflect.ValueOf(x).Convert(basicType(t)).Interface()
}

// hval is a flat list of canonical leaves read from the tokens.
func hleaves(t *HType, n int, tk *toks) []any {
	ret := make([]any, 0, n)
	if n == 0 {
		return ret
	}
	switch t.Class {
	case 'S':
		for i := 0; i < n; i++ {
			if s := tk.s(); s == "NULL" {
				ret = append(ret, "")
			} else {
				ret = append(ret, unhex(s))
			}
		}
	case 'c':
		for i := 0; i < n; i++ {
			c := Comp{}
			for _, f := range t.Flds {
				c.Names = append(c.Names, f.Name)
				c.Vals = append(c.Vals, hvalue(f.Type, nil, tk))
			}
			ret = append(ret, c)
		}
	case 'v':
		for i := 0; i < n; i++ {
			m := tk.n()
			if t.Base.Class == 's' && t.Base.Size == 1 {
				// a sequence of characters is one of strings, not a string
				chars := hleaves(t.Base, m, tk)
				for j := range chars {
					chars[j] = strings.TrimRight(chars[j].(string), "\x00")
				}
				ret = append(ret, seqs(chars, []int{m}, "string", 0))
				continue
			}
			ret = append(ret, hvalue(t.Base, []int{m}, tk))
		}
	default:
		b := unhex(tk.s())
		sz := t.Size
		if len(b) != n*sz {
			Infra("dump: %d bytes for %d of %s", len(b), n, t.Text)
		}
		for i := 0; i < n; i++ {
			x := b[i*sz : (i+1)*sz]
			switch t.Class {
			case 'o':
				ret = append(ret, Op{x})
			case 'e':
				ret = append(ret, En{decodeNum(t.Base, x)})
			case 'r':
				ret = append(ret, binary.LittleEndian.Uint64([]byte(x+"\x00\x00\x00\x00\x00\x00\x00\x00")))
			case 's':
				if t.Pad == 't' {
					if k := strings.IndexByte(x, 0); k >= 0 {
						x = x[:k]
					}
				}
				ret = append(ret, x)
			default:
				ret = append(ret, decodeNum(t, x))
			}
		}
	}
	return ret
}

// vdepth is how many slice levels a value of the type has below the dataspace's.
func vdepth(t *HType) (int, *HType) {
	d := 0
	for {
		switch t.Class {
		case 'a':
			d += len(t.Dims)
			t = t.Base
			continue
		case 'v':
			d++
			t = t.Base
			if t.Class == 's' {
				return d, t
			}
			continue
		case 's':
			if t.Size == 1 {
				// characters: the last dimension is the string's, if there is one
				if d > 0 {
					d--
				}
			}
		}
		return d, t
	}
}

func hvalue(t *HType, shape []int, tk *toks) any {
	for t.Class == 'a' {
		shape = append(append([]int{}, shape...), t.Dims...)
		t = t.Base
	}
	n := 1
	for _, s := range shape {
		n *= s
	}
	leaves := hleaves(t, n, tk)
	if t.Class == 's' && t.Size == 1 && len(shape) > 0 {
		// rows of characters are strings
		last := shape[len(shape)-1]
		shape = shape[:len(shape)-1]
		n = 1
		for _, s := range shape {
			n *= s
		}
		rows := make([]any, n)
		for i := range rows {
			s := ""
			for j := 0; j < last; j++ {
				c := leaves[i*last+j].(string)
				if c == "" {
					c = "\x00"
				}
				s += c
			}
			rows[i] = strings.TrimRight(s, "\x00")
		}
		leaves = rows
	} else if t.Class == 's' {
		for i := range leaves {
			leaves[i] = strings.TrimRight(leaves[i].(string), "\x00")
		}
	}
	below, lt := vdepth(t)
	return seqs(leaves, shape, leafName(lt), below)
}

func seqs(leaves []any, shape []int, elem string, below int) any {
	if len(shape) == 0 {
		return leaves[0]
	}
	s := Seq{Elem: elem, Depth: len(shape) + below, Items: make([]any, shape[0])}
	n := 1
	for _, x := range shape[1:] {
		n *= x
	}
	for i := range s.Items {
		s.Items[i] = seqs(leaves[i*n:(i+1)*n], shape[1:], elem, below)
	}
	return s
}

// Value is the canonical value of a dataset.
func (o *HObj) Value() any {
	return hvalue(o.Type, o.Shape, &toks{t: o.Toks})
}

// AttValue is the canonical value of an attribute, the way the API presents it:
// lists of one are scalars, nothing is an empty list (or string).
func (o *HObj) AttValue() any {
	if o.Null {
		if o.Type.Class == 's' {
			return ""
		}
		return hvalue(o.Type, []int{0}, &toks{})
	}
	v := o.Value()
	if s, is := v.(Seq); is && len(o.Shape) == 1 && o.Shape[0] == 1 {
		return s.Items[0]
	}
	return v
}

// Canon turns a value the API delivered into canonical form. Types of the package
// that are not exported are recognised by their structure.
func Canon(v any) any { return canon(reflect.ValueOf(v)) }

func canonLeaf(t reflect.Type) (string, int) {
	d := 0
	for t.Kind() == reflect.Slice {
		switch t.Name() {
		case "opaque":
			return "opaque", d
		case "compound":
			return "compound", d
		}
		t = t.Elem()
		d++
	}
	if t.Kind() == reflect.Struct && t.Name() == "enumerated" {
		return "enum ?", d
	}
	return t.String(), d
}

func canon(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface:
		return canon(v.Elem())
	case reflect.Slice:
		switch v.Type().Name() {
		case "opaque":
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return Op{string(b)}
		case "compound":
			c := Comp{}
			for i := 0; i < v.Len(); i++ {
				c.Names = append(c.Names, v.Index(i).Field(0).String())
				c.Vals = append(c.Vals, canon(v.Index(i).Field(1)))
			}
			return c
		}
		e, d := canonLeaf(v.Type())
		s := Seq{Elem: e, Depth: d, Items: make([]any, v.Len())}
		for i := range s.Items {
			s.Items[i] = canon(v.Index(i))
		}
		return s
	case reflect.Struct:
		if v.Type().Name() == "enumerated" {
			return enumOf(canon(v.Field(0)))
		}
	case reflect.String:
		return v.String()
	}
	switch {
	case v.CanInt():
		return reflect.ValueOf(v.Int()).Convert(basicOf(v.Kind())).Interface()
	case v.CanUint():
		return reflect.ValueOf(v.Uint()).Convert(basicOf(v.Kind())).Interface()
	case v.Kind() == reflect.Float32:
		if v.CanInterface() {
			if f, is := v.Interface().(float32); is {
				return f
			}
		}
		return float32(v.Float())
	case v.Kind() == reflect.Float64:
		return v.Float()
	}
	return fmt.Sprintf("?? %v", v.Type())
}

func basicOf(k reflect.Kind) reflect.Type {
	return map[reflect.Kind]reflect.Type{
		reflect.Int8: reflect.TypeOf(int8(0)), reflect.Int16: reflect.TypeOf(int16(0)), reflect.Int32: reflect.TypeOf(int32(0)), reflect.Int64: reflect.TypeOf(int64(0)),
		reflect.Uint8: reflect.TypeOf(uint8(0)), reflect.Uint16: reflect.TypeOf(uint16(0)), reflect.Uint32: reflect.TypeOf(uint32(0)), reflect.Uint64: reflect.TypeOf(uint64(0)),
		reflect.Int: reflect.TypeOf(int(0)), reflect.Uint: reflect.TypeOf(uint(0)),
	}[k]
}

func enumOf(v any) any {
	if s, is := v.(Seq); is {
		s.Elem = "enum " + s.Elem
		for i := range s.Items {
			s.Items[i] = enumOf(s.Items[i])
		}
		return s
	}
	return En{v}
}

// CanonDiff compares two canonical values ("" if equal).
func CanonDiff(got, want any, path string) string {
	switch w := want.(type) {
	case Seq:
		g, is := got.(Seq)
		if !is {
			return fmt.Sprintf("at %q: got %.200v, want %.200v", path, got, want)
		}
		ge, we := g.Elem, w.Elem
		if strings.HasPrefix(we, "enum ") && ge == "enum ?" {
			ge = we
			if g.Depth <= w.Depth {
				g.Depth = w.Depth // the elements have the rest of the levels
			}
		}
		if ge != we || g.Depth != w.Depth {
			return fmt.Sprintf("at %q: got %d slice levels of %s, want %d of %s", path, g.Depth, g.Elem, w.Depth, w.Elem)
		}
		if len(g.Items) != len(w.Items) {
			return fmt.Sprintf("at %q: length %d, want %d", path, len(g.Items), len(w.Items))
		}
		for i := range w.Items {
			if d := CanonDiff(g.Items[i], w.Items[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case Comp:
		g, is := got.(Comp)
		if !is {
			return fmt.Sprintf("at %q: got %.200v, want %.200v", path, got, want)
		}
		if fmt.Sprintf("%q", g.Names) != fmt.Sprintf("%q", w.Names) {
			return fmt.Sprintf("at %q: fields %q, want %q", path, g.Names, w.Names)
		}
		for i := range w.Vals {
			if d := CanonDiff(g.Vals[i], w.Vals[i], path+"."+w.Names[i]); d != "" {
				return d
			}
		}
		return ""
	case En:
		g, is := got.(En)
		if !is {
			return fmt.Sprintf("at %q: got %T %.200v, want enum value %.200v", path, got, got, w.Val)
		}
		return CanonDiff(g.Val, w.Val, path)
	case float32:
		g, is := got.(float32)
		if !is || math.Float32bits(g) != math.Float32bits(w) && !(g != g && w != w) {
			return fmt.Sprintf("at %q: got %T %v, want %v", path, got, got, w)
		}
		return ""
	case float64:
		g, is := got.(float64)
		if !is || math.Float64bits(g) != math.Float64bits(w) && !(g != g && w != w) {
			return fmt.Sprintf("at %q: got %T %v, want %v", path, got, got, w)
		}
		return ""
	}
	if got != want {
		return fmt.Sprintf("at %q: got %T %.200q, want %T %.200q", path, got, fmt.Sprint(got), want, fmt.Sprint(want))
	}
	return ""
}

// BasicGoType is the Go type of an integer or float type.
func BasicGoType(t *HType) reflect.Type { return basicType(t) }

// EnumValue is the value of a member of an enum type.
func EnumValue(t *HType, m HMember) any { return decodeNum(t.Base, m.Val) }

// HasVlen tells whether values of the type are partly stored elsewhere.
func (t *HType) HasVlen() bool {
	switch t.Class {
	case 'v', 'S':
		return true
	case 'a':
		return t.Base.HasVlen()
	case 'c':
		for _, f := range t.Flds {
			if f.Type.HasVlen() {
				return true
			}
		}
	}
	return false
}

// Rect cuts the box [begin,end) out of a canonical value. With chars the last
// dimension is the strings'.
func Rect(v any, begin, end []int64, chars bool) any {
	if len(begin) == 0 {
		return v
	}
	switch v := v.(type) {
	case Seq:
		s := Seq{Elem: v.Elem, Depth: v.Depth}
		for i := begin[0]; i < end[0]; i++ {
			s.Items = append(s.Items, Rect(v.Items[i], begin[1:], end[1:], chars))
		}
		return s
	case string:
		if chars {
			b := []byte(v)
			for int64(len(b)) < end[0] {
				b = append(b, 0)
			}
			return strings.TrimRight(string(b[begin[0]:end[0]]), "\x00")
		}
	}
	Infra("a box of rank %d of %T", len(begin), v)
	return nil
}
