package m

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// NumTypes are the numeric types both formats store, in CDF type order.
var NumTypes = []reflect.Type{
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)),
	reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)),
}

// ClassicTypes are the first five: those a version 1 or 2 file can hold.
var ClassicTypes = NumTypes[:5]

// StringType is Go's string.
var StringType = reflect.TypeOf("")

// NameStart and NameRest are alphabets for valid names.
var nameStart = []rune("abzAZxyz019éЖ中ªⅫ½𝔄٣ǅʰ")
var nameRest = []rune("abzAZ059_ .-+@%&*()[]{}<>=:;,!?#$^~|\\\"'`éÉЖ中文°€𝔄😀٣½\u0301~")

// Name draws a valid name. maxLen is in bytes.
func Name(rt *rapid.T, label string, maxLen int) string {
	kind := rapid.IntRange(0, 9).Draw(rt, label+"/kind")
	switch {
	case kind <= 4: // short ASCII: collisions in length, easy to read
		return rapid.StringMatching(`[a-zA-Z0-9][a-zA-Z0-9_]{0,8}`).Draw(rt, label)
	case kind <= 7:
		n := rapid.IntRange(1, 12).Draw(rt, label+"/n")
		return nameOf(rt, label, n)
	default:
		n := rapid.IntRange(1, maxLen).Draw(rt, label+"/n")
		first := rapid.SampledFrom(nameStart).Draw(rt, label+"/0")
		unit := rapid.SampledFrom([]string{"x", "ab", "é", "中", "q_", "0"}).Draw(rt, label+"/u")
		s := string(first) + strings.Repeat(unit, n/len(unit)+1)
		if len(s) > n {
			s = s[:n]
		}
		s = strings.ToValidUTF8(s, "")
		if s == "" {
			s = "n"
		}
		return s
	}
}

func nameOf(rt *rapid.T, label string, n int) string {
	var sb strings.Builder
	sb.WriteRune(rapid.SampledFrom(nameStart).Draw(rt, label+"/0"))
	for i := 1; i < n; i++ {
		sb.WriteRune(rapid.SampledFrom(nameRest).Draw(rt, label+"/r"))
	}
	s := sb.String()
	s = strings.TrimRightFunc(s, func(r rune) bool { return unicode.Is(unicode.Z, r) })
	return s
}

// Names draws n distinct valid names.
func Names(rt *rapid.T, label string, n, maxLen int) []string {
	seen := map[string]bool{}
	var ret []string
	for i := 0; i < n; i++ {
		s := Name(rt, fmt.Sprintf("%s%d", label, i), maxLen)
		for k := 0; seen[s]; k++ {
			s = fmt.Sprintf("%s%d", s, i+k)
		}
		seen[s] = true
		ret = append(ret, s)
	}
	return ret
}

var ints = []int64{0, 1, -1, 2, 127, -127, 128, -128, 255, 256, 32767, -32767, -32768, 65535, 65536,
	math.MaxInt32, math.MinInt32, math.MinInt32 + 1, math.MaxUint32, math.MaxInt64, math.MinInt64, math.MinInt64 + 2, 0x0102030405060708}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, math.Pi, math.MaxFloat32, math.SmallestNonzeroFloat32,
	math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 9.969209968386869e+36, 1e-40}

func leaf(rt *rapid.T, t reflect.Type, label string) reflect.Value {
	v := reflect.New(t).Elem()
	switch {
	case t.Kind() == reflect.String:
		v.SetString(Str(rt, label, 12))
	case v.CanInt():
		if rapid.Bool().Draw(rt, label+"/b") {
			v.SetInt(trunc(t, rapid.SampledFrom(ints).Draw(rt, label)))
		} else {
			v.SetInt(trunc(t, rapid.Int64().Draw(rt, label)))
		}
	case v.CanUint():
		if rapid.Bool().Draw(rt, label+"/b") {
			v.SetUint(truncU(t, uint64(rapid.SampledFrom(ints).Draw(rt, label))))
		} else {
			v.SetUint(truncU(t, rapid.Uint64().Draw(rt, label)))
		}
	case t.Kind() == reflect.Float32:
		switch rapid.IntRange(0, 3).Draw(rt, label+"/b") {
		case 0:
			v.Set(reflect.ValueOf(float32(rapid.SampledFrom(floats).Draw(rt, label))))
		case 1:
			v.Set(reflect.ValueOf(math.Float32frombits(0x7fc00001)))
		default:
			v.Set(reflect.ValueOf(rapid.Float32().Draw(rt, label)))
		}
	case t.Kind() == reflect.Float64:
		switch rapid.IntRange(0, 3).Draw(rt, label+"/b") {
		case 0:
			v.SetFloat(rapid.SampledFrom(floats).Draw(rt, label))
		case 1:
			v.SetFloat(math.Float64frombits(0x7ff8000000000001))
		default:
			v.SetFloat(rapid.Float64().Draw(rt, label))
		}
	}
	return v
}

func trunc(t reflect.Type, x int64) int64 {
	switch t.Size() {
	case 1:
		return int64(int8(x))
	case 2:
		return int64(int16(x))
	case 4:
		return int64(int32(x))
	}
	return x
}

func truncU(t reflect.Type, x uint64) uint64 {
	switch t.Size() {
	case 1:
		return uint64(uint8(x))
	case 2:
		return uint64(uint16(x))
	case 4:
		return uint64(uint32(x))
	}
	return x
}

// Str draws a string without NULs: ASCII, multi-byte, control characters.
func Str(rt *rapid.T, label string, maxLen int) string {
	switch rapid.IntRange(0, 4).Draw(rt, label+"/k") {
	case 0:
		return rapid.SampledFrom([]string{"", "a", "ab", "abc", "abcd", "abcde", " ", "x ", "\n", "é", "日本語", "\xff\xfe"}).Draw(rt, label)
	case 1:
		return rapid.StringOfN(rapid.SampledFrom(nameRest), 0, maxLen, -1).Draw(rt, label)
	default:
		return rapid.StringMatching(fmt.Sprintf(`[ -~]{0,%d}`, min(maxLen, 1000))).Draw(rt, label)
	}
}

// Flat draws a flat slice of n values of type t. Long ones are made of a drawn
// prefix, a formula and a few drawn overrides so that they stay cheap.
func Flat(rt *rapid.T, t reflect.Type, n int, label string) any {
	out := reflect.MakeSlice(reflect.SliceOf(t), n, n)
	k := n
	if k > 6 {
		k = 6
	}
	for i := 0; i < k; i++ {
		out.Index(i).Set(leaf(rt, t, label))
	}
	if n > k {
		mul := rapid.Uint64Range(1, 1<<20).Draw(rt, label+"/mul")
		for i := k; i < n; i++ {
			out.Index(i).Set(formula(t, mul, i))
		}
		for j := 0; j < 2; j++ {
			out.Index(rapid.IntRange(0, n-1).Draw(rt, label+"/at")).Set(leaf(rt, t, label+"/ov"))
		}
	}
	return out.Interface()
}

func formula(t reflect.Type, mul uint64, i int) reflect.Value {
	v := reflect.New(t).Elem()
	x := (uint64(i) + 1) * (mul*2 + 1) * 0x9E3779B97F4A7C15
	x ^= x >> 29
	switch {
	case t.Kind() == reflect.String:
		v.SetString(fmt.Sprintf("s%d", x%(1<<(8*(uint(i)%4)+1))))
	case v.CanInt():
		v.SetInt(trunc(t, int64(x)))
	case v.CanUint():
		v.SetUint(truncU(t, x))
	default:
		v.SetFloat(float64(int32(x)) / 8)
	}
	return v
}

// ShapeOf draws a shape: rank 0..maxRank, no zero extents, at most maxElems elements.
func ShapeOf(rt *rapid.T, label string, maxRank, maxElems int) []int {
	rank := rapid.IntRange(0, maxRank).Draw(rt, label+"/rank")
	s := make([]int, rank)
	total := 1
	for i := range s {
		lim := maxElems / total
		if lim > 7 && rapid.IntRange(0, 9).Draw(rt, label+"/big") != 0 {
			lim = 7
		}
		if lim < 1 {
			lim = 1
		}
		s[i] = rapid.IntRange(1, lim).Draw(rt, label+"/ext")
		total *= s[i]
	}
	return s
}

// Prod is the number of elements of a shape.
func Prod(s []int) int {
	n := 1
	for _, x := range s {
		n *= x
	}
	return n
}

// AttrVal draws an attribute value: scalar or 1-D of a numeric type, or a string.
// minLen is the least slice length. strs allows []string.
func AttrVal(rt *rapid.T, label string, types []reflect.Type, minLen, maxLen int, strs bool) any {
	k := rapid.IntRange(0, 9).Draw(rt, label+"/k")
	if k <= 2 {
		return Str(rt, label, 20)
	}
	if strs && k == 3 {
		n := rapid.IntRange(minLen, 5).Draw(rt, label+"/n")
		return Flat(rt, StringType, n, label)
	}
	t := rapid.SampledFrom(types).Draw(rt, label+"/t")
	if k <= 5 {
		return leaf(rt, t, label).Interface()
	}
	n := rapid.IntRange(minLen, maxLen).Draw(rt, label+"/n")
	return Flat(rt, t, n, label)
}

// Attrs draws up to max attributes.
func Attrs(rt *rapid.T, label string, max, maxName int, types []reflect.Type, minLen, maxLen int, strs bool) []Attr {
	n := rapid.IntRange(0, max).Draw(rt, label+"/n")
	names := Names(rt, label, n, maxName)
	var ret []Attr
	for _, nm := range names {
		ret = append(ret, Attr{nm, AttrVal(rt, label+"/v", types, minLen, maxLen, strs)})
	}
	return ret
}

// Leaf draws one value of type t.
func Leaf(rt *rapid.T, t reflect.Type, label string) any { return leaf(rt, t, label).Interface() }
