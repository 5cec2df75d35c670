// Package capi drives /verif/capi/nchelper, a process that wraps the NetCDF and
// HDF5 C libraries: an oracle and a file producer independent of the library
// under test.
package capi

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// NetCDF type codes beyond the classic ones.
const (
	String   = 12
	VLen     = 13
	Opaque   = 14
	Enum     = 15
	Compound = 16
)

// NetCDF creation modes.
const (
	ModeClassic  = 0
	Mode64Offset = 0x200
	Mode64Data   = 0x20
	ModeNetCDF4  = 0x1000
)

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var cur *proc

// Infra marks a failure of the harness, not of the library.
func Infra(format string, a ...any) {
	panic(fmt.Sprintf("VERIF-INFRA: "+format, a...))
}

func start() *proc {
	path := os.Getenv("VERIF_HELPER")
	if path == "" {
		Infra("VERIF_HELPER not set")
	}
	cmd := exec.Command(path)
	in, err := cmd.StdinPipe()
	if err != nil {
		Infra("%v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		Infra("%v", err)
	}
	if os.Getenv("VERIF_HELPER_STDERR") != "" {
		cmd.Stderr = os.Stderr
	}
	if err := cmd.Start(); err != nil {
		Infra("cannot start the C helper: %v", err)
	}
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<20)}
}

// Died is the error when the helper process ended during a request (the C
// library crashed on the file).
type Died struct{ why string }

func (d Died) Error() string { return "the C library crashed: " + d.why }

// Do sends commands as one request and returns the output lines. The error is
// what the C library reported.
func Do(cmds ...string) ([]string, error) {
	if cur == nil {
		cur = start()
	}
	var b bytes.Buffer
	for _, c := range cmds {
		b.WriteString(c)
		b.WriteByte('\n')
	}
	b.WriteString("END\n")
	p := cur
	go func() { _, _ = p.in.Write(b.Bytes()) }()
	slow := time.AfterFunc(2*time.Minute, func() { _ = p.cmd.Process.Signal(syscall.SIGABRT) })
	defer slow.Stop()
	var lines []string
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			_ = p.in.Close()
			werr := p.cmd.Wait()
			cur = nil
			if werr != nil && strings.Contains(werr.Error(), "killed") {
				Infra("C helper killed")
			}
			return lines, Died{fmt.Sprint(werr)}
		}
		l = l[:len(l)-1]
		if l == "OK" {
			return lines, nil
		}
		if strings.HasPrefix(l, "ERR ") {
			// a new process: this one may still have files open in the libraries
			_ = p.in.Close()
			_ = p.cmd.Process.Kill()
			_ = p.cmd.Wait()
			cur = nil
			return lines, fmt.Errorf("%s", l[4:])
		}
		lines = append(lines, l)
	}
}

// Hex codes a string for the protocol.
func Hex(s string) string {
	if s == "" {
		return "-"
	}
	return hex.EncodeToString([]byte(s))
}

// HexLE codes flat numeric data little-endian.
func HexLE(flat any) string {
	var b bytes.Buffer
	if err := binary.Write(&b, binary.LittleEndian, flat); err != nil {
		Infra("HexLE %T: %v", flat, err)
	}
	return Hex(b.String())
}

func unhex(s string) string {
	if s == "-" {
		return ""
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		Infra("bad hex %.50q", s)
	}
	return string(b)
}

// Values codes flat values (numeric, []string) for PUT and ATT. chars codes
// strings as characters.
func Values(flat any) string {
	switch v := flat.(type) {
	case []string:
		var s []string
		for _, x := range v {
			s = append(s, Hex(x))
		}
		return strings.Join(s, " ")
	case string:
		return Hex(v)
	}
	return HexLE(flat)
}

// TypeOf is the NetCDF-4 type code of a Go element type.
func TypeOf(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Int8:
		return 1
	case reflect.Int16:
		return 3
	case reflect.Int32:
		return 4
	case reflect.Float32:
		return 5
	case reflect.Float64:
		return 6
	case reflect.Uint8:
		return 7
	case reflect.Uint16:
		return 8
	case reflect.Uint32:
		return 9
	case reflect.Int64:
		return 10
	case reflect.Uint64:
		return 11
	case reflect.String:
		return String
	}
	return 0
}

var goTypes = map[int]reflect.Type{
	1: reflect.TypeOf(int8(0)), 2: reflect.TypeOf(uint8(0)), 3: reflect.TypeOf(int16(0)), 4: reflect.TypeOf(int32(0)),
	5: reflect.TypeOf(float32(0)), 6: reflect.TypeOf(float64(0)), 7: reflect.TypeOf(uint8(0)), 8: reflect.TypeOf(uint16(0)),
	9: reflect.TypeOf(uint32(0)), 10: reflect.TypeOf(int64(0)), 11: reflect.TypeOf(uint64(0)), 12: reflect.TypeOf(""),
}

// GoType of a standard type code.
func GoType(t int) reflect.Type { return goTypes[t] }

// Dim as the C library reports it.
type Dim struct {
	ID    int
	Name  string
	Len   int64
	Unlim bool
}

// Field of a compound type.
type Field struct {
	Name string
	Off  int
	Type int
	Dims []int
}

// Type is a user-defined type.
type Type struct {
	ID, Size, Base, NFields, Class int
	Name                           string
	Members                        []string // enum
	MemVals                        []string // enum, raw little-endian
	Fields                         []Field
}

// Att is an attribute; Toks are its raw value tokens.
type Att struct {
	Name string
	Type int
	Len  int
	Toks []string
}

// Var is a variable.
type Var struct {
	Name string
	Type int
	Dims []Dim
	Toks []string
	Atts []Att
}

// Group is a group.
type Group struct {
	Name   string
	Dims   []Dim
	Types  []Type
	Atts   []Att
	Vars   []Var
	Groups []*Group
}

// Dump is a file's content.
type Dump struct {
	Format int
	Root   *Group
	Types  map[int]*Type
}

type toks struct {
	t []string
	i int
}

func (t *toks) s() string {
	if t.i >= len(t.t) {
		Infra("dump line too short: %.200q", strings.Join(t.t, " "))
	}
	t.i++
	return t.t[t.i-1]
}
func (t *toks) n() int {
	n, err := strconv.Atoi(t.s())
	if err != nil {
		Infra("dump: %v in %.200q", err, strings.Join(t.t, " "))
	}
	return n
}
func (t *toks) rest() []string { return t.t[t.i:] }

// DumpFile reads everything through libnetcdf.
func DumpFile(path string) (*Dump, error) {
	lines, err := Do("DUMP " + path)
	if err != nil {
		return nil, err
	}
	d := &Dump{Root: &Group{}, Types: map[int]*Type{}}
	stack := []*Group{d.Root}
	var atts *[]Att
	atts = &d.Root.Atts
	for _, l := range lines {
		t := &toks{t: strings.Fields(l)}
		g := stack[len(stack)-1]
		switch t.s() {
		case "format":
			d.Format = t.n()
		case "dim":
			g.Dims = append(g.Dims, Dim{ID: t.n(), Name: unhex(t.s()), Len: int64(t.n()), Unlim: t.n() == 1})
		case "type":
			ty := Type{ID: t.n(), Name: unhex(t.s()), Size: t.n(), Base: t.n(), NFields: t.n(), Class: t.n()}
			if ty.Class == Enum {
				for i := 0; i < ty.NFields; i++ {
					ty.Members = append(ty.Members, unhex(t.s()))
					ty.MemVals = append(ty.MemVals, unhex(t.s()))
				}
			}
			if ty.Class == Compound {
				for i := 0; i < ty.NFields; i++ {
					f := Field{Name: unhex(t.s()), Off: t.n(), Type: t.n()}
					for k := t.n(); k > 0; k-- {
						f.Dims = append(f.Dims, t.n())
					}
					ty.Fields = append(ty.Fields, f)
				}
			}
			g.Types = append(g.Types, ty)
			d.Types[ty.ID] = &ty
		case "att":
			*atts = append(*atts, Att{Name: unhex(t.s()), Type: t.n(), Len: t.n(), Toks: t.rest()})
		case "var":
			v := Var{Name: unhex(t.s()), Type: t.n()}
			for k := t.n(); k > 0; k-- {
				v.Dims = append(v.Dims, Dim{ID: t.n(), Name: unhex(t.s()), Len: int64(t.n())})
			}
			t.s() // =
			v.Toks = t.rest()
			g.Vars = append(g.Vars, v)
			atts = &g.Vars[len(g.Vars)-1].Atts
		case "group":
			ng := &Group{Name: unhex(t.s())}
			g.Groups = append(g.Groups, ng)
			stack = append(stack, ng)
			atts = &ng.Atts
		case "endgroup":
			stack = stack[:len(stack)-1]
		default:
			Infra("dump line %.100q", l)
		}
	}
	return d, nil
}

// Flat decodes n values of a standard type from tokens into a flat Go slice
// (char gives []uint8).
func Flat(typ, n int, tk []string) any {
	gt := goTypes[typ]
	if gt == nil {
		Infra("Flat: type %d", typ)
	}
	if typ == String {
		out := make([]string, 0, n)
		for _, x := range tk {
			if x == "NULL" {
				out = append(out, "")
			} else {
				out = append(out, unhex(x))
			}
		}
		return out
	}
	s := reflect.MakeSlice(reflect.SliceOf(gt), n, n)
	if n > 0 {
		if len(tk) != 1 {
			Infra("Flat: %d tokens", len(tk))
		}
		if err := binary.Read(strings.NewReader(unhex(tk[0])), binary.LittleEndian, s.Interface()); err != nil {
			Infra("Flat: %v", err)
		}
	}
	return s.Interface()
}

// Shape of a variable.
func (v *Var) Shape() []int {
	s := make([]int, len(v.Dims))
	for i, d := range v.Dims {
		s[i] = int(d.Len)
	}
	return s
}

// N is the number of elements.
func (v *Var) N() int {
	n := 1
	for _, d := range v.Dims {
		n *= int(d.Len)
	}
	return n
}

// Unhex is for callers that walk tokens themselves.
func Unhex(s string) string { return unhex(s) }
