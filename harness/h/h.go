// Package h holds what the drivers share: the trace writer, the message
// definitions, access to message values by reflection, and frame building
// that is independent of the library.
package h

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	mav "github.com/botlink/go-mavlink2"
)

// B is a byte string, written as an array of numbers.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(x), 10)
	}
	return append(out, ']'), nil
}

func (b *B) UnmarshalJSON(in []byte) error {
	var v []int
	if err := json.Unmarshal(in, &v); err != nil {
		return err
	}
	*b = make([]byte, len(v))
	for i := range v {
		(*b)[i] = byte(v[i])
	}
	return nil
}

// Clone copies a byte string (never nil, so that it is written as an array).
func Clone(b []byte) B { return append(B{}, b...) }

type M map[string]any

// Writer writes one JSON object per line.
type Writer struct {
	f *os.File
	w *bufio.Writer
	N int
}

func NewWriter(path string) *Writer {
	f, err := os.Create(path)
	Must(err)
	return &Writer{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (w *Writer) Put(v any) {
	b, err := json.Marshal(v)
	Must(err)
	w.w.Write(b)
	w.w.WriteByte('\n')
	w.N++
}

func (w *Writer) Close() {
	Must(w.w.Flush())
	Must(w.f.Close())
}

// Must ends the driver: an error of the check, not of the code under test.
func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// ErrOther is the error test dialects return that is not ErrUnknownMessage.
var ErrOther = errors.New("stub dialect failure")

var errNames = []struct {
	e error
	n string
}{
	{mav.ErrFrameTooShort, "frameshort"},
	{mav.ErrUnknownStartByte, "start"},
	{mav.ErrMessageTooShort, "short"},
	{mav.ErrMessageTooLong, "long"},
	{mav.ErrInvalidChecksum, "crc"},
	{mav.ErrUnknownMessage, "unknown"},
	{mav.ErrPrivateField, "private"},
	{mav.ErrUnsupportedVersion, "version"},
	{mav.ErrDecodeV2MessageV1Frame, "dec2in1"},
	{mav.ErrEncodeV2MessageV1Frame, "enc2in1"},
	{mav.ErrValueTooLong, "toolong"},
	{ErrOther, "other"},
}

// ErrName names an error; "" is no error.
func ErrName(err error) string {
	if err == nil {
		return ""
	}
	for _, e := range errNames {
		if errors.Is(err, e.e) {
			return e.n
		}
	}
	return "err:" + err.Error()
}

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	f()
	return ""
}

// --- definitions -----------------------------------------------------------

type Field struct {
	Name  string `json:"name"`
	NameB B      `json:"nameb"`
	Go    string `json:"go"`
	Type  string `json:"type"`
	TypeB B      `json:"typeb"`
	Size  int    `json:"size"`
	Count int    `json:"count"`
	Array bool   `json:"array"`
	Ext   bool   `json:"ext"`
}

func (f Field) Real() bool { return f.Type == "float" || f.Type == "double" }
func (f Field) Text() bool { return f.Type == "char" && f.Array }

type Def struct {
	ID         uint32  `json:"id"`
	Name       string  `json:"name"`
	NameB      B       `json:"nameb"`
	Go         string  `json:"go"`
	Registered bool    `json:"registered"`
	Variable   bool    `json:"variable"`
	Fields     []Field `json:"fields"`
	D          *DialectDef
	CRC        byte
	Base, Max  int
}

func (d *Def) HasExt() bool { return d.Base != d.Max }

type DialectDef struct {
	Pkg      string `json:"pkg"`
	Name     string `json:"name"`
	Messages []*Def `json:"messages"`
	ByID     map[uint32]*Def
	Impl     Dialect
}

// Dialect is what the shipped dialects implement.
type Dialect interface {
	mav.Dialect
	GetName() string
}

func CRC(init uint16, b []byte) uint16 {
	for _, x := range b {
		init ^= uint16(x)
		for k := 0; k < 8; k++ {
			if init&1 == 1 {
				init = init>>1 ^ 0x8408
			} else {
				init >>= 1
			}
		}
	}
	return init
}

var All []*DialectDef
var ByName = map[string]*DialectDef{}

// Load reads the definitions; impls are the shipped dialects in use.
func Load(path string, impls ...Dialect) {
	b, err := os.ReadFile(path)
	Must(err)
	Must(json.Unmarshal(b, &All))
	for _, d := range All {
		ByName[d.Name] = d
		d.ByID = map[uint32]*Def{}
		for _, m := range d.Messages {
			m.D = d
			crc := CRC(0xffff, []byte(m.Name+" "))
			base := append([]Field{}, m.Fields...)
			n := 0
			for _, f := range m.Fields {
				m.Max += f.Size * f.Count
				if !f.Ext {
					base[n] = f
					n++
					m.Base += f.Size * f.Count
				}
			}
			base = base[:n]
			sort.SliceStable(base, func(i, j int) bool { return base[i].Size > base[j].Size })
			for _, f := range base {
				crc = CRC(crc, []byte(f.Type+" "+f.Name+" "))
				if f.Array {
					crc = CRC(crc, []byte{byte(f.Count)})
				}
			}
			m.CRC = byte(crc) ^ byte(crc>>8)
			if m.Registered {
				d.ByID[m.ID] = m
			}
		}
	}
	for _, i := range impls {
		d := ByName[i.GetName()]
		if d == nil {
			Must(fmt.Errorf("dialect %q is not in the definitions", i.GetName()))
		}
		d.Impl = i
	}
}

// --- frames ----------------------------------------------------------------

type FrameSpec struct {
	Ver            int
	Len            int // declared length; -1: that of the payload
	Inc, Compat    byte
	Seq, Sys, Comp byte
	ID             uint32
	Payload        []byte
	CRCExtra       byte
	Sig            []byte
	CRCXor         uint16
}

// Build builds a frame, independently of the library.
func (s FrameSpec) Build() []byte {
	var b []byte
	if s.Ver == 2 {
		b = []byte{0xfd, byte(len(s.Payload)), s.Inc, s.Compat, s.Seq, s.Sys, s.Comp, byte(s.ID), byte(s.ID >> 8), byte(s.ID >> 16)}
	} else {
		b = []byte{0xfe, byte(len(s.Payload)), s.Seq, s.Sys, s.Comp, byte(s.ID)}
	}
	b = append(b, s.Payload...)
	c := CRC(CRC(0xffff, b[1:]), []byte{s.CRCExtra}) ^ s.CRCXor
	b = append(b, byte(c), byte(c>>8))
	if s.Ver == 2 && s.Inc&1 == 1 {
		sig := append(append([]byte{}, s.Sig...), make([]byte, 13)...)
		b = append(b, sig[:13]...)
	}
	return b
}

// AsFrame makes the library's frame of the bytes (which it may alias).
func AsFrame(b []byte) mav.Frame {
	if b[0] == 0xfd {
		return mav.FrameV2(b)
	}
	return mav.FrameV1(b)
}

// --- messages --------------------------------------------------------------

// New makes an empty message of the library for a definition.
func (d *Def) New() mav.Message {
	f := FrameSpec{Ver: 2, ID: d.ID, CRCExtra: d.CRC}.Build()
	m, err := d.D.Impl.GetMessage(mav.FrameV2(f))
	if err != nil || m == nil {
		return nil
	}
	// a fresh value of the same type
	return reflect.New(reflect.TypeOf(m).Elem()).Interface().(mav.Message)
}

func elem(m mav.Message) reflect.Value { return reflect.ValueOf(m).Elem() }

func rawBytes(v reflect.Value) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(v.UnsafeAddr())), v.Type().Size())
}

func elemSize(v reflect.Value) int {
	t := v.Type()
	for t.Kind() == reflect.Array {
		t = t.Elem()
	}
	return int(t.Size())
}

func swapped(b []byte, size int) B {
	out := make(B, len(b))
	for i := range b {
		out[i/size*size+size-1-i%size] = b[i]
	}
	return out
}

// Vals reads the field values of a message in definition order, big endian.
func (d *Def) Vals(m mav.Message) []B {
	e := elem(m)
	var out []B
	for _, f := range d.Fields {
		v := e.FieldByName(f.Go)
		if !v.IsValid() {
			out = append(out, B{})
			continue
		}
		out = append(out, swapped(rawBytes(v), elemSize(v)))
	}
	if d.Variable {
		v := e.FieldByName("PayloadLength")
		out = append(out, Clone(rawBytes(v)))
	}
	return out
}

// SetVals sets the field values of a message.
func (d *Def) SetVals(m mav.Message, vals []B) {
	e := elem(m)
	for i, f := range d.Fields {
		v := e.FieldByName(f.Go)
		if !v.IsValid() {
			continue
		}
		copy(rawBytes(v), swapped(vals[i], elemSize(v)))
	}
	if d.Variable {
		copy(rawBytes(e.FieldByName("PayloadLength")), vals[len(d.Fields)])
	}
}

// Fix replaces signalling NaNs, which a floating point conversion may change.
func (f Field) Fix(b B) B {
	if !f.Real() {
		return b
	}
	for k := 0; k < len(b); k += f.Size {
		x := b[k : k+f.Size]
		if f.Size == 4 && x[0]&0x7f == 0x7f && x[1]&0x80 != 0 {
			x[1] |= 0x40
		}
		if f.Size == 8 && x[0]&0x7f == 0x7f && x[1]&0xf0 == 0xf0 {
			x[1] |= 0x08
		}
	}
	return b
}

// RandVals makes field values: mode 0 zero, 1 all ones, 2 random, 3 sparse,
// 4 low bytes only, 5 random with a zero tail, 6 ASCII-like, 7 single bits,
// 8 a single element.
func (d *Def) RandVals(r *rand.Rand, mode int) []B {
	var out []B
	one := 0
	if len(d.Fields) > 0 {
		one = r.Intn(len(d.Fields))
	}
	for i, f := range d.Fields {
		b := make(B, f.Size*f.Count)
		for k := range b {
			switch mode {
			case 1:
				b[k] = 0xff
			case 2:
				b[k] = byte(r.Intn(256))
			case 3:
				if r.Intn(6) == 0 {
					b[k] = byte(1 + r.Intn(255))
				}
			case 4:
				if k%f.Size == f.Size-1 {
					b[k] = byte(r.Intn(4))
				}
			case 5:
				if i*2 < len(d.Fields) {
					b[k] = byte(r.Intn(256))
				}
			case 6:
				b[k] = byte(32 + r.Intn(95))
			case 7: // single bits, signs and ends
				if k%f.Size == f.Size-1 && r.Intn(2) == 0 {
					b[k] = []byte{0x80, 1, 0x40, 0x7f, 0xff}[r.Intn(5)]
				} else if k%f.Size == 0 && r.Intn(4) == 0 {
					b[k] = []byte{0x80, 1, 0xff}[r.Intn(3)]
				}
			case 8: // one element, and nothing but zero around
				if i == one && k/f.Size == r.Intn(f.Count) && k%f.Size == []int{0, f.Size - 1}[r.Intn(2)] {
					b[k] = []byte{0x80, 1, 0x40, 0x7f, 0xff}[r.Intn(5)]
				}
			}
		}
		out = append(out, f.Fix(b))
	}
	if d.Variable {
		n := r.Intn(250)
		switch mode {
		case 0:
			n = 0
		case 1:
			n = 249
		}
		out = append(out, B{byte(n)})
	}
	return out
}

const Modes = 9

// Sorted message definitions that the library registers.
func (d *DialectDef) Known() []*Def {
	var out []*Def
	for _, m := range d.Messages {
		if m.Registered {
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func RandBytes(r *rand.Rand, n int) B {
	b := make(B, n)
	r.Read(b)
	return b
}

// --- test dialects ----------------------------------------------------------

type StubID struct {
	ID  uint32 `json:"id"`
	CRC int    `json:"crc"`
	Min int    `json:"min"`
	Max int    `json:"max"`
}

// DL is one entry of a dialect list as the specification reads it.
type DL struct {
	N    string   `json:"n"`
	IDs  []StubID `json:"ids,omitempty"`
	Fail []uint32 `json:"fail,omitempty"`
	Tag  int      `json:"tag,omitempty"`
}

func (d DL) MarshalJSON() ([]byte, error) {
	if d.N != "stub" {
		return json.Marshal(map[string]any{"n": d.N})
	}
	ids, fail := d.IDs, d.Fail
	if ids == nil {
		ids = []StubID{}
	}
	if fail == nil {
		fail = []uint32{}
	}
	return json.Marshal(map[string]any{"n": d.N, "ids": ids, "fail": fail, "tag": d.Tag})
}

// Stub is a test dialect.
type Stub struct {
	DL    DL
	Calls *[]int // tags of the stubs asked, in order
}

// StubMsg is what a Stub decodes to.
type StubMsg struct {
	mav.UnknownMessage
	Tag int
}

func (s Stub) note() {
	if s.Calls != nil {
		*s.Calls = append(*s.Calls, s.DL.Tag)
	}
}

func (s Stub) GetName() string { return fmt.Sprint("stub", s.DL.Tag) }

func (s Stub) find(id uint32) (StubID, error) {
	for _, f := range s.DL.Fail {
		if f == id {
			return StubID{}, ErrOther
		}
	}
	for _, e := range s.DL.IDs {
		if e.ID == id {
			return e, nil
		}
	}
	return StubID{}, mav.ErrUnknownMessage
}

func (s Stub) GetMeta(id uint32) (mav.MessageMeta, error) {
	s.note()
	e, err := s.find(id)
	return mav.MessageMeta{CRCExtra: byte(e.CRC), MinimumLength: uint(e.Min), MaximumLength: uint(e.Max)}, err
}

func (s Stub) GetMessage(f mav.Frame) (mav.Message, error) {
	s.note()
	_, err := s.find(f.GetMessageID())
	if err != nil {
		return nil, err
	}
	m := &StubMsg{Tag: s.DL.Tag}
	m.Read(f)
	return m, nil
}

var lists sync.Map

// Dialects makes the library's dialect list.  The same list is the same value
// every time, so that what one use does to it shows in the next.
func Dialects(dl []DL) mav.Dialects {
	var k strings.Builder
	for _, d := range dl {
		k.WriteString(d.N)
		if d.N == "stub" {
			fmt.Fprint(&k, d.IDs, d.Fail, d.Tag)
		}
		k.WriteByte(';')
	}
	if x, ok := lists.Load(k.String()); ok {
		return x.(mav.Dialects)
	}
	var out mav.Dialects
	for _, d := range dl {
		if d.N == "stub" {
			out = append(out, Stub{DL: d})
		} else {
			out = append(out, ByName[d.N].Impl)
		}
	}
	x, _ := lists.LoadOrStore(k.String(), out)
	return x.(mav.Dialects)
}
