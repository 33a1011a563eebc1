package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	mav "github.com/botlink/go-mavlink2"

	. "verifharness/h"
)

// --- text forms ----------------------------------------------------------------
//
// A text form is read back: its lines into names and texts, and the texts into
// values by the type of the field.

func textOf(x any) (s string, panicked bool) {
	st, ok := x.(fmt.Stringer)
	if !ok {
		return "", false
	}
	pn := Catch(func() { s = st.String() })
	return s, pn != ""
}

func linesOf(s string) (out [][2]string) {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		k, v, _ := strings.Cut(l, ":")
		out = append(out, [2]string{strings.TrimSpace(k), strings.TrimSpace(v)})
	}
	return
}

func number(typ string, size int, t string) (B, bool) {
	out := make(B, size)
	put := func(x uint64) {
		for i := range out {
			out[size-1-i] = byte(x)
			x >>= 8
		}
	}
	switch {
	case typ == "float" || typ == "double":
		x, err := strconv.ParseFloat(t, size*8)
		if err != nil {
			return nil, false
		}
		if size == 4 {
			put(uint64(math.Float32bits(float32(x))))
		} else {
			put(math.Float64bits(x))
		}
	case strings.HasPrefix(typ, "int"):
		x, err := strconv.ParseInt(t, 10, size*8)
		if err != nil {
			return nil, false
		}
		put(uint64(x))
	default:
		x, err := strconv.ParseUint(t, 10, size*8)
		if err != nil {
			return nil, false
		}
		put(x)
	}
	return out, true
}

func shownValue(f Field, t string) B {
	toks := strings.Fields(t)
	if f.Array {
		end := strings.Index(t, "]")
		if !strings.HasPrefix(t, "[") || end < 0 {
			return B{}
		}
		toks = strings.Fields(t[1:end])
		if len(toks) != f.Count {
			return B{}
		}
	} else if len(toks) == 0 {
		return B{}
	} else {
		toks = toks[:1]
	}
	out := B{}
	for _, x := range toks {
		b, ok := number(f.Type, f.Size, x)
		if !ok {
			return B{}
		}
		out = append(out, b...)
	}
	return out
}

// showStep records the text form of a message.
func (g *gen) showStep(d *Def, m mav.Message) M {
	ext := false
	if v := reflect.ValueOf(m).Elem().FieldByName("HasExtensionFieldValues"); v.IsValid() {
		ext = v.Bool()
	}
	before := d.Vals(m)
	t, pn := textOf(m)
	ls := []M{}
	head := []string{"", ""}
	for i, l := range linesOf(t) {
		l := l
		x := M{"n": l[0], "v": B{}}
		if i == 0 {
			head = l[:] // the message; a field may be called Name, too
			continue
		}
		switch {
		case l[0] == "PayloadLength" && d.Variable:
			x["v"] = shownValue(Field{Type: "uint8_t", Size: 1, Count: 1}, l[1])
		default:
			for _, f := range d.Fields {
				if f.Go == l[0] {
					x["v"] = shownValue(f, l[1])
				}
			}
		}
		ls = append(ls, x)
	}
	return M{"op": "show", "d": d.D.Name, "id": d.ID, "ext": ext, "head": head, "vals": before, "after": d.Vals(m), "lines": ls, "panic": pn}
}

func (g *gen) c26() {
	eachDef(func(d *Def) {
		m := g.newOrReport(d)
		if m == nil {
			return
		}
		var steps []M
		for k := 0; k < g.n; k++ {
			if g.r.Intn(2) == 0 {
				// as decoded
				ver := 1 + g.r.Intn(2)
				if d.ID > 255 {
					ver = 2
				}
				d.SetVals(m, d.RandVals(g.r, g.r.Intn(Modes)))
				p, e := encode(d, m, ver)
				if e != "" || len(p) > 255 {
					continue
				}
				x := d.New()
				if Catch(func() { e = ErrName(x.Read(frameFor(d, ver, p))) }) != "" || e != "" {
					continue
				}
				steps = append(steps, g.showStep(d, x))
				continue
			}
			d.SetVals(m, d.RandVals(g.r, g.r.Intn(Modes)))
			if v := reflect.ValueOf(m).Elem().FieldByName("HasExtensionFieldValues"); v.IsValid() && d.HasExt() {
				v.SetBool(g.r.Intn(2) == 0)
			}
			steps = append(steps, g.showStep(d, m))
		}
		if len(steps) > 0 {
			g.run(steps...)
		}
	})
	for k := 0; k < 20*g.n; k++ {
		var steps []M
		for i := 0; i < 6; i++ {
			l := g.pick(0, 1, 2, 254, 255, g.r.Intn(256), g.r.Intn(20))
			s := FrameSpec{Ver: 1 + g.r.Intn(2), Seq: byte(g.r.Intn(256)), Sys: byte(g.r.Intn(256)), Comp: byte(g.r.Intn(256)), ID: uint32(g.r.Intn(1 << 24)), CRCExtra: byte(g.r.Intn(256)), Payload: RandBytes(g.r, l),
				Inc: byte(g.pick(0, 1, 2, 3, 254, 255, g.r.Intn(256))), Compat: byte(g.pick(0, 1, 255, g.r.Intn(256))), Sig: RandBytes(g.r, 13), CRCXor: uint16(g.r.Intn(2))}
			steps = append(steps, g.showFrame(s.Build()), g.showUnknown(s.Build()))
		}
		g.run(steps...)
	}
}

func numberOr(t string, not int64) int64 {
	x, err := strconv.ParseInt(t, 0, 64)
	if err != nil || x > 1<<30 {
		return not
	}
	return x
}

// showFrame records the text form of a frame.
func (g *gen) showFrame(b []byte) M {
	in := Clone(b)
	t, pn := textOf(AsFrame(in))
	ls := []M{}
	for _, l := range linesOf(t) {
		x := M{"n": l[0], "t": "", "x": -1, "v": B{}}
		switch l[0] {
		case "Signed":
			x["t"] = l[1]
		case "Signature":
			v, err := hex.DecodeString(l[1])
			if err == nil {
				x["v"] = B(v)
			}
		default:
			x["x"] = numberOr(l[1], -1)
		}
		ls = append(ls, x)
	}
	return M{"op": "showframe", "f": Clone(b), "f2": in, "lines": ls, "panic": pn}
}

// showUnknown records the text form of an unknown message.
func (g *gen) showUnknown(b []byte) M {
	m := &mav.UnknownMessage{}
	var t string
	pn := Catch(func() { m.Read(AsFrame(Clone(b))) }) != ""
	if !pn {
		t, pn = textOf(m)
	}
	ls := []M{}
	for _, l := range linesOf(t) {
		x := M{"n": l[0], "x": -1, "v": B{}}
		if l[0] == "Raw" {
			v, err := hex.DecodeString(l[1])
			if err == nil {
				x["v"] = B(v)
			} else {
				x["v"] = B{1, 2, 3, 4, 5, 6, 7}
			}
		} else {
			x["x"] = numberOr(l[1], -1)
		}
		ls = append(ls, x)
	}
	return M{"op": "showunknown", "f": Clone(b), "lines": ls, "panic": pn}
}
