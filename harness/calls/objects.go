package main

import (
	"reflect"

	mav "github.com/botlink/go-mavlink2"

	. "verifharness/h"
)

// object is a message, a frame or an encoded payload.
type object struct {
	d   *Def
	m   mav.Message // nil: frame or payload
	f   mav.Frame
	raw []byte

	shared bool // an unknown message and its copy have the same bytes
}

func (o *object) now() M {
	switch {
	case o.m != nil && o.d != nil:
		return M{"t": "msg", "d": o.d.D.Name, "id": o.d.ID, "vals": o.d.Vals(o.m), "two": o.m.GetVersion() == 2}
	case o.m != nil:
		u := o.m.(*mav.UnknownMessage)
		return M{"t": "unk", "id": u.ID, "ver": u.Version, "b": Clone(u.Raw)}
	case o.f != nil:
		return M{"t": "frame", "b": Clone(o.f.Bytes())}
	}
	return M{"t": "raw", "b": Clone(o.raw)}
}

// bytes is what a user may write into, but for the bytes that make a frame what it is.
func (o *object) bytes() (b []byte, at []int) {
	switch {
	case o.shared:
		return nil, nil
	case o.m != nil && o.d == nil:
		b = o.m.(*mav.UnknownMessage).Raw
	case o.m != nil:
		return nil, nil
	case o.f != nil:
		b = o.f.Bytes()
	default:
		b = o.raw
	}
	for i := range b {
		if o.f != nil && (i < 3 || o.f.GetVersion() == 1 && i == 5 || o.f.GetVersion() == 2 && i >= 7 && i < 10) {
			continue
		}
		at = append(at, i)
	}
	return
}

type heap struct {
	g     *gen
	objs  []*object
	last  []M
	steps []M
	kinds map[int]bool
	first []int // what a history begins with
}

// note records an operation together with everything that has changed.
func (h *heap) note(e M, made ...*object) {
	diff := []M{}
	for i, o := range h.objs {
		if n := o.now(); !reflect.DeepEqual(n, h.last[i]) {
			diff = append(diff, M{"o": i + 1, "v": n})
			h.last[i] = n
		}
	}
	news := []M{}
	for _, o := range made {
		n := o.now()
		h.objs, h.last = append(h.objs, o), append(h.last, n)
		news = append(news, n)
	}
	e["diff"], e["made"] = diff, news
	if e["err"] == nil {
		e["err"] = ""
	}
	h.steps = append(h.steps, e)
}

func (h *heap) pick(ok func(o *object) bool) int {
	var at []int
	for i, o := range h.objs {
		if ok(o) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return -1
	}
	return at[h.g.r.Intn(len(at))]
}

func isMsg(o *object) bool   { return o.m != nil && o.d != nil }
func isFrame(o *object) bool { return o.f != nil }

func catch(f func() error) string {
	e := "panic"
	Catch(func() { e = ErrName(f()) })
	return e
}

// The operations return the place of what they have made, or -1.

func (h *heap) enc(i, ver int) int {
	var p []byte
	e := catch(func() (err error) { p, err = h.objs[i].m.Write(ver); return })
	s := M{"op": "o.enc", "o": i + 1, "ver": ver, "err": e}
	if e != "" {
		h.note(s)
		return -1
	}
	h.note(s, &object{raw: p})
	return len(h.objs) - 1
}

func (h *heap) build(i int, name string, ver int) int {
	r := h.g.r
	sys, comp, seq := byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))
	o := h.objs[i]
	if o.d != nil {
		name = o.d.D.Name
	} else if o.m.GetID() > 255 || ver == 0 || ver == 3 {
		ver = 2
	}
	dl := []DL{{N: name}}
	f, e := getFrame(dl, ver, sys, comp, seq, o.m)
	s := M{"op": "o.build", "o": i + 1, "dl": dl, "ver": ver, "sys": sys, "comp": comp, "seq": seq, "err": e}
	if e != "" {
		h.note(s)
		return -1
	}
	h.note(s, &object{f: f})
	return len(h.objs) - 1
}

func (h *heap) dec(i int, name string) int {
	f := h.objs[i].f
	dl := []DL{}
	if name != "" {
		dl = append(dl, DL{N: name})
	}
	var m mav.Message
	e := catch(func() (err error) { m, err = Dialects(dl).GetMessage(f); return })
	s := M{"op": "o.dec", "f": i + 1, "dl": dl, "err": e}
	if m == nil || reflect.ValueOf(m).IsNil() {
		h.note(s)
		return -1
	}
	o := &object{m: m}
	if _, ok := m.(*mav.UnknownMessage); !ok {
		o.d = ByName[name].ByID[m.GetID()]
		if o.d == nil {
			return -1
		}
	}
	h.note(s, o)
	return len(h.objs) - 1
}

func (h *heap) read(i, frame int) {
	e := catch(func() error { return h.objs[i].m.Read(h.objs[frame].f) })
	h.note(M{"op": "o.read", "o": i + 1, "f": frame + 1, "err": e})
}

func (h *heap) poke(i int) {
	b, at := h.objs[i].bytes()
	if len(at) == 0 {
		return
	}
	k := at[h.g.r.Intn(len(at))]
	b[k] ^= byte(1 + h.g.r.Intn(255))
	h.note(M{"op": "o.poke", "o": i + 1, "at": k + 1, "v": b[k]})
}

func (h *heap) set(i int, mode int) {
	o := h.objs[i]
	vals := o.d.RandVals(h.g.r, mode)
	o.d.SetVals(o.m, vals)
	h.note(M{"op": "o.set", "o": i + 1, "vals": vals})
}

// twice does everything with a message of one type more than once.
func (h *heap) twice(d *Def, fill bool) {
	mode := h.g.r.Intn(Modes)
	h.note(M{"op": "o.new", "d": d.D.Name, "id": d.ID}, &object{d: d, m: d.New()})
	if fill {
		h.set(0, mode)
	}
	name := d.D.Name
	var frames []int
	for round := 0; round < 2; round++ {
		for ver := 1; ver <= 2; ver++ {
			if p := h.enc(0, ver); p >= 0 {
				h.poke(p)
			}
			if f := h.build(0, name, ver); f >= 0 {
				h.poke(f)
				frames = append(frames, h.build(0, name, ver))
			}
		}
	}
	for _, f := range frames {
		for _, n := range []string{name, ""} {
			a := h.dec(f, n)
			b := h.dec(f, n)
			if a < 0 || b < 0 {
				continue
			}
			if h.objs[a].d != nil {
				h.set(a, h.g.r.Intn(Modes))
			}
			h.poke(a)
			c := h.dec(f, n)
			h.read(a, frames[0])
			h.poke(f)
			if c >= 0 {
				h.read(c, f)
			}
		}
	}
	h.enc(0, 2)
}

// bands are where step's kinds of operations end.
var bands = []int{8, 22, 26, 38, 52, 54, 56, 68, 78, 86, 89, 92, 100}

// swarm picks the kinds of operations of a history: all, or some of them.
func (h *heap) swarm() {
	h.kinds = nil
	h.first = []int{0}
	for _, k := range []int{8, 55} { // a set, a frame
		if h.g.r.Intn(2) == 0 {
			h.first = append(h.first, k)
		}
	}
	if h.g.r.Intn(3) == 0 {
		return
	}
	h.kinds = map[int]bool{}
	for i := range bands {
		h.kinds[i] = h.g.r.Intn(5) < 2
	}
	h.kinds[0] = h.g.r.Intn(2) == 0 // there is a first message anyway
}

func (h *heap) kind() int {
	if len(h.first) > 0 {
		k := h.first[0]
		h.first = h.first[1:]
		return k
	}
	for try := 0; ; try++ {
		k := h.g.r.Intn(100)
		for i, end := range bands {
			if k < end {
				if h.kinds == nil || h.kinds[i] || try > 200 {
					return k
				}
				break
			}
		}
	}
}

func (h *heap) step(ds []*Def, ss map[*Def][]setter) {
	g := h.g
	r := g.r
	msg := h.pick(isMsg)
	frame := h.pick(isFrame)
	switch k := h.kind(); {
	case k < 8 || msg < 0:
		d := ds[r.Intn(len(ds))]
		m := d.New()
		if m == nil {
			return
		}
		h.note(M{"op": "o.new", "d": d.D.Name, "id": d.ID}, &object{d: d, m: m})
	case k < 22: // set fields
		o := h.objs[msg]
		vals := o.d.RandVals(r, r.Intn(Modes))
		if r.Intn(2) == 0 && !o.d.Variable {
			// only one of them
			was := o.d.Vals(o.m)
			if len(was) > 0 {
				i := r.Intn(len(was))
				was[i] = vals[i]
			}
			vals = was
		}
		o.d.SetVals(o.m, vals)
		h.note(M{"op": "o.set", "o": msg + 1, "vals": vals})
	case k < 26: // a flag users may set
		o := h.objs[msg]
		v := reflect.ValueOf(o.m).Elem().FieldByName("HasExtensionFieldValues")
		if !o.d.HasExt() || !v.IsValid() || v.Kind() != reflect.Bool {
			return
		}
		b := r.Intn(2) == 0
		v.SetBool(b)
		h.note(M{"op": "o.flag", "o": msg + 1, "v": b})
	case k < 38: // encode
		h.enc(msg, g.pick(1, 2, 1, 2, 1, 2, 1, 2, 0, 3))
	case k < 52: // build a frame
		if r.Intn(4) == 0 { // what was decoded without a dialect may go out with one
			if i := h.pick(func(o *object) bool { return o.m != nil && o.d == nil }); i >= 0 {
				msg = i
			}
		}
		h.build(msg, ds[0].D.Name, g.pick(1, 2, 1, 2, 1, 2, 1, 2, 0, 3))
	case k < 54 && r.Intn(2) == 0: // an unknown message around part of a buffer
		d := ds[r.Intn(len(ds))]
		n := r.Intn(d.Base + 1)
		b := RandBytes(r, n+r.Intn(4))
		u := &mav.UnknownMessage{ID: d.ID, Version: 1 + r.Intn(2), Raw: b[:n]}
		h.note(M{"op": "o.wrap", "b": Clone(b), "n": n, "id": u.ID, "ver": u.Version}, &object{raw: b, shared: true}, &object{m: u, shared: true})
	case k < 56: // a frame from elsewhere
		ver := 1 + r.Intn(2)
		d := ds[r.Intn(len(ds))]
		id, crc, max := d.ID, d.CRC, d.Max
		if ver == 1 {
			max = d.Base
		}
		if ver == 1 && id > 255 || r.Intn(3) == 0 {
			id, crc = uint32(g.pick(4, 99, 250)), 9
			if ver == 2 {
				id = uint32(g.pick(4, 99, 60000, 1<<24-1))
			}
			for ; d.D.ByID[id] != nil; id-- {
			}
			max = 255
		}
		spec := FrameSpec{Ver: ver, Seq: byte(r.Intn(256)), Sys: 9, Comp: 8, ID: id, CRCExtra: crc, Payload: RandBytes(r, r.Intn(max+1))}
		if ver == 2 && r.Intn(3) == 0 {
			spec.Inc, spec.Sig = 1, RandBytes(r, 13)
		}
		b := spec.Build()
		var f mav.Frame
		e := catch(func() (err error) { f, err = mav.FrameFromBytes(b, uint16(len(b)), true); return })
		if e != "" || f == nil {
			return
		}
		h.note(M{"op": "o.take", "b": Clone(b)}, &object{f: f})
	case k < 68: // decode
		if frame < 0 {
			return
		}
		name := ""
		if r.Intn(4) > 0 {
			name = ds[0].D.Name
		}
		h.dec(frame, name)
	case k < 78: // decode into a message there is
		if frame < 0 {
			return
		}
		f := h.objs[frame].f
		i := h.pick(func(o *object) bool {
			return o.m != nil && (o.d == nil || o.d.ID > 255 && f.GetVersion() == 1 || o.d.ID == f.GetMessageID() && int(f.GetMessageLength()) <= o.d.Max && (f.GetVersion() == 2 || int(f.GetMessageLength()) <= o.d.Base || o.d.ID > 255 || o.d.Variable))
		})
		if i < 0 {
			return
		}
		h.read(i, frame)
	case k < 86: // write into bytes, or behind them
		i := h.pick(func(o *object) bool { _, at := o.bytes(); return len(at) > 0 })
		if i < 0 {
			return
		}
		b, _ := h.objs[i].bytes()
		if r.Intn(3) == 0 {
			_ = append(b, RandBytes(r, 1+r.Intn(9))...)
			h.note(M{"op": "o.grow", "o": i + 1})
			return
		}
		h.poke(i)
	case k < 89: // copy the message
		i := h.pick(func(o *object) bool { return o.m != nil })
		o := h.objs[i]
		o.shared = o.d == nil
		m := reflect.New(reflect.TypeOf(o.m).Elem())
		m.Elem().Set(reflect.ValueOf(o.m).Elem())
		h.note(M{"op": "o.dup", "o": i + 1}, &object{d: o.d, m: m.Interface().(mav.Message), shared: o.shared})
	case k < 92: // texts
		o := h.objs[msg]
		l := ss[o.d]
		if len(l) == 0 {
			return
		}
		s := l[r.Intn(len(l))]
		b := make([]byte, r.Intn(o.d.Fields[s.field].Count*3/2+1))
		for i := range b {
			b[i] = byte(33 + r.Intn(90))
		}
		e := catch(func() error {
			x := reflect.ValueOf(o.m).MethodByName("Set" + s.name).Call([]reflect.Value{reflect.ValueOf(string(b))})[0]
			if x.IsNil() {
				return nil
			}
			return x.Interface().(error)
		})
		h.note(M{"op": "o.text", "o": msg + 1, "field": s.field + 1, "text": B(b), "err": e})
	default: // look at things
		for _, o := range h.objs {
			if r.Intn(2) == 0 {
				continue
			}
			switch {
			case o.m != nil:
				textOf(o.m)
				Catch(func() { o.m.GetID(); o.m.GetMessageName(); o.m.GetDialect() })
			case o.f != nil:
				textOf(o.f)
				accessors(o.f)
				Catch(func() { Dialects([]DL{{N: ds[0].D.Name}}).Validate(o.f) })
			}
		}
		h.note(M{"op": "o.look"})
	}
}

// c29: histories of messages, frames and payloads
func (g *gen) c29() {
	ss := map[*Def][]setter{}
	for _, s := range setters() {
		ss[s.d] = append(ss[s.d], s)
	}
	eachDef(func(d *Def) {
		if g.newOrReport(d) == nil {
			return
		}
		for _, fill := range []bool{false, true} {
			h := &heap{g: g}
			h.twice(d, fill)
			g.w.Put(M{"k": "objects", "steps": h.steps})
		}
		for k := 0; k < g.n; k++ {
			ds := []*Def{d, d}
			if known := d.D.Known(); g.r.Intn(2) == 0 {
				ds = append(ds, known[g.r.Intn(len(known))])
			}
			h := &heap{g: g}
			h.swarm()
			for i := 0; i < 25; i++ {
				h.step(ds, ss)
			}
			g.w.Put(M{"k": "objects", "steps": h.steps})
		}
	})
}
