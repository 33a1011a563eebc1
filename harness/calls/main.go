// Command calls drives the sequential parts of the library (codec, dialects,
// frames, checksum, text fields) and records every call with its arguments
// and results, for the specification to judge (spec/TraceCalls.tla).
package main

import (
	"encoding/json"
	"flag"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	uavionix "github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"

	. "verifharness/h"
)

var (
	prop = flag.String("prop", "", "property")
	seed = flag.Int64("seed", 1, "seed")
	n    = flag.Int("n", 1, "size")
	out  = flag.String("out", "", "trace file")
	defs = flag.String("defs", "", "definitions")

	mix    = flag.String("mix", "C11,C12,C15,C16,C17,C18,C19,C22,C26", "C24: the calls to make")
	repeat = flag.Int("repeat", 2, "C24: how often in each round")
	rounds = flag.Int("rounds", 1, "C24: how often")
)

// gen makes calls and records them
type gen struct {
	w sink
	r *rand.Rand
	n int
}

type sink interface{ Put(v any) }

func (g *gen) run(steps ...M) { g.w.Put(M{"k": "calls", "steps": steps}) }

func main() {
	flag.Parse()
	Load(*defs, ardupilotmega.Dialect{}, asluav.Dialect{}, autoquad.Dialect{}, common.Dialect{},
		icarous.Dialect{}, matrixpilot.Dialect{}, paparazzi.Dialect{}, slugs.Dialect{},
		uavionix.Dialect{}, ualberta.Dialect{})
	w := NewWriter(*out)
	if *prop == "C24" {
		concurrent(w)
	} else {
		g := &gen{w, rand.New(rand.NewSource(*seed)), *n}
		f := g.calls(*prop)
		if f == nil {
			os.Exit(3)
		}
		f()
	}
	w.Close()
}

func (g *gen) calls(prop string) func() {
	return map[string]func(){
		"C11": g.c11, "C12": g.c12, "C13": g.c13, "C14": g.c14, "C15": g.c15, "C16": g.c16,
		"C17": g.c17, "C18": g.c18, "C19": g.c19, "C22": g.c22, "C25": g.c25, "C26": g.c26, "C29": g.c29,
	}[prop]
}

// --- concurrent use (C24) -------------------------------------------------------

// kept collects what one goroutine recorded
type kept struct{ runs []any }

func (k *kept) Put(v any) { k.runs = append(k.runs, v) }

// concurrent makes calls from several goroutines at once, each with its own
// messages, frames and checksums, but the same dialects.  Goroutines repeat the
// same calls with the same arguments, so all but a few of the recorded runs are
// copies; a run is written once.
func concurrent(w *Writer) {
	kinds := strings.Split(*mix, ",")
	seen := map[string]bool{}
	for round := 0; round < *rounds; round++ {
		for _, k := range kinds {
			const par = 8
			var sinks [par]kept
			var wg sync.WaitGroup
			start := make(chan bool)
			for i := 0; i < par; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for x := 0; x < *repeat; x++ {
						g := &gen{&sinks[i], rand.New(rand.NewSource(*seed*1000 + int64((i+x)%3))), *n}
						g.calls(k)()
					}
				}(i)
			}
			close(start)
			wg.Wait()
			for i := range sinks {
				for _, v := range sinks[i].runs {
					b, err := json.Marshal(v)
					Must(err)
					if !seen[string(b)] {
						seen[string(b)] = true
						w.Put(v)
					}
				}
			}
		}
	}
}

func eachDef(f func(d *Def)) {
	for _, dd := range All {
		for _, d := range dd.Known() {
			f(d)
		}
	}
}

// --- encoding and decoding ---------------------------------------------------

func encode(d *Def, m mav.Message, ver int) (p []byte, e string) {
	var err error
	if pn := Catch(func() { p, err = m.Write(ver) }); pn != "" {
		return nil, "panic"
	}
	return p, ErrName(err)
}

func decodeInto(d *Def, m mav.Message, f mav.Frame) (vals []B, rver int, e string) {
	var err error
	if pn := Catch(func() { err = m.Read(f); rver = m.GetVersion() }); pn != "" {
		return []B{}, 0, "panic"
	}
	if err != nil {
		return []B{}, 0, ErrName(err)
	}
	return d.Vals(m), rver, ""
}

func frameFor(d *Def, ver int, payload []byte) mav.Frame {
	return AsFrame(FrameSpec{Ver: ver, Seq: 1, Sys: 2, Comp: 3, ID: d.ID, Payload: payload, CRCExtra: d.CRC}.Build())
}

func (g *gen) decodeStep(d *Def, how string, ver int, payload []byte) (M, bool) {
	f := frameFor(d, ver, payload)
	var m mav.Message
	switch how {
	case "fresh":
		m = d.New()
	case "dirty":
		m = d.New()
		if m != nil {
			d.SetVals(m, d.RandVals(g.r, 1+g.r.Intn(2)))
		}
	case "dialect":
		var err error
		var vals []B = []B{}
		rver := 0
		e := ""
		if pn := Catch(func() {
			m, err = d.D.Impl.GetMessage(f)
			if err == nil {
				vals = d.Vals(m)
				rver = m.GetVersion()
			}
		}); pn != "" {
			e = "panic"
		} else {
			e = ErrName(err)
		}
		return M{"op": "decode", "how": how, "d": d.D.Name, "id": d.ID, "ver": ver, "payload": Clone(payload), "err": e, "vals": vals, "rver": rver}, true
	}
	if m == nil {
		return nil, false
	}
	vals, rver, e := decodeInto(d, m, f)
	if e == "" {
		// the frame's buffer is reused
		b := f.Bytes()
		for i := range b {
			b[i] ^= 0xa5
		}
		vals = d.Vals(m)
	}
	return M{"op": "decode", "how": how, "d": d.D.Name, "id": d.ID, "ver": ver, "payload": Clone(payload), "err": e, "vals": vals, "rver": rver}, true
}

func sameRes(a, b M) bool {
	return reflect.DeepEqual(a["vals"], b["vals"]) && a["err"] == b["err"] && a["rver"] == b["rver"] && reflect.DeepEqual(a["payload"], b["payload"])
}

// newOrReport makes a message; a dialect that cannot decode a message it
// defines is reported as a decode step.
func (g *gen) newOrReport(d *Def) mav.Message {
	m := d.New()
	if m == nil || reflect.TypeOf(m).Elem().Kind() != reflect.Struct {
		s, _ := g.decodeStep(d, "dialect", 2, []byte{0})
		g.run(s)
		return nil
	}
	return m
}

func (g *gen) c12() {
	eachDef(func(d *Def) {
		m := g.newOrReport(d)
		if m == nil {
			return
		}
		for k := 0; k < g.n; k++ {
			var steps []M
			for _, ver := range []int{2, 1} {
				if ver == 1 && d.ID > 255 {
					continue
				}
				mode := (k + g.r.Intn(2)*int(g.r.Int31n(Modes))) % Modes
				vals := d.RandVals(g.r, mode)
				d.SetVals(m, vals)
				p, e := encode(d, m, ver)
				st := M{"op": "codec", "d": d.D.Name, "id": d.ID, "ver": ver, "vals": d.Vals(m), "want": vals, "err": e, "payload": Clone(p)}
				if e != "" || len(p) > 255 {
					st["derr"], st["back"], st["rver"] = "none", []B{}, 0
					steps = append(steps, st)
					continue
				}
				ds, _ := g.decodeStep(d, "fresh", ver, p)
				st["derr"], st["back"], st["rver"] = ds["err"], ds["vals"], ds["rver"]
				steps = append(steps, st)
				for _, how := range []string{"dirty", "dialect"} {
					x, ok := g.decodeStep(d, how, ver, p)
					if ok && !sameRes(x, ds) {
						steps = append(steps, x)
					}
				}
				if ver == 2 && !d.Variable && len(p) < d.Max {
					// explicitly padded, and padded part of the way
					for _, l := range []int{d.Max, len(p) + g.r.Intn(d.Max-len(p)+1)} {
						pad := append(Clone(p), make([]byte, l-len(p))...)
						x, ok := g.decodeStep(d, "fresh", 2, pad)
						if ok {
							steps = append(steps, x)
						}
					}
				}
			}
			g.run(steps...)
		}
	})
}

// c13: tables, identities, and where every single field goes.
func (g *gen) c13() {
	for _, dd := range All {
		g.run(scanKnown(dd))
		var steps []M
		for _, d := range dd.Known() {
			steps = append(steps, metaStep(dd, d.ID))
		}
		for k := 0; k < 20*g.n; k++ {
			id := uint32(g.r.Intn(1 << 24))
			switch g.r.Intn(4) {
			case 0:
				id = g.r.Uint32()
			case 1:
				id = uint32(g.r.Intn(512))
			case 2:
				k := dd.Known()
				id = k[g.r.Intn(len(k))].ID ^ (1 << g.r.Intn(32))
			}
			steps = append(steps, metaStep(dd, id))
		}
		g.run(steps...)
		for _, d := range dd.Known() {
			steps = nil
			for _, ver := range []int{1, 2} {
				if ver == 1 && d.ID > 255 {
					continue
				}
				steps = append(steps, identStep(d, ver))
			}
			g.run(steps...)
			m := g.newOrReport(d)
			if m == nil {
				continue
			}
			steps = nil
			// field by field, then all together
			for i := -1; i < len(d.Fields)+g.n; i++ {
				vals := d.RandVals(g.r, 0)
				if i == -1 || i >= len(d.Fields) {
					vals = d.RandVals(g.r, 2+g.r.Intn(2))
				} else {
					b := vals[i]
					for k := range b {
						b[k] = byte(1 + g.r.Intn(255))
					}
					d.Fields[i].Fix(b)
				}
				if d.Variable {
					vals[len(d.Fields)] = B{249}
				}
				d.SetVals(m, vals)
				for _, ver := range []int{1, 2} {
					if ver == 1 && d.ID > 255 {
						continue
					}
					p, e := encode(d, m, ver)
					steps = append(steps, M{"op": "encode", "d": d.D.Name, "id": d.ID, "ver": ver, "vals": d.Vals(m), "want": vals, "err": e, "payload": Clone(p)})
				}
			}
			g.run(steps...)
		}
	}
}

func metaStep(dd *DialectDef, id uint32) M {
	var meta mav.MessageMeta
	var err error
	e := Catch(func() { meta, err = dd.Impl.GetMeta(id) })
	if e != "" {
		e = "panic"
	} else {
		e = ErrName(err)
	}
	return M{"op": "meta", "d": dd.Name, "id": int32(id), "err": e, "crc": int(meta.CRCExtra), "min": int(meta.MinimumLength), "max": int(meta.MaximumLength)}
}

func identStep(d *Def, ver int) M {
	var m mav.Message
	var err error
	s := M{"op": "ident", "d": d.D.Name, "id": d.ID, "ver": ver, "name": "", "dialect": "", "mid": 0, "go": ""}
	// the shortest payload validation lets through
	f := frameFor(d, ver, make([]byte, d.Base))
	if d.Variable {
		f = frameFor(d, ver, make([]byte, 5))
	}
	if pn := Catch(func() { m, err = d.D.Impl.GetMessage(f) }); pn != "" {
		s["err"] = "panic"
		return s
	}
	s["err"] = ErrName(err)
	if m != nil {
		s["name"], s["dialect"], s["mid"] = m.GetMessageName(), m.GetDialect(), int32(m.GetID())
		s["go"] = reflect.TypeOf(m).Elem().Name()
	}
	return s
}

// scanKnown asks for every ID a frame can carry.
func scanKnown(dd *DialectDef) M {
	const N = 1 << 24
	const parts = 8
	var mu sync.Mutex
	ids, mids := []int{}, []int{}
	bad := 0
	var wg sync.WaitGroup
	for p := 0; p < parts; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			b := FrameSpec{Ver: 2, ID: 0, Payload: make([]byte, 255)}.Build()
			var fr mav.Frame = mav.FrameV2(b)
			var li, lm []int
			lb := 0
			for id := uint32(p * (N / parts)); id < uint32((p+1)*(N/parts)); id++ {
				_, err := dd.Impl.GetMeta(id)
				if err == nil {
					li = append(li, int(id))
				} else if err != mav.ErrUnknownMessage {
					lb++
				}
				b[7], b[8], b[9] = byte(id), byte(id>>8), byte(id>>16)
				var m mav.Message
				if pn := Catch(func() { m, err = dd.Impl.GetMessage(fr) }); pn != "" {
					lb++
				} else if err == nil && m != nil {
					lm = append(lm, int(id))
				} else if err != mav.ErrUnknownMessage {
					lb++
				}
			}
			mu.Lock()
			ids = append(ids, li...)
			mids = append(mids, lm...)
			bad += lb
			mu.Unlock()
		}(p)
	}
	wg.Wait()
	sort.Ints(ids)
	sort.Ints(mids)
	return M{"op": "known", "d": dd.Name, "ids": ids, "mids": mids, "bad": bad, "scanned": N}
}

// --- building frames -----------------------------------------------------------

func accessors(f mav.Frame) (a M) {
	a = M{"panic": false}
	if pn := Catch(func() {
		a["ver"] = f.GetVersion()
		a["len"] = int(f.GetMessageLength())
		a["seq"] = int(f.GetMessageSequence())
		a["sys"] = int(f.GetSenderSystemID())
		a["comp"] = int(f.GetSenderComponentID())
		a["id"] = int(f.GetMessageID())
		a["crc"] = int(f.GetChecksum())
		a["payload"] = Clone(f.GetMessageBytes())
		a["crcin"] = Clone(f.GetChecksumInput())
		a["bytes"] = Clone(f.Bytes())
		a["inc"], a["compat"], a["signil"], a["sig"] = 0, 0, true, B{}
		if v2, ok := f.(mav.FrameV2); ok {
			a["inc"] = int(v2.GetIncompatibilityFlags())
			a["compat"] = int(v2.GetCompatibilityFlags())
			s := v2.GetSignature()
			a["signil"] = s == nil
			a["sig"] = Clone(s)
		}
	}); pn != "" {
		return M{"panic": true}
	}
	return a
}

// mark tags an accessor record with the kind of frame, for steps without one
func noAcc() M { return M{"panic": true} }

func (g *gen) lists(d *Def) [][]DL {
	one := []DL{{N: d.D.Name}}
	ls := [][]DL{one}
	var all []DL
	first := ""
	for _, k := range g.r.Perm(len(All)) {
		dd := All[k]
		all = append(all, DL{N: dd.Name})
		if first == "" && dd.ByID[d.ID] != nil {
			first = dd.Name
		}
	}
	if first == d.D.Name {
		ls = append(ls, all)
	}
	return ls
}

func getFrame(dl []DL, ver int, sys, comp, seq uint8, m mav.Message) (f mav.Frame, e string) {
	var err error
	if pn := Catch(func() { f, err = Dialects(dl).GetFrame(ver, sys, comp, seq, m) }); pn != "" {
		return nil, "panic"
	}
	e = ErrName(err)
	if e == "" && f == nil {
		e = "nil"
	}
	return
}

func (g *gen) pick(vs ...int) int { return vs[g.r.Intn(len(vs))] }

func (g *gen) c11() {
	g.stubBuilds()
	eachDef(func(d *Def) {
		m := g.newOrReport(d)
		if m == nil {
			return
		}
		var kept []mav.Frame
		was := []B{}
		for k := 0; k < g.n; k++ {
			var steps []M
			for _, dl := range g.lists(d) {
				for _, ver := range []int{1, 2} {
					if ver == 1 && d.ID > 255 {
						continue
					}
					if len(dl) > 1 && k%2 == 0 {
						continue
					}
					mode := (k + int(g.r.Int31n(Modes))) % Modes
					if k == 0 {
						mode = g.pick(0, 2)
					}
					vals := d.RandVals(g.r, mode)
					d.SetVals(m, vals)
					sys, comp, seq := uint8(g.pick(0, 255, 253, 254, g.r.Intn(256))), uint8(g.pick(0, 255, g.r.Intn(256))), uint8(g.pick(0, 255, g.r.Intn(256)))
					f, e := getFrame(dl, ver, sys, comp, seq, m)
					p, pe := encode(d, m, ver)
					s := M{"op": "getframe", "dl": dl, "d": d.D.Name, "id": d.ID, "ver": ver, "sys": int(sys), "comp": int(comp), "seq": int(seq),
						"vals": d.Vals(m), "payload": Clone(p), "perr": pe, "err": e, "f": B{}, "acc": noAcc(), "verr": "none", "derr": "none", "back": []B{}, "mid": -1}
					if e == "" {
						b := f.Bytes()
						s["f"] = Clone(b)
						s["acc"] = accessors(f)
						s["verr"], s["derr"], s["back"], s["mid"] = judge(dl, d, f)
						// neither the message nor an encoding of it belongs to the frame
						for i := range p {
							p[i] ^= 0x5a
						}
						kept = append(kept, f)
						was = append(was, Clone(b))
					}
					steps = append(steps, s)
				}
			}
			if len(kept) > 8 || k == g.n-1 {
				d.SetVals(m, d.RandVals(g.r, 2))
				s := M{"op": "stable", "was": was, "is": []B{}}
				is := []B{}
				for _, f := range kept {
					is = append(is, Clone(f.Bytes()))
				}
				s["is"] = is
				steps = append(steps, s)
				// changing one frame changes no other
				if len(kept) > 1 {
					i := g.r.Intn(len(kept))
					b := kept[i].Bytes()
					b = b[:cap(b)]
					for k := range b {
						b[k] ^= 0xff
					}
					w2, i2 := []B{}, []B{}
					for k := range kept {
						if k != i {
							w2, i2 = append(w2, was[k]), append(i2, Clone(kept[k].Bytes()))
						}
					}
					steps = append(steps, M{"op": "stable", "was": w2, "is": i2})
				}
				kept, was = nil, []B{}
			}
			g.run(steps...)
		}
	})
}

// judge validates and decodes a frame with a dialect list
func judge(dl []DL, d *Def, f mav.Frame) (verr, derr string, back []B, mid int) {
	var err error
	back, mid = []B{}, -1
	if pn := Catch(func() { err = Dialects(dl).Validate(f) }); pn != "" {
		verr = "panic"
	} else {
		verr = ErrName(err)
	}
	var m mav.Message
	if pn := Catch(func() { m, err = Dialects(dl).GetMessage(f) }); pn != "" {
		derr = "panic"
	} else {
		derr = ErrName(err)
		if m != nil && err == nil {
			mid = int(m.GetID())
			if m.GetDialect() == d.D.Name {
				Catch(func() { back = d.Vals(m) })
			}
		}
	}
	return
}

// stubBuilds builds frames for a test dialect, with any CRC seed
func (g *gen) stubBuilds() {
	for k := 0; k < 256*((g.n+3)/4); k++ {
		id := uint32(g.pick(0, 1, 200, 253, 254, 255, 256, 253<<8, 65535, 65536, 253<<16, 1<<24-1, g.r.Intn(1<<24)))
		dl := []DL{{N: "stub", IDs: []StubID{{ID: id, CRC: k % 256, Min: 0, Max: 255}}}}
		if k%3 == 0 {
			dl = append([]DL{g.randStub(2, []uint32{id + 1})}, dl...)
		}
		raw := RandBytes(g.r, g.pick(0, 1, 2, 3, 9, 40, 253, 254, 255))
		for _, ver := range []int{1, 2} {
			if ver == 1 && id > 255 {
				continue
			}
			sys, comp, seq := uint8(g.pick(0, 255, 253, 254, g.r.Intn(256))), uint8(g.pick(0, 255, g.r.Intn(256))), uint8(g.pick(0, 255, g.r.Intn(256)))
			f, e := getFrame(dl, ver, sys, comp, seq, &mav.UnknownMessage{ID: id, Version: ver, Raw: append([]byte{}, raw...)})
			s := M{"op": "buildstub", "dl": dl, "id": id, "ver": ver, "sys": int(sys), "comp": int(comp), "seq": int(seq), "raw": Clone(raw), "err": e, "f": B{}, "verr": "none"}
			if e == "" {
				s["f"] = Clone(f.Bytes())
				if pn := Catch(func() { s["verr"] = ErrName(Dialects(dl).Validate(f)) }); pn != "" {
					s["verr"] = "panic"
				}
			}
			g.run(s)
		}
	}
}

func (g *gen) c14() {
	vers := []int{0, 3, -1, 4, 10, 255, 256, 257, 258, 1 << 16, -2, 1<<32 + 1}
	eachDef(func(d *Def) {
		m := g.newOrReport(d)
		if m == nil {
			return
		}
		var steps []M
		vs := []int{1, 2, vers[g.r.Intn(len(vers))]}
		for k := 0; k < g.n; k++ {
			vs = append(vs, vers[g.r.Intn(len(vers))])
		}
		for _, ver := range vs {
			d.SetVals(m, d.RandVals(g.r, 2))
			p, e := encode(d, m, ver)
			sv := int32(ver)
			if int64(sv) != int64(ver) {
				sv = 1 << 30
			}
			s := M{"op": "encver", "d": d.D.Name, "id": d.ID, "ver": sv, "err": e, "plen": len(p)}
			steps = append(steps, s)
			f, fe := getFrame([]DL{{N: d.D.Name}}, ver, 1, 2, 3, m)
			fv := M{"op": "framever", "d": d.D.Name, "id": d.ID, "ver": sv, "err": fe, "f": B{}}
			if fe == "" {
				fv["f"] = Clone(f.Bytes())
			}
			steps = append(steps, fv)
		}
		if d.ID > 255 {
			// hand a version 1 frame to it
			_, _, e := decodeInto(d, m, mav.FrameV1(FrameSpec{Ver: 1, ID: d.ID & 255, Payload: RandBytes(g.r, d.Base), CRCExtra: d.CRC}.Build()))
			steps = append(steps, M{"op": "read1", "d": d.D.Name, "id": d.ID, "err": e})
		}
		g.run(steps...)
	})
	for k := 0; k < 60*g.n; k++ {
		ids := []uint32{0, 1, 255, 256, 257, 511, 512, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1 << 30, uint32(g.r.Intn(1 << 24)), uint32(g.r.Intn(300))}
		id := ids[g.r.Intn(len(ids))]
		lens := []int{0, 1, 2, 250, 254, 255, 256, 257, 258, 300, 511, 512, 600, g.r.Intn(260)}
		raw := RandBytes(g.r, lens[g.r.Intn(len(lens))])
		dl := []DL{{N: "stub", IDs: []StubID{{ID: id, CRC: g.r.Intn(256), Min: 0, Max: 255}}}}
		for _, ver := range []int{1, 2, vers[g.r.Intn(len(vers)-1)]} {
			m := &mav.UnknownMessage{ID: id, Version: 2, Raw: append([]byte{}, raw...)}
			f, e := getFrame(dl, ver, 7, 8, 9, m)
			s := M{"op": "stubframe", "dl": dl, "id": id, "ver": ver, "raw": Clone(raw), "err": e, "f": B{}}
			if e == "" {
				s["f"] = Clone(f.Bytes())
			}
			g.run(s)
		}
	}
}

// --- dialect lists ---------------------------------------------------------------

func (g *gen) randStub(tag int, pool []uint32) DL {
	d := DL{N: "stub", Tag: tag}
	for _, id := range pool {
		switch g.r.Intn(5) {
		case 0, 1:
			d.IDs = append(d.IDs, StubID{ID: id, CRC: g.r.Intn(256), Min: g.r.Intn(4), Max: 4 + g.r.Intn(30)})
		case 2:
			if g.r.Intn(2) == 0 {
				d.Fail = append(d.Fail, id)
			}
		}
	}
	return d
}

// resolveStep asks a dialect list to decode, validate and build for one ID
func resolveStep(dl []DL, f []byte) M {
	ds := Dialects(dl)
	b := Clone(f)
	fr := AsFrame(b)
	s := M{"op": "resolve", "dl": dl, "f": Clone(f), "kind": "nil", "tag": 0, "dname": "", "mid": -1, "uver": 0, "raw": B{}, "raw2": B{}, "ferr": "", "ff": B{}}
	var m mav.Message
	var err error
	if pn := Catch(func() { m, err = ds.GetMessage(fr) }); pn != "" {
		s["err"] = "panic"
	} else {
		s["err"] = ErrName(err)
	}
	if pn := Catch(func() { err = ds.Validate(fr) }); pn != "" {
		s["verr"] = "panic"
	} else {
		s["verr"] = ErrName(err)
	}
	s["f2"] = Clone(b)
	switch x := m.(type) {
	case nil:
	case *StubMsg:
		s["kind"], s["tag"], s["mid"] = "stub", x.Tag, int(x.ID)
	case *mav.UnknownMessage:
		if x != nil {
			s["kind"], s["mid"], s["uver"], s["raw"] = "unknown", int(x.ID), x.Version, Clone(x.Raw)
			if x.Raw != nil {
				// the frame's buffer is reused
				for i := range b {
					b[i] ^= 0xa5
				}
				s["raw2"] = Clone(x.Raw)
			}
		}
	default:
		if !reflect.ValueOf(m).IsNil() {
			s["kind"], s["dname"], s["mid"] = "shipped", m.GetDialect(), int(m.GetID())
		}
	}
	um := &mav.UnknownMessage{ID: AsFrame(f).GetMessageID(), Version: 2, Raw: []byte{1, 2, 3}}
	ff, fe := getFrame(dl, 2, 1, 2, 3, um)
	s["ferr"] = fe
	if fe == "" {
		s["ff"] = Clone(ff.Bytes())
	}
	fb := []M{}
	for _, ver := range []int{0, 1, 3} {
		x, e := getFrame(dl, ver, 1, 2, 3, um)
		y := M{"ver": ver, "err": e, "f": B{}}
		if e == "" {
			y["f"] = Clone(x.Bytes())
		}
		fb = append(fb, y)
	}
	s["builds"] = fb
	return s
}

func (g *gen) randFrameFor(id uint32, crc byte, plen int) []byte {
	ver := 2
	if id < 256 && g.r.Intn(2) == 0 {
		ver = 1
	}
	s := FrameSpec{Ver: ver, Compat: byte(g.r.Intn(256)), Seq: byte(g.r.Intn(256)), Sys: byte(g.r.Intn(256)), Comp: byte(g.r.Intn(256)), ID: id, CRCExtra: crc, Payload: RandBytes(g.r, plen)}
	if g.r.Intn(4) == 0 {
		s.Inc = 1
		s.Sig = RandBytes(g.r, 13)
	}
	if g.r.Intn(5) == 0 {
		s.CRCXor = uint16(1 << g.r.Intn(16))
	}
	return s.Build()
}

func (g *gen) c15() {
	for k := 0; k < 40*g.n; k++ {
		pool := []uint32{uint32(g.r.Intn(256)), uint32(g.r.Intn(256)), uint32(256 + g.r.Intn(1<<16)), 0}
		var dl []DL
		for i, l := 0, g.r.Intn(5); i < l; i++ {
			if g.r.Intn(4) == 0 {
				dl = append(dl, DL{N: All[g.r.Intn(len(All))].Name})
			} else {
				dl = append(dl, g.randStub(i+1, pool))
			}
		}
		if dl == nil {
			dl = []DL{}
		}
		var steps []M
		for i := 0; i < 6; i++ {
			id := pool[g.r.Intn(len(pool))]
			crc := byte(0)
			// often the seed of a dialect in the list, not always of the deciding one
			for _, j := range g.r.Perm(len(dl)) {
				for _, e := range dl[j].IDs {
					if e.ID == id {
						crc = byte(e.CRC)
					}
				}
				if dd := ByName[dl[j].N]; dd != nil {
					if g.r.Intn(3) == 0 {
						kn := dd.Known()
						id = kn[g.r.Intn(len(kn))].ID
					}
					if m := dd.ByID[id]; m != nil {
						crc = m.CRC
					}
				}
			}
			steps = append(steps, resolveStep(dl, g.randFrameFor(id, crc, g.pick(0, 1, 3, 6, 20, 33, 40, 255))))
		}
		g.run(steps...)
	}
	// IDs several shipped dialects define, in every order of two
	byID := map[uint32][]*Def{}
	eachDef(func(d *Def) { byID[d.ID] = append(byID[d.ID], d) })
	var shared []uint32
	for id, ds := range byID {
		if len(ds) > 1 {
			shared = append(shared, id)
		}
	}
	sort.Slice(shared, func(i, j int) bool { return shared[i] < shared[j] })
	for _, id := range shared {
		ds := byID[id]
		var steps []M
		for _, a := range ds {
			for _, b := range ds {
				if a != b {
					dl := []DL{{N: a.D.Name}, {N: b.D.Name}}
					steps = append(steps, resolveStep(dl, FrameSpec{Ver: 2, ID: id, CRCExtra: b.CRC, Payload: RandBytes(g.r, b.Base)}.Build()))
					steps = append(steps, resolveStep(dl, FrameSpec{Ver: 2, ID: id, CRCExtra: a.CRC, Payload: RandBytes(g.r, a.Base)}.Build()))
				}
			}
		}
		g.run(steps...)
	}
	// unknown messages of all payload lengths
	for k := 0; k < 4*g.n; k++ {
		var steps []M
		for _, l := range []int{0, 1, 2, 9, 100, 254, 255, g.r.Intn(256)} {
			dl := []DL{}
			if g.r.Intn(2) == 0 {
				dl = append(dl, DL{N: "icarous"})
			}
			steps = append(steps, resolveStep(dl, g.randFrameFor(uint32(g.pick(3, 200, 255, 256, 70000, 1<<24-1)), 0, l)))
		}
		g.run(steps...)
	}
}

// --- validation --------------------------------------------------------------------

func (g *gen) validate(dl []DL, b []byte) (e string, after B) {
	c := append([]byte{}, b...)
	// bytes behind the frame, as in the stream's buffer
	if g.r.Intn(2) == 0 {
		c = append(c, RandBytes(g.r, 5)...)
	}
	var err error
	if pn := Catch(func() { err = Dialects(dl).Validate(AsFrame(c)) }); pn != "" {
		e = "panic"
	} else {
		e = ErrName(err)
	}
	return e, Clone(c[:len(b)])
}

func (g *gen) validateStep(dl []DL, b []byte) M {
	e, a := g.validate(dl, b)
	return M{"op": "validate", "dl": dl, "f": Clone(b), "err": e, "f2": a}
}

// flips: the verdicts after changing single bytes of a valid frame
func (g *gen) flipsStep(dl []DL, b []byte, every int) M {
	f := AsFrame(b)
	hdr := 10
	idlo, idhi := 7, 9
	if f.GetVersion() == 1 {
		hdr, idlo, idhi = 6, 5, 5
	}
	end := hdr + int(b[1]) + 2
	fl := [][]any{}
	c := append([]byte{}, b...)
	k := g.r.Intn(every)
	for p := 2; p < end; p++ {
		if p >= idlo && p <= idhi {
			continue
		}
		try := func(x byte) {
			k++
			if k%every != 0 {
				return
			}
			c[p] ^= x
			e, _ := g.validate(dl, c)
			c[p] ^= x
			fl = append(fl, []any{p, int(x), e})
		}
		for bit := 0; bit < 8; bit++ {
			try(1 << bit)
		}
		for j := 0; j < 3; j++ {
			try(byte(1 + g.r.Intn(255)))
		}
	}
	return M{"op": "flips", "dl": dl, "f": Clone(b), "flips": fl}
}

func (g *gen) c16() {
	// every message: lengths around the limits, right and wrong checksums
	eachDef(func(d *Def) {
		if g.r.Intn(3) != 0 && g.n < 4 {
			return
		}
		dl := g.lists(d)[0]
		if l := g.lists(d); g.r.Intn(3) == 0 {
			dl = l[len(l)-1]
		}
		var steps []M
		for _, ver := range []int{1, 2} {
			if ver == 1 && d.ID > 255 {
				continue
			}
			min := d.Base
			if d.Variable {
				min = 5
			}
			for _, l := range []int{0, 1, min - 1, min, min + 1, d.Max - 1, d.Max, d.Max + 1, 255} {
				if l < 0 || l > 255 {
					continue
				}
				s := FrameSpec{Ver: ver, Seq: byte(g.r.Intn(256)), Sys: byte(g.r.Intn(256)), Comp: byte(g.r.Intn(256)), ID: d.ID, CRCExtra: d.CRC, Payload: RandBytes(g.r, l), Compat: byte(g.pick(0, 0, g.r.Intn(256))), Inc: byte(g.pick(0, 0, 1, g.r.Intn(256))), Sig: RandBytes(g.r, 13)}
				steps = append(steps, g.validateStep(dl, s.Build()))
				if g.r.Intn(3) == 0 {
					s.CRCXor = uint16(1 + g.r.Intn(65535))
					steps = append(steps, g.validateStep(dl, s.Build()))
				}
				if g.r.Intn(8) == 0 {
					s.CRCXor = 0
					s.CRCExtra ^= byte(1 << g.r.Intn(8))
					steps = append(steps, g.validateStep(dl, s.Build()))
				}
			}
		}
		g.run(steps...)
	})
	// test dialects: all relations of length, minimum and maximum
	for k := 0; k < 60*g.n; k++ {
		id := uint32(g.pick(0, 1, 200, 255, 256, 70000, 1<<24-1))
		e := StubID{ID: id, CRC: g.r.Intn(256), Min: g.r.Intn(6), Max: 2 + g.r.Intn(8)}
		if g.r.Intn(10) == 0 {
			e.Max = 255
		}
		dl := []DL{{N: "stub", IDs: []StubID{e}, Tag: 1}}
		if g.r.Intn(4) == 0 {
			dl = append([]DL{g.randStub(2, []uint32{id})}, dl...)
		}
		if g.r.Intn(10) == 0 {
			dl = []DL{}
		}
		var steps []M
		for i := 0; i < 8; i++ {
			l := g.r.Intn(12)
			if g.r.Intn(20) == 0 {
				l = 255
			}
			steps = append(steps, g.validateStep(dl, g.randFrameFor(uint32(g.pick(int(id), int(id), int(id), g.r.Intn(1<<24))), byte(e.CRC), l)))
		}
		g.run(steps...)
	}
	// corruptions of valid frames
	for k := 0; k < 8*g.n; k++ {
		var kn []*Def
		dd := All[g.r.Intn(len(All))]
		kn = dd.Known()
		d := kn[g.r.Intn(len(kn))]
		for d.Max > 80 && g.r.Intn(8) != 0 {
			d = kn[g.r.Intn(len(kn))]
		}
		ver := 2
		if d.ID < 256 && g.r.Intn(2) == 0 {
			ver = 1
		}
		l := d.Base
		if ver == 2 {
			l = g.r.Intn(d.Max + 1)
		}
		every := 1
		if l > 40 {
			every = 7
		}
		if l > 120 {
			every = 23
		}
		s := FrameSpec{Ver: ver, Seq: byte(g.r.Intn(256)), Sys: byte(g.r.Intn(256)), Comp: byte(g.r.Intn(256)), ID: d.ID, CRCExtra: d.CRC, Payload: RandBytes(g.r, l), Inc: byte(g.r.Intn(2)), Sig: RandBytes(g.r, 13)}
		g.run(g.flipsStep([]DL{{N: dd.Name}}, s.Build(), every))
	}
}

// --- accessors ---------------------------------------------------------------------

func (g *gen) accStep(b []byte, how string) M {
	c := append([]byte{}, b...)
	var f mav.Frame
	switch how {
	case "type":
		f = AsFrame(c)
	default:
		in := append(append([]byte{}, c...), RandBytes(g.r, 7)...)
		var err error
		f, err = mav.FrameFromBytes(in, uint16(len(b)), how == "copy")
		if err != nil || f == nil {
			return M{"op": "acc", "how": how, "f": Clone(b), "acc": M{"panic": true}, "str": false, "f2": Clone(b), "made": false}
		}
	}
	a := accessors(f)
	pn := Catch(func() {
		_ = f.(interface{ String() string }).String()
	})
	fb := f.Bytes()
	if len(fb) > len(b) {
		fb = fb[:len(b)]
	}
	if bb, ok := a["bytes"].(B); ok && how == "alias" && len(bb) >= len(b) {
		// an aliasing frame may be longer than the candidate
		a["bytes"] = bb[:len(b)]
	}
	return M{"op": "acc", "how": how, "f": Clone(b), "acc": a, "str": pn == "", "f2": Clone(fb), "made": true}
}

func (g *gen) c17() {
	for k := 0; k < 150*g.n; k++ {
		var steps []M
		for i := 0; i < 6; i++ {
			l := g.pick(0, 1, 2, 254, 255, g.r.Intn(256), g.r.Intn(20))
			s := FrameSpec{Ver: 1 + g.r.Intn(2), Seq: byte(g.r.Intn(256)), Sys: byte(g.r.Intn(256)), Comp: byte(g.r.Intn(256)), ID: uint32(g.r.Intn(1 << 24)), CRCExtra: byte(g.r.Intn(256)), Payload: RandBytes(g.r, l),
				Inc: byte(g.pick(0, 1, 2, 3, 254, 255, g.r.Intn(256))), Compat: byte(g.pick(0, 1, 255, g.r.Intn(256))), Sig: RandBytes(g.r, 13), CRCXor: uint16(g.r.Intn(2))}
			steps = append(steps, g.accStep(s.Build(), []string{"type", "copy", "alias"}[g.r.Intn(3)]))
		}
		g.run(steps...)
	}
}

// --- frames from bytes -------------------------------------------------------------

func (g *gen) fromBytesStep(raw []byte, n int, cp bool) M {
	// room behind the bytes, which belongs to the caller
	room := make([]byte, len(raw)+g.r.Intn(20))
	for i := range room {
		room[i] = 0xa7
	}
	copy(room, raw)
	in := room[:len(raw)]
	s := M{"op": "frombytes", "raw": Clone(raw), "n": n, "copy": cp, "kind": 0, "bytes": B{}, "again": B{}, "src": B{}, "src2": B{}, "behind": B{}}
	var f mav.Frame
	var err error
	if pn := Catch(func() { f, err = mav.FrameFromBytes(in, uint16(n), cp) }); pn != "" {
		s["err"] = "panic"
		return s
	}
	s["err"] = ErrName(err)
	s["src"] = Clone(in)
	s["behind"] = Clone(room[len(raw):])
	switch f.(type) {
	case mav.FrameV1:
		s["kind"] = 1
	case mav.FrameV2:
		s["kind"] = 2
	case nil:
		return s
	}
	s["bytes"] = Clone(f.Bytes())
	for i := range room {
		room[i] ^= 0x3c
	}
	s["again"] = Clone(f.Bytes())
	was := Clone(in)
	b := f.Bytes()
	for i := range b[:cap(b)] {
		b[:cap(b)][i] ^= 0xff
	}
	if cp {
		s["src2"] = Clone(in)
		s["was"] = was
	} else {
		s["was"] = B{}
	}
	return s
}

func (g *gen) c25() {
	for k := 0; k < 100*g.n; k++ {
		var steps []M
		for i := 0; i < 6; i++ {
			var raw []byte
			n := 0
			switch g.r.Intn(6) {
			case 0: // anything
				raw = RandBytes(g.r, g.pick(0, 1, 2, 3, g.r.Intn(600)))
				if len(raw) > 0 && g.r.Intn(2) == 0 {
					raw[0] = byte(g.pick(0xfc, 0xfd, 0xfe, 0xff, 0, 0x55, 0x7e))
				}
				n = g.r.Intn(len(raw) + 1)
			case 1: // any first byte
				raw = RandBytes(g.r, 20)
				raw[0] = byte(k*6 + i)
				n = 20
			default: // a frame, and more
				s := FrameSpec{Ver: 1 + g.r.Intn(2), Seq: byte(g.r.Intn(256)), ID: uint32(g.r.Intn(1 << 24)), Payload: RandBytes(g.r, g.pick(0, 1, 254, 255, g.r.Intn(256))),
					Inc: byte(g.pick(0, 1, g.r.Intn(256))), Sig: RandBytes(g.r, 13)}
				raw = s.Build()
				n = len(raw)
				raw = append(raw, RandBytes(g.r, g.pick(0, 0, 1, 50, 300))...)
			}
			steps = append(steps, g.fromBytesStep(raw, n, g.r.Intn(3) > 0))
		}
		g.run(steps...)
	}
}

// --- checksum ------------------------------------------------------------------------

// steer gives two bytes that take the running checksum to a value.
func steer(from, to uint16) []byte {
	// the checksum is linear in the bytes: try the first, solve for the second
	for x := 0; x < 256; x++ {
		v := CRC(from, []byte{byte(x)})
		for y := 0; y < 256; y++ {
			if CRC(v, []byte{byte(y)}) == to {
				return []byte{byte(x), byte(y)}
			}
		}
	}
	panic("steer")
}

func (g *gen) c18() {
	write := func(hash *mav.X25CRC, b []byte) M {
		c := append([]byte{}, b...)
		cnt, err := hash.Write(c)
		return M{"op": "crc.write", "b": Clone(b), "n": cnt, "err": ErrName(err), "b2": Clone(c)}
	}
	// sum into a slice with room behind it, which stays as it is but for the sum
	sum := func(hash *mav.X25CRC, pre []byte, room int) M {
		in := make([]byte, len(pre)+room)
		for i := range in {
			in[i] = 0xa7
		}
		copy(in, pre)
		out := hash.Sum(in[:len(pre)])
		behind := B{}
		if room > 2 {
			behind = Clone(in[len(pre)+2:])
		}
		return M{"op": "crc.sum", "pre": Clone(pre), "out": Clone(out), "pre2": Clone(in[:len(pre)]), "behind": behind}
	}
	reset := func(hash *mav.X25CRC) M {
		hash.Reset()
		return M{"op": "crc.reset", "size": hash.Size()}
	}
	for k := 0; k < 40*g.n; k++ {
		var steps []M
		hash := new(mav.X25CRC)
		if g.r.Intn(3) == 0 {
			// an unreset object first: only a reset defines its value
			hash.Write(RandBytes(g.r, g.r.Intn(9)))
		}
		ref := uint16(0)
		for i, l := 0, 4+g.r.Intn(12); i < l; i++ {
			op := g.r.Intn(8)
			if i == 0 {
				op = 5
			}
			switch op {
			case 0, 1, 2:
				b := RandBytes(g.r, g.pick(0, 1, 1, 2, 3, g.r.Intn(40), g.r.Intn(300)))
				ref = CRC(ref, b)
				steps = append(steps, write(hash, b))
			case 6, 7: // running values that may look special
				to := uint16(g.pick(0, 0, 0xffff, 0xf0b8, 1, 0xff, 0xff00, g.r.Intn(1<<16)))
				b := steer(ref, to)
				if g.r.Intn(2) == 0 {
					steps = append(steps, write(hash, b))
				} else {
					steps = append(steps, write(hash, b[:1]), write(hash, b[1:]))
				}
				ref = to
				if g.r.Intn(3) == 0 {
					steps = append(steps, write(hash, []byte{}))
				}
			case 3, 4:
				steps = append(steps, sum(hash, RandBytes(g.r, g.pick(0, g.r.Intn(5), g.r.Intn(40))), g.pick(0, 1, 2, 3, 4, g.r.Intn(40))))
			case 5:
				steps = append(steps, reset(hash))
				ref = 0xffff
			}
		}
		steps = append(steps, M{"op": "crc.sum", "pre": B{}, "out": Clone(hash.Sum(nil)), "pre2": B{}, "behind": B{}})
		g.w.Put(M{"k": "crc", "steps": steps})
	}
	// one input, written in several ways; two checksums at work in turn
	for k := 0; k < 10*g.n; k++ {
		size := g.r.Intn(120)
		if k == 0 {
			size = 70000
		} else if k%100 == 1 {
			size = g.pick(255, 256, 257, 511, 512, 4095, 4096, 5000)
		}
		in := RandBytes(g.r, size)
		if g.r.Intn(4) == 0 {
			in = append(in, steer(CRC(0xffff, in), 0)...)
			in = append(in, RandBytes(g.r, g.r.Intn(9))...)
		}
		var hs [2]*mav.X25CRC
		var rest [2][]byte
		var steps [2][]M
		for i := range hs {
			hs[i] = new(mav.X25CRC)
			steps[i] = []M{reset(hs[i])}
			rest[i] = in
		}
		for len(rest[0])+len(rest[1]) > 0 {
			i := g.r.Intn(2)
			if len(rest[i]) == 0 {
				continue
			}
			l := len(rest[i])
			if i == 1 {
				l = 1 + g.r.Intn(len(rest[i]))
			}
			steps[i] = append(steps[i], write(hs[i], rest[i][:l]))
			rest[i] = rest[i][l:]
		}
		for i := range hs {
			steps[i] = append(steps[i], sum(hs[i], nil, 0))
			g.w.Put(M{"k": "crc", "steps": steps[i]})
		}
	}
}

// --- text fields ---------------------------------------------------------------------

type setter struct {
	d     *Def
	field int
	name  string
}

func setters() (out []setter) {
	eachDef(func(d *Def) {
		m := d.New()
		if m == nil {
			return
		}
		t := reflect.TypeOf(m)
		for i, f := range d.Fields {
			s, ok := t.MethodByName("Set" + f.Go)
			if !ok || s.Type.NumIn() != 2 || s.Type.In(1).Kind() != reflect.String || s.Type.NumOut() != 1 {
				continue
			}
			if g, ok := t.MethodByName("Get" + f.Go); !ok || g.Type.NumIn() != 1 || g.Type.NumOut() != 1 {
				continue
			}
			out = append(out, setter{d, i, f.Go})
		}
	})
	return
}

func (g *gen) randText(capacity int) string {
	l := g.pick(0, 1, capacity-1, capacity, capacity+1, 2*capacity, g.r.Intn(capacity+1), g.r.Intn(capacity+1))
	if g.r.Intn(8) == 0 { // lengths that small integers cannot hold
		l = g.pick(127, 128, 255, 256, 256, 512) + g.r.Intn(capacity+2)
	}
	if g.r.Intn(400) == 0 {
		l = 1<<16 + g.r.Intn(capacity+2)
	}
	if l < 0 {
		l = 0
	}
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(33 + g.r.Intn(90))
		if g.r.Intn(30) == 0 {
			b[i] = byte(128 + g.r.Intn(128))
		}
	}
	if l > 0 && g.r.Intn(6) == 0 {
		b[g.r.Intn(l)] = 0
	}
	return string(b)
}

func (g *gen) c19() {
	ss := setters()
	byMsg := map[*Def][]setter{}
	for _, s := range ss {
		byMsg[s.d] = append(byMsg[s.d], s)
	}
	g.run(M{"op": "setters", "n": len(ss)})
	for _, dd := range All {
		for _, d := range dd.Known() {
			l := byMsg[d]
			if len(l) == 0 {
				continue
			}
			for k := 0; k < 3*g.n; k++ {
				m := d.New()
				if g.r.Intn(3) > 0 {
					d.SetVals(m, d.RandVals(g.r, g.r.Intn(Modes)))
				}
				steps := []M{{"op": "text.init", "d": d.D.Name, "id": d.ID, "vals": d.Vals(m)}}
				for i := 0; i < 5; i++ {
					s := l[g.r.Intn(len(l))]
					switch g.r.Intn(5) {
					case 0:
						var got string
						e := Catch(func() { got = reflect.ValueOf(m).MethodByName("Get" + s.name).Call(nil)[0].String() })
						steps = append(steps, M{"op": "text.get", "field": s.field + 1, "got": Clone([]byte(got)), "panic": e != "", "vals": d.Vals(m)})
					case 1:
						// decode something into the same object
						p := RandBytes(g.r, 1+g.r.Intn(d.Max))
						if Catch(func() { m.Read(frameFor(d, 2, p)) }) != "" {
							continue
						}
						steps = append(steps, M{"op": "text.init", "d": d.D.Name, "id": d.ID, "vals": d.Vals(m)})
					default:
						t := g.randText(d.Fields[s.field].Count)
						var err error
						var got string
						e := Catch(func() {
							o := reflect.ValueOf(m).MethodByName("Set" + s.name).Call([]reflect.Value{reflect.ValueOf(t)})[0]
							if !o.IsNil() {
								err = o.Interface().(error)
							}
							got = reflect.ValueOf(m).MethodByName("Get" + s.name).Call(nil)[0].String()
						})
						steps = append(steps, M{"op": "text.set", "field": s.field + 1, "text": Clone([]byte(t)), "err": ErrName(err), "got": Clone([]byte(got)), "panic": e != "", "vals": d.Vals(m)})
					}
				}
				g.w.Put(M{"k": "text", "steps": steps})
			}
		}
	}
	// the variable payload
	d := ByName["common"].ByID[248]
	type ext interface {
		mav.Message
		SetPayloadSlice([]byte) error
		GetPayload() []byte
	}
	for k := 0; k < 30*g.n; k++ {
		m, ok := d.New().(ext)
		if !ok {
			return
		}
		steps := []M{{"op": "ext.init"}}
		for i := 0; i < 6; i++ {
			switch g.r.Intn(3) {
			case 0:
				p := RandBytes(g.r, g.pick(0, 1, 3, 4, 5, 6, 253, 254, 255, g.r.Intn(256)))
				ver := 1 + g.r.Intn(2)
				var got []byte
				var err error
				e := Catch(func() { err = m.Read(frameFor(d, ver, p)); got = m.GetPayload() })
				steps = append(steps, M{"op": "ext.read", "payload": p, "ver": ver, "err": ErrName(err), "panic": e != "", "got": Clone(got)})
			default:
				p := RandBytes(g.r, g.pick(0, 1, 2, 248, 249, 250, 255, 256, 600, g.r.Intn(256), 256+g.r.Intn(256), 65536*g.r.Intn(2)+g.r.Intn(256)))
				var got []byte
				var err error
				e := Catch(func() { err = m.SetPayloadSlice(append([]byte{}, p...)); got = m.GetPayload() })
				steps = append(steps, M{"op": "ext.set", "payload": p, "err": ErrName(err), "panic": e != "", "got": Clone(got)})
			}
		}
		g.w.Put(M{"k": "ext", "steps": steps})
	}
}

// --- hostile frames --------------------------------------------------------------------

func hostileStep(dl []DL, b []byte) M {
	c := append([]byte{}, b...)
	f := AsFrame(c)
	s := M{"op": "hostile", "dl": dl, "f": Clone(b), "err": "", "kind": "nil", "mid": -1, "raw": B{}, "panic": "", "vals": []B{}}
	var m mav.Message
	var err error
	s["panic"] = Catch(func() {
		m, err = Dialects(dl).GetMessage(f)
		accs := accessors(f)
		if accs["panic"] == true {
			panic("accessor")
		}
		_ = f.(interface{ String() string }).String()
		if m != nil {
			s["kind"] = "msg"
			s["mid"] = int(m.GetID())
			m.GetVersion()
			m.GetDialect()
			m.GetMessageName()
			if st, ok := m.(interface{ String() string }); ok {
				_ = st.String()
			}
			// every accessor the message has
			t := reflect.ValueOf(m)
			for i := 0; i < t.NumMethod(); i++ {
				n := t.Type().Method(i).Name
				if strings.HasPrefix(n, "Get") && t.Method(i).Type().NumIn() == 0 {
					t.Method(i).Call(nil)
				}
			}
			if u, ok := m.(*mav.UnknownMessage); ok {
				s["kind"] = "unknown"
				s["raw"] = Clone(u.Raw)
			} else if dd := ByName[m.GetDialect()]; dd != nil && dd.ByID[m.GetID()] != nil {
				s["vals"] = dd.ByID[m.GetID()].Vals(m)
			}
		}
	})
	s["err"] = ErrName(err)
	s["f2"] = Clone(c)
	return s
}

func (g *gen) c22() {
	eachDef(func(d *Def) {
		var steps []M
		for k := 0; k < g.n; k++ {
			dl := []DL{{N: d.D.Name}}
			for _, l := range []int{g.pick(0, 1, d.Base-1, d.Base), g.pick(d.Max+1, 255, g.r.Intn(256), d.Max)} {
				if l < 0 || l > 255 {
					l = 255
				}
				ver := 2
				if d.ID < 256 && g.r.Intn(2) == 0 {
					ver = 1
				}
				p := RandBytes(g.r, l)
				switch g.r.Intn(4) {
				case 0:
					for i := range p {
						p[i] = 0xff
					}
				case 1:
					for i := range p {
						p[i] = 0
					}
				}
				s := FrameSpec{Ver: ver, Seq: 1, ID: d.ID, CRCExtra: byte(g.r.Intn(256)), Payload: p, Inc: byte(g.pick(0, 1, 255)), Compat: byte(g.r.Intn(256)), Sig: RandBytes(g.r, 13)}
				steps = append(steps, hostileStep(dl, s.Build()))
			}
		}
		g.run(steps...)
	})
	var all []DL
	for _, dd := range All {
		all = append(all, DL{N: dd.Name})
	}
	for k := 0; k < 60*g.n; k++ {
		var dl = []DL{}
		for _, j := range g.r.Perm(len(all))[:g.pick(0, 1, 3, len(all))] {
			dl = append(dl, all[j])
		}
		var steps []M
		for i := 0; i < 5; i++ {
			id := uint32(g.pick(g.r.Intn(256), g.r.Intn(512), g.r.Intn(1<<24), 248, 42000, 1<<24-1))
			steps = append(steps, hostileStep(dl, g.randFrameFor(id, byte(g.r.Intn(256)), g.pick(0, 1, 5, g.r.Intn(256), 255))))
		}
		g.run(steps...)
	}
}
