// Drives the framing of the stream: bytes in, frames out (spec/TraceFraming.tla).
package framing

import (
	"context"
	"encoding/json"
	"flag"
	"io"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/common"

	. "verifharness/h"
	"verifharness/sim"
)

type chunk struct {
	Data []byte
	EOF  bool
}

type step struct {
	Avail int `json:"a"`
	Out   []B `json:"o"`
}

// one stream over one input
type stream struct {
	lenient bool
	dl      []DL
	chunks  []chunk
	ops     bool // mutate delivered frames (C05)
	keep    int  // and keep one in so many of them
	slow    bool // take time to consume a frame
	count   int
	r       *rand.Rand

	mu     sync.Mutex
	steps  []step
	cur    []B
	avail  int
	panicd string
	frames []mav.Frame
	seen   int
	mem    []M
	err    string
	ended  bool
}

func (s *stream) run() {
	feed := sim.NewFeed()
	in := make(chan mav.Frame)
	st := mav.NewFrameStream(feed, in, Dialects(s.dl), s.lenient)
	ctx, cancel := context.WithCancel(context.Background())
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		p := Catch(func() { st.ReadContext(ctx) })
		s.mu.Lock()
		s.panicd = p
		s.mu.Unlock()
		if p != "" {
			Catch(st.Close)
		}
		feed.Close()
	}()
	go func() {
		defer wg.Done()
		for f := range st.Read() {
			s.mu.Lock()
			var b B
			if Catch(func() { b = Clone(f.Bytes()) }) != "" {
				b = B{}
			}
			s.cur = append(s.cur, b)
			if s.ops {
				if s.count++; len(s.frames) < 4 || len(s.frames) < 20 && s.count%s.keep == 0 {
					s.frames = append(s.frames, f)
					s.mem = append(s.mem, M{"op": "deliver", "b": b})
				}
				s.cur = nil
			}
			s.mu.Unlock()
			if s.slow {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	settle := func() {
		synctest.Wait()
		s.mu.Lock()
		s.steps = append(s.steps, step{s.avail, append([]B{}, s.cur...)})
		s.cur = nil
		if s.ops {
			s.memOps()
		}
		s.mu.Unlock()
	}
	eof := false
	for _, c := range s.chunks {
		p := sim.Piece{Data: c.Data}
		if c.EOF {
			p.Err = io.EOF
			eof = true
		}
		s.mu.Lock()
		s.avail += len(c.Data)
		s.mu.Unlock()
		select {
		case feed.C <- p:
		case <-feedClosed(feed):
		}
		settle()
	}
	if !eof {
		select {
		case feed.C <- sim.Piece{Err: io.EOF}:
		case <-feedClosed(feed):
		}
		settle()
	}
	if s.slow {
		time.Sleep(time.Hour)
	}
	cancel()
	wg.Wait()
	if s.ops {
		s.mu.Lock()
		s.seen = -1
		s.memOps()
		s.mu.Unlock()
	}
	s.mu.Lock()
	s.err = ErrName(st.GetCloseErr())
	s.ended = true
	s.mu.Unlock()
}

func feedClosed(f *sim.Feed) <-chan struct{} { return f.Closed() }

func (s *stream) memOps() {
	if len(s.frames) == 0 {
		return
	}
	check := func() {
		var all []B
		for _, f := range s.frames {
			all = append(all, Clone(f.Bytes()))
		}
		s.mem = append(s.mem, M{"op": "check", "all": all})
	}
	if len(s.frames) == s.seen && s.r.Intn(4) != 0 || s.seen >= 0 && len(s.mem) > 100 {
		return
	}
	s.seen = len(s.frames)
	check()
	for k := 0; k < 1+s.r.Intn(2); k++ {
		i := s.r.Intn(len(s.frames))
		if s.r.Intn(2) == 0 {
			i = len(s.frames) - 1
		}
		b := s.frames[i].Bytes()
		switch s.r.Intn(4) {
		case 0: // spare capacity
			c := b[:cap(b)]
			for j := len(b); j < len(c); j++ {
				c[j] ^= 0x5a
			}
			s.mem = append(s.mem, M{"op": "append", "i": i + 1})
		case 1: // the whole frame
			x := RandBytes(s.r, len(b))
			copy(b, x)
			s.mem = append(s.mem, M{"op": "mutate", "i": i + 1, "off": 0, "b": x})
		default:
			o := s.r.Intn(len(b))
			x := B{b[o] ^ byte(1+s.r.Intn(255))}
			b[o] = x[0]
			s.mem = append(s.mem, M{"op": "mutate", "i": i + 1, "off": o, "b": x})
		}
	}
	check()
}

func (s *stream) outs() []B {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := []B{}
	for _, x := range s.steps {
		out = append(out, x.Out...)
	}
	return append(out, s.cur...)
}

// ---------------------------------------------------------------------------

type job struct {
	kind  string
	input []byte
	dl    []DL
	ss    []*stream
	note  any
}

func (j *job) Run() {
	for _, s := range j.ss {
		s.run()
	}
}

func chunkLens(s *stream) []int {
	out := []int{}
	for _, c := range s.chunks {
		out = append(out, len(c.Data))
	}
	return out
}

func (j *job) Record(how string) any {
	base := M{"dl": j.dl, "input": Clone(j.input), "how": how, "note": j.note}
	switch j.kind {
	case "C01", "C02":
		s := j.ss[0]
		s.mu.Lock()
		defer s.mu.Unlock()
		st := append([]step{}, s.steps...)
		if how == "hang" {
			st = append(st, step{s.avail, append([]B{}, s.cur...)})
		}
		base["steps"] = st
		base["panic"] = s.panicd
	case "C03", "C04":
		rs := []M{}
		for _, s := range j.ss {
			rs = append(rs, M{"lenient": s.lenient, "chunks": chunkLens(s), "o": s.outs(), "panic": s.panicd})
		}
		base["runs"] = rs
	case "C05":
		s := j.ss[0]
		s.mu.Lock()
		defer s.mu.Unlock()
		base["mem"] = append([]M{}, s.mem...)
		delete(base, "input")
	}
	return base
}

// --- inputs ------------------------------------------------------------------

type gen struct {
	r    *rand.Rand
	dl   []DL
	last []FrameSpec // intact frames made so far
}

func (g *gen) junk(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		for {
			b[i] = byte(g.r.Intn(256))
			if b[i] != 0xfd && b[i] != 0xfe {
				break
			}
		}
	}
	return b
}

// noisy bytes, rich in start bytes and small length bytes
func (g *gen) noise(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch g.r.Intn(4) {
		case 0:
			b[i] = 0xfd
		case 1:
			b[i] = 0xfe
		case 2:
			b[i] = byte(g.r.Intn(20))
		default:
			b[i] = byte(g.r.Intn(256))
		}
	}
	return b
}

type meta struct {
	id            uint32
	crc, min, max int
}

// a message some dialect of the list knows
func (g *gen) known(maxID uint32) (meta, bool) {
	for try := 0; try < 40; try++ {
		d := g.dl[g.r.Intn(len(g.dl))]
		var m meta
		if d.N == "stub" {
			if len(d.IDs) == 0 {
				continue
			}
			e := d.IDs[g.r.Intn(len(d.IDs))]
			m = meta{e.ID, e.CRC, e.Min, e.Max}
		} else {
			k := ByName[d.N].Known()
			e := k[g.r.Intn(len(k))]
			m = meta{e.ID, int(e.CRC), e.Base, e.Max}
			if e.Variable {
				m.min = 0
			}
		}
		// the first dialect of the list that does not say "unknown" decides
		m, ok := g.decide(m.id)
		if ok && m.id <= maxID {
			return m, true
		}
	}
	return meta{}, false
}

func (g *gen) decide(id uint32) (meta, bool) {
	for _, d := range g.dl {
		if d.N == "stub" {
			for _, f := range d.Fail {
				if f == id {
					return meta{}, false
				}
			}
			for _, e := range d.IDs {
				if e.ID == id {
					return meta{id, e.CRC, e.Min, e.Max}, true
				}
			}
		} else if e := ByName[d.N].ByID[id]; e != nil {
			m := meta{id, int(e.CRC), e.Base, e.Max}
			if e.Variable {
				m.min = 0
			}
			return m, true
		}
	}
	return meta{}, false
}

func (g *gen) payload(n int) []byte {
	if n < 0 {
		n = 0
	}
	switch g.r.Intn(3) {
	case 0:
		return g.noise(n)
	case 1:
		b := make([]byte, n)
		return b
	}
	return RandBytes(g.r, n)
}

func (g *gen) spec(ver int) (FrameSpec, meta, bool) {
	maxID := uint32(0xffffff)
	if ver == 1 {
		maxID = 255
	}
	m, ok := g.known(maxID)
	if !ok {
		return FrameSpec{}, m, false
	}
	lo := 1
	if ver == 1 {
		lo = m.min
	}
	n := lo
	switch g.r.Intn(3) {
	case 0:
		n = m.max
	case 1:
		if m.max > lo {
			n = lo + g.r.Intn(m.max-lo+1)
		}
	}
	if n > 255 {
		n = 255
	}
	if n > m.max {
		n = m.max
	}
	return FrameSpec{Ver: ver, Seq: byte(g.r.Intn(256)), Sys: byte(g.r.Intn(256)), Comp: byte(g.r.Intn(256)),
		Compat: byte(g.r.Intn(2) * g.r.Intn(256)), ID: m.id, CRCExtra: byte(m.crc), Payload: g.payload(n)}, m, true
}

// Segment kinds; the specification (FramingGen.tla) enumerates sequences of them.
func (g *gen) segment(kind string) []byte {
	ver := 1 + g.r.Intn(2)
	switch kind {
	case "v1", "v2", "v2s":
		v := 2
		if kind == "v1" {
			v = 1
		}
		s, _, ok := g.spec(v)
		if !ok {
			return g.junk(3)
		}
		if kind == "v2s" {
			s.Inc = 1 | byte(g.r.Intn(2)*0xfe&g.r.Intn(256))
			s.Sig = g.payload(13)
		} else if v == 2 {
			s.Inc = byte(g.r.Intn(3)/2*g.r.Intn(256)) &^ 1
		}
		g.last = append(g.last, s)
		return s.Build()
	case "again", "near", "stale": // like a frame that went before
		if len(g.last) == 0 {
			return g.segment("v2")
		}
		s := g.last[len(g.last)-1]
		if g.r.Intn(3) == 0 {
			s = g.last[g.r.Intn(len(g.last))]
		}
		s.Payload = append([]byte{}, s.Payload...)
		switch kind {
		case "near": // the next one from the same sender
			s.Seq++
			if len(s.Payload) > 0 {
				s.Payload[g.r.Intn(len(s.Payload))] ^= byte(1 + g.r.Intn(255))
			}
			g.last = append(g.last, s)
		case "stale": // the same but for one byte, with the old checksum
			b := s.Build()
			o := 2 + g.r.Intn(len(b)-2)
			if len(s.Payload) > 0 && g.r.Intn(2) == 0 {
				o = 10 + g.r.Intn(len(s.Payload))
				if s.Ver == 1 {
					o -= 4
				}
			}
			b[o] ^= byte(1 + g.r.Intn(255))
			if g.r.Intn(3) == 0 && s.Ver == 1 {
				b[2] ^= byte(g.r.Intn(256))
			}
			return b
		}
		return s.Build()
	case "crc": // wrong checksum
		s, _, ok := g.spec(ver)
		if !ok {
			return g.junk(3)
		}
		s.CRCXor = uint16(1 + g.r.Intn(0xffff))
		if g.r.Intn(2) == 0 {
			s.CRCXor = 1 << g.r.Intn(16)
		}
		return s.Build()
	case "pay": // one byte of the payload or header damaged
		s, _, ok := g.spec(ver)
		if !ok {
			return g.junk(3)
		}
		b := s.Build()
		o := 2 + g.r.Intn(len(b)-4)
		b[o] ^= byte(1 + g.r.Intn(255))
		return b
	case "seed": // the checksum without, or with another, seed
		s, _, ok := g.spec(ver)
		if !ok {
			return g.junk(3)
		}
		s.CRCExtra ^= byte(1 + g.r.Intn(255))
		if g.r.Intn(2) == 0 {
			s.CRCExtra = 0
		}
		return s.Build()
	case "unk": // unknown ID, otherwise intact
		for {
			id := uint32(g.r.Intn(1 << 24))
			if ver == 1 {
				id &= 0xff
			}
			if _, ok := g.decide(id); ok && g.r.Intn(50) != 0 {
				continue
			}
			return FrameSpec{Ver: ver, ID: id, Seq: 1, Sys: 1, Comp: 1, Payload: g.payload(g.r.Intn(40)), CRCExtra: byte(g.r.Intn(2) * g.r.Intn(256))}.Build()
		}
	case "long":
		s, m, ok := g.spec(ver)
		if !ok || m.max >= 255 {
			return g.junk(3)
		}
		s.Payload = g.payload(m.max + 1 + g.r.Intn(min(255-m.max, 9)))
		return s.Build()
	case "short":
		s, m, ok := g.spec(1)
		if !ok || m.min == 0 {
			return g.junk(3)
		}
		s.Payload = g.payload(g.r.Intn(m.min))
		return s.Build()
	case "junk":
		return g.junk(1 + g.r.Intn(12))
	case "noise":
		return g.noise(1 + g.r.Intn(30))
	case "fs1":
		return []byte{0xfe, byte(g.r.Intn(60))}[:1+g.r.Intn(2)]
	case "fs2":
		b := []byte{0xfd, byte(g.r.Intn(60)), byte(g.r.Intn(2)), 0}
		return b[:1+g.r.Intn(4)]
	case "cut": // the beginning of an intact frame
		s, _, ok := g.spec(ver)
		if !ok {
			return g.junk(3)
		}
		b := s.Build()
		return b[:1+g.r.Intn(len(b)-1)]
	case "inner": // an invalid frame around an intact one
		s, _, ok := g.spec(1 + g.r.Intn(2))
		if !ok {
			return g.junk(3)
		}
		in := s.Build()
		if len(in) > 230 {
			in = in[:230]
		}
		p := append(g.junk(g.r.Intn(6)), in...)
		p = append(p, g.junk(g.r.Intn(6))...)
		return FrameSpec{Ver: ver, Inc: byte(g.r.Intn(2)), ID: uint32(g.r.Intn(256)), Payload: p, CRCXor: uint16(1 + g.r.Intn(0xffff))}.Build()
	case "flag": // marked as signed, but no signature
		s, _, ok := g.spec(2)
		if !ok {
			return g.junk(3)
		}
		s.Inc = 1
		b := s.Build()
		return b[:len(b)-13]
	case "max": // declares the greatest length there is
		return append([]byte{0xfd, 255, byte(g.r.Intn(2))}, g.noise(g.r.Intn(300))...)
	case "pad":
		return g.junk(300)
	}
	panic("segment kind " + kind)
}

var kinds = []string{"v1", "v2", "v2s", "crc", "pay", "seed", "unk", "long", "short", "junk", "noise", "fs1", "fs2", "cut", "inner", "flag", "max", "again", "near", "stale"}

func (g *gen) cut(b []byte, how string) []chunk {
	var out []chunk
	add := func(x []byte) { out = append(out, chunk{Data: append([]byte{}, x...)}) }
	switch how {
	case "whole":
		add(b)
	case "bytes":
		for i := range b {
			add(b[i : i+1])
		}
	case "two":
		k := g.r.Intn(len(b) + 1)
		add(b[:k])
		add(b[k:])
	case "starts": // just before, at or behind start bytes
		last := 0
		for i := range b {
			if b[i] == 0xfd || b[i] == 0xfe {
				k := i + g.r.Intn(4) - 1
				if k > last && k < len(b) {
					add(b[last:k])
					last = k
				}
			}
		}
		add(b[last:])
	default: // random sizes
		m := 1 + g.r.Intn(40)
		if g.r.Intn(4) == 0 {
			m = 600
		}
		if len(b) > 50000 {
			m = 40000
		}
		for len(b) > 0 {
			k := 1 + g.r.Intn(m)
			if k > len(b) {
				k = len(b)
			}
			add(b[:k])
			b = b[k:]
			if how == "empties" && g.r.Intn(3) == 0 {
				add(nil)
			}
		}
	}
	if len(out) == 0 {
		add(nil)
	}
	if g.r.Intn(3) == 0 {
		out[len(out)-1].EOF = true
	}
	return out
}

var cuts = []string{"whole", "bytes", "two", "starts", "rand", "empties"}

func (g *gen) dialects() []DL {
	switch g.r.Intn(8) {
	case 0:
		return []DL{{N: "ardupilotmega"}, {N: "common"}}
	case 1, 2:
		return []DL{g.stub(1)}
	case 3:
		return []DL{g.stub(1), {N: "common"}}
	case 4:
		return []DL{g.stub(1), g.stub(2)}
	case 5:
		return []DL{}
	}
	return []DL{{N: "common"}}
}

func (g *gen) stub(tag int) DL {
	d := DL{N: "stub", Tag: tag}
	for k := 0; k < 1+g.r.Intn(5); k++ {
		id := uint32(g.r.Intn(6))
		switch g.r.Intn(4) {
		case 0:
			id = uint32(g.r.Intn(256))
		case 1:
			id = uint32(g.r.Intn(1 << 24))
		}
		mx := g.r.Intn(12)
		if g.r.Intn(5) == 0 {
			mx = 200 + g.r.Intn(56)
		}
		mn := g.r.Intn(mx + 1)
		dup := false
		for _, e := range d.IDs {
			dup = dup || e.ID == id
		}
		if !dup {
			d.IDs = append(d.IDs, StubID{ID: id, CRC: g.r.Intn(256), Min: mn, Max: mx})
		}
	}
	if g.r.Intn(4) == 0 {
		d.Fail = append(d.Fail, uint32(g.r.Intn(6)))
	}
	return d
}

var every = flag.Int("every", 40, "one long session in so many random scenarios")

// scenarios: sequences of segment kinds, from the specification
var scenarios [][]string

// A long input: few senders and messages, many frames, with damaged, repeated
// and unknown ones in between.
func (g *gen) session(frames, small int) []byte {
	var pool []FrameSpec
	for try := 0; len(pool) < 1+g.r.Intn(4) && try < 60; try++ {
		s, _, ok := g.spec(1 + g.r.Intn(2))
		if ok && (len(s.Payload) <= small || try > 40) {
			if s.Ver == 2 && g.r.Intn(4) == 0 {
				s.Inc, s.Sig = 1, g.payload(13)
			}
			pool = append(pool, s)
		}
	}
	if len(pool) == 0 {
		return g.junk(5)
	}
	var in []byte
	bad := []int{0, 5, 30, 60}[g.r.Intn(4)]
	same := g.r.Intn(3) == 0
	for k := 0; k < frames; k++ {
		i := g.r.Intn(len(pool))
		if !same {
			pool[i].Seq++
			pool[i].Payload = g.payload(len(pool[i].Payload))
		}
		s := pool[i]
		g.last = []FrameSpec{s}
		if g.r.Intn(100) < bad {
			in = append(in, g.segment([]string{"stale", "stale", "stale", "again", "unk", "crc", "seed", "fs1", "fs2", "cut", "junk"}[g.r.Intn(11)])...)
		} else {
			in = append(in, s.Build()...)
		}
	}
	return in
}

func makeJob(i int) sim.Job {
	total := len(scenarios) + *sim.N
	if i >= total {
		return nil
	}
	g := &gen{r: rand.New(rand.NewSource(*sim.Seed*1000003 + int64(i)))}
	var segs []string
	if i < len(scenarios) {
		segs = scenarios[i]
		g.dl = []DL{{N: "common"}}
		if g.r.Intn(3) == 0 {
			g.dl = []DL{g.stub(1), g.stub(2)}
		}
	} else {
		g.dl = g.dialects()
		for k := 0; k < 2+g.r.Intn(10); k++ {
			if g.r.Intn(3) == 0 {
				segs = append(segs, kinds[g.r.Intn(3)])
			} else {
				segs = append(segs, kinds[g.r.Intn(len(kinds))])
			}
		}
	}
	if len(g.dl) == 0 { // nothing is known: segments still need some message
		g.dl = []DL{{N: "common"}}
		defer func() { g.dl = []DL{} }()
	}
	var in []byte
	long := i >= len(scenarios) && i%*every == 0
	if long {
		n := 20 + g.r.Intn(120)
		if i%(3**every) == 0 {
			n = 520
		}
		if *sim.Prop == "C05" {
			n = 200 << g.r.Intn(4)
			if i%(8**every) == 0 {
				n = 30000
			}
			in = g.session(n, 255)
		} else {
			in = g.session(n, 9)
		}
		segs = []string{"session"}
	} else {
		for _, k := range segs {
			in = append(in, g.segment(k)...)
		}
	}
	if g.r.Intn(2) == 0 {
		in = append(in, g.segment("pad")...)
	}
	dl := g.dl
	if i >= len(scenarios) && g.r.Intn(12) == 0 {
		dl = []DL{}
	}
	j := &job{kind: *sim.Prop, input: in, dl: dl, note: segs}
	mk := func(lenient bool, cut string) *stream {
		return &stream{lenient: lenient, dl: dl, chunks: g.cut(in, cut), r: g.r}
	}
	pick := func() string {
		c := cuts[g.r.Intn(len(cuts))]
		if len(in) > 900 && (c == "bytes" || c == "starts" || long) {
			c = []string{"rand", "whole"}[g.r.Intn(2)]
		}
		return c
	}
	switch j.kind {
	case "C01", "C02":
		j.ss = []*stream{mk(false, pick())}
	case "C03":
		len := g.r.Intn(3) == 0
		for _, c := range cuts {
			j.ss = append(j.ss, mk(len, c))
		}
	case "C04":
		j.ss = []*stream{mk(true, pick()), mk(false, pick())}
	case "C05":
		s := mk(g.r.Intn(2) == 0, pick())
		s.ops = true
		s.keep = 1
		if long {
			s.keep = 1 + len(in)/1500
		}
		s.slow = g.r.Intn(3) == 0
		j.ss = []*stream{s}
		j.input = nil
	}
	return j
}

func TestDrive(t *testing.T) {
	sim.Quiet()
	Load(*sim.Defs, ardupilotmega.Dialect{}, common.Dialect{})
	if *sim.Scn != "" {
		b, err := os.ReadFile(*sim.Scn)
		Must(err)
		Must(json.Unmarshal(b, &scenarios))
	}
	sim.RunAll(t, makeJob)
}
