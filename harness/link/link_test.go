// Connects two streams back to back, sends messages both ways through
// scenarios taken from the specification (spec/LinkGen.tla), and records what
// was sent and what was received, for spec/TraceLink.tla to judge.
package link

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	uavionix "github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"
	"github.com/botlink/go-mavlink2/util"

	. "verifharness/h"
	"verifharness/sim"
	"verifharness/vsync"
)

var udp = flag.Bool("udp", false, "over UDP, in real time")

type scenario struct {
	Ops   [][]string `json:"ops"`
	Seed  int64      `json:"seed"`
	Sched bool       `json:"sched"`
	Long  int        `json:"long"` // so many more messages
	Cap   int        `json:"cap"`  // bytes the link holds
	Seg   int        `json:"seg"`  // most bytes a read returns
	Wait  int        `json:"wait"` // one in so many operations is left to settle
}

var scenarios []scenario

type world struct {
	sc   scenario
	mu   sync.Mutex
	rng  *rand.Rand
	ev   []M
	dirs map[string]*dir
	dl   []DL
	mdl  mav.Dialects
	pool []*Def
	lost bool
	over bool
	real bool
}

type dir struct {
	w        *world
	name     string
	from, to *mav.FrameStream
	link     *pipe
	raw      io.Writer // for noise on a real link
	rng      *rand.Rand
	jobs     chan int
	given    int

	mu    sync.Mutex
	sent  []M
	got   []M
	taken int
	n     int
	gate  chan struct{} // closed while the consumer is not held back
	held  bool
	first chan struct{} // closed when something was received
}

func (w *world) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}

func (w *world) pause() {
	if !w.sc.Sched {
		return
	}
	var d int
	switch k := w.intn(100); {
	case k < 50:
		return
	case k < 85:
		d = 1 + w.intn(200)
	default:
		d = 1 + w.intn(5000)
	}
	time.Sleep(time.Duration(d))
}

// --- the link -------------------------------------------------------------------

var errClosed = errors.New("link: closed")

type pipe struct {
	w      *world
	mu     sync.Mutex
	rng    *rand.Rand
	buf    []byte
	tail   []byte // begun frame
	noise  []byte // waiting for the end of a frame
	busy   bool
	more   chan struct{}
	room   chan struct{}
	closed chan struct{}
	once   sync.Once
	empty  int
}

func newPipe(w *world, seed int64) *pipe {
	return &pipe{w: w, rng: rand.New(rand.NewSource(seed)), more: make(chan struct{}, 1), room: make(chan struct{}, 1), closed: make(chan struct{})}
}

func poke(c chan struct{}) {
	select {
	case c <- struct{}{}:
	default:
	}
}

func (l *pipe) Write(p []byte) (int, error) {
	l.mu.Lock()
	l.busy = true
	l.mu.Unlock()
	n := 0
	for n < len(p) {
		l.w.pause()
		l.mu.Lock()
		k := min(l.w.sc.Cap-len(l.buf), len(p)-n)
		if k > 0 {
			l.buf = append(l.buf, p[n:n+k]...)
			n += k
			poke(l.more)
		}
		if n == len(p) {
			l.busy = false
			l.tail = append(l.tail, p...)
			l.cut()
			l.flush()
		}
		l.mu.Unlock()
		if n < len(p) {
			select {
			case <-l.room:
			case <-l.closed:
				return n, errClosed
			}
		}
	}
	return n, nil
}

// cut removes complete frames from the tail.
func (l *pipe) cut() {
	for len(l.tail) >= 3 {
		k := int(l.tail[1]) + 8
		if l.tail[0] == 0xfd {
			k = int(l.tail[1]) + 12 + 13*int(l.tail[2]&1)
		}
		if len(l.tail) < k {
			return
		}
		l.tail = append([]byte{}, l.tail[k:]...)
	}
}

func (l *pipe) flush() {
	if !l.busy && len(l.tail) == 0 && len(l.noise) > 0 {
		l.buf = append(l.buf, l.noise...)
		l.noise = nil
		poke(l.more)
	}
}

func (l *pipe) disturb(b []byte) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.noise = append(l.noise, b...)
	l.flush()
}

func (l *pipe) Read(p []byte) (int, error) {
	for {
		l.w.pause()
		l.mu.Lock()
		if len(l.buf) > 0 && len(p) > 0 {
			if l.empty < 3 && l.rng.Intn(20) == 0 {
				l.empty++
				l.mu.Unlock()
				return 0, nil
			}
			l.empty = 0
			for i := range p {
				p[i] = 0xfe // a reader may use all of p as scratch space
			}
			k := min(len(p), len(l.buf), 1+l.rng.Intn(l.w.sc.Seg))
			n := copy(p, l.buf[:k])
			l.buf = append([]byte{}, l.buf[n:]...)
			if len(l.buf) > 0 {
				poke(l.more)
			}
			poke(l.room)
			l.mu.Unlock()
			return n, nil
		}
		l.mu.Unlock()
		select {
		case <-l.more:
		case <-l.closed:
			return 0, errClosed
		}
	}
}

func (l *pipe) close() { l.once.Do(func() { close(l.closed) }) }

type end struct{ in, out *pipe }

func (e *end) Read(p []byte) (int, error)  { return e.in.Read(p) }
func (e *end) Write(p []byte) (int, error) { return e.out.Write(p) }
func (e *end) Close() error {
	e.in.close()
	e.out.close()
	return nil
}

// --- both ends --------------------------------------------------------------------

func (d *dir) produce() {
	for seq := range d.jobs {
		def := d.w.pool[d.rng.Intn(len(d.w.pool))]
		mode := d.rng.Intn(Modes)
		m := def.New()
		if m == nil {
			Must(errors.New("cannot make " + def.Name))
		}
		d.def(def, m, mode, byte(seq))
	}
}

func (d *dir) def(def *Def, m mav.Message, mode int, seq byte) {
	def.SetVals(m, def.RandVals(d.rng, mode))
	ver := 1 + d.rng.Intn(2)
	if def.ID > 255 {
		ver = 2
	}
	sys, comp := byte(d.rng.Intn(256)), byte(d.rng.Intn(256))
	vals := def.Vals(m)
	d.mu.Lock()
	d.sent = append(d.sent, M{"ver": ver, "seq": seq, "sys": sys, "comp": comp, "d": def.D.Name, "id": def.ID, "vals": vals})
	d.mu.Unlock()
	var f mav.Frame
	var err error
	if p := Catch(func() { f, err = d.w.mdl.GetFrame(ver, sys, comp, seq, m) }); p != "" || err != nil {
		d.note(M{"e": "panic", "what": fmt.Sprint("building ", def.Name, p, err)})
		return
	}
	select {
	case d.from.Write() <- f:
	case <-d.from.Closed():
	}
}

func (d *dir) note(e M) {
	d.mu.Lock()
	d.got = append(d.got, e)
	d.mu.Unlock()
}

func (d *dir) consume() {
	for {
		d.mu.Lock()
		g := d.gate
		d.mu.Unlock()
		select {
		case <-g:
		case <-d.to.Closed():
			return
		}
		f, ok := <-d.to.Read()
		if !ok {
			return
		}
		e := M{"e": "recv", "s": d.name, "back": []B{}, "rver": 0, "mid": -1, "dname": ""}
		if p := Catch(func() {
			e["ver"], e["seq"], e["sys"], e["comp"] = f.GetVersion(), f.GetMessageSequence(), f.GetSenderSystemID(), f.GetSenderComponentID()
			e["id"] = f.GetMessageID()
			m, err := d.w.mdl.GetMessage(f)
			e["err"] = ErrName(err)
			if err == nil {
				e["mid"], e["dname"], e["rver"] = m.GetID(), m.GetDialect(), m.GetVersion()
				if dd := ByName[m.GetDialect()]; dd != nil && dd.ByID[m.GetID()] != nil {
					e["back"] = dd.ByID[m.GetID()].Vals(m)
				}
			}
		}); p != "" {
			e = M{"e": "panic", "what": p}
		}
		d.mu.Lock()
		d.got = append(d.got, e)
		d.n++
		if d.n == 1 {
			close(d.first)
		}
		d.mu.Unlock()
	}
}

func (w *world) noise() []byte {
	n := 1 + w.intn(40)
	switch w.intn(12) {
	case 0:
		n = 600 + w.intn(300)
	case 1:
		if !w.real {
			n = 5000
		}
	}
	b := make([]byte, n)
	for i := range b {
		for {
			b[i] = byte(w.intn(256))
			if b[i] != 0xfd && b[i] != 0xfe {
				break
			}
		}
	}
	return b
}

type nothing struct{}

func (nothing) LogRead([]byte) error    { return nil }
func (nothing) LogWritten([]byte) error { return errClosed }

func (w *world) choose() {
	names := []string{"common", "ardupilotmega", "asluav", "autoquad", "icarous", "matrixpilot", "paparazzi", "slugs", "uavionix", "ualberta"}
	w.rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	seen := map[uint32]bool{}
	for _, n := range names[:1+w.rng.Intn(3)] {
		d := ByName[n]
		if d == nil {
			Must(errors.New("no dialect " + n))
		}
		w.dl = append(w.dl, DL{N: d.Name})
		for _, m := range d.Known() {
			if !seen[m.ID] {
				seen[m.ID] = true
				w.pool = append(w.pool, m)
			}
		}
	}
	w.mdl = Dialects(w.dl)
	// often few types, so that their messages follow each other
	if w.rng.Intn(2) == 0 {
		w.rng.Shuffle(len(w.pool), func(i, j int) { w.pool[i], w.pool[j] = w.pool[j], w.pool[i] })
		w.pool = w.pool[:min(len(w.pool), 1+w.rng.Intn(4))]
	}
}

func (w *world) stream(rwc io.ReadWriteCloser) (*mav.FrameStream, chan mav.Frame) {
	in := make(chan mav.Frame, w.rng.Intn(2)*w.rng.Intn(5))
	if w.rng.Intn(3) == 0 {
		return mav.NewFrameStreamWithLogger(rwc, in, w.mdl, w.rng.Intn(3) == 0, nothing{}), in
	}
	return mav.NewFrameStream(rwc, in, w.mdl, w.rng.Intn(3) == 0), in
}

func (w *world) setup(a, b io.ReadWriteCloser) (*mav.FrameStream, *mav.FrameStream) {
	sa, _ := w.stream(a)
	sb, _ := w.stream(b)
	w.dirs = map[string]*dir{}
	for _, n := range []string{"ab", "ba"} {
		d := &dir{w: w, name: n, from: sa, to: sb, rng: rand.New(rand.NewSource(w.rng.Int63())), jobs: make(chan int, 1000),
			gate: make(chan struct{}), first: make(chan struct{}), sent: []M{}}
		close(d.gate)
		if n == "ba" {
			d.from, d.to = sb, sa
		}
		w.dirs[n] = d
	}
	return sa, sb
}

func (w *world) do(op []string, seq *int) {
	d := w.dirs[op[1]]
	switch op[0] {
	case "m":
		d.given++
		*seq++
		d.jobs <- *seq
	case "n":
		if b := w.noise(); d.link != nil {
			d.link.disturb(b)
		} else {
			d.raw.Write(b)
		}
	case "h":
		d.mu.Lock()
		if !d.held {
			d.held = true
			d.gate = make(chan struct{})
		}
		d.mu.Unlock()
	case "g":
		d.mu.Lock()
		if d.held {
			d.held = false
			close(d.gate)
		}
		d.mu.Unlock()
	}
}

// rest notes down what was received, and that nothing moves.
func (w *world) rest(closed bool) {
	e := M{"e": "rest"}
	for _, n := range []string{"ab", "ba"} {
		d := w.dirs[n]
		d.mu.Lock()
		w.ev = append(w.ev, d.got[d.taken:]...)
		d.taken = len(d.got)
		e[n], e["h"+n] = d.given, d.held
		d.mu.Unlock()
		select {
		case <-d.from.Closed():
			closed = true
		default:
		}
	}
	w.mu.Lock()
	w.ev = append(w.ev, e)
	if closed {
		w.ev = append(w.ev, M{"e": "closed", "why": fmt.Sprint(w.dirs["ab"].from.GetCloseErr(), "/", w.dirs["ba"].from.GetCloseErr())})
	}
	w.mu.Unlock()
}

func (w *world) play(settle func()) {
	seq := w.intn(256)
	for _, op := range w.sc.Ops {
		w.do(op, &seq)
		if w.intn(w.sc.Wait) == 0 {
			settle()
		}
	}
	for i := 0; i < w.sc.Long; i++ {
		w.do([]string{"m", []string{"ab", "ba"}[w.intn(2)]}, &seq)
	}
	w.do([]string{"g", "ab"}, &seq)
	w.do([]string{"g", "ba"}, &seq)
	settle()
	w.do([]string{"m", "ab"}, &seq)
	w.do([]string{"m", "ba"}, &seq)
	settle()
}

func (w *world) finish(sa, sb *mav.FrameStream) {
	for _, d := range w.dirs {
		close(d.jobs)
	}
	sa.Close()
	sb.Close()
}

func (w *world) Run() {
	w.choose()
	ab, ba := newPipe(w, w.rng.Int63()), newPipe(w, w.rng.Int63())
	sa, sb := w.setup(&end{in: ba, out: ab}, &end{in: ab, out: ba})
	w.dirs["ab"].link, w.dirs["ba"].link = ab, ba
	vsync.Hook = w.pause
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	for _, s := range []*mav.FrameStream{sa, sb} {
		go s.ReadContext(ctx)
		go s.WriteContext(ctx)
	}
	for _, d := range w.dirs {
		go d.produce()
		go d.consume()
	}
	w.play(func() {
		synctest.Wait()
		time.Sleep(30 * time.Second)
		synctest.Wait()
		w.rest(false)
	})
	w.finish(sa, sb)
	time.Sleep(time.Second)
	synctest.Wait()
	vsync.Hook = nil
	w.mu.Lock()
	w.over = true
	w.mu.Unlock()
}

func (w *world) runUDP() {
	w.real = true
	w.choose()
	var ep *util.UDPReadWriteCloser
	var port int
	for try := 0; ; try++ {
		c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
		Must(err)
		port = c.LocalAddr().(*net.UDPAddr).Port
		c.Close()
		if ep, err = util.NewUDPReadWriteCloser("127.0.0.1", port); err == nil {
			break
		}
		if try > 20 {
			Must(err)
		}
	}
	peer, err := net.DialUDP("udp4", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
	Must(err)
	sa, sb := w.setup(ep, peer)
	w.dirs["ab"].raw, w.dirs["ba"].raw = ep, peer
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	for _, s := range []*mav.FrameStream{sa, sb} {
		run(func() { s.ReadContext(ctx) })
		run(func() { s.WriteContext(ctx) })
	}
	run(w.dirs["ba"].produce)
	run(w.dirs["ba"].consume)
	run(w.dirs["ab"].consume)
	settle := func() {
		t0 := time.Now()
		wait := 8 * time.Second
		if w.lost {
			wait = 50 * time.Millisecond // it will not come any more
		}
		for {
			ok := true
			for _, d := range w.dirs {
				d.mu.Lock()
				ok = ok && (d.held || d.n >= d.given)
				d.mu.Unlock()
			}
			if ok {
				break
			}
			if time.Since(t0) > wait {
				w.lost = true
				break
			}
			time.Sleep(200 * time.Microsecond)
		}
		time.Sleep(time.Millisecond)
		w.rest(false)
	}
	seq := 1
	w.do([]string{"m", "ba"}, &seq) // who speaks first becomes the peer
	settle()
	run(w.dirs["ab"].produce)
	w.play(settle)
	w.finish(sa, sb)
	wg.Wait()
}

func (w *world) Record(how string) any {
	if how != "" && w.dirs != nil {
		for _, n := range []string{"ab", "ba"} {
			d := w.dirs[n]
			d.mu.Lock()
			w.ev = append(w.ev, d.got[d.taken:]...)
			d.taken = len(d.got)
			d.mu.Unlock()
		}
	}
	evs := append([]M{}, w.ev...)
	if how == "hang" || how == "leak" && !w.over {
		evs = append(evs, M{"e": "stuck"})
	}
	s := M{"ab": []M{}, "ba": []M{}}
	for n, d := range w.dirs {
		d.mu.Lock()
		s[n] = append([]M{}, d.sent...)
		d.mu.Unlock()
	}
	return M{"sent": s, "ev": evs, "sc": w.sc, "how": how, "dl": w.dl}
}

func newWorld(i int) *world {
	w := &world{sc: scenarios[i], rng: rand.New(rand.NewSource(*sim.Seed*1_000_003 + scenarios[i].Seed))}
	if w.sc.Cap == 0 {
		w.sc.Cap = 1 << 20
	}
	w.sc.Seg = max(w.sc.Seg, 1)
	w.sc.Wait = max(w.sc.Wait, 1)
	return w
}

func udpAll() {
	f, err := os.OpenFile(*sim.Out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	Must(err)
	var mu sync.Mutex
	var wg sync.WaitGroup
	var lost atomic.Int32
	next := *sim.From
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(scenarios) || lost.Load() >= 6 {
					return
				}
				w := newWorld(i)
				w.runUDP()
				if w.lost {
					lost.Add(1)
				}
				b, err := json.Marshal(M{"i": i, "rec": w.Record("")})
				Must(err)
				mu.Lock()
				f.Write(append(b, '\n'))
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Fprintln(os.Stderr, "COMPLETE")
}

func TestDrive(t *testing.T) {
	sim.Quiet()
	Load(*sim.Defs, ardupilotmega.Dialect{}, asluav.Dialect{}, autoquad.Dialect{}, common.Dialect{},
		icarous.Dialect{}, matrixpilot.Dialect{}, paparazzi.Dialect{}, slugs.Dialect{},
		uavionix.Dialect{}, ualberta.Dialect{})
	b, err := os.ReadFile(*sim.Scn)
	Must(err)
	Must(json.Unmarshal(b, &scenarios))
	if *udp {
		udpAll()
		return
	}
	sim.RunAll(t, func(i int) sim.Job {
		if i >= len(scenarios) {
			return nil
		}
		return newWorld(i)
	})
}
