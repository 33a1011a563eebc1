// Drives UDP endpoints through scenarios taken from the specification
// (spec/UdpGen.tla) and records the histories that spec/TraceUdp.tla judges:
// over a stand-in for the socket in fake time, and over real sockets of the
// loopback interface in real time.
package udp

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand"
	"net"
	"os"
	"reflect"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	"github.com/botlink/go-mavlink2/util"

	. "verifharness/h"
	"verifharness/sim"
	"verifharness/vsync"
)

var real = flag.Bool("real", false, "real sockets")
var storm = flag.Bool("storm", false, "many operations at once")

type scenario struct {
	Ops   [][]string `json:"ops"`
	Seed  int64      `json:"seed"`
	Sched bool       `json:"sched"`
}

var scenarios []scenario

type datagram struct {
	id   int
	p    string
	b    []byte
	err  error
	seen bool
}

type world struct {
	sc  scenario
	mu  sync.Mutex
	ev  []M
	rng *rand.Rand

	ep    *util.UDPReadWriteCloser
	fake  *socket
	peers map[string]*net.UDPConn

	dgs   []*datagram
	wrs   [][]byte // bytes of the writes, by k
	outs  map[int]bool
	nk    int
	busy  map[string]bool
	empty [2]bool
	close bool
	gone  int // datagrams returned
	over  bool
	late  bool // something that should have happened did not
}

func (w *world) emit(e M) {
	w.mu.Lock()
	w.ev = append(w.ev, e)
	w.mu.Unlock()
}

func (w *world) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}

func (w *world) pause() {
	if !w.sc.Sched {
		return
	}
	var d int
	switch k := w.intn(100); {
	case k < 40:
		return
	case k < 75:
		d = 1 + w.intn(200)
	default:
		d = 1 + w.intn(3000)
	}
	time.Sleep(time.Duration(d))
}

// --- a stand-in for the socket ---------------------------------------------------

var errRecv = errors.New("socket: receive failed")
var errSend = errors.New("socket: send failed")

type socket struct {
	w      *world
	mu     sync.Mutex
	q      []*datagram
	more   chan struct{}
	closed chan struct{}
	once   sync.Once
	refuse bool
	family int
}

// peers are told apart by port, zone or address
var families = [][3]net.UDPAddr{
	{{IP: net.IPv4(10, 0, 0, 1), Port: 1000}, {IP: net.IPv4(10, 0, 0, 1), Port: 1001}, {IP: net.IPv4(10, 0, 0, 2), Port: 1000}},
	{{IP: net.IP{10, 0, 0, 1}, Port: 65535}, {IP: net.IP{10, 0, 0, 1}, Port: 1}, {IP: net.IP{10, 0, 1, 1}, Port: 65535}},
	{{IP: net.ParseIP("2001:db8::1"), Port: 14550}, {IP: net.ParseIP("2001:db8::1"), Port: 14551}, {IP: net.ParseIP("2001:db8::1:1"), Port: 14550}},
	{{IP: net.ParseIP("fe80::1"), Port: 14550, Zone: "eth0"}, {IP: net.ParseIP("fe80::1"), Port: 14550, Zone: "eth1"},
		{IP: net.ParseIP("fe80::2"), Port: 14550, Zone: "eth0"}},
	{{IP: net.ParseIP("::1"), Port: 14550}, {IP: net.IPv4(127, 0, 0, 1), Port: 14550}, {IP: net.ParseIP("fe80::1"), Port: 14550, Zone: "lo"}},
}

func (s *socket) peerAddr(p string) *net.UDPAddr {
	a := families[s.family][p[0]-'A']
	a.IP = append(net.IP{}, a.IP...)
	return &a
}

func (s *socket) peerName(a net.Addr) string {
	for _, p := range []string{"A", "B", "C"} {
		if a != nil && a.String() == s.peerAddr(p).String() {
			return p
		}
	}
	return "?"
}

func (s *socket) push(d *datagram) {
	s.mu.Lock()
	// noted down under the lock, so that the notes have the order of the queue
	n := "dg"
	if d.err != nil {
		n = "fail"
	}
	s.w.emit(M{"e": n, "id": d.id, "p": d.p})
	s.q = append(s.q, d)
	select {
	case s.more <- struct{}{}:
	default:
	}
	s.mu.Unlock()
}

func (s *socket) ReadFrom(p []byte) (int, net.Addr, error) {
	s.w.pause()
	for {
		s.mu.Lock()
		select {
		case <-s.closed:
			s.mu.Unlock()
			return 0, nil, net.ErrClosed
		default:
		}
		if len(s.q) > 0 {
			d := s.q[0]
			s.q = s.q[1:]
			if len(s.q) > 0 {
				select {
				case s.more <- struct{}{}:
				default:
				}
			}
			s.mu.Unlock()
			return copy(p, d.b), s.peerAddr(d.p), d.err
		}
		s.mu.Unlock()
		select {
		case <-s.more:
		case <-s.closed:
		}
	}
}

func (s *socket) WriteTo(p []byte, a net.Addr) (int, error) {
	s.w.pause()
	s.mu.Lock()
	defer s.mu.Unlock()
	select {
	case <-s.closed:
		return 0, net.ErrClosed
	default:
	}
	if s.refuse {
		s.refuse = false
		s.w.emit(M{"e": "refuse", "k": s.w.whose(p)})
		return 0, errSend
	}
	s.w.out(p, s.peerName(a))
	return len(p), nil
}

func (s *socket) Close() error {
	err := net.ErrClosed
	s.once.Do(func() { close(s.closed); err = nil })
	return err
}

func (s *socket) LocalAddr() net.Addr              { return s.peerAddr("C") }
func (s *socket) SetDeadline(time.Time) error      { return nil }
func (s *socket) SetReadDeadline(time.Time) error  { return nil }
func (s *socket) SetWriteDeadline(time.Time) error { return nil }

// implant puts the stand-in in the place of the endpoint's socket; false if
// there is no place for it.
func implant(ep *util.UDPReadWriteCloser, s *socket) bool {
	v := reflect.ValueOf(ep).Elem()
	t := reflect.TypeOf(s)
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Interface && t.Implements(f.Type()) && f.Type().NumMethod() > 0 && !f.IsNil() {
			place := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			if c, ok := place.Interface().(net.PacketConn); ok {
				c.Close()
				place.Set(reflect.ValueOf(s))
				return true
			}
		}
	}
	return false
}

// --- bookkeeping --------------------------------------------------------------------

// whose finds the write these bytes belong to; w.mu must not be held
func (w *world) whose(p []byte) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.whoseLocked(p)
}

func (w *world) whoseLocked(p []byte) int {
	last := 0
	for k, b := range w.wrs {
		if b != nil && bytes.Equal(b, p) {
			last = k
			if !w.outs[k] {
				return k
			}
		}
	}
	return last
}

func (w *world) out(p []byte, peer string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	k := w.whoseLocked(p)
	w.outs[k] = true
	w.ev = append(w.ev, M{"e": "out", "k": k, "p": peer})
}

func (w *world) payload(tag int) []byte {
	n := []int{4, 5, 30, 280, 1500, 2000, 9000, 40000}[w.intn(8)]
	// at most one empty datagram each way, to tell them apart
	if way := tag / 1000; w.intn(8) == 0 && !w.empty[way] {
		w.empty[way] = true
		return []byte{}
	}
	b := make([]byte, n)
	binary.BigEndian.PutUint32(b, uint32(tag)<<8|uint32(w.intn(256)))
	for i := 4; i < n; i++ {
		b[i] = byte(i*7 + tag)
	}
	return b
}

func errLabel(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, util.ErrNoAddress):
		return "noaddr"
	}
	return "err"
}

// op prepares an operation; nil if it does not apply now.
func (w *world) op(o string) func() {
	if w.busy[o] {
		return nil
	}
	done := func(e M) {
		w.mu.Lock()
		w.busy[o] = false
		w.ev = append(w.ev, e)
		w.mu.Unlock()
	}
	guard := func(f func()) {
		if p := Catch(f); p != "" {
			w.emit(M{"e": "panic", "what": p})
		}
	}
	switch o {
	case "r1", "r2":
		w.busy[o] = true
		w.nk++
		k := w.nk
		size := 65536
		if w.intn(5) == 0 {
			size = 40
		}
		return func() {
			w.emit(M{"e": "rdCall", "k": k})
			w.pause()
			guard(func() {
				buf := make([]byte, size)
				n, err := w.ep.Read(buf)
				w.mu.Lock()
				id := 0
				if err == nil && n >= 0 && n <= size {
					for _, d := range w.dgs {
						want := d.b
						if len(want) > size {
							want = want[:size]
						}
						if !d.seen && d.err == nil && bytes.Equal(buf[:n], want) {
							id = d.id
							d.seen = true
							w.gone++
							break
						}
					}
				}
				if errors.Is(err, errRecv) {
					for _, d := range w.dgs {
						if !d.seen && d.err != nil {
							id = d.id
							d.seen = true
							break
						}
					}
				}
				w.mu.Unlock()
				done(M{"e": "rdRet", "k": k, "id": id, "err": errLabel(err)})
			})
		}
	case "w1", "w2":
		w.busy[o] = true
		w.nk++
		k := w.nk
		b := w.payload(1000 + k)
		if w.fake == nil && len(b) > 9000 {
			b = b[:9000]
		}
		return func() {
			w.mu.Lock()
			for len(w.wrs) <= k {
				w.wrs = append(w.wrs, nil)
			}
			w.wrs[k] = b
			w.ev = append(w.ev, M{"e": "wrCall", "k": k})
			w.mu.Unlock()
			w.pause()
			guard(func() {
				p := append([]byte{}, b...)
				n, err := w.ep.Write(p)
				done(M{"e": "wrRet", "k": k, "err": errLabel(err), "full": n == len(b) && bytes.Equal(p, b)})
			})
		}
	case "close":
		w.busy[o] = true
		return func() {
			w.mu.Lock()
			w.close = true
			w.ev = append(w.ev, M{"e": "close"})
			w.mu.Unlock()
			w.pause()
			guard(func() {
				w.ep.Close()
				done(M{"e": "closeRet"})
			})
		}
	case "refuse":
		if w.fake == nil {
			return nil
		}
		return func() {
			w.fake.mu.Lock()
			w.fake.refuse = true
			w.fake.mu.Unlock()
		}
	case "A", "B", "C", "failA", "failB":
		if w.fake == nil && len(o) > 1 {
			return nil
		}
		d := &datagram{id: len(w.dgs) + 1, p: o[len(o)-1:]}
		d.b = w.payload(d.id)
		if len(o) > 1 {
			d.err = errRecv
			d.b = d.b[:min(len(d.b), w.intn(3))]
		}
		w.mu.Lock()
		w.dgs = append(w.dgs, d)
		w.mu.Unlock()
		if w.fake != nil {
			return func() { w.fake.push(d) }
		}
		return func() {
			w.emit(M{"e": "dg", "id": d.id, "p": d.p})
			_, err := w.peers[d.p].Write(d.b)
			_ = err // the endpoint may be closed
		}
	}
	Must(errors.New("unknown operation " + o))
	return nil
}

func (w *world) start(batch []string) {
	var fs []func()
	for _, o := range batch {
		w.mu.Lock()
		b := w.busy[o]
		w.mu.Unlock()
		if b {
			continue
		}
		// real peers sending at the same time: the order of arrival is not known
		if w.fake == nil && (o == "B" || o == "C") && len(fs) > 0 && batch[0] == "A" {
			continue
		}
		if f := w.op(o); f != nil {
			fs = append(fs, f)
		}
	}
	if w.intn(2) == 0 {
		for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
			fs[i], fs[j] = fs[j], fs[i]
		}
	}
	for _, f := range fs {
		go func() {
			w.pause()
			f()
		}()
	}
}

func (w *world) init() {
	w.busy, w.outs = map[string]bool{}, map[int]bool{}
}

// Run runs a scenario over the stand-in.
func (w *world) Run() {
	vsync.Hook = nil
	ep, err := util.NewUDPReadWriteCloser("127.0.0.1", 0)
	Must(err)
	w.ep = ep
	w.fake = &socket{w: w, more: make(chan struct{}, 1), closed: make(chan struct{}), family: w.intn(len(families))}
	if !implant(ep, w.fake) {
		Must(errors.New("no place for the stand-in"))
	}
	vsync.Hook = w.pause
	settle := func() {
		synctest.Wait()
		time.Sleep(20 * time.Millisecond)
		synctest.Wait()
		w.emit(M{"e": "rest"})
	}
	for k, b := range w.sc.Ops {
		if k%3 == 2 {
			time.Sleep(10 * time.Minute)
		}
		w.start(b)
		settle()
	}
	w.start([]string{"close"})
	settle()
	w.start([]string{"r1", "w1"})
	settle()
	vsync.Hook = nil
	w.mu.Lock()
	w.over = true
	w.mu.Unlock()
}

func (w *world) Record(how string) any {
	w.mu.Lock()
	defer w.mu.Unlock()
	evs := append([]M{}, w.ev...)
	if how == "hang" || how == "leak" && !w.over {
		evs = append(evs, M{"e": "stuck"})
	}
	return M{"ev": evs, "sc": w.sc, "how": how}
}

// --- real sockets ---------------------------------------------------------------------

func (w *world) pending() (r, wr, c bool, backlog int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.busy["r1"] || w.busy["r2"], w.busy["w1"] || w.busy["w2"], w.busy["close"], len(w.dgs) - w.gone
}

func (w *world) events() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.ev)
}

// collect takes what arrives at the peers, for a while.
func (w *world) collect(first time.Duration) {
	buf := make([]byte, 70000)
	for _, p := range []string{"A", "B", "C"} {
		for {
			w.peers[p].SetReadDeadline(time.Now().Add(first))
			n, err := w.peers[p].Read(buf)
			if err != nil {
				var ne net.Error
				if errors.As(err, &ne) && ne.Timeout() {
					break
				}
				continue // refused: the endpoint is closed
			}
			w.out(buf[:n], p)
		}
	}
}

// owed: successful writes whose datagram has not been seen
func (w *world) owed() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range w.ev {
		if e["e"] == "wrRet" && e["err"] == "" && !w.outs[e["k"].(int)] {
			return true
		}
	}
	return false
}

// settleReal waits until nothing moves; patient where something should.
func (w *world) settleReal() {
	t0 := time.Now()
	for {
		n := w.events()
		time.Sleep(1500 * time.Microsecond)
		w.collect(200 * time.Microsecond)
		if w.events() != n {
			continue
		}
		r, wr, c, backlog := w.pending()
		if wr || c || r && (w.close || backlog > 0) || w.owed() {
			wait := 6 * time.Second
			if w.late {
				wait = 50 * time.Millisecond
			}
			if time.Since(t0) < wait {
				continue
			}
			w.late = true
		}
		break
	}
	w.emit(M{"e": "rest"})
}

func (w *world) runReal(port int) bool {
	w.init()
	var err error
	w.ep, err = util.NewUDPReadWriteCloser("127.0.0.1", port)
	if err != nil {
		return false
	}
	w.peers = map[string]*net.UDPConn{}
	for p, ip := range map[string]net.IP{"A": net.IPv4(127, 0, 0, 1), "B": net.IPv4(127, 0, 0, 1), "C": net.IPv4(127, 0, 0, 2)} {
		c, err := net.DialUDP("udp4", &net.UDPAddr{IP: ip}, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
		Must(err)
		defer c.Close()
		w.peers[p] = c
	}
	for _, b := range w.sc.Ops {
		w.start(b)
		w.settleReal()
	}
	w.start([]string{"close"})
	w.settleReal()
	return true
}

// a port that is free right now
func freePort() int {
	c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	Must(err)
	defer c.Close()
	return c.LocalAddr().(*net.UDPAddr).Port
}

// runStorm: a peer is known; then many reads and writes at once, then close.
func (w *world) runStorm(port int) bool {
	w.init()
	var err error
	w.ep, err = util.NewUDPReadWriteCloser("127.0.0.1", port)
	if err != nil {
		return false
	}
	w.peers = map[string]*net.UDPConn{}
	for p, ip := range map[string]net.IP{"A": net.IPv4(127, 0, 0, 1), "B": net.IPv4(127, 0, 0, 1), "C": net.IPv4(127, 0, 0, 2)} {
		c, err := net.DialUDP("udp4", &net.UDPAddr{IP: ip}, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
		Must(err)
		defer c.Close()
		w.peers[p] = c
	}
	w.start([]string{"A"})
	w.settleReal()
	w.start([]string{"r1"})
	w.settleReal()
	// from here on every goroutine keeps notes of its own
	type note struct {
		evs []M
	}
	var wg sync.WaitGroup
	const writers, readers, each = 3, 3, 12
	notes := make([]note, writers+readers+1)
	k := w.nk
	w.mu.Lock()
	for len(w.wrs) <= k+writers*each {
		w.wrs = append(w.wrs, nil)
	}
	for i := k + 1; i <= k+writers*each; i++ {
		b := make([]byte, 8+w.rng.Intn(300))
		binary.BigEndian.PutUint32(b, uint32(i)<<8|0x77)
		for j := 4; j < len(b); j++ {
			b[j] = byte(i + j)
		}
		w.wrs[i] = b
	}
	w.mu.Unlock()
	for g := 0; g < writers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < each; j++ {
				kk := k + 1 + g*each + j
				n, err := w.ep.Write(append([]byte{}, w.wrs[kk]...))
				notes[g].evs = append(notes[g].evs, M{"e": "wrCall", "k": kk},
					M{"e": "wrRet", "k": kk, "err": errLabel(err), "full": n == len(w.wrs[kk])})
			}
		}()
	}
	var dgs []*datagram
	for i := 0; i < readers*each; i++ {
		d := &datagram{id: len(w.dgs) + 1 + i, p: []string{"A", "B", "C"}[w.intn(3)]}
		d.b = make([]byte, 8+w.intn(300))
		binary.BigEndian.PutUint32(d.b, uint32(d.id)<<8|0x55)
		for j := 4; j < len(d.b); j++ {
			d.b[j] = byte(d.id * j)
		}
		dgs = append(dgs, d)
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for _, d := range dgs {
			w.peers[d.p].Write(d.b)
		}
	}()
	got := make([][]int, readers)
	for g := 0; g < readers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < each; j++ {
				buf := make([]byte, 1000)
				n, err := w.ep.Read(buf)
				id := 0
				if err == nil {
					for _, d := range dgs {
						if bytes.Equal(d.b, buf[:n]) {
							id = d.id
						}
					}
				}
				got[g] = append(got[g], id)
				_ = err
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	stuck := false
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		stuck = true
	}
	if stuck {
		// who is stuck keeps writing notes: leave them alone
		w.emit(M{"e": "stuck"})
		w.late = true
		return true
	}
	// One order of it all in which every operation overlaps with every other:
	// all datagrams and calls first.
	var ret []M
	for _, d := range dgs {
		w.emit(M{"e": "dg", "id": d.id, "p": d.p})
	}
	for g := 0; g < writers; g++ {
		for _, e := range notes[g].evs {
			if e["e"] == "wrCall" {
				w.emit(e)
			} else {
				ret = append(ret, e)
			}
		}
	}
	kk := k + writers*each
	for g := 0; g < readers; g++ {
		for _, id := range got[g] {
			kk++
			w.emit(M{"e": "rdCall", "k": kk})
			ret = append(ret, M{"e": "rdRet", "k": kk, "id": id, "err": ""})
		}
	}
	for _, e := range ret {
		w.emit(e)
	}
	w.mu.Lock()
	w.dgs, w.gone = nil, 0
	w.mu.Unlock()
	w.settleReal()
	w.start([]string{"r1", "close"})
	w.settleReal()
	return true
}

func realAll() {
	f, err := os.OpenFile(*sim.Out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	Must(err)
	var mu sync.Mutex
	var wg sync.WaitGroup
	next := *sim.From
	var late atomic.Int32
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				if *sim.Only >= 0 {
					i = *sim.Only
					if g > 0 || next > *sim.From+1 {
						i = len(scenarios)
					}
				}
				mu.Unlock()
				if i >= len(scenarios) || late.Load() >= 8 {
					return
				}
				var w *world
				for try := 0; ; try++ {
					w = &world{sc: scenarios[i], rng: rand.New(rand.NewSource(*sim.Seed*1_000_003 + scenarios[i].Seed))}
					p := freePort()
					ok := false
					if *storm {
						ok = w.runStorm(p)
					} else {
						ok = w.runReal(p)
					}
					if ok {
						break
					}
					if try > 20 {
						Must(errors.New("cannot make an endpoint"))
					}
				}
				if w.late {
					late.Add(1)
				}
				b, err := json.Marshal(M{"i": i, "rec": w.Record("")})
				Must(err)
				mu.Lock()
				f.Write(append(b, '\n'))
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Fprintln(os.Stderr, "COMPLETE")
}

func TestDrive(t *testing.T) {
	sim.Quiet()
	b, err := os.ReadFile(*sim.Scn)
	Must(err)
	Must(json.Unmarshal(b, &scenarios))
	if *real {
		realAll()
		return
	}
	probe, err := util.NewUDPReadWriteCloser("127.0.0.1", 0)
	Must(err)
	if !implant(probe, &socket{}) {
		fmt.Fprintln(os.Stderr, "NOPLACE\nCOMPLETE")
		return
	}
	sim.RunAll(t, func(i int) sim.Job {
		if i >= len(scenarios) {
			return nil
		}
		w := &world{sc: scenarios[i], rng: rand.New(rand.NewSource(*sim.Seed*1_000_003 + scenarios[i].Seed))}
		w.init()
		return w
	})
}
