// Drives a stream through scenarios taken from the specification
// (spec/StreamGen.tla) and records the history its environment observes; the
// specification (spec/TraceStream.tla) judges it.
package life

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"

	. "verifharness/h"
	"verifharness/sim"
	"verifharness/vsync"
)

type scenario struct {
	Logger string     `json:"logger"`
	Gated  bool       `json:"gated"`
	Ops    [][]string `json:"ops"`
	Cap    int        `json:"cap"` // capacity of the write channel
	Seed   int64      `json:"seed"`
	Sched  bool       `json:"sched"` // instrumented build: random schedule in fake time
	Long   bool       `json:"long"`  // let a long time pass between the operations
	Slow   bool       `json:"slow"`  // closing the transport takes a while, and fails
	At     int        `json:"at"`    // among others: the stream is opened in this step
	Feat   feat       `json:"feat"`
}

// feat varies what the environment of the stream does.
type feat struct {
	Lenient bool `json:"lenient,omitempty"` // the stream passes on invalid frames
	Damaged bool `json:"damaged,omitempty"` // the transport hands over invalid frames
	Tails   bool `json:"tails,omitempty"`   // ... and the beginnings of frames behind frames
	Errs    bool `json:"errs,omitempty"`    // transport errors of many kinds
	Burst   bool `json:"burst,omitempty"`   // producers send several frames
	Auto    bool `json:"auto,omitempty"`    // writes return on their own
	Reenter bool `json:"reenter,omitempty"` // the logger or transport closes the stream
	Ctx     bool `json:"ctx,omitempty"`     // contexts of many kinds
	Dup     bool `json:"dup,omitempty"`     // frames are sent again, byte for byte
	Late    bool `json:"late,omitempty"`    // a read that is pending when the transport is closed still returns frames, later
}

var scenarios []scenario

type world struct {
	sc scenario

	mu  sync.Mutex
	ev  []M
	rng *rand.Rand

	st    *mav.FrameStream
	in    chan mav.Frame
	rwc   *transport
	log   *logger
	ctxR  context.Context
	stopR func()
	ctxW  context.Context
	stopW func()
	errR  error // of the context of the read loop, once it has ended
	errW  error

	fed      [][]byte // frames of the read side
	sent     [][]byte // frames of the write side
	same     mav.Frame
	met      map[string]map[int]bool // frames seen at each place
	running  map[string]bool
	consBusy [2]bool
	prodBusy bool
	userBusy [2]bool
	inClosed bool
	stopped  map[string]bool
	abort    chan struct{}
	ended    bool // the input has ended
	half     bool
	cut      int
	feeding  sync.Mutex
	finished bool
	over     bool
}

func (w *world) emit(e M) {
	w.mu.Lock()
	w.ev = append(w.ev, e)
	w.mu.Unlock()
}

func ev(n string) M { return M{"e": n} }

func (w *world) intn(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}

// pause is a scheduling point of random length.
func (w *world) pause() {
	if !w.sc.Sched {
		return
	}
	var d int
	switch k := w.intn(100); {
	case k < 40:
		return
	case k < 75:
		d = 1 + w.intn(200)
	case k < 95:
		d = 1 + w.intn(2000)
	default:
		d = 1 + w.intn(40000)
	}
	time.Sleep(time.Duration(d))
}

// --- contexts -----------------------------------------------------------------

// a context that ends with a given error
type manualCtx struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func (c *manualCtx) Done() <-chan struct{} { return c.done }
func (c *manualCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

func endsWith(err error) (context.Context, func()) {
	c := &manualCtx{Context: context.Background(), done: make(chan struct{})}
	return c, func() {
		c.mu.Lock()
		c.err = err
		c.mu.Unlock()
		close(c.done)
	}
}

var (
	errCtxR = errors.New("read context ended")
	errCtxW = errors.New("write context ended")
	cause   = errors.New("not the context's error")
)

// contexts makes the contexts of the two loops; they end with different errors.
func (w *world) contexts() {
	w.errR, w.errW = context.Canceled, context.DeadlineExceeded
	k := 0
	if w.sc.Feat.Ctx {
		k = 1 + w.intn(5)
	}
	switch k {
	case 1, 2:
		w.errR, w.errW = w.errW, w.errR
	case 3:
		w.errR, w.errW = errCtxR, errCtxW
	}
	make := func(err error) (context.Context, func()) {
		if err == context.Canceled && k%2 == 1 {
			c, stop := context.WithCancelCause(context.WithValue(context.Background(), "key", 1))
			return c, func() { stop(cause) }
		}
		if err == context.Canceled {
			c, stop := context.WithCancel(context.Background())
			return c, stop
		}
		return endsWith(err)
	}
	w.ctxR, w.stopR = make(w.errR)
	w.ctxW, w.stopW = make(w.errW)
	has := func(o string) bool {
		for _, b := range w.sc.Ops {
			for _, x := range b {
				if x == o {
					return true
				}
			}
		}
		return false
	}
	if k == 5 && !has("cancelR") {
		w.ctxR, w.stopR = context.Background(), func() {}
	}
	if k == 5 && !has("cancelW") {
		w.ctxW, w.stopW = context.Background(), func() {}
	}
}

// --- transport ------------------------------------------------------------------

var (
	errRead   = errors.New("transport: read failed")
	errWrite  = errors.New("transport: write failed")
	errClosed = errors.New("transport: closed")
)

// netErr is a transport error of a certain kind.
type netErr struct {
	base, kind         error
	timeout, temporary bool
}

func (e *netErr) Error() string   { return e.base.Error() }
func (e *netErr) Timeout() bool   { return e.timeout }
func (e *netErr) Temporary() bool { return e.temporary }
func (e *netErr) Unwrap() []error { return []error{e.base, e.kind} }

var errKinds = []error{errors.New("plain"), os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded, io.EOF,
	io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortWrite, io.ErrClosedPipe, io.ErrShortBuffer, net.ErrClosed, os.ErrClosed, syscall.EINTR,
	syscall.EAGAIN, syscall.EPIPE, syscall.ECONNREFUSED, bufio.ErrBufferFull, mav.ErrUserClosed, mav.ErrWriteChannelClosed,
	mav.ErrUnknownMessage, mav.ErrInvalidChecksum}

func (w *world) failure(base error) error {
	if !w.sc.Feat.Errs {
		return base
	}
	k := w.intn(3 * len(errKinds))
	e := &netErr{base: base, kind: errKinds[k%len(errKinds)]}
	switch w.intn(3) {
	case 0:
		e.timeout, e.temporary = true, true
	case 1:
		e.temporary = true
	}
	return e
}

type piece struct {
	data []byte
	ends []int // offsets behind complete frames
	err  error
	once bool // the error does not stay
}

type transport struct {
	w       *world
	mu      sync.Mutex
	q       []piece
	more    chan struct{}
	closed  chan struct{}
	once    sync.Once
	eof     error
	writing bool
	gate    chan error
	errs    int // failures so far
	late    bool
}

func (t *transport) push(p piece) {
	t.mu.Lock()
	t.q = append(t.q, p)
	t.mu.Unlock()
	select {
	case t.more <- struct{}{}:
	default:
	}
}

func (w *world) errLabel(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errRead):
		return "rerr"
	case errors.Is(err, errWrite):
		return "werr"
	case errors.Is(err, errClosed):
		return "tclosed"
	case errors.Is(err, mav.ErrUserClosed):
		return "user"
	case errors.Is(err, mav.ErrWriteChannelClosed):
		return "wclosed"
	case errors.Is(err, w.errR):
		return "canceled"
	case errors.Is(err, w.errW):
		return "deadline"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "ueof"
	case errors.Is(err, io.EOF):
		return "eof"
	}
	return "other:" + err.Error()
}

func (t *transport) Read(p []byte) (n int, err error) {
	w := t.w
	w.emit(ev("rdCall"))
	frames := 0
	defer func() { w.emit(M{"e": "rdRet", "n": frames, "err": w.errLabel(err)}) }()
	if len(p) == 0 {
		return 0, nil
	}
	w.reenter()
	waited := false
	for {
		select {
		case <-t.closed:
			if !waited || t.late || !w.sc.Feat.Late {
				return 0, errClosed
			}
			t.late = true
			w.pause()
			if w.intn(2) == 0 {
				time.Sleep(time.Duration(w.intn(8)) * time.Millisecond)
			}
			w.feed(1+w.intn(60), 0, nil)()
		default:
		}
		t.mu.Lock()
		if t.eof != nil {
			t.errs++
			if t.errs > 20 {
				// whoever keeps on trying has to wait
				t.mu.Unlock()
				<-t.closed
				return 0, errClosed
			}
			t.mu.Unlock()
			return 0, t.eof
		}
		if len(t.q) > 0 {
			x := &t.q[0]
			n = copy(p, x.data)
			x.data = x.data[n:]
			for len(x.ends) > 0 && x.ends[0] <= n {
				x.ends = x.ends[1:]
				frames++
			}
			for i := range x.ends {
				x.ends[i] -= n
			}
			if len(x.data) == 0 {
				err = x.err
				if err != nil && !x.once {
					t.eof = err
				}
				t.q = t.q[1:]
			}
			t.mu.Unlock()
			return n, err
		}
		t.mu.Unlock()
		if t.late {
			return 0, errClosed
		}
		waited = true
		select {
		case <-t.more:
		case <-t.closed:
		}
	}
}

// find numbers a frame that shows up at some place: of equal frames, the next
// one that has not been there. To be called with the lock held.
func (w *world) find(place string, all [][]byte, b []byte) int {
	if w.met == nil {
		w.met = map[string]map[int]bool{}
	}
	if w.met[place] == nil {
		w.met[place] = map[int]bool{}
	}
	last := 0
	for i, x := range all {
		if !bytes.Equal(x, b) {
			continue
		}
		last = i + 1
		if !w.met[place][last] {
			w.met[place][last] = true
			break
		}
	}
	return last
}

func (t *transport) Write(p []byte) (n int, err error) {
	w := t.w
	w.mu.Lock()
	w.ev = append(w.ev, M{"e": "wrCall", "id": w.find("write", w.sent, p)})
	w.mu.Unlock()
	defer func() { w.emit(M{"e": "wrRet", "err": w.errLabel(err)}) }()
	w.reenter()
	select {
	case <-t.closed:
		return 0, errClosed
	default:
	}
	if w.sc.Feat.Auto {
		w.pause()
		return len(p), nil
	}
	g := make(chan error, 1)
	t.mu.Lock()
	t.gate, t.writing = g, true
	t.mu.Unlock()
	select {
	case err = <-g:
	case <-t.closed:
		err = errClosed
	}
	t.mu.Lock()
	t.writing = false
	t.mu.Unlock()
	if err != nil {
		if w.sc.Feat.Errs {
			n = w.intn(len(p) + 1)
		}
		return n, err
	}
	return len(p), nil
}

// reenter closes the stream from within a call of it, now and then.
func (w *world) reenter() {
	if !w.sc.Feat.Reenter || w.isFinished() || w.intn(6) != 0 {
		return
	}
	w.emit(ev("close"))
	w.guard("U", w.st.Close)
	w.emit(ev("closeret"))
}

// release lets a pending write return
func (t *transport) release(err error) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	if !t.writing || t.gate == nil {
		return false
	}
	t.gate <- err
	t.gate = nil
	return true
}

func (t *transport) Close() error {
	w := t.w
	if w.sc.Slow {
		time.Sleep(3 * time.Millisecond)
	}
	w.emit(ev("rwcClose"))
	t.once.Do(func() { close(t.closed) })
	if w.sc.Slow {
		w.pause()
		return errors.New("transport: close failed")
	}
	return nil
}

// --- logger ---------------------------------------------------------------------

type logger struct {
	w     *world
	mu    sync.Mutex
	gates map[string]chan struct{}
}

func (l *logger) call(name string, all *[][]byte, msg []byte) error {
	w := l.w
	w.mu.Lock()
	w.ev = append(w.ev, M{"e": name, "id": w.find(name, *all, msg)})
	w.mu.Unlock()
	w.reenter()
	if w.sc.Gated && !w.isFinished() {
		g := make(chan struct{})
		l.mu.Lock()
		l.gates[name] = g
		l.mu.Unlock()
		<-g
	}
	w.emit(ev(name + "End"))
	if w.sc.Logger == "err" {
		return errors.New("logger failed")
	}
	return nil
}

func (w *world) isFinished() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.finished
}

func (l *logger) release(name string) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	g := l.gates[name]
	if g == nil {
		return false
	}
	delete(l.gates, name)
	close(g)
	return true
}

func (l *logger) LogRead(msg []byte) error    { return l.call("logR", &l.w.fed, msg) }
func (l *logger) LogWritten(msg []byte) error { return l.call("logW", &l.w.sent, msg) }

// --- operations -------------------------------------------------------------------

var heartbeat *Def

func (w *world) frame(seq int, sys byte) []byte { return w.spec(seq, sys).Build() }

func (w *world) spec(seq int, sys byte) FrameSpec {
	s := FrameSpec{Ver: 1 + w.intn(2), Seq: byte(seq), Sys: sys, Comp: byte(w.intn(256)), ID: heartbeat.ID, CRCExtra: heartbeat.CRC,
		Payload: make([]byte, 9)}
	for i := range s.Payload {
		s.Payload[i] = byte(1 + w.intn(200))
	}
	if s.Ver == 2 && w.intn(3) == 0 {
		s.Inc = 1
		s.Sig = []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
	}
	return s
}

// damaged returns an invalid frame without a further start byte in it.
func (w *world) damaged(seq int) []byte {
	for {
		s := w.spec(seq, 11)
		at := map[int]int{1: 6, 2: 10}[s.Ver]
		x := s.Build()
		switch w.intn(3) {
		case 0:
			x[at+len(s.Payload)+w.intn(2)] ^= byte(1 + w.intn(255))
		case 1:
			x[at+w.intn(len(s.Payload))] ^= byte(1 << w.intn(8))
		default:
			for s.ID = 3; ByName["common"].ByID[s.ID] != nil; s.ID++ {
			}
			x = s.Build()
		}
		if bytes.IndexByte(x[1:], 0xfd) < 0 && bytes.IndexByte(x[1:], 0xfe) < 0 {
			return x
		}
	}
}

// guard runs a call into the library; a panic is an event.
func (w *world) guard(who string, f func()) {
	if p := Catch(f); p != "" {
		w.emit(M{"e": "panic", "who": who, "what": p})
	}
}

func (w *world) startLoop(name string) func() {
	if w.running[name] {
		return nil
	}
	w.running[name] = true
	return func() {
		w.emit(ev("start" + name))
		w.guard(name, func() {
			if name == "R" {
				w.st.ReadContext(w.ctxR)
			} else {
				w.st.WriteContext(w.ctxW)
			}
			w.emit(ev("ret" + name))
		})
	}
}

func (w *world) feed(frames, part int, err error) func() {
	return func() {
		w.feeding.Lock()
		defer w.feeding.Unlock()
		if w.ended {
			return
		}
		var p piece
		p.err = err
		if err != nil {
			p.once = err != io.EOF && w.sc.Feat.Errs && w.intn(2) == 0
			w.ended = !p.once
		}
		fresh := func(whole bool) []byte {
			x := w.frame(len(w.fed), 11)
			if whole && w.sc.Feat.Damaged && w.sc.Feat.Lenient && w.intn(3) == 0 {
				x = w.damaged(len(w.fed))
			}
			if w.sc.Feat.Dup && len(w.fed) > 0 && w.intn(2) == 0 {
				x = w.fed[len(w.fed)-1]
			}
			w.mu.Lock()
			w.fed = append(w.fed, x)
			w.mu.Unlock()
			return x
		}
		add := func(b []byte, complete bool) {
			p.data = append(p.data, b...)
			if complete {
				p.ends = append(p.ends, len(p.data))
			}
		}
		for k := 0; k < frames; k++ {
			if w.half {
				add(w.fed[len(w.fed)-1][w.cut:], true)
				w.half = false
				continue
			}
			if w.intn(4) == 0 {
				add([]byte{1, 2, 3}[:1+w.intn(3)], false)
			}
			if w.sc.Feat.Damaged && !w.sc.Feat.Lenient && w.intn(3) == 0 {
				add(w.damaged(len(w.fed)), false)
			}
			add(fresh(true), true)
		}
		if (part > 0 || w.sc.Feat.Tails && err == nil && w.intn(2) == 0) && !w.half {
			x := fresh(false)
			w.cut = 1 + w.intn(len(x)-1)
			add(x[:w.cut], false)
			w.half = true
		}
		w.rwc.push(p)
	}
}

// op prepares an operation; nil if it does not apply now.
func (w *world) op(o string) func() {
	switch o {
	case "startR", "startW":
		return w.startLoop(o[5:])
	case "cancelR":
		if w.stopped["R"] {
			return nil
		}
		w.stopped["R"] = true
		return func() {
			w.emit(ev("cancelR"))
			w.pause()
			w.stopR()
			w.emit(ev("cancelRret"))
		}
	case "cancelW":
		if w.stopped["W"] {
			return nil
		}
		w.stopped["W"] = true
		return func() {
			w.emit(ev("cancelW"))
			w.pause()
			w.stopW()
		}
	case "close", "close2":
		u := len(o) - len("close")
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.userBusy[u] {
			return nil
		}
		w.userBusy[u] = true
		return func() {
			w.emit(ev("close"))
			w.pause()
			w.guard("U", w.st.Close)
			w.emit(ev("closeret"))
			w.mu.Lock()
			w.userBusy[u] = false
			w.mu.Unlock()
		}
	case "closeIn":
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.inClosed || w.prodBusy {
			return nil
		}
		w.inClosed = true
		return func() {
			w.emit(ev("closeIn"))
			w.pause()
			close(w.in)
		}
	case "feed":
		return w.feed(1, 0, nil)
	case "feed2":
		return w.feed(2, 0, nil)
	case "part":
		return w.feed(0, 1, nil)
	case "eof":
		return w.feed(0, 0, io.EOF)
	case "rerr":
		n := 0
		if w.sc.Feat.Errs {
			n = w.intn(4) / 2
		}
		return w.feed(n, 0, w.failure(errRead))
	case "feedEof":
		return w.feed(1, 0, io.EOF)
	case "recv", "recv2":
		c := len(o) - len("recv")
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.consBusy[c] {
			return nil
		}
		w.consBusy[c] = true
		return func() {
			w.emit(ev("recvCall"))
			w.pause()
			f, ok := <-w.st.Read()
			e := M{"e": "recvClosed"}
			if ok {
				b := []byte{}
				Catch(func() { b = f.Bytes() })
				w.mu.Lock()
				e = M{"e": "recv", "id": w.find("recv", w.fed, b)}
				w.mu.Unlock()
			} else {
				e["err"] = w.errLabel(w.st.GetCloseErr())
			}
			w.mu.Lock()
			w.consBusy[c] = false
			w.ev = append(w.ev, e)
			w.mu.Unlock()
		}
	case "send":
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.prodBusy || w.inClosed {
			return nil
		}
		w.prodBusy = true
		return func() {
			k := 1
			if w.sc.Feat.Burst {
				k += w.intn(4)
			}
			for aborted := false; k > 0 && !aborted; k-- {
				w.mu.Lock()
				n := len(w.sent) + 1
				w.mu.Unlock()
				x := w.frame(n, 22)
				f := AsFrame(append([]byte{}, x...))
				object := w.intn(2) == 0
				in := (chan<- mav.Frame)(w.in)
				if !object {
					in = w.st.Write()
				}
				again := w.sc.Feat.Dup && n > 1 && w.intn(2) == 0
				w.mu.Lock()
				if again {
					x = w.sent[n-2]
					f = AsFrame(append([]byte{}, x...))
					if object {
						f = w.same
					}
				}
				w.same = f
				w.sent = append(w.sent, x)
				w.ev = append(w.ev, M{"e": "send", "id": n})
				w.mu.Unlock()
				w.pause()
				e := M{"e": "acc", "id": n}
				select {
				case in <- f:
				case <-w.abort:
					e["e"], aborted = "abort", true
				}
				w.mu.Lock()
				if k == 1 || aborted {
					w.prodBusy = false
				}
				w.ev = append(w.ev, e)
				w.mu.Unlock()
			}
		}
	case "wrOk", "wrErr":
		var err error
		if o == "wrErr" {
			err = w.failure(errWrite)
		}
		w.rwc.mu.Lock()
		defer w.rwc.mu.Unlock()
		if !w.rwc.writing || w.rwc.gate == nil {
			return nil
		}
		return func() { w.rwc.release(err) }
	case "logR", "logW":
		w.log.mu.Lock()
		defer w.log.mu.Unlock()
		if w.log.gates[o] == nil {
			return nil
		}
		return func() { w.log.release(o) }
	}
	Must(errors.New("unknown operation " + o))
	return nil
}

func (w *world) rest() {
	out := false
	e := M{"e": "rest"}
	closed := func(c <-chan struct{}) bool {
		select {
		case <-c:
			return true
		default:
			return false
		}
	}
	e["sig"] = closed(w.st.Closed())
	if e["sig"].(bool) {
		// receiving does not disturb: a closed stream delivers nothing
		select {
		case _, ok := <-w.st.Read():
			out = !ok
		default:
		}
	}
	e["out"] = out
	e["err"] = w.errLabel(w.st.GetCloseErr())
	w.emit(e)
}

// settle lets everything come to rest.
func settle(ws []*world) {
	synctest.Wait()
	time.Sleep(20 * time.Millisecond)
	synctest.Wait()
	for _, w := range ws {
		if w.st != nil {
			w.rest()
		}
	}
}

func (w *world) Run() { runAll([]*world{w}, nil) }

// runAll runs streams side by side, in step.
func runAll(ws []*world, dialects mav.Dialects) {
	vsync.Hook = nil
	for _, w := range ws {
		if w.sc.At == 0 {
			w.open(dialects)
		}
	}
	vsync.Hook = ws[0].pause
	settle(ws)
	n, long := 0, false
	for _, w := range ws {
		n = max(n, w.sc.At+len(w.sc.Ops))
		long = long || w.sc.Long
	}
	for k := 0; k < n; k++ {
		if long && k%2 == 1 {
			time.Sleep(10 * time.Minute)
			settle(ws)
		}
		for _, w := range ws {
			if w.st == nil && k+1 == w.sc.At {
				go func() {
					w.pause()
					w.open(dialects)
				}()
			} else if i := k - w.sc.At; i >= 0 && i < len(w.sc.Ops) {
				w.launch(w.sc.Ops[i])
			}
		}
		settle(ws)
	}
	if long {
		time.Sleep(10 * time.Minute)
		settle(ws)
	}
	// Wind everything down.
	for _, w := range ws {
		w.mu.Lock()
		w.finished = true
		w.mu.Unlock()
		if f := w.op("close"); f != nil {
			go f()
		}
	}
	synctest.Wait()
	for _, w := range ws {
		w.log.release("logR")
		w.log.release("logW")
	}
	settle(ws)
	for _, w := range ws {
		close(w.abort)
		if !w.stopped["R"] {
			w.stopR()
		}
	}
	synctest.Wait()
	vsync.Hook = nil
	for _, w := range ws {
		w.mu.Lock()
		w.over = true
		w.mu.Unlock()
	}
}

func (w *world) open(dialects mav.Dialects) {
	w.in = make(chan mav.Frame, w.sc.Cap)
	w.rwc = &transport{w: w, more: make(chan struct{}, 1), closed: make(chan struct{})}
	w.log = &logger{w: w, gates: map[string]chan struct{}{}}
	w.contexts()
	w.running, w.stopped = map[string]bool{}, map[string]bool{}
	w.abort = make(chan struct{})
	var lg mav.FrameLogger
	if w.sc.Logger != "none" {
		lg = w.log
	}
	if dialects == nil {
		dialects = mav.Dialects{common.Dialect{}}
	}
	if lg == nil && w.intn(2) == 0 {
		w.st = mav.NewFrameStream(w.rwc, w.in, dialects, w.sc.Feat.Lenient)
	} else {
		w.st = mav.NewFrameStreamWithLogger(w.rwc, w.in, dialects, w.sc.Feat.Lenient, lg)
	}
	go func() {
		<-w.st.Closed()
		w.emit(M{"e": "sawSig", "err": w.errLabel(w.st.GetCloseErr())})
	}()
}

func (w *world) launch(batch []string) {
	var fs []func()
	for _, o := range batch {
		if f := w.op(o); f != nil {
			fs = append(fs, f)
		}
	}
	if w.intn(2) == 0 {
		for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
			fs[i], fs[j] = fs[j], fs[i]
		}
	}
	for _, f := range fs {
		go func() {
			w.pause()
			f()
		}()
	}
}

// company is a number of streams in one process.
type company []*world

func (c company) Run() { runAll(c, mav.Dialects{common.Dialect{}}) }
func (c company) Record(how string) any {
	rs := []any{}
	for _, w := range c {
		rs = append(rs, w.Record(how))
	}
	return M{"many": rs, "how": how}
}

func (w *world) Record(how string) any {
	w.mu.Lock()
	defer w.mu.Unlock()
	evs := append([]M{}, w.ev...)
	if how == "hang" || how == "leak" && !w.over {
		evs = append(evs, ev("stuck"))
	}
	return M{"cfg": M{"logger": w.sc.Logger, "buffered": w.sc.Cap > 0}, "ev": evs, "sc": w.sc, "how": how}
}

func newWorld(sc scenario) *world {
	return &world{sc: sc, rng: rand.New(rand.NewSource(*sim.Seed*1_000_003 + sc.Seed))}
}

func job(i int) sim.Job {
	if i >= len(scenarios) {
		return nil
	}
	return newWorld(scenarios[i])
}

// groups of scenarios that run at the same time
var groups [][]scenario

func groupJob(i int) sim.Job {
	if i >= len(groups) {
		return nil
	}
	c := company{}
	for _, sc := range groups[i] {
		c = append(c, newWorld(sc))
	}
	return c
}

func TestDrive(t *testing.T) {
	sim.Quiet()
	Load(*sim.Defs, common.Dialect{})
	heartbeat = ByName["common"].ByID[0]
	b, err := os.ReadFile(*sim.Scn)
	Must(err)
	Must(json.Unmarshal(b, &scenarios))
	sim.RunAll(t, job)
}

// TestMany drives streams side by side.
func TestMany(t *testing.T) {
	sim.Quiet()
	Load(*sim.Defs, common.Dialect{})
	heartbeat = ByName["common"].ByID[0]
	b, err := os.ReadFile(*sim.Scn)
	Must(err)
	Must(json.Unmarshal(b, &groups))
	sim.RunAll(t, groupJob)
}
