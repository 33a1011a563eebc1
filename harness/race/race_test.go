// Runs streams in real time under the race detector, with an environment that
// shares nothing between its goroutines but what the stream itself hands over,
// so that it orders no accesses of the stream to its own state.
package race

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"testing"
	"time"

	mav "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/common"

	. "verifharness/h"
)

var (
	seed = flag.Int64("seed", 1, "seed")
	n    = flag.Int("n", 100, "runs")
	defs = flag.String("defs", "", "definitions")
)

var errT = errors.New("transport failed")

type transport struct {
	in     chan []byte
	eof    chan struct{} // closed at the end of the input
	closed chan struct{}
	once   sync.Once
	left   int // writes until one fails; only the write loop looks at it
	cur    []byte
}

func (t *transport) Read(p []byte) (int, error) {
	if len(t.cur) == 0 {
		select {
		case t.cur = <-t.in:
		case <-t.eof:
			return 0, io.EOF
		case <-t.closed:
			return 0, errT
		}
	}
	k := copy(p, t.cur)
	t.cur = t.cur[k:]
	return k, nil
}

func (t *transport) Write(p []byte) (int, error) {
	select {
	case <-t.closed:
		return 0, errT
	default:
	}
	if t.left--; t.left == 0 {
		return 0, errT
	}
	return len(p), nil
}

func (t *transport) Close() error {
	t.once.Do(func() { close(t.closed) })
	return nil
}

type logger struct{ r, w int }

func (l *logger) LogRead(b []byte) error    { l.r += len(b); return nil }
func (l *logger) LogWritten(b []byte) error { l.w += len(b); return errT }

func spin(k int) {
	for i := 0; i < k; i++ {
		runtime.Gosched()
	}
}

func frames(r *rand.Rand, k int) [][]byte {
	var out [][]byte
	d := ByName["common"].ByID[0]
	for i := 0; i < k; i++ {
		out = append(out, FrameSpec{Ver: 1 + r.Intn(2), Seq: byte(i), Sys: 1, Comp: 2, ID: 0, CRCExtra: d.CRC, Payload: RandBytes(r, 9)}.Build())
	}
	return out
}

func run(r *rand.Rand) {
	t := &transport{in: make(chan []byte), eof: make(chan struct{}), closed: make(chan struct{}), left: 1 << 30}
	if r.Intn(4) == 0 {
		t.left = 1 + r.Intn(6)
	}
	in := make(chan mav.Frame, r.Intn(3))
	var lg mav.FrameLogger
	if r.Intn(2) == 0 {
		lg = &logger{}
	}
	st := mav.NewFrameStreamWithLogger(t, in, mav.Dialects{common.Dialect{}}, r.Intn(2) == 0, lg)
	ctxR, stopR := context.WithCancel(context.Background())
	ctxW, stopW := context.WithCancel(context.Background())
	defer stopR()
	defer stopW()
	var wg, loops sync.WaitGroup
	over := make(chan struct{})
	spawn := func(wg *sync.WaitGroup, f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	spawn(&loops, func() { st.ReadContext(ctxR) })
	spawn(&loops, func() { st.WriteContext(ctxW) })
	fs := frames(r, 1+r.Intn(12))
	spawn(&wg, func() { // the peer
		for _, f := range fs {
			select {
			case t.in <- append([]byte{7}, f...):
			case <-t.closed:
				return
			}
		}
	})
	nap := r.Intn(200)
	keep := r.Intn(3) > 0
	spawn(&wg, func() { // consumer
		k := 0
		for f := range st.Read() {
			for _, x := range f.Bytes() {
				k += int(x)
			}
			if !keep {
				spin(nap)
			}
		}
		if st.GetCloseErr() == nil {
			fmt.Fprintln(os.Stderr, "NOERR")
		}
	})
	producers := r.Intn(3)
	for p := 0; p < producers; p++ {
		ws := frames(r, 1+r.Intn(6))
		spawn(&wg, func() {
			for _, f := range ws {
				select {
				case st.Write() <- AsFrame(f):
				case <-over:
					return
				}
			}
		})
	}
	for p := 0; p < 2; p++ { // onlookers
		spawn(&wg, func() {
			for {
				if err := st.GetCloseErr(); err != nil {
					_ = err.Error()
					<-st.Closed()
					return
				}
				select {
				case <-st.Closed():
					return
				default:
					runtime.Gosched()
				}
			}
		})
	}
	causes := []func(){st.Close, st.Close, stopR, stopW, func() { close(t.eof) }}
	if producers == 0 {
		causes = append(causes, func() { close(in) })
	}
	r.Shuffle(len(causes), func(i, j int) { causes[i], causes[j] = causes[j], causes[i] })
	for _, c := range causes[:1+r.Intn(3)] {
		k := r.Intn(400)
		spawn(&wg, func() { spin(k); c() })
	}
	done := make(chan struct{})
	go func() {
		// whatever happened: a last close, so that everybody comes back
		select {
		case <-st.Closed():
		case <-time.After(200 * time.Millisecond):
		}
		st.Close()
		loops.Wait()
		close(over)
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fmt.Fprintln(os.Stderr, "HANG")
		os.Exit(42)
	}
}

func TestDrive(t *testing.T) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	Must(err)
	os.Stdout = null
	Load(*defs, common.Dialect{})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewSource(*seed*4 + int64(g)))
			for i := 0; i < *n/4; i++ {
				run(r)
			}
		}()
	}
	wg.Wait()
	fmt.Fprintln(os.Stderr, "COMPLETE")
}

// alone runs a stream whose own goroutines look at the same state never, or
// one after the other: only its read loop or only its write loop runs, and
// whatever else happens to it happens when that has come back. So a race here
// is one between streams.
func alone(r *rand.Rand, dialects mav.Dialects) {
	t := &transport{in: make(chan []byte), eof: make(chan struct{}), closed: make(chan struct{}), left: 1 << 30}
	in := make(chan mav.Frame)
	var lg mav.FrameLogger
	if r.Intn(2) == 0 {
		lg = &logger{}
	}
	st := mav.NewFrameStreamWithLogger(t, in, dialects, r.Intn(2) == 0, lg)
	fs := frames(r, 1+r.Intn(8))
	over := make(chan struct{})
	got := make(chan struct{})
	if r.Intn(3) > 0 {
		go func() { // the peer
			for k, f := range fs {
				x := append([]byte{7}, f...)
				if k%2 == 1 {
					x[len(x)-1] ^= 0x55
				}
				select {
				case t.in <- x[:len(x)/2]:
				case <-over:
					return
				}
				select {
				case t.in <- x[len(x)/2:]:
				case <-over:
					return
				}
			}
			close(t.eof)
		}()
		var out []mav.Frame
		go func() { // consumer, who looks at the frames at the end
			for f := range st.Read() {
				out = append(out, f)
			}
			close(got)
		}()
		st.ReadContext(context.Background())
		<-got
		k := 0
		for _, f := range out {
			for _, x := range f.Bytes() {
				k += int(x)
			}
		}
	} else {
		t.left = 1 + r.Intn(10)
		go func() { // producer
			for _, f := range fs {
				select {
				case in <- AsFrame(f):
				case <-over:
					return
				}
			}
			close(in)
		}()
		st.WriteContext(context.Background())
	}
	close(over)
	st.Close()
	<-st.Closed()
	if st.GetCloseErr() == nil {
		fmt.Fprintln(os.Stderr, "NOERR")
	}
}

func TestMany(t *testing.T) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	Must(err)
	os.Stdout = null
	Load(*defs, common.Dialect{})
	dialects := mav.Dialects{common.Dialect{}}
	done := make(chan struct{})
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(*seed*8 + int64(g)))
				for i := 0; i < *n/8; i++ {
					alone(r, dialects)
				}
			}()
		}
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(300 * time.Second):
		fmt.Fprintln(os.Stderr, "HANG")
		os.Exit(42)
	}
	fmt.Fprintln(os.Stderr, "COMPLETE")
}
