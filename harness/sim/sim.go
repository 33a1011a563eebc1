// Package sim runs scenarios in bubbles of fake time (testing/synctest) with
// a watchdog in real time, and writes one record per scenario.
package sim

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/h"
)

var (
	Prop = flag.String("prop", "", "property")
	Seed = flag.Int64("seed", 1, "seed")
	N    = flag.Int("n", 1, "size")
	Out  = flag.String("out", "", "trace file (appended to)")
	Defs = flag.String("defs", "", "definitions")
	Scn  = flag.String("scn", "", "scenarios generated from the specification")
	From = flag.Int("from", 0, "first scenario to run")
	Only = flag.Int("only", -1, "run this scenario only")
	Wall = flag.Duration("wall", 10*time.Second, "real time allowed per scenario")
)

// Quiet discards what the library prints.
func Quiet() {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	h.Must(err)
	os.Stdout = f
}

// Job is a scenario; Record is called when it is over, or when it hangs
// (then with how = "hang", while the scenario is stuck).
type Job interface {
	Run()
	Record(how string) any
}

var mu sync.Mutex

// RunAll runs the jobs, each in a bubble of its own.
func RunAll(t *testing.T, jobs func(i int) Job) {
	f, err := os.OpenFile(*Out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	h.Must(err)
	put := func(i int, v any) {
		b, err := json.Marshal(map[string]any{"i": i, "rec": v})
		h.Must(err)
		_, err = f.Write(append(b, '\n'))
		h.Must(err)
	}
	for i := *From; ; i++ {
		if *Only >= 0 {
			i = *Only
		}
		j := jobs(i)
		if j == nil {
			break
		}
		done := make(chan struct{})
		var once sync.Once
		go func() {
			select {
			case <-done:
			case <-time.After(*Wall):
				once.Do(func() {
					mu.Lock()
					defer mu.Unlock()
					put(i, j.Record("hang"))
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fmt.Fprintf(os.Stderr, "HANG scenario %d\n%s\n", i, buf[:n])
					os.Exit(42)
				})
			}
		}()
		leaked := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					leaked = true
					fmt.Fprintf(os.Stderr, "LEAK scenario %d: %v\n", i, r)
				}
			}()
			synctest.Test(t, func(t *testing.T) { j.Run() })
		}()
		once.Do(func() {
			how := ""
			if leaked {
				how = "leak"
			}
			put(i, j.Record(how))
		})
		close(done)
		if leaked {
			os.Exit(43)
		}
		if *Only >= 0 {
			break
		}
	}
	fmt.Fprintln(os.Stderr, "COMPLETE")
}

// --- a transport that hands out given pieces ---------------------------------

type Piece struct {
	Data []byte
	Err  error // returned with the last byte, or alone if there is no data
}

// Feed is a transport: reads return the pieces sent to it, writes vanish.
type Feed struct {
	C      chan Piece
	closed chan struct{}
	once   sync.Once
	cur    *Piece
	Junk   byte
}

func NewFeed() *Feed {
	return &Feed{C: make(chan Piece), closed: make(chan struct{})}
}

var ErrClosed = errors.New("feed closed")

func (f *Feed) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if f.cur == nil {
		select {
		case x := <-f.C:
			f.cur = &x
		case <-f.closed:
			return 0, ErrClosed
		}
	}
	// the io.Reader contract lets a reader scribble over all of p
	f.Junk += 7
	for i := range p {
		p[i] = f.Junk
	}
	n := copy(p, f.cur.Data)
	f.cur.Data = f.cur.Data[n:]
	var err error
	if len(f.cur.Data) == 0 {
		err = f.cur.Err
		f.cur = nil
	}
	return n, err
}

func (f *Feed) Write(p []byte) (int, error) { return len(p), nil }

func (f *Feed) Close() error {
	f.once.Do(func() { close(f.closed) })
	return nil
}

var _ io.ReadWriteCloser = (*Feed)(nil)

// Closed is closed when the stream closed the transport.
func (f *Feed) Closed() <-chan struct{} { return f.closed }
