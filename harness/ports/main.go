// Command ports runs scenarios generated from spec/Ports.tla against real UDP
// endpoints on the loopback interface, and records what happens.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/botlink/go-mavlink2/util"

	"verifharness/h"
)

type M = map[string]any

var addrs = map[string]string{"lo1": "127.0.0.1", "lo2": "127.0.0.2", "lo6": "[::1]", "any": "0.0.0.0", "empty": "", "remote": "192.0.2.1", "broken": "127.0.0.1:1"}

// whether this host has an IPv6 loopback interface
var six = func() bool {
	c, err := net.ListenPacket("udp6", "[::1]:0")
	if err != nil {
		return false
	}
	c.Close()
	return true
}()

// without reports whether the operations need what is not there.
func without(ops [][]string) bool {
	for _, op := range ops {
		for _, x := range op {
			if x == "lo6" || x == "s6" {
				return !six
			}
		}
	}
	return false
}

type endpoint struct {
	e       *util.UDPReadWriteCloser
	addr    string
	port    string
	closed  bool
	reading chan struct{} // closed when the pending read has returned
}

type world struct {
	mu      sync.Mutex
	ev      []M
	changed chan struct{}
	ports   map[string]int
	names   map[string]string // real address or port to name
	senders map[string]net.PacketConn
	foreign net.PacketConn
	eps     map[string]*endpoint
	written map[string]int // payload to number
	sent    map[string]int
	lastID  int
	rng     *rand.Rand
	bad     bool
}

func (w *world) log(e M) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev = append(w.ev, e)
	select {
	case w.changed <- struct{}{}:
	default:
	}
}

func (w *world) count() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.ev)
}

// expect waits until n events have been recorded, but not forever.
func (w *world) expect(n int) {
	t := time.NewTimer(1500 * time.Millisecond)
	defer t.Stop()
	for w.count() < n {
		select {
		case <-w.changed:
		case <-t.C:
			return
		}
	}
}

func payload(kind string, id int) string {
	s := fmt.Sprintf("%s %d ", kind, id)
	for i := 0; i < id*37%300; i++ {
		s += string(rune('a' + i%26))
	}
	return s
}

func num(s string) int {
	n, err := strconv.Atoi(s)
	h.Must(err)
	return n
}

// guarded runs f, and records if it panics or hangs.
func (w *world) guarded(f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				w.bad = true
				w.log(M{"e": "panic", "report": fmt.Sprint(r)})
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		w.log(M{"e": "stuck"})
		w.bad = true
	}
}

func errName(err error) string {
	switch err {
	case nil:
		return ""
	case util.ErrNoAddress:
		return "noaddr"
	}
	return "err"
}

func (w *world) listen() {
	w.senders = map[string]net.PacketConn{}
	for _, n := range []string{"s1", "s2", "s6"} {
		n := n
		c, err := net.ListenPacket("udp4", "127.0.0.1:0")
		if n == "s6" {
			if !six {
				continue
			}
			c, err = net.ListenPacket("udp6", "[::1]:0")
		}
		h.Must(err)
		w.senders[n] = c
		go func() {
			b := make([]byte, 2000)
			for {
				k, from, err := c.ReadFrom(b)
				if err != nil {
					return
				}
				host, port, _ := net.SplitHostPort(from.String())
				w.mu.Lock()
				id := w.written[string(b[:k])]
				w.mu.Unlock()
				w.log(M{"e": "out", "id": id, "s": n, "a": w.name(host), "p": w.name(port)})
			}
		}()
	}
}

func (w *world) name(x string) string {
	if n, ok := w.names[x]; ok {
		return n
	}
	return x
}

func (w *world) read(k string, ep *endpoint) {
	w.log(M{"e": "rd", "k": num(k)})
	done := make(chan struct{})
	ep.reading = done
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				w.log(M{"e": "panic", "report": fmt.Sprint(r)})
			}
		}()
		b := make([]byte, 2000)
		n, err := ep.e.Read(b)
		id := 0
		if n >= 0 && n <= len(b) {
			w.mu.Lock()
			id = w.sent[string(b[:n])]
			w.mu.Unlock()
		}
		w.log(M{"e": "rdRet", "k": num(k), "id": id, "err": errName(err)})
	}()
}

func (w *world) pending(ep *endpoint) bool {
	if ep.reading == nil {
		return false
	}
	select {
	case <-ep.reading:
		return false
	default:
		return true
	}
}

func (w *world) send(id int, s, addr, port string) {
	p := payload("to", id)
	w.mu.Lock()
	w.sent[p] = id
	w.mu.Unlock()
	w.log(M{"e": "dg", "id": id, "s": s, "a": addr, "p": port})
	w.senders[s].WriteTo([]byte(p), &net.UDPAddr{IP: net.ParseIP(strings.Trim(addrs[addr], "[]")), Port: w.ports[port]})
}

func (w *world) write(k string, ep *endpoint, id int) {
	p := payload("from", id)
	w.mu.Lock()
	w.written[p] = id
	w.mu.Unlock()
	w.log(M{"e": "wr", "k": num(k), "id": id})
	n, err := ep.e.Write([]byte(p))
	w.log(M{"e": "wrRet", "k": num(k), "id": id, "err": errName(err), "full": n == len(p)})
}

func (w *world) close(k string, ep *endpoint) {
	w.log(M{"e": "close", "k": num(k)})
	err := ep.e.Close()
	w.log(M{"e": "closeRet", "k": num(k), "err": errName(err), "again": ep.closed})
	ep.closed = true
}

// do performs one operation; the scenario says how many events it makes.
func (w *world) do(op []string) {
	before := w.count()
	ep := w.eps[op[1]]
	switch op[0] {
	case "rd", "wr", "close":
		if ep == nil {
			return // creating it has failed
		}
	}
	switch op[0] {
	case "open":
		port, ok := w.ports[op[3]]
		if !ok {
			h.Must(fmt.Errorf("port %s", op[3]))
		}
		e, err := util.NewUDPReadWriteCloser(addrs[op[2]], port)
		w.log(M{"e": "open", "k": num(op[1]), "a": op[2], "p": op[3], "ok": err == nil, "made": e != nil})
		if e != nil {
			w.eps[op[1]] = &endpoint{e: e, addr: op[2], port: op[3]}
		}
	case "hold":
		c, err := net.ListenPacket("udp", fmt.Sprintf("%s:%d", addrs[op[1]], w.ports[op[2]]))
		w.log(M{"e": "hold", "a": op[1], "p": op[2], "ok": err == nil})
		if err == nil {
			w.foreign = c
		}
	case "release":
		if w.foreign != nil {
			w.foreign.Close()
			w.foreign = nil
			w.log(M{"e": "release", "a": op[1], "p": op[2]})
		}
	case "dg":
		w.lastID = num(op[1])
		w.send(w.lastID, op[2], op[3], op[4])
	case "rd":
		if !w.pending(ep) {
			w.read(op[1], ep)
		}
	case "wr":
		w.lastID = num(op[2])
		w.write(op[1], ep, w.lastID)
	case "close":
		w.close(op[1], ep)
	}
	w.expect(before + num(op[len(op)-1]))
}

// probe finds out what is left in every endpoint that exists, and where it writes to.
func (w *world) probe() {
	for k, ep := range w.eps {
		if ep.closed {
			continue
		}
		to := ep.addr
		if to == "any" || to == "empty" {
			to = "lo1"
		}
		if addrs[to] == "" || w.ports[ep.port] < 1 || w.ports[ep.port] > 65535 {
			continue
		}
		w.lastID++
		mark := w.lastID
		from := "s2"
		if to == "lo6" {
			from = "s6"
		}
		w.send(mark, from, to, ep.port)
		for i := 0; i < 40; i++ {
			if !w.pending(ep) {
				if w.seen(num(k), mark) {
					break
				}
				w.read(k, ep)
			}
			select {
			case <-ep.reading:
			case <-time.After(1500 * time.Millisecond):
			}
			if w.pending(ep) || w.seen(num(k), mark) {
				break
			}
		}
		w.lastID++
		n := w.count()
		w.write(k, ep, w.lastID)
		w.expect(n + 3)
	}
}

func (w *world) seen(k, id int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range w.ev {
		if e["e"] == "rdRet" && e["k"] == k && (e["id"] == id || e["err"] != "") {
			return true
		}
	}
	return false
}

func run(ops [][]string, seed int64) []M {
	w := &world{changed: make(chan struct{}, 1), eps: map[string]*endpoint{}, written: map[string]int{}, sent: map[string]int{},
		names: map[string]string{"127.0.0.1": "lo1", "127.0.0.2": "lo2", "::1": "lo6"}, rng: rand.New(rand.NewSource(seed))}
	w.listen()
	// two ports that nobody uses
	w.ports = map[string]int{"neg": -1 - w.rng.Intn(70000), "big": 65536 + w.rng.Intn(1<<20)}
	for _, n := range []string{"p1", "p2"} {
		for {
			p := 10000 + w.rng.Intn(20000)
			c, err := net.ListenPacket("udp", fmt.Sprintf(":%d", p))
			if err != nil {
				continue
			}
			c.Close()
			if p != w.ports["p1"] {
				w.ports[n] = p
				w.names[strconv.Itoa(p)] = n
				break
			}
		}
	}
	w.ports["wrap"] = 65536 + w.ports["p1"]
	for _, op := range ops {
		w.guarded(func() { w.do(op) })
		if w.bad {
			break
		}
		w.log(M{"e": "rest"})
	}
	if !w.bad {
		w.guarded(w.probe)
		w.log(M{"e": "rest"})
	}
	if !w.bad {
		for k, ep := range w.eps {
			if !ep.closed {
				w.guarded(func() { w.close(k, ep) })
				if ep.reading != nil {
					select {
					case <-ep.reading:
					case <-time.After(1500 * time.Millisecond):
					}
				}
			}
		}
		w.log(M{"e": "rest"})
	} else {
		for _, ep := range w.eps {
			go ep.e.Close()
		}
	}
	if w.foreign != nil {
		w.foreign.Close()
	}
	for _, c := range w.senders {
		c.Close()
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]M{}, w.ev...)
}

func main() {
	scn := flag.String("scn", "", "scenarios")
	out := flag.String("out", "", "trace file")
	seed := flag.Int64("seed", 1, "seed")
	flag.Parse()
	b, err := os.ReadFile(*scn)
	h.Must(err)
	var scs []struct {
		Ops [][]string `json:"ops"`
	}
	h.Must(json.Unmarshal(b, &scs))
	f, err := os.Create(*out)
	h.Must(err)
	slow := 0
	for i, sc := range scs {
		if without(sc.Ops) {
			continue
		}
		t := time.Now()
		ev := run(sc.Ops, *seed*100003+int64(i))
		b, err := json.Marshal(M{"i": i, "ev": ev})
		h.Must(err)
		_, err = f.Write(append(b, '\n'))
		h.Must(err)
		// something does not arrive at all: that is enough to judge
		if time.Since(t) > time.Second {
			if slow++; slow >= 8 {
				break
			}
		}
	}
	h.Must(f.Close())
}
