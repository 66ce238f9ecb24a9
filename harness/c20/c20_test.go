// Package c20: networking peer management is consistent and robust.
package c20

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/networking"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Exit(m.Run())
}

// host is a place to run a node at.
type host struct {
	name, addr string
	port       int
}

func (h host) config() networking.Config {
	cfg := networking.DefaultConfig(h.name, h.port)
	cfg.BindAddress = h.addr
	cfg.RetryDelay = time.Millisecond
	return cfg
}

func (h host) free() error {
	for _, p := range []int{h.port, h.port + 1000} {
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", h.addr, p))
		if err != nil {
			return err
		}
		l.Close()
	}
	return nil
}

// stop stops a node, which must not take long.
func stop(c *vlib.C, t *networking.Transport) {
	c.Within("Stop", t.Stop)
}

// handled counts the messages a node handled, by sender and height.
type handled struct {
	mu     sync.Mutex
	got    map[string]int
	others int // messages of type "other"
}

func (h *handled) on(t *networking.Transport) {
	t.RegisterHandler("m", func(m *networking.Message) {
		h.mu.Lock()
		if h.got == nil {
			h.got = map[string]int{}
		}
		h.got[fmt.Sprint(m.From, " ", m.Height)]++
		h.mu.Unlock()
	})
	t.RegisterHandler("other", func(*networking.Message) {
		h.mu.Lock()
		h.others++
		h.mu.Unlock()
	})
}

func (h *handled) count(from string, n int) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.got[fmt.Sprint(from, " ", n)]
}

func received(t *networking.Transport) int {
	_, r, _ := t.GetMetrics()
	return int(r)
}

// counted is how many messages the node received, except those of type
// "other", some of which may still arrive.
func (w *world) counted() int {
	n := 0
	vlib.Eventually(vlib.Long, func() bool {
		r := received(w.a)
		w.got.mu.Lock()
		n = r - w.got.others
		w.got.mu.Unlock()
		w.got.mu.Lock()
		defer w.got.mu.Unlock()
		sum := 0
		for _, k := range w.got.got {
			sum += k
		}
		return n <= sum // none is between being counted and its handler
	})
	return n
}

type world struct {
	c    *vlib.C
	a    *networking.Transport
	got  *handled
	n    int
	node []*target
}

// target is a node that the one in question connects to.
type target struct {
	host
	t      *networking.Transport
	got    *handled
	listed bool // by the node in question
	fresh  bool // connected since it was last started
}

func (w *world) start(x *target) {
	x.t, x.got = networking.New(context.Background(), x.config()), &handled{}
	x.got.on(x.t)
	if err := x.t.Start(); err != nil {
		w.c.Violation("Start: %v", err)
	}
	tr := x.t
	w.c.Cleanup(func() { go tr.Stop() })
}

// warm waits until broadcasts of x arrive, and those on their way have.
func (w *world) warm(x *target) {
	first := w.n + 1
	w.c.Must("broadcasts of a connected peer arrive", func() bool {
		w.n++
		if err := x.t.Broadcast(&networking.Message{Type: "m", Height: uint64(w.n)}); err != nil {
			w.c.Violation("Broadcast: %v", err)
		}
		for i := first; i <= w.n; i++ {
			if w.got.count(x.name, i) > 0 {
				return true
			}
		}
		return false
	})
	// from the first that arrived on, all do
	last := w.n
	w.c.Must("broadcasts of a connected peer arrive", func() bool { return w.got.count(x.name, last) > 0 })
}

// broadcast sees that x's broadcasts reach the node once, or not at all.
func (w *world) broadcast(x *target) {
	c := w.c
	before := w.counted()
	k := rapid.IntRange(1, 5).Draw(c.T, "broadcasts")
	from := w.n
	for i := 0; i < k; i++ {
		w.n++
		if err := x.t.Broadcast(&networking.Message{Type: "m", Height: uint64(w.n)}); err != nil {
			c.Violation("Broadcast: %v", err)
		}
	}
	want := 0
	if x.listed && x.fresh {
		want = k
	}
	if !vlib.Eventually(vlib.Long, func() bool { return w.counted()-before >= want }) {
		c.Violation("%d of %d broadcasts of %s arrive", w.counted()-before, want, x.name)
	}
	if want == 0 && rapid.IntRange(0, 4).Draw(c.T, "wait") == 0 {
		time.Sleep(3 * time.Millisecond)
	}
	if got := w.counted() - before; got != want {
		c.Violation("%d messages are received after %d broadcasts of %s, want %d", got, k, x.name, want)
	}
	for i := from + 1; i <= w.n; i++ {
		one := 0
		if want > 0 {
			one = 1
		}
		c.Must("the handler is called", func() bool { return w.got.count(x.name, i) >= one })
		if n := w.got.count(x.name, i); n != one {
			c.Violation("a broadcast of %s was handled %d times", x.name, n)
		}
	}
}

// send sees that a message for x arrives once.
func (w *world) send(x *target) {
	c := w.c
	w.n++
	s0, _, _ := w.a.GetMetrics()
	var err error
	c.Within("Send", func() {
		if rapid.Bool().Draw(c.T, "retry") {
			err = w.a.SendWithRetry(x.name, &networking.Message{Type: "m", Height: uint64(w.n)})
		} else {
			err = w.a.Send(x.name, &networking.Message{Type: "m", Height: uint64(w.n)})
		}
	})
	s1, _, _ := w.a.GetMetrics()
	if !x.listed {
		if err == nil {
			c.Violation("sending to %s, which is not connected, succeeds", x.name)
		}
		if s1 != s0 {
			c.Violation("a message that could not be sent counts as sent")
		}
		return
	}
	if err != nil {
		c.Violation("Send: %v", err)
	}
	if s1 != s0+1 {
		c.Violation("one message counts as %d sent", s1-s0)
	}
	c.Must("a direct message arrives", func() bool { return x.got.count("a", w.n) > 0 })
	if n := x.got.count("a", w.n); n != 1 {
		c.Violation("a direct message was handled %d times", n)
	}
}

// TestPeers connects and disconnects.
func TestPeers(t *testing.T) {
	vlib.Run(t, 900, 18000, "a node and 1-4 others go through 4-30 steps of: connecting to another (again, under another address, by several goroutines at once), disconnecting it (unknown ones, twice, by several goroutines, or while it broadcasts), sending to listed and unlisted peers, broadcasts of others, others stopping and starting again; after each step the list must be exactly the model's, in order of connection, sends to the listed arrive once and others fail, broadcasts of connected peers are handled once and of others not at all; in some, peers are at last connected and disconnected 16 times, which must not leave goroutines or descriptors behind; at the end Stop must leave no goroutine, descriptor or port; non-trivial: a peer is disconnected and connected again", func(c *vlib.C) {
		fds := vlib.Descriptors()
		w := &world{c: c, got: &handled{}}
		ah := host{"a", vlib.Loopback(), 6000}
		w.a = networking.New(context.Background(), ah.config())
		w.got.on(w.a)
		if rapid.IntRange(0, 4).Draw(c.T, "started") > 0 {
			if err := w.a.Start(); err != nil {
				c.Violation("Start: %v", err)
			}
		}
		c.Cleanup(func() { go w.a.Stop() })
		addr := vlib.Loopback()
		for i := c.Count(1, 4, 10, "others"); i > 0; i-- {
			x := &target{host: host{rapid.SampledFrom([]string{"b", "peer", "", "a-"}).Draw(c.T, "name") + fmt.Sprint(i), addr, 7000 + i}}
			w.start(x)
			w.node = append(w.node, x)
		}
		var order []string
		listing := func() {
			got := w.a.GetPeers()
			if strings.Join(got, "|") != strings.Join(order, "|") {
				c.Violation("the peers are %q, want %q", got, order)
			}
			for i := range got {
				got[i] = "changed"
			}
		}
		remove := func(name string) {
			for i, n := range order {
				if n == name {
					order = append(order[:i:i], order[i+1:]...)
				}
			}
		}
		again := map[string]bool{}
		for k := rapid.IntRange(4, 30).Draw(c.T, "steps"); k > 0; k-- {
			x := rapid.SampledFrom(w.node).Draw(c.T, "peer")
			switch op := rapid.IntRange(0, 11).Draw(c.T, "step"); {
			case op < 4:
				addr, port := x.addr, x.port
				if x.listed {
					if rapid.Bool().Draw(c.T, "elsewhere") {
						y := rapid.SampledFrom(w.node).Draw(c.T, "other")
						addr, port = y.addr, y.port
					} else if rapid.Bool().Draw(c.T, "nowhere") {
						addr, port = "nowhere:", -1
					}
				}
				many := 1
				if rapid.IntRange(0, 3).Draw(c.T, "many") == 0 {
					many = rapid.IntRange(2, 4).Draw(c.T, "goroutines")
				}
				c.D("connect %s:%d as %s by %d, listed=%v", addr, port, x.name, many, x.listed)
				errs := make(chan error, many)
				for i := 0; i < many; i++ {
					go func() { errs <- w.a.ConnectPeerWithAddress(x.name, addr, port) }()
				}
				c.Within("ConnectPeer", func() {
					for i := 0; i < many; i++ {
						if err := <-errs; err != nil {
							c.Errorf("VIOLATED: connecting to %s: %v", x.name, err)
						}
					}
				})
				if c.Failed() {
					c.Violation("connecting to %s fails", x.name)
				}
				if !x.listed {
					if again[x.name] {
						c.Nontrivial()
					}
					again[x.name] = true
					x.listed, x.fresh = true, true
					order = append(order, x.name)
					listing()
					w.warm(x)
					w.send(x)
				}
			case op < 6:
				many := 1
				if rapid.IntRange(0, 3).Draw(c.T, "many") == 0 {
					many = rapid.IntRange(2, 4).Draw(c.T, "goroutines")
				}
				busy := rapid.IntRange(0, 3).Draw(c.T, "busy") == 0
				c.D("disconnect %s by %d busy=%v, listed=%v", x.name, many, busy, x.listed)
				end := make(chan struct{})
				ended := make(chan struct{})
				go func() {
					defer close(ended)
					for busy {
						select {
						case <-end:
							return
						default:
							x.t.Broadcast(&networking.Message{Type: "other"})
						}
					}
				}()
				if busy {
					time.Sleep(time.Duration(rapid.IntRange(0, 300).Draw(c.T, "µs")) * time.Microsecond)
				}
				c.Within("DisconnectPeer", func() {
					var wg sync.WaitGroup
					for i := 0; i < many; i++ {
						wg.Add(1)
						go func() { defer wg.Done(); w.a.DisconnectPeer(x.name) }()
					}
					wg.Wait()
				})
				close(end)
				<-ended
				x.listed, x.fresh = false, false
				remove(x.name)
			case op < 7:
				c.D("disconnect unknown")
				w.a.DisconnectPeer(rapid.SampledFrom([]string{"", "unknown", "a", "b"}).Draw(c.T, "unknown"))
			case op < 8:
				c.D("send to %s, listed=%v", x.name, x.listed)
				if x.listed && !x.fresh {
					// it is not there any more
					break
				}
				w.send(x)
			case op < 10:
				c.D("broadcast of %s, listed=%v", x.name, x.listed)
				if x.listed && !x.fresh {
					// connected to again or not
					x.t.Broadcast(&networking.Message{Type: "other"})
					break
				}
				w.broadcast(x)
			case op < 11:
				c.D("restart of %s, listed=%v", x.name, x.listed)
				stop(c, x.t)
				x.fresh = false
				if err := x.free(); err != nil {
					c.Violation("after Stop: %v", err)
				}
				w.start(x)
			default:
				c.D("send to nobody")
				w.send(&target{host: host{name: rapid.SampledFrom([]string{"", "unknown", "a"}).Draw(c.T, "nobody")}})
			}
			listing()
		}
		for _, x := range w.node {
			if x.listed && x.fresh {
				w.send(x)
			}
			if x.fresh || !x.listed {
				w.broadcast(x)
			}
		}
		if rapid.IntRange(0, 7).Draw(c.T, "cycles") == 0 {
			// what was disconnected holds nothing
			for _, x := range w.node {
				w.a.DisconnectPeer(x.name)
				remove(x.name)
			}
			listing()
			most := func() (gs, fds int) {
				for i := 0; i < 6; i++ {
					gs, fds = max(gs, len(vlib.Goroutines())), max(fds, vlib.Descriptors())
					time.Sleep(2 * time.Millisecond)
				}
				return
			}
			g0, f0 := most()
			n := 16
			others := rapid.Bool().Draw(c.T, "under other names")
			for i := 0; i < n; i++ {
				x := w.node[i%len(w.node)]
				name := x.name
				if others {
					name = fmt.Sprintf("%s-%d", name, i)
				}
				if err := w.a.ConnectPeerWithAddress(name, x.addr, x.port); err != nil {
					c.Violation("connecting to %s again: %v", x.name, err)
				}
				if i%2 == 0 {
					w.a.Send(name, &networking.Message{Type: "other"})
				}
				w.a.DisconnectPeer(name)
			}
			listing()
			if !vlib.Eventually(vlib.Long/2, func() bool { return len(vlib.Goroutines()) < g0+n/2 && vlib.Descriptors() < f0+n/2 }) {
				gs := vlib.Goroutines()
				c.Violation("connecting to and disconnecting peers %d times leaves %d goroutines (%d before) and %d descriptors (%d before)\n%s", n, len(gs), g0, vlib.Descriptors(), f0, strings.Join(gs, "\n\n"))
			}
			c.Class("cycles")
		}
		// in any order
		all := []*networking.Transport{w.a}
		for _, x := range w.node {
			all = append(all, x.t)
		}
		for _, t := range rapid.Permutation(all).Draw(c.T, "stop order") {
			stop(c, t)
			stop(c, t)
		}
		for _, h := range w.node {
			if err := h.free(); err != nil {
				c.Violation("after Stop: %v", err)
			}
		}
		if err := ah.free(); err != nil {
			c.Violation("after Stop: %v", err)
		}
		c.NoGoroutines("after Stop")
		if !vlib.Eventually(vlib.Long/2, func() bool { return vlib.Descriptors() <= fds }) {
			c.Violation("%d descriptors were open before, %d are after Stop", fds, vlib.Descriptors())
		}
	})
}

// TestUnreachable connects to what is no node.
func TestUnreachable(t *testing.T) {
	vlib.Run(t, 24, 400, "10-20 nodes at once connect to what cannot be reached: unbound ports, a node with only one of its two ports bound, servers that hang up, write junk, or are sockets of another type, malformed addresses and ports; each must fail and leave no trace in the list and no goroutine, and sending to it must fail; then the peer is started, and connecting and both ways of sending must work; others have one that stays silent, and are stopped, which must end the attempt; non-trivial: always", func(c *vlib.C) {
		c.Nontrivial()
		fds := vlib.Descriptors()
		bad := vlib.NewBroken()
		var wg sync.WaitGroup
		for i := rapid.IntRange(10, 20).Draw(c.T, "nodes"); i > 0; i-- {
			what := rapid.SampledFrom([]string{"dead", "half", "closes", "junk", "wrong type", "wrong router", "address", "silent", "silent router", "stopped"}).Draw(c.T, "what")
			addr := rapid.SampledFrom([]string{"127.0.0.1:1", "[", "::1", "not a host name", "1.2.3.4.5:", "127.0.0.1]"}).Draw(c.T, "address")
			port := rapid.SampledFrom([]int{-1, 70000, 1 << 40, 64999}).Draw(c.T, "port")
			stopAfter := time.Duration(rapid.IntRange(0, 60).Draw(c.T, "stop after")) * time.Millisecond
			junk := rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(c.T, "junk")
			ah, bh := host{"a", vlib.Loopback(), 6000}, host{"b", vlib.Loopback(), 7000}
			c.D("%s %s:%d", what, addr, port)
			c.Class("%s", what)
			wg.Add(1)
			go func() {
				defer wg.Done()
				unreachable(bad, what, addr, port, stopAfter, junk, ah, bh)
			}()
		}
		c.Within("all that", wg.Wait)
		bad.Check(c)
		c.NoGoroutines("after Stop")
		if !vlib.Eventually(vlib.Long/2, func() bool { return vlib.Descriptors() <= fds }) {
			c.Violation("%d descriptors were open before, %d are after Stop", fds, vlib.Descriptors())
		}
	})
}

func unreachable(bad *vlib.Broken, what, addr string, port int, stopAfter time.Duration, junk []byte, ah, bh host) {
	a := networking.New(context.Background(), ah.config())
	got := &handled{}
	got.on(a)
	defer a.Stop()
	if err := a.Start(); err != nil {
		bad.Add("Start: %v", err)
		return
	}
	var closers []func()
	done := func() {
		for i := len(closers) - 1; i >= 0; i-- {
			closers[i]()
		}
		closers = nil
	}
	defer done()
	// serve accepts on one of b's ports
	serve := func(port int, f func(net.Conn)) {
		l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", bh.addr, port))
		if err != nil {
			bad.Add("%v", err)
			return
		}
		var mu sync.Mutex
		var conns []net.Conn
		go func() {
			for {
				conn, err := l.Accept()
				if err != nil {
					return
				}
				mu.Lock()
				conns = append(conns, conn)
				mu.Unlock()
				f(conn)
			}
		}()
		closers = append(closers, func() {
			l.Close()
			mu.Lock()
			for _, c := range conns {
				c.Close()
			}
			mu.Unlock()
		})
	}
	sock := func(s zmq4.Socket, port int) {
		if err := s.Listen(fmt.Sprintf("tcp://%s:%d", bh.addr, port)); err != nil {
			bad.Add("%v", err)
		}
		closers = append(closers, func() { s.Close() })
	}
	toAddr, toPort := bh.addr, bh.port
	silent := false
	switch what {
	case "half":
		sock(zmq4.NewPub(context.Background()), bh.port)
	case "closes":
		serve(bh.port, func(c net.Conn) { c.Close() })
	case "junk":
		serve(bh.port, func(c net.Conn) { go func() { c.Write(junk); c.Close() }() })
	case "wrong type":
		sock(zmq4.NewPull(context.Background()), bh.port)
		sock(zmq4.NewRouter(context.Background()), bh.port+1000)
	case "wrong router":
		sock(zmq4.NewPub(context.Background()), bh.port)
		sock(zmq4.NewPub(context.Background()), bh.port+1000)
	case "address":
		if port == 64999 {
			toAddr = addr
		} else {
			toPort = port
		}
	case "silent":
		serve(bh.port, func(net.Conn) {})
		silent = true
	case "silent router":
		sock(zmq4.NewPub(context.Background()), bh.port)
		serve(bh.port+1000, func(net.Conn) {})
		silent = true
	case "stopped":
		silent = true // nothing is there, but it is stopped while trying
	}
	res := make(chan error, 1)
	go func() { res <- a.ConnectPeerWithAddress("b", toAddr, toPort) }()
	if silent {
		time.Sleep(stopAfter)
		stopped := make(chan struct{})
		go func() { a.Stop(); close(stopped) }()
		select {
		case <-stopped:
		case <-time.After(vlib.Long / 2):
			bad.Add("Stop hangs while connecting to a peer (%s)", what)
			return
		}
	}
	select {
	case err := <-res:
		if err == nil {
			bad.Add("connecting to a peer that is not there succeeds (%s)", what)
			return
		}
	case <-time.After(vlib.Long / 2):
		bad.Add("connecting to a peer that is not there hangs (%s)", what)
		return
	}
	if p := a.GetPeers(); len(p) > 0 {
		bad.Add("after a failed attempt to connect the peers are %q (%s)", p, what)
	}
	if a.Send("b", &networking.Message{Type: "m"}) == nil {
		bad.Add("sending to a peer that could not be connected succeeds (%s)", what)
	}
	a.DisconnectPeer("b")
	if silent {
		if a.ConnectPeerWithAddress("b", toAddr, toPort) == nil {
			bad.Add("connecting succeeds after Stop")
		}
		return
	}
	done()
	b := networking.New(context.Background(), bh.config())
	defer b.Stop()
	bgot := &handled{}
	bgot.on(b)
	if !vlib.Eventually(vlib.Long/4, func() bool { return bh.free() == nil }) {
		bad.Add("the ports are not free")
		return
	}
	if err := b.Start(); err != nil {
		bad.Add("Start: %v", err)
		return
	}
	if err := a.ConnectPeerWithAddress("b", bh.addr, bh.port); err != nil {
		bad.Add("connecting after a failed attempt: %v (%s)", err, what)
		return
	}
	if p := a.GetPeers(); len(p) != 1 || p[0] != "b" {
		bad.Add("after connecting the peers are %q (%s)", p, what)
	}
	if err := a.Send("b", &networking.Message{Type: "m", Height: 1}); err != nil {
		bad.Add("Send: %v", err)
	}
	n := 0
	if !vlib.Eventually(vlib.Long/4, func() bool {
		n++
		b.Broadcast(&networking.Message{Type: "m", Height: uint64(n)})
		return bgot.count("a", 1) == 1 && received(a) > 0
	}) {
		bad.Add("messages do not arrive after a failed attempt to connect (%s)", what)
	}
	r := received(a)
	if !vlib.Eventually(vlib.Long/4, func() bool { return got.count("b", n) > 0 }) {
		bad.Add("the last broadcast does not arrive")
	}
	r = received(a)
	b.Broadcast(&networking.Message{Type: "m", Height: uint64(n + 1)})
	vlib.Eventually(vlib.Long/4, func() bool { return received(a) > r })
	if received(a) != r+1 || received(b) != 1 {
		bad.Add("a broadcast is received %d times, a direct message %d times, after a failed attempt to connect (%s)", received(a)-r, received(b), what)
	}
}

// TestStop calls everything in any order.
func TestStop(t *testing.T) {
	vlib.Run(t, 1500, 30000, "1-3 goroutines call Start, Stop, ConnectPeer (to a node, to itself, to one that is silent), DisconnectPeer, Broadcast, Send (also to one that has died, which blocks), handler registration and queries on a node in drawn order, with its ports occupied or not at first, or its context cancelled; nothing may panic or, after Stop, block; Broadcast fails before Start, Start fails a second time, on occupied ports and after Stop; after Stop no goroutine, descriptor or port may be left; non-trivial: Stop is not the last of the calls", func(c *vlib.C) {
		fds := vlib.Descriptors()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ah, bh := host{"a", vlib.Loopback(), 6000}, host{"b", vlib.Loopback(), 7000}
		cfg := ah.config()
		cfg.MaxRetries = rapid.SampledFrom([]int{0, 1, 2}).Draw(c.T, "retries")
		a := networking.New(ctx, cfg)
		b := networking.New(context.Background(), bh.config())
		if err := b.Start(); err != nil {
			c.Violation("Start: %v", err)
		}
		defer b.Stop()
		dead := networking.New(context.Background(), host{"dead", ah.addr, 9000}.config())
		if err := dead.Start(); err != nil {
			c.Violation("Start: %v", err)
		}
		defer dead.Stop()
		sl, err := net.Listen("tcp", fmt.Sprintf("%s:%d", bh.addr, 8500))
		if err != nil {
			panic(err)
		}
		defer sl.Close()

		var mu sync.Mutex
		started, stopped := false, false
		tries := 0
		starter := func() {
			mu.Lock()
			was := stopped
			tries++
			mu.Unlock()
			err := a.Start()
			mu.Lock()
			defer mu.Unlock()
			if err == nil && was {
				c.Errorf("VIOLATED: Start succeeds after Stop")
			}
			if err == nil && started {
				c.Errorf("VIOLATED: Start succeeds twice")
			}
			started = started || err == nil
		}
		if rapid.IntRange(0, 2).Draw(c.T, "occupied") == 0 {
			port := ah.port + rapid.SampledFrom([]int{0, 1000}).Draw(c.T, "which")
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", ah.addr, port))
			if err != nil {
				panic(err)
			}
			c.D("port %d is occupied", port)
			if err := a.Start(); err == nil {
				c.Violation("Start succeeds though a port is in use")
			}
			if err := a.Broadcast(&networking.Message{}); err == nil {
				c.Violation("Broadcast succeeds after Start failed")
			}
			l.Close()
			if err := ah.free(); err != nil {
				c.Violation("after Start failed: %v", err)
			}
		}
		if rapid.Bool().Draw(c.T, "start first") {
			c.D("start")
			starter()
			if !started {
				c.Violation("Start fails")
			}
			if a.Start() == nil {
				c.Violation("Start succeeds twice")
			}
		} else if a.Broadcast(&networking.Message{}) == nil {
			c.Violation("Broadcast succeeds before Start")
		}
		if rapid.IntRange(0, 2).Draw(c.T, "with a dead peer") == 0 {
			if err := a.ConnectPeerWithAddress("dead", ah.addr, 9000); err != nil {
				c.Violation("connecting: %v", err)
			}
			c.D("a peer died")
			dead.Stop()
		}
		g := rapid.IntRange(1, 3).Draw(c.T, "goroutines")
		plans := make([][]string, g)
		canceled := false
		for i := range plans {
			plans[i] = rapid.SliceOfN(rapid.SampledFrom([]string{"start", "stop", "connect b", "connect a", "connect silent", "disconnect b", "disconnect dead", "broadcast", "send b", "send a", "send dead", "send?", "handler", "peers", "wait", "wait", "cancel"}), 1, 10).Draw(c.T, "calls")
			c.D("%v", plans[i])
			for j, op := range plans[i] {
				if op == "stop" && (j < len(plans[i])-1 || g > 1) {
					c.Nontrivial()
				}
				canceled = canceled || op == "cancel"
			}
		}
		var wg sync.WaitGroup
		for _, plan := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, op := range plan {
					m := &networking.Message{Type: "m", Data: json.RawMessage("1")}
					switch op {
					case "start":
						starter()
					case "stop":
						a.Stop()
						mu.Lock()
						stopped = true
						mu.Unlock()
					case "connect b":
						a.ConnectPeerWithAddress("b", bh.addr, bh.port)
					case "connect a":
						mu.Lock()
						ok := started
						mu.Unlock()
						if ok {
							a.ConnectPeer("a", ah.port)
						}
					case "connect silent":
						go a.ConnectPeerWithAddress("silent", bh.addr, 8500)
					case "disconnect b":
						go a.DisconnectPeer("b") // may wait for a silent one
					case "disconnect dead":
						go a.DisconnectPeer("dead")
					case "broadcast":
						a.Broadcast(m)
						a.BroadcastWithRetry(m)
					case "send b":
						go a.Send("b", m)
					case "send a":
						go a.Send("a", m)
					case "send dead":
						go a.Send("dead", m)
					case "send?":
						if a.Send("?", m) == nil || a.SendWithRetry("?", m) == nil {
							c.Errorf("VIOLATED: sending to nobody succeeds")
						}
					case "handler":
						a.RegisterHandler("m", func(*networking.Message) {})
						a.UnregisterHandler("x")
					case "peers":
						a.GetPeers()
						a.GetMetrics()
					case "wait":
						time.Sleep(200 * time.Microsecond)
					case "cancel":
						cancel()
					}
				}
			}()
		}
		// one may be stuck connecting, until Stop
		ended := make(chan struct{})
		go func() { wg.Wait(); close(ended) }()
		select {
		case <-ended:
		case <-time.After(time.Duration(rapid.IntRange(0, 3000).Draw(c.T, "then")) * time.Microsecond):
		}
		if canceled {
			c.Class("canceled")
		}
		c.Within("Stop", func() {
			var wg sync.WaitGroup
			for i := rapid.IntRange(1, 3).Draw(c.T, "stops"); i > 0; i-- {
				wg.Add(1)
				go func() { defer wg.Done(); a.Stop() }()
			}
			wg.Wait()
		})
		c.Within("the calls", func() { <-ended })
		if c.Failed() {
			c.Violation("see above")
		}
		if a.Start() == nil {
			c.Violation("Start succeeds after Stop")
		}
		c.Within("calls after Stop", func() {
			a.Broadcast(&networking.Message{})
			a.Send("b", &networking.Message{})
			a.DisconnectPeer("b")
			a.Stop()
			if a.ConnectPeerWithAddress("x", bh.addr, bh.port) == nil {
				c.Errorf("VIOLATED: connecting succeeds after Stop")
			}
		})
		if c.Failed() {
			c.Violation("connecting succeeds after Stop")
		}
		if err := ah.free(); err != nil {
			c.Violation("after Stop: %v", err)
		}
		stop(c, b)
		stop(c, dead)
		sl.Close()
		c.NoGoroutines("after Stop")
		if !vlib.Eventually(vlib.Long/2, func() bool { return vlib.Descriptors() <= fds }) {
			c.Violation("%d descriptors were open before, %d are after Stop", fds, vlib.Descriptors())
		}
	})
}

// message is networking.Message as documented, to tell what is malformed.
type message struct {
	Type      string          `json:"type"`
	From      string          `json:"from"`
	To        string          `json:"to"`
	SessionID []byte          `json:"session_id"`
	Height    uint64          `json:"height"`
	Round     uint32          `json:"round"`
	Data      json.RawMessage `json:"data"`
	Timestamp int64           `json:"timestamp"`
}

// body draws the body of a message, well-formed or not.
func body(c *vlib.C) []byte {
	good, _ := json.Marshal(networking.Message{Type: "m", From: "x", SessionID: rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(c.T, "session"), Height: rapid.Uint64().Draw(c.T, "height"), Round: 7, Data: json.RawMessage(`{"a":[1,2]}`), Timestamp: 5})
	switch rapid.IntRange(0, 7).Draw(c.T, "body") {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "bytes")
	case 1:
		return []byte(rapid.SampledFrom([]string{"", " ", "null", "{}", "[]", "0", `""`, "{", `{"type":1}`, `{"type":"m","from":"x"}`, `{"type":"m"} x`, `{"TYPE":"m"}`, `{"height":-1}`, `{"height":1.5}`, `{"round":4294967296}`, `{"session_id":"!"}`, `{"session_id":[1,2]}`, `{"type":"m","type":"n"}`, `{"data":}`, `{"unknown":{"deep":[[[[1]]]]},"type":"m"}`, "\xff\xfe", strings.Repeat("[", 20000)}).Draw(c.T, "json"))
	case 2, 3, 4:
		i := rapid.IntRange(0, len(good)-1).Draw(c.T, "at")
		switch rapid.IntRange(0, 3).Draw(c.T, "damage") {
		case 0:
			return good[:i]
		case 1:
			good[i] = rapid.Byte().Draw(c.T, "byte")
		case 2:
			return append(good[:i:i], good[i+1:]...)
		default:
			return append(good[:i:i], append([]byte{rapid.SampledFrom([]byte("{}[]\",: 0x\x00")).Draw(c.T, "insert")}, good[i:]...)...)
		}
		return good
	}
	return good
}

// TestJunk sends malformed messages.
func TestJunk(t *testing.T) {
	vlib.Run(t, 2500, 50000, "a node gets 1-20 messages of one or more frames whose bodies are well-formed, damaged or junk, on its direct port from raw peers and from a fake node it connected to, whose broadcasts it gets, too; raw junk goes to its ports; exactly those messages whose last frame (of the direct ones) or whole (of the broadcasts) is no message count as dropped, all others as received, once each, except its own broadcasts, and handlers get the well-formed ones of their type; a healthy node can still use it; non-trivial: a malformed message comes before a well-formed one", func(c *vlib.C) {
		ah, bh := host{"a", vlib.Loopback(), 6000}, host{"b", vlib.Loopback(), 7000}
		a := networking.New(context.Background(), ah.config())
		var mu sync.Mutex
		var calls []networking.Message
		a.RegisterHandler("m", func(m *networking.Message) {
			mu.Lock()
			calls = append(calls, *m)
			mu.Unlock()
		})
		if err := a.Start(); err != nil {
			c.Violation("Start: %v", err)
		}
		defer a.Stop()
		// the fake node
		pl, err := net.Listen("tcp", fmt.Sprintf("%s:%d", bh.addr, bh.port))
		if err != nil {
			panic(err)
		}
		defer pl.Close()
		rl, err := net.Listen("tcp", fmt.Sprintf("%s:%d", bh.addr, bh.port+1000))
		if err != nil {
			panic(err)
		}
		defer rl.Close()
		accept := func(l net.Listener, typ string) chan *vlib.Peer {
			ch := make(chan *vlib.Peer, 1)
			go func() {
				conn, err := l.Accept()
				if err != nil {
					ch <- nil
					return
				}
				p := vlib.NewPeer(conn)
				if p.Handshake(typ, "") != nil {
					p = nil
				}
				ch <- p
			}()
			return ch
		}
		pc, rc := accept(pl, "PUB"), accept(rl, "ROUTER")
		if err := a.ConnectPeerWithAddress("fake", bh.addr, bh.port); err != nil {
			c.Violation("connecting: %v", err)
		}
		pub, router := <-pc, <-rc
		if pub == nil || router == nil {
			c.Violation("handshake with a node")
		}
		defer pub.Close()
		defer router.Close()
		if got := router.Meta["identity"]; got != "a" {
			c.Violation("the node's identity is %q", got)
		}
		direct := c.DialRaw(fmt.Sprintf("tcp://%s:%d", ah.addr, ah.port+1000))
		if err := direct.Handshake("DEALER", "someone"); err != nil {
			c.Violation("handshake: %v", err)
		}
		if rapid.Bool().Draw(c.T, "raw junk") {
			for _, port := range []int{ah.port, ah.port + 1000} {
				p := c.DialRaw(fmt.Sprintf("tcp://%s:%d", ah.addr, port))
				p.Write(rapid.SliceOfN(rapid.Byte(), 0, 90).Draw(c.T, "noise"))
				if rapid.Bool().Draw(c.T, "hang up") {
					p.Close()
				}
			}
		}
		if rapid.Bool().Draw(c.T, "odd subscriber") {
			p := c.DialRaw(fmt.Sprintf("tcp://%s:%d", ah.addr, ah.port))
			if err := p.Handshake("SUB", ""); err != nil {
				c.Violation("handshake: %v", err)
			}
			p.WriteMsg(rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(c.T, "subscription"))
		}
		var good, dropped uint64
		var want []message
		for k := rapid.IntRange(1, 20).Draw(c.T, "messages"); k > 0; k-- {
			b := body(c)
			from := direct
			frames := [][]byte{b}
			if rapid.Bool().Draw(c.T, "broadcast") {
				from = pub
				if rapid.IntRange(0, 5).Draw(c.T, "split") == 0 {
					i := rapid.IntRange(0, len(b)).Draw(c.T, "split at")
					frames = [][]byte{b[:i], b[i:]}
				}
			} else {
				for n := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "frames before"); n > 0; n-- {
					frames = append([][]byte{rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(c.T, "frame")}, frames...)
				}
			}
			if err := from.WriteMsg(frames...); err != nil {
				c.Violation("the node hung up: %v", err)
			}
			var m message
			uerr := json.Unmarshal(b, &m)
			c.D("%s %s: %v", vlib.Sizes(frames), vlib.Clip(string(b)), uerr)
			switch {
			case uerr != nil:
				dropped++
			case m.From == "a" && m.To == "":
			default:
				good++
				if dropped > 0 {
					c.Nontrivial()
				}
				if m.Type == "m" {
					want = append(want, m)
				}
			}
		}
		ok := vlib.Eventually(vlib.Long, func() bool {
			_, r, d := a.GetMetrics()
			mu.Lock()
			defer mu.Unlock()
			return r >= good && d >= dropped && len(calls) >= len(want)
		})
		_, r, d := a.GetMetrics()
		if !ok || r != good || d != dropped {
			c.Violation("%d messages were received and %d dropped, want %d and %d", r, d, good, dropped)
		}
		mu.Lock()
		got := append([]networking.Message(nil), calls...)
		mu.Unlock()
		if len(got) != len(want) {
			c.Violation("%d messages were handled, want %d", len(got), len(want))
		}
		for _, m := range got {
			i := -1
			for j, w := range want {
				if m.From == w.From && m.To == w.To && string(m.SessionID) == string(w.SessionID) && m.Height == w.Height && m.Round == w.Round && string(m.Data) == string(w.Data) && m.Timestamp == w.Timestamp {
					i = j
				}
			}
			if i < 0 {
				c.Violation("handled %s, want one of %s", vlib.Clip(fmt.Sprintf("%+v", m)), vlib.Clip(fmt.Sprintf("%+v", want)))
			}
			want = append(want[:i:i], want[i+1:]...)
		}
		// the connections still serve
		last, _ := json.Marshal(networking.Message{Type: "last", From: "x"})
		if direct.WriteMsg(last) != nil || pub.WriteMsg(last) != nil {
			c.Violation("the node hung up")
		}
		c.Must("later messages arrive", func() bool { _, r, _ := a.GetMetrics(); return r == good+2 })
		if err := a.Send("fake", &networking.Message{Type: "answer"}); err != nil {
			c.Violation("Send: %v", err)
		}
		f, err := router.ReadMsgT(vlib.Long)
		if err != nil || len(f) != 1 {
			c.Violation("the fake node got %q, %v", f, err)
		}
		var m message
		if err := json.Unmarshal(f[0], &m); err != nil || m.Type != "answer" || m.From != "a" || m.To != "fake" {
			c.Violation("the fake node got %q, %v", f, err)
		}
	})
}
