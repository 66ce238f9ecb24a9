// Package c18: a proxy forwards every message both ways, unchanged and in
// order.
package c18

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

func TestMain(m *testing.M) {
	// sockets print about failed handshakes there
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Exit(m.Run())
}

var kinds = []string{"vmem", "vmem", "vmem-chunked", "inproc", "ipc", "tcp"}

// proxy runs Proxy until the case ends; it must not return before.
type proxy struct {
	c    *vlib.C
	done chan struct{}
	err  error
}

func start(c *vlib.C, front, back zmq4.Socket) *proxy {
	p := &proxy{c: c, done: make(chan struct{})}
	go func() {
		p.err = zmq4.Proxy(front, back)
		close(p.done)
	}()
	c.Cleanup(func() {
		front.Close()
		back.Close()
	})
	return p
}

func (p *proxy) running() {
	p.c.Helper()
	select {
	case <-p.done:
		p.c.Violation("Proxy returned while its sockets were in use: %v", p.err)
	default:
	}
}

// join connects a device socket with others, by listening or by dialing.
func join(c *vlib.C, dev zmq4.Socket, others []zmq4.Socket, kind string, devListens bool) {
	if devListens {
		ep := c.Listen(dev, kind)
		for _, s := range others {
			c.Dial(s, ep)
		}
		return
	}
	for _, s := range others {
		c.Dial(dev, c.Listen(s, kind))
	}
}

type worker struct {
	i    int
	s    zmq4.Socket
	skip int // frames before what is the client's
	mu   sync.Mutex
	got  [][][]byte
	err  string
}

// run answers requests, by appending a frame to them.
func (w *worker) run() {
	for {
		m, err := vlib.Get(w.s)
		if err != nil {
			return
		}
		if w.s.Type() != zmq4.Rep && len(m.Frames) < w.skip+1 {
			w.mu.Lock()
			w.err = fmt.Sprintf("worker %d (%s) received %s", w.i, w.s.Type(), vlib.Clip(m.Frames))
			w.mu.Unlock()
			return
		}
		w.mu.Lock()
		w.got = append(w.got, vlib.CloneFrames(m.Frames[w.skip:]))
		w.mu.Unlock()
		re := append(vlib.CloneFrames(m.Frames), []byte(fmt.Sprintf("by%d", w.i)))
		if err := vlib.Put(w.s, w.i%2 == 0, re); err != nil {
			return
		}
	}
}

// TestRequests has clients and workers on the two sides of a ROUTER/DEALER
// proxy.
func TestRequests(t *testing.T) {
	vlib.Run(t, 2500, 20000, "1-4 clients (REQ or DEALER) and 1-3 workers (REP, DEALER or ROUTER) on the two sides of Proxy(ROUTER, DEALER), or of Proxy(DEALER, ROUTER), each side bound at the proxy or at its peers, over vmem, chunked vmem, inproc, ipc or tcp; every client sends 1-12 requests of drawn frames (empty ones included), a REQ one at a time, a DEALER in bursts; each request must reach exactly one worker with the same frames, each client must get exactly the answers to its requests with the same frames and, with one worker, in order; non-trivial: two clients or more", func(c *vlib.C) {
		kind := rapid.SampledFrom(kinds).Draw(c.T, "transport")
		nc := c.Count(1, 4, 16, "clients")
		nw := rapid.IntRange(1, 3).Draw(c.T, "workers")
		front := c.New(zmq4.Router, quiet)
		back := c.New(zmq4.Dealer, quiet)
		var cs, ws []zmq4.Socket
		var workers []*worker
		hasRep := false
		var what []string
		for i := 0; i < nw; i++ {
			typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Rep, zmq4.Rep, zmq4.Dealer, zmq4.Router}).Draw(c.T, "worker")
			hasRep = hasRep || typ == zmq4.Rep
			w := &worker{i: i, s: c.New(typ, quiet, zmq4.WithID(zmq4.SocketIdentity(fmt.Sprintf("worker%d", i))))}
			switch typ {
			case zmq4.Dealer:
				w.skip = 1
			case zmq4.Router:
				w.skip = 2
			}
			workers = append(workers, w)
			ws = append(ws, w.s)
			what = append(what, string(typ))
		}
		for i := 0; i < nc; i++ {
			typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Req, zmq4.Dealer}).Draw(c.T, "client")
			opts := []zmq4.Option{quiet}
			if rapid.Bool().Draw(c.T, "id") {
				opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(fmt.Sprintf("client%d", i))))
			}
			cs = append(cs, c.New(typ, opts...))
			what = append(what, string(typ))
		}
		fl, bl := rapid.Bool().Draw(c.T, "front listens"), rapid.Bool().Draw(c.T, "back listens")
		swap := rapid.Bool().Draw(c.T, "swap")
		c.D("%s %v front=%v back=%v swap=%v", kind, what, fl, bl, swap)
		c.Class("%s", kind)
		if nc > 1 {
			c.Nontrivial()
		}
		join(c, back, ws, kind, bl)
		join(c, front, cs, kind, fl)
		for _, w := range workers {
			go w.run()
		}
		var p *proxy
		if swap {
			p = start(c, back, front)
		} else {
			p = start(c, front, back)
		}
		size := rapid.SampledFrom([]int{300, 1500, 1500, 1500, 70000}).Draw(c.T, "size")
		// the requests
		all := map[int][][]byte{} // by tag, as a worker sees them without a delimiter
		plan := make([][][][]byte, nc)
		tag := 0
		for i, s := range cs {
			for k := c.Count(1, 12, 100, "requests"); k > 0; k-- {
				fs := c.Tagged(tag, size)
				all[tag] = fs
				tag++
				plan[i] = append(plan[i], fs)
				c.D("client %d (%s): %s", i, s.Type(), vlib.Sizes(fs))
			}
		}
		bad := vlib.NewBroken()
		var wg sync.WaitGroup
		for i, s := range cs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				put := func(fs [][]byte) bool {
					var err error
					if s.Type() == zmq4.Dealer {
						fs = append([][]byte{{}}, fs...) // as a REQ does
					}
					if !vlib.Eventually(vlib.Long, func() bool {
						err = vlib.Put(s, len(fs)%2 == 0, fs)
						return err == nil
					}) {
						bad.Add("client %d cannot send: %v", i, err)
						return false
					}
					return true
				}
				get := func() [][]byte {
					m, err := vlib.RecvD(s, vlib.Long)
					if err != nil {
						bad.Add("client %d: no answer: %v", i, err)
						return nil
					}
					f := m.Frames
					if s.Type() == zmq4.Dealer {
						if len(f) < 1 || len(f[0]) != 0 {
							bad.Add("client %d got %s", i, vlib.Clip(f))
							return nil
						}
						f = f[1:]
					}
					return f
				}
				answers := func(got [][]byte, fs [][]byte) bool {
					return len(got) == len(fs)+1 && vlib.Same(got[:len(fs)], fs) && bytes.HasPrefix(got[len(fs)], []byte("by"))
				}
				if s.Type() == zmq4.Req {
					for _, fs := range plan[i] {
						if !put(fs) {
							return
						}
						got := get()
						if got == nil {
							return
						}
						if !answers(got, fs) {
							bad.Add("client %d asked %s and got %s", i, vlib.Clip(fs), vlib.Clip(got))
							return
						}
					}
					return
				}
				go func() {
					for _, fs := range plan[i] {
						if !put(fs) {
							return
						}
					}
				}()
				left := append([][][]byte(nil), plan[i]...)
				for len(left) > 0 {
					got := get()
					if got == nil {
						return
					}
					at := -1
					for j, fs := range left {
						if answers(got, fs) {
							at = j
							break
						}
					}
					if at < 0 || nw == 1 && at != 0 {
						bad.Add("client %d got %s while waiting for answers to %d of %d requests (%d)", i, vlib.Clip(got), len(left), len(plan[i]), at)
						return
					}
					left = append(left[:at:at], left[at+1:]...)
				}
			}()
		}
		c.WithinD(2*vlib.Long, "the exchange", func() { wg.Wait() })
		bad.Check(c)
		p.running()
		// each request reached one worker, once
		seen := map[int]int{}
		for _, w := range workers {
			w.mu.Lock()
			if w.err != "" {
				c.Violation("%s", w.err)
			}
			for _, f := range w.got {
				g := f
				if w.s.Type() != zmq4.Rep {
					if len(g) < 1 || len(g[0]) != 0 {
						c.Violation("worker %d (%s) got %s", w.i, w.s.Type(), vlib.Clip(f))
					}
					g = g[1:]
				}
				n := vlib.TagOf(g)
				if n < 0 || !vlib.Same(g, all[n]) {
					c.Violation("worker %d (%s) got %s", w.i, w.s.Type(), vlib.Clip(f))
				}
				if prev, ok := seen[n]; ok {
					c.Violation("request %d reached worker %d and worker %d", n, prev, w.i)
				}
				seen[n] = w.i
			}
			w.mu.Unlock()
		}
		if len(seen) != len(all) {
			c.Violation("%d of %d requests reached a worker", len(seen), len(all))
		}
	})
}

// flow is types of sender, device's sides, and receiver.
type flow struct {
	tx, in, out, rx zmq4.SocketType
	both            bool // also the other way
}

var flows = []flow{
	{zmq4.Push, zmq4.Pull, zmq4.Push, zmq4.Pull, false},
	{zmq4.Pair, zmq4.Pair, zmq4.Pair, zmq4.Pair, true},
	{zmq4.Dealer, zmq4.Dealer, zmq4.Dealer, zmq4.Dealer, true},
	{zmq4.Pair, zmq4.Pair, zmq4.Dealer, zmq4.Dealer, true},
	{zmq4.Pub, zmq4.Sub, zmq4.Pub, zmq4.Sub, false},
	{zmq4.Pub, zmq4.XSub, zmq4.XPub, zmq4.Sub, false},
	{zmq4.XPub, zmq4.XSub, zmq4.XPub, zmq4.XSub, false},
	{zmq4.Push, zmq4.Pull, zmq4.Pub, zmq4.Sub, false},
	{zmq4.Pub, zmq4.Sub, zmq4.Push, zmq4.Pull, false},
	{zmq4.Dealer, zmq4.Dealer, zmq4.Push, zmq4.Pull, false},
}

var topicsDrawn = []string{"", "a", "ab", "b", "\x00", "\x01"}

// blankKinds are messages without anything to tell them from each other.
var blankKinds = [][][]byte{{{}}, {{}, {}}, {{}, {}, {}}, {{0}}, {[]byte("again")}, {{}, []byte("again")}}

// sink collects what a socket receives.
type sink struct {
	*vlib.Inbox
	topics map[string]bool // nil: everything
}

func fans(typ zmq4.SocketType) bool { return typ == zmq4.Pub || typ == zmq4.XPub }

// TestFlows sends through proxies of other types.
func TestFlows(t *testing.T) {
	vlib.Run(t, 2500, 20000, "1-3 senders and 1-3 receivers on the two sides of a proxy between PULL/PUSH, PAIR/PAIR, DEALER/DEALER, PAIR/DEALER, SUB/PUB, XSUB/XPUB, PULL/PUB, SUB/PUSH or DEALER/PUSH sockets given in either order, sides bound at the proxy or its peers, over all transports; each sender sends 1-25 messages (a topic frame, drawn frames, empty ones included), where none are published after 0-4 that consist of empty frames or are all the same, over PAIR and DEALER both ways at once; every message must arrive unchanged exactly once (at every subscriber whose topics match, elsewhere at one receiver), those of one sender in order at each receiver; non-trivial: several senders or receivers, or both ways", func(c *vlib.C) {
		fl := rapid.SampledFrom(flows).Draw(c.T, "flow")
		kind := rapid.SampledFrom(kinds).Draw(c.T, "transport")
		ntx := rapid.IntRange(1, 3).Draw(c.T, "senders")
		nrx := rapid.IntRange(1, 3).Draw(c.T, "receivers")
		if fl.in == zmq4.Pair {
			ntx = 1
		}
		if fl.out == zmq4.Pair {
			nrx = 1
		}
		swap := rapid.Bool().Draw(c.T, "swap")
		il, ol := rapid.Bool().Draw(c.T, "in listens"), rapid.Bool().Draw(c.T, "out listens")
		in, out := c.New(fl.in, quiet), c.New(fl.out, quiet)
		var txs, rxs []zmq4.Socket
		for i := 0; i < ntx; i++ {
			txs = append(txs, c.New(fl.tx, quiet))
		}
		var topics []map[string]bool
		for i := 0; i < nrx; i++ {
			s := c.New(fl.rx, quiet)
			rxs = append(rxs, s)
			topics = append(topics, nil)
			if fl.rx == zmq4.Sub || fl.rx == zmq4.XSub {
				topics[i] = map[string]bool{probe(i): true}
				for k := rapid.IntRange(0, 2).Draw(c.T, "topics"); k > 0; k-- {
					topics[i][rapid.SampledFrom(topicsDrawn).Draw(c.T, "topic")] = true
				}
			}
			if fl.rx == zmq4.Sub {
				for k := range topics[i] {
					if err := s.SetOption(zmq4.OptionSubscribe, k); err != nil {
						c.Violation("subscribe: %v", err)
					}
				}
			}
		}
		if fl.in == zmq4.Sub {
			in.SetOption(zmq4.OptionSubscribe, "")
		}
		c.D("%s %s>%s-%s>%s %d:%d listens=%v,%v swap=%v", kind, fl.tx, fl.in, fl.out, fl.rx, ntx, nrx, il, ol, swap)
		c.Class("%s-%s", fl.in, fl.out)
		if ntx > 1 || nrx > 1 || fl.both {
			c.Nontrivial()
		}
		join(c, in, txs, kind, il)
		join(c, out, rxs, kind, ol)
		var p *proxy
		if swap {
			p = start(c, out, in)
		} else {
			p = start(c, in, out)
		}
		sinks := make([]*sink, nrx)
		for i, s := range rxs {
			sinks[i] = &sink{vlib.NewInbox(s), topics[i]}
		}
		var backs []*sink
		if fl.both {
			for _, s := range txs {
				backs = append(backs, &sink{vlib.NewInbox(s), nil})
			}
		}
		sync1(c, fl, in, txs, rxs, sinks)
		p.running()

		size := rapid.SampledFrom([]int{300, 1500, 1500, 1500, 70000}).Draw(c.T, "size")
		// what is sent
		type batch struct {
			s    zmq4.Socket
			msgs [][][]byte
		}
		sent := map[int][][]byte{}
		from := map[int]int{} // sender
		way := map[int]bool{} // back
		tag := 0
		blanks := map[bool]map[string]int{false: {}, true: {}}
		draw := func(ss []zmq4.Socket, base int, back bool) (out []batch) {
			for i, s := range ss {
				b := batch{s: s}
				if !fans(fl.tx) && !fans(fl.out) {
					// some messages that are all alike
					for k := rapid.IntRange(-2, 4).Draw(c.T, "blanks"); k > 0; k-- {
						fs := rapid.SampledFrom(blankKinds).Draw(c.T, "blank")
						blanks[back][fmt.Sprintf("%q", fs)]++
						b.msgs = append(b.msgs, vlib.CloneFrames(fs))
						c.D("%d:%q", base+i, fs)
					}
				}
				for k := c.Count(1, 25, 200, "messages"); k > 0; k-- {
					fs := c.Tagged(tag, size)
					if fl.tx == zmq4.Pub || fl.tx == zmq4.XPub || fans(fl.out) {
						first := rapid.SampledFrom(topicsDrawn).Draw(c.T, "first") + rapid.SampledFrom([]string{"", "c"}).Draw(c.T, "more")
						fs = append([][]byte{[]byte(first)}, fs...)
					}
					sent[tag], from[tag], way[tag] = fs, base+i, back
					tag++
					b.msgs = append(b.msgs, fs)
					c.D("%d:%s", base+i, vlib.Sizes(fs))
				}
				out = append(out, b)
			}
			return
		}
		batches := draw(txs, 0, false)
		if fl.both {
			batches = append(batches, draw(rxs, 10, true)...)
		}
		bad := vlib.NewBroken()
		var wg sync.WaitGroup
		for i, b := range batches {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, fs := range b.msgs {
					if err := vlib.Put(b.s, (i+j)%2 == 0, fs); err != nil {
						bad.Add("Send: %v", err)
						return
					}
				}
			}()
		}
		c.Within("sending", func() { wg.Wait() })
		bad.Check(c)

		// what must arrive
		check := func(ss []*sink, back bool, fan bool) (ok bool) {
			want := make([]map[int]bool, len(ss))
			total := map[int]bool{}
			for n, fs := range sent {
				if way[n] != back {
					continue
				}
				total[n] = true
				for i, s := range ss {
					if want[i] == nil {
						want[i] = map[int]bool{}
					}
					if !fan {
						continue
					}
					for k := range s.topics {
						if bytes.HasPrefix(fs[0], []byte(k)) {
							want[i][n] = true
						}
					}
				}
			}
			seen := map[int]int{}
			complete := true
			blank := map[string]int{}
			for i, s := range ss {
				last := map[int]int{}
				mine := map[int]bool{}
				for _, f := range s.All() {
					if isProbe(f) {
						continue
					}
					n := vlib.TagOf(f)
					if k := fmt.Sprintf("%q", f); n < 0 && blanks[back][k] > 0 {
						if blank[k]++; blank[k] > blanks[back][k] {
							c.Violation("%d messages %s arrived, %d were sent", blank[k], k, blanks[back][k])
						}
						continue
					}
					if n < 0 || !total[n] || !vlib.Same(f, sent[n]) {
						c.Violation("receiver %d got %s, which was not sent", i, vlib.Clip(f))
					}
					if mine[n] {
						c.Violation("receiver %d got message %d twice", i, n)
					}
					mine[n] = true
					if fan && !want[i][n] {
						c.Violation("receiver %d with topics %q got %s", i, s.topics, vlib.Clip(f))
					}
					if prev, ok := seen[n]; ok && !fan {
						c.Violation("receivers %d and %d got message %d", prev, i, n)
					}
					seen[n] = i
					if k, ok := last[from[n]]; ok && n < k {
						c.Violation("receiver %d got message %d after %d of the same sender", i, n, k)
					}
					last[from[n]] = n
				}
				if fan && len(mine) != len(want[i]) {
					complete = false
				}
			}
			if !fan && len(seen) != len(total) {
				complete = false
			}
			for k, n := range blanks[back] {
				if blank[k] != n {
					complete = false
				}
			}
			return complete
		}
		c.Must("all messages arrive", func() bool {
			p.running()
			return check(sinks, false, fans(fl.out)) && (!fl.both || check(backs, true, false))
		})
		if rapid.IntRange(0, 7).Draw(c.T, "linger") == 0 {
			time.Sleep(3 * time.Millisecond)
			check(sinks, false, fans(fl.out))
		}
		p.running()
	})
}

func probe(i int) string { return fmt.Sprintf("\x03rx%d", i) }

func isProbe(f [][]byte) bool { return len(f) > 0 && strings.HasPrefix(string(f[0]), "\x03rx") }

// sync1 waits until messages of all senders get to all receivers, where there
// are publishers.
func sync1(c *vlib.C, fl flow, in zmq4.Socket, txs, rxs []zmq4.Socket, sinks []*sink) {
	if !fans(fl.tx) && !fans(fl.out) {
		return
	}
	c.Must("messages of all senders reach all receivers", func() bool {
		if fl.in == zmq4.XSub {
			in.Send(zmq4.NewMsg([]byte{1})) // it subscribes by a message
		}
		for i, s := range rxs {
			if fl.rx == zmq4.XSub {
				for k := range sinks[i].topics {
					s.Send(zmq4.NewMsg(append([]byte{1}, k...)))
				}
			}
		}
		all := true
		for j, tx := range txs {
			for i := range sinks {
				got := false
				for _, f := range sinks[i].All() {
					if isProbe(f) && len(f) == 2 && string(f[1]) == fmt.Sprint(j) {
						got = true
					}
				}
				if got {
					continue
				}
				if !fans(fl.out) {
					// one receiver gets it
					for k := range sinks {
						for _, f := range sinks[k].All() {
							if isProbe(f) && len(f) == 2 && string(f[1]) == fmt.Sprint(j) {
								got = true
							}
						}
					}
					if got {
						continue
					}
				}
				all = false
				if err := tx.Send(zmq4.NewMsgFrom([]byte(probe(i)), []byte(fmt.Sprint(j)))); err != nil {
					c.Violation("Send: %v", err)
				}
			}
		}
		if !all {
			time.Sleep(2 * time.Millisecond)
		}
		return all
	})
}

// TestEnd ends proxies.
func TestEnd(t *testing.T) {
	vlib.Run(t, 3000, 25000, "Proxy is called with a missing socket, with two sockets between which nothing can go, or with two sockets that can exchange messages, of which then, after 0-3 forwarded messages, one is closed or has its context end; Proxy must return an error at once in the first two cases, and otherwise when the socket is closed (at the latest with the next message), and no goroutine must be left when both are; non-trivial: a running proxy is ended", func(c *vlib.C) {
		usable := []zmq4.SocketType{zmq4.Push, zmq4.Pull, zmq4.Pair, zmq4.Pub, zmq4.Sub, zmq4.XPub, zmq4.XSub, zmq4.Router, zmq4.Dealer}
		switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
		case 0:
			typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
			s := c.New(typ, quiet)
			args := rapid.SampledFrom([][2]zmq4.Socket{{nil, nil}, {s, nil}, {nil, s}}).Draw(c.T, "missing")
			c.D("missing %s %v %v", typ, args[0] == nil, args[1] == nil)
			c.Class("missing")
			var err error
			c.Within("Proxy without a socket", func() { err = zmq4.Proxy(args[0], args[1]) })
			if err == nil {
				c.Violation("Proxy without a socket returns no error")
			}
			return
		case 1:
			a := rapid.SampledFrom(usable).Draw(c.T, "a")
			b := rapid.SampledFrom(usable).Draw(c.T, "b")
			rx := func(t zmq4.SocketType) bool { return t != zmq4.Push && t != zmq4.Pub }
			tx := func(t zmq4.SocketType) bool { return t != zmq4.Pull && t != zmq4.Sub }
			if rx(a) && tx(b) || rx(b) && tx(a) {
				return
			}
			if a == zmq4.Sub || b == zmq4.Sub {
				return // it can send subscriptions
			}
			c.D("nothing between %s and %s", a, b)
			c.Class("nothing")
			c.Nontrivial()
			x, y := c.New(a, quiet), c.New(b, quiet)
			var err error
			c.Within("Proxy between sockets that exchange nothing", func() { err = zmq4.Proxy(x, y) })
			if err == nil {
				c.Violation("Proxy of %s and %s returns no error", a, b)
			}
			return
		}
		fl := rapid.SampledFrom(flows).Draw(c.T, "flow")
		c.Nontrivial()
		ctxs := [2]context.Context{}
		cancels := [2]context.CancelFunc{}
		for i := range ctxs {
			ctxs[i], cancels[i] = context.WithCancel(context.Background())
			defer cancels[i]()
		}
		in, out := c.Sock(vlib.Make(fl.in, ctxs[0], quiet)), c.Sock(vlib.Make(fl.out, ctxs[1], quiet))
		tx, rx := c.New(fl.tx, quiet), c.New(fl.rx, quiet)
		topics := map[string]bool(nil)
		if fl.rx == zmq4.Sub || fl.rx == zmq4.XSub {
			topics = map[string]bool{"": true}
		}
		if fl.rx == zmq4.Sub {
			rx.SetOption(zmq4.OptionSubscribe, "")
		}
		if fl.in == zmq4.Sub {
			in.SetOption(zmq4.OptionSubscribe, "")
		}
		join(c, in, []zmq4.Socket{tx}, "vmem", true)
		join(c, out, []zmq4.Socket{rx}, "vmem", true)
		var p *proxy
		swap := rapid.Bool().Draw(c.T, "swap")
		if swap {
			p = start(c, out, in)
		} else {
			p = start(c, in, out)
		}
		inbox := &sink{vlib.NewInbox(rx), topics}
		if fl.both {
			vlib.NewInbox(tx)
		}
		sync1(c, fl, in, []zmq4.Socket{tx}, []zmq4.Socket{rx}, []*sink{inbox})
		n := rapid.IntRange(0, 3).Draw(c.T, "messages")
		for i := 0; i < n; i++ {
			c.Send(tx, false, []byte(fmt.Sprint("m", i)))
		}
		c.Must("messages are forwarded", func() bool {
			k := 0
			for _, f := range inbox.All() {
				if !isProbe(f) {
					k++
				}
			}
			return k == n
		})
		end := rapid.SampledFrom([]string{"close in", "close out", "cancel in", "cancel out"}).Draw(c.T, "end")
		c.D("%s>%s-%s>%s swap=%v n=%d %s", fl.tx, fl.in, fl.out, fl.rx, swap, n, end)
		c.Class("%s", end)
		if rapid.Bool().Draw(c.T, "look") {
			time.Sleep(time.Millisecond)
		}
		p.running()
		switch end {
		case "close in":
			in.Close()
		case "close out":
			out.Close()
		case "cancel in":
			cancels[0]()
		case "cancel out":
			cancels[1]()
		}
		if strings.HasSuffix(end, "out") && (fl.out == zmq4.Push || fl.out == zmq4.Pub) {
			// noticed with the next message
			go func() {
				for i := 0; i < 3; i++ {
					tx.Send(zmq4.NewMsgString("more"))
				}
			}()
		}
		c.Within("Proxy, after its socket was closed,", func() { <-p.done })
		if p.err == nil {
			c.Violation("Proxy returns nil after %s", end)
		}
		in.Close()
		out.Close()
		tx.Close()
		rx.Close()
		c.NoGoroutines("after all sockets were closed")
	})
}
