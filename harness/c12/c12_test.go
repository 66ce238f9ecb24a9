// Package c12: Send honours its deadline and a timed-out send never corrupts
// the stream.
package c12

import (
	"fmt"
	"io"
	"log"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func init() { vlib.RecordAll = true }

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

// margin is what a Send may take beyond its timeout, on a busy machine.
const margin = 8 * time.Second

type peer struct {
	i       int
	id      string
	p       *vlib.Peer
	conn    *vlib.MemConn
	stalled bool
	dead    bool
}

// stream is what was written to the peer after the handshake.
func (u *peer) stream() (items []vlib.Item, rest []byte, err error) {
	b := u.conn.Recorded()
	if len(b) < 64 {
		return nil, nil, nil
	}
	items, rest, err = vlib.Parse(b[64:])
	if len(items) > 0 {
		items = items[1:] // READY
	}
	return
}

type attempt struct {
	n     int
	g     int // goroutine
	to    *peer
	multi bool
	fs    [][]byte
	ok    bool
	err   error
}

type world struct {
	c       *vlib.C
	typ     zmq4.SocketType
	s       zmq4.Socket
	timeout time.Duration
	bad     *vlib.Broken
	peers   []*peer
	sent    []*attempt
}

// send makes an attempt, which has to end in time.
func (w *world) send(a *attempt) {
	fs := a.fs
	if w.typ == zmq4.Router {
		fs = append([][]byte{[]byte(a.to.id)}, fs...)
	}
	done := make(chan struct{})
	t0 := time.Now()
	go func() {
		a.err = vlib.Put(w.s, a.multi, fs)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(w.timeout + 3*margin):
		w.bad.Add("Send with a timeout of %v had not returned after %v", w.timeout, time.Since(t0))
		return
	}
	if d := time.Since(t0); d > w.timeout+margin {
		w.bad.Add("Send with a timeout of %v returned after %v: %v", w.timeout, d, a.err)
	}
	a.ok = a.err == nil
}

// wire is how a message goes over the wire.
func (w *world) wire(fs [][]byte) [][]byte {
	if w.typ == zmq4.Req || w.typ == zmq4.Rep {
		return append([][]byte{{}}, fs...)
	}
	return fs
}

func (w *world) attempt(g int, to *peer, fs func(n int) [][]byte) *attempt {
	a := &attempt{n: len(w.sent), g: g, to: to, fs: fs(len(w.sent))}
	w.sent = append(w.sent, a)
	return a
}

func plain(n int) [][]byte { return vlib.TaggedPlain(n) }

// request has a REP receive a request of u, which its next Send will answer.
func (w *world) request(u *peer) {
	if err := u.p.WriteMsg([]byte{}, []byte("request")); err != nil {
		w.c.Violation("a requester cannot write: %v", err)
	}
	w.c.Recv(w.s)
}

// judge looks at the streams.
func (w *world) judge() {
	c := w.c
	where := map[int]*peer{}
	for _, u := range w.peers {
		items, rest, err := u.stream()
		if err != nil {
			c.Violation("the stream to peer %d is malformed: %v, after %d items: %s", u.i, err, len(items), vlib.Clip(rest))
		}
		last := map[int]int{}
		for _, it := range items {
			n := vlib.TagOf(it.Frames)
			if it.Cmd || n < 0 || n >= len(w.sent) || !vlib.Same(it.Frames, w.wire(w.sent[n].fs)) {
				c.Violation("the stream to peer %d has %s, which was not sent", u.i, vlib.Clip(it.Frames))
			}
			a := w.sent[n]
			if where[n] != nil {
				c.Violation("message %d was written to peer %d and to peer %d", n, where[n].i, u.i)
			}
			where[n] = u
			if a.to != nil && a.to != u {
				c.Violation("message %d for peer %d was written to peer %d", n, a.to.i, u.i)
			}
			if k, ok := last[a.g]; ok && n < k {
				c.Violation("message %d was written to peer %d after message %d", n, u.i, k)
			}
			last[a.g] = n
		}
	}
	for _, a := range w.sent {
		if a.ok && where[a.n] == nil && (a.to == nil || !a.to.dead) {
			c.Violation("Send of message %d (%s) succeeded, and it went nowhere", a.n, vlib.Sizes(a.fs))
		}
	}
}

// TestStall sends while peers stop reading, resume and vanish.
func TestStall(t *testing.T) {
	vlib.Run(t, 800, 12000, "a PUSH, PAIR, DEALER, REQ, ROUTER or REP with a send timeout of 2-60 ms and 1-3 raw peers, over connections that buffer 200-5000 bytes, goes through 2-14 steps: a peer stops reading, resumes, or disconnects; 1-5 messages of up to 20000 bytes in 1-4 frames are sent one by one or by 2-4 goroutines; each Send must end within its timeout; once all peers still there read again the streams must consist of whole messages, each at most once, in sending order, with every message whose Send succeeded; non-trivial: a Send fails because its peer has stopped reading", func(c *vlib.C) {
		w := &world{c: c, bad: vlib.NewBroken()}
		w.typ = rapid.SampledFrom([]zmq4.SocketType{zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.Req, zmq4.Router, zmq4.Rep}).Draw(c.T, "type")
		w.timeout = time.Duration(rapid.IntRange(2, 60).Draw(c.T, "timeout")) * time.Millisecond
		capacity := rapid.SampledFrom([]int{200, 250, 700, 5000}).Draw(c.T, "buffer")
		np := rapid.IntRange(1, 3).Draw(c.T, "peers")
		c.D("%s timeout=%v buffer=%d peers=%d", w.typ, w.timeout, capacity, np)
		name := vlib.MemName(c.Chunks(), capacity)
		w.s = c.New(w.typ, quiet, zmq4.WithTimeout(w.timeout))
		if err := w.s.Listen("vmem://" + name); err != nil {
			c.Violation("listen: %v", err)
		}
		for i := 0; i < np; i++ {
			u := &peer{i: i, id: fmt.Sprintf("peer%d", i)}
			u.p = c.Join(w.s, "vmem://"+name, u.id)
			u.conn = u.p.Conn.(*vlib.MemConn)
			w.peers = append(w.peers, u)
			switch w.typ {
			case zmq4.Router, zmq4.Rep:
				w.request(u)
			}
			go io.Copy(io.Discard, u.p.R)
		}
		reached := func(u *peer, n int) bool {
			items, _, _ := u.stream()
			for _, it := range items {
				if vlib.TagOf(it.Frames) >= n {
					return true
				}
			}
			return false
		}
		// touch sends until all that are there were reached by something new
		touch := func() {
			first := len(w.sent)
			c.Must("all peers that read are reached", func() bool {
				for _, u := range w.peers {
					if u.dead || w.typ == zmq4.Router && reached(u, first) {
						continue
					}
					var to *peer
					if w.typ == zmq4.Router || w.typ == zmq4.Rep {
						to = u
					}
					if w.typ == zmq4.Rep {
						w.request(u)
					}
					w.send(w.attempt(0, to, plain))
				}
				w.bad.Check(c)
				for _, u := range w.peers {
					if !u.dead && !reached(u, first) {
						return false
					}
				}
				return true
			})
		}
		touch()
		dead := 0
		for k := rapid.IntRange(2, 14).Draw(c.T, "steps"); k > 0; k-- {
			u := w.peers[rapid.IntRange(0, np-1).Draw(c.T, "peer")]
			switch step := rapid.IntRange(0, 9).Draw(c.T, "step"); {
			case step < 3 && !u.dead:
				u.stalled = true
				u.conn.Stall(true)
				c.D("peer %d stops reading", u.i)
			case step == 3 && !u.dead:
				u.stalled = false
				u.conn.Stall(false)
				c.D("peer %d reads again", u.i)
			case step == 4 && dead < np-1:
				if !u.dead {
					dead++
				}
				u.dead = true
				u.p.Close()
				c.D("peer %d disconnects", u.i)
				c.Class("disconnect")
			default:
				g := 1
				if rapid.IntRange(0, 2).Draw(c.T, "concurrent") == 0 && w.typ != zmq4.Req && w.typ != zmq4.Rep {
					g = rapid.IntRange(2, 4).Draw(c.T, "goroutines")
				}
				var wg sync.WaitGroup
				var lists [][]*attempt
				for i := 0; i < g; i++ {
					var l []*attempt
					for n := rapid.IntRange(1, 5).Draw(c.T, "messages"); n > 0; n-- {
						var to *peer
						if w.typ == zmq4.Router || w.typ == zmq4.Rep {
							to = u
							if rapid.IntRange(0, 3).Draw(c.T, "other") == 0 {
								to = w.peers[rapid.IntRange(0, np-1).Draw(c.T, "to")]
							}
							if w.typ == zmq4.Rep && to.dead {
								continue
							}
						}
						a := w.attempt(i, to, func(n int) [][]byte {
							fs := plain(n)
							for k := rapid.IntRange(0, 3).Draw(c.T, "more frames"); k > 0; k-- {
								size := rapid.SampledFrom([]int{0, 1, 100, 255, 256, 1000, 6000, 20000}).Draw(c.T, "size")
								fs = append(fs, vlib.Fill(size, uint64(n+k)))
							}
							return fs
						})
						a.multi = rapid.Bool().Draw(c.T, "multi")
						l = append(l, a)
					}
					lists = append(lists, l)
				}
				wait := time.Duration(rapid.IntRange(0, 3).Draw(c.T, "resume in")) * w.timeout / 2
				resume := wait > 0 && u.stalled && rapid.IntRange(0, 2).Draw(c.T, "resume meanwhile") == 0
				for _, l := range lists {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for _, a := range l {
							if w.typ == zmq4.Rep {
								// answering has to do with the latest request
								if err := a.to.p.WriteMsg([]byte{}, []byte("request")); err != nil {
									w.bad.Add("a requester cannot write: %v", err)
									return
								}
								if _, err := w.s.Recv(); err != nil {
									w.bad.Add("REP: Recv: %v", err)
									return
								}
							}
							w.send(a)
						}
					}()
				}
				if resume {
					time.Sleep(wait)
					u.stalled = false
					u.conn.Stall(false)
					c.D("peer %d reads again meanwhile", u.i)
				}
				wg.Wait()
				w.bad.Check(c)
				failed := 0
				for _, l := range lists {
					for _, a := range l {
						if !a.ok {
							failed++
						}
					}
				}
				any := false
				for _, v := range w.peers {
					any = any || v.stalled && !v.dead
				}
				if failed > 0 && any {
					c.Nontrivial()
					c.Class("%s timed out", w.typ)
				}
				c.D("sends by %d", g)
			}
		}
		for _, u := range w.peers {
			u.conn.Stall(false)
			u.stalled = false
		}
		touch()
		ok := vlib.Eventually(vlib.Long, func() bool {
			for _, u := range w.peers {
				if _, rest, _ := u.stream(); !u.dead && len(rest) > 0 {
					return false
				}
			}
			return true
		})
		w.judge()
		if !ok {
			c.Violation("a stream ends in an incomplete message")
		}
	})
}

// TestNobody sends when there is nobody to send to.
func TestNobody(t *testing.T) {
	vlib.Run(t, 800, 12000, "a PUSH, PAIR, DEALER, REQ, ROUTER or REP with a send timeout of 1-60 ms, listening or not, with no peer yet or with 1-3 peers that have all disconnected: Send and SendMulti must return an error in time; messages whose Send succeeds though a peer joins meanwhile must reach it; non-trivial: every case", func(c *vlib.C) {
		w := &world{c: c, bad: vlib.NewBroken()}
		w.typ = rapid.SampledFrom([]zmq4.SocketType{zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.Req, zmq4.Router, zmq4.Rep}).Draw(c.T, "type")
		w.timeout = time.Duration(rapid.IntRange(1, 60).Draw(c.T, "timeout")) * time.Millisecond
		past := rapid.IntRange(0, 3).Draw(c.T, "past peers")
		if w.typ == zmq4.Router || w.typ == zmq4.Rep {
			past = 0 // they drop what is for a peer that is gone
		}
		c.Nontrivial()
		c.D("%s timeout=%v past=%d", w.typ, w.timeout, past)
		c.Class("%s past=%v", w.typ, past > 0)
		w.s = c.New(w.typ, quiet, zmq4.WithTimeout(w.timeout))
		name := vlib.MemName(nil, rapid.SampledFrom([]int{0, 300}).Draw(c.T, "buffer"))
		listens := past > 0 || rapid.Bool().Draw(c.T, "listens")
		if listens {
			if err := w.s.Listen("vmem://" + name); err != nil {
				c.Violation("listen: %v", err)
			}
		}
		for i := 0; i < past; i++ {
			p := c.Join(w.s, "vmem://"+name, "")
			defer p.Close()
			w.peers = append(w.peers, &peer{i: i, p: p, conn: p.Conn.(*vlib.MemConn)})
			go io.Copy(io.Discard, p.R)
		}
		if past > 0 && rapid.Bool().Draw(c.T, "used") {
			c.Must("a message to those that are there gets through", func() bool {
				a := w.attempt(0, nil, plain)
				w.send(a)
				return a.ok
			})
		}
		for _, u := range w.peers {
			u.p.Close()
		}
		before := len(w.sent)
		for k := rapid.IntRange(1, 4).Draw(c.T, "sends"); k > 0; k-- {
			a := w.attempt(0, &peer{i: -1, id: "nobody"}, func(n int) [][]byte {
				return append(plain(n), vlib.Fill(rapid.SampledFrom([]int{0, 1000}).Draw(c.T, "size"), 1))
			})
			if w.typ != zmq4.Router {
				a.to = nil
			}
			a.multi = rapid.Bool().Draw(c.T, "multi")
			w.send(a)
			w.bad.Check(c)
			if a.ok {
				c.Violation("Send succeeds with nobody there")
			}
		}
		if listens && rapid.Bool().Draw(c.T, "join") && w.typ != zmq4.Rep && w.typ != zmq4.Router {
			// somebody comes
			done := make(chan struct{})
			stop := make(chan struct{})
			go func() {
				defer close(done)
				for {
					a := w.attempt(0, nil, plain)
					w.send(a)
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
			p := c.Join(w.s, "vmem://"+name, "")
			u := &peer{i: past, p: p, conn: p.Conn.(*vlib.MemConn)}
			go io.Copy(io.Discard, p.R)
			came := vlib.Eventually(vlib.Long, func() bool { items, _, _ := u.stream(); return len(items) > 2 })
			close(stop)
			c.Within("the last Send", func() { <-done })
			w.bad.Check(c)
			if !came {
				c.Violation("nothing reaches a peer that came")
			}
			w.peers = append(w.peers, u)
		}
		for _, a := range w.sent[:before] {
			a.ok = false // to peers that were leaving
		}
		w.judge()
	})
}
