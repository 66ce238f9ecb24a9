// Package c11: each pushed message is consumed exactly once and load is shared.
package c11

import (
	"fmt"
	"io"
	"log"
	"net"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

var transports = []string{"vmem", "vmem", "vmem-chunked", "inproc", "ipc", "tcp"}

// consumer receives all the time.
type consumer struct {
	name  string
	s     zmq4.Socket
	p     *vlib.Peer
	strip int
	gone  bool
	mu    sync.Mutex
	got   [][][]byte
	from  int // what came before this is done with
}

func (u *consumer) read() {
	for n := 0; ; {
		var f [][]byte
		var err error
		if u.s != nil {
			var m zmq4.Msg
			m, err = vlib.Get(u.s)
			f = m.Frames
		} else {
			f, err = u.p.ReadMsg()
		}
		if err != nil {
			if u.s == nil || !vlib.Again(err, &n) {
				return
			}
			continue
		}
		if len(f) < u.strip {
			f = [][]byte{[]byte("too short")}
		} else {
			f = f[u.strip:]
		}
		u.mu.Lock()
		u.got = append(u.got, f)
		u.mu.Unlock()
	}
}

func (u *consumer) recent() [][][]byte {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([][][]byte(nil), u.got[u.from:]...)
}

// TestDistribution has one sender and several consumers.
func TestDistribution(t *testing.T) {
	vlib.Run(t, 1200, 15000, "a PUSH or DEALER (dialing or listening; vmem, inproc, ipc, tcp) with 1-6 consumers (PULL, or DEALER and ROUTER; raw peers) goes through 1-6 epochs of 1-60 tagged messages sent one after the other, with consumers leaving and joining in between; in each epoch every message must reach exactly one consumer, unmodified, each consumer's in sending order, and the consumers' shares must differ by at most one; non-trivial: at least two consumers and more messages than consumers", func(c *vlib.C) {
		typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Push, zmq4.Dealer}).Draw(c.T, "type")
		kind := rapid.SampledFrom(transports).Draw(c.T, "transport")
		listens := rapid.Bool().Draw(c.T, "listens")
		c.D("%s %s listens=%v", typ, kind, listens)
		c.Class("%s listens=%v", typ, listens)
		tx := c.New(typ, quiet, zmq4.WithTimeout(vlib.Long), zmq4.WithAutomaticReconnect(false))
		ep := ""
		if listens {
			ep = c.Listen(tx, kind)
		}
		var us []*consumer
		live := func() (out []*consumer) {
			for _, u := range us {
				if !u.gone {
					out = append(out, u)
				}
			}
			return
		}
		join := func() {
			types := []zmq4.SocketType{zmq4.Pull}
			if typ == zmq4.Dealer {
				types = []zmq4.SocketType{zmq4.Dealer, zmq4.Router}
			}
			ct := rapid.SampledFrom(types).Draw(c.T, "consumer")
			raw := rapid.IntRange(0, 2).Draw(c.T, "raw") == 0
			u := &consumer{name: fmt.Sprintf("%s %d raw=%v", ct, len(us), raw)}
			switch {
			case raw && listens:
				u.p = c.DialRaw(ep)
				if err := u.p.Handshake(string(ct), ""); err != nil {
					c.Violation("handshake: %v", err)
				}
			case raw:
				name := vlib.MemName(nil, 0)
				l, err := vlib.MemListen(name)
				if err != nil {
					panic(err)
				}
				hs := make(chan error, 1)
				go func() {
					var conn net.Conn
					conn, err := l.Accept()
					if err == nil {
						u.p = vlib.NewPeer(conn)
						err = u.p.Handshake(string(ct), "")
					}
					hs <- err
				}()
				c.Dial(tx, "vmem://"+name)
				if err := <-hs; err != nil {
					c.Violation("handshake: %v", err)
				}
				l.Close()
				c.Cleanup(func() { u.p.Close() })
			default:
				u.s = c.New(ct, quiet, zmq4.WithAutomaticReconnect(false))
				if ct == zmq4.Router {
					u.strip = 1
				}
				if listens {
					c.Dial(u.s, ep)
				} else {
					c.Dial(tx, c.Listen(u.s, kind))
				}
			}
			c.D("%s joins", u.name)
			us = append(us, u)
			go u.read()
		}
		n := 0
		// settle sends until the set of connections is what it should be:
		// a message to each in turn.
		settle := func() {
			wait := time.Millisecond
			c.Must("every consumer gets its share of the messages", func() bool {
				wait = min(2*wait, 500*time.Millisecond)
				want := map[int]bool{}
				for i := 0; i < 2*len(live()); i++ {
					if err := c.SendErr(tx, false, vlib.TaggedPlain(n)...); err != nil {
						c.Violation("Send: %v", err)
					}
					want[n] = true
					n++
				}
				// those for a consumer that left never come
				return vlib.Eventually(wait, func() bool {
					for _, u := range live() {
						k := 0
						for _, f := range u.recent() {
							if want[vlib.TagOf(f)] {
								k++
							}
						}
						if k != 2 {
							return false
						}
					}
					return true
				})
			})
			for _, u := range live() {
				u.from += len(u.recent())
			}
		}
		for k := c.Count(1, 5, 25, "consumers"); k > 0; k-- {
			join()
		}
		settle()
		for e := rapid.IntRange(1, 6).Draw(c.T, "epochs"); e > 0; e-- {
			first := n
			var msgs [][][]byte
			for k := c.Count(1, 60, 600, "messages"); k > 0; k-- {
				if k > 6 {
					msgs = append(msgs, append(vlib.TaggedPlain(n), []byte{}))
				} else {
					msgs = append(msgs, c.Tagged(n, 100000))
				}
				n++
			}
			c.D("%d messages to %d", len(msgs), len(live()))
			if len(live()) > 1 && len(msgs) > len(live()) {
				c.Nontrivial()
			}
			for i, fs := range msgs {
				c.Send(tx, i%3 == 1, fs...)
			}
			count := func() (k int) {
				for _, u := range live() {
					k += len(u.recent())
				}
				return
			}
			if !vlib.Eventually(vlib.Long, func() bool { return count() >= len(msgs) }) {
				c.Violation("of %d messages to %d consumers %d arrive", len(msgs), len(live()), count())
			}
			by := map[int]*consumer{}
			least, most := len(msgs), 0
			for _, u := range live() {
				last := -1
				got := u.recent()
				u.from += len(got)
				for _, f := range got {
					tag := vlib.TagOf(f)
					if tag < first || tag >= n || !vlib.Same(f, msgs[tag-first]) {
						c.Violation("%s received %s, which was not sent", u.name, vlib.Clip(f))
					}
					if by[tag] != nil {
						c.Violation("message %d was received by %s and by %s", tag-first, by[tag].name, u.name)
					}
					by[tag] = u
					if tag < last {
						c.Violation("%s received message %d after message %d", u.name, tag-first, last-first)
					}
					last = tag
				}
				least, most = min(least, len(got)), max(most, len(got))
			}
			if most > least+1 {
				c.Violation("of %d messages to %d consumers one got %d and another %d", len(msgs), len(live()), most, least)
			}
			changed := false
			if ps := live(); len(ps) > 1 && rapid.IntRange(0, 2).Draw(c.T, "leave") == 0 {
				u := ps[rapid.IntRange(0, len(ps)-1).Draw(c.T, "who")]
				c.D("%s leaves", u.name)
				c.Class("leaving")
				u.gone = true
				changed = true
				if u.s != nil {
					u.s.Close()
				} else {
					u.p.Close()
				}
			}
			if len(live()) < 6 && rapid.IntRange(0, 2).Draw(c.T, "come") == 0 {
				join()
				changed = true
			}
			if changed {
				settle()
			}
		}
	})
}

// TestCollection has several senders and one receiver.
func TestCollection(t *testing.T) {
	vlib.Run(t, 1500, 20000, "a PULL, DEALER, ROUTER or PAIR (dialing or listening; vmem, inproc, ipc, tcp) with 1-6 senders (PUSH, DEALER, PAIR; raw peers) that send 0-60 tagged messages each at the same time, some sending on in a second round, some closing when done; every message of every sender must be received exactly once, unmodified and in its sender's order; non-trivial: at least two senders with messages", func(c *vlib.C) {
		typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Pull, zmq4.Dealer, zmq4.Router, zmq4.Pair}).Draw(c.T, "type")
		kind := rapid.SampledFrom(transports).Draw(c.T, "transport")
		listens := rapid.Bool().Draw(c.T, "listens")
		c.D("%s %s listens=%v", typ, kind, listens)
		c.Class("%s listens=%v", typ, listens)
		rx := c.New(typ, quiet, zmq4.WithAutomaticReconnect(false))
		ep := ""
		if listens {
			ep = c.Listen(rx, kind)
		}
		types := map[zmq4.SocketType][]zmq4.SocketType{
			zmq4.Pull: {zmq4.Push}, zmq4.Dealer: {zmq4.Dealer}, zmq4.Router: {zmq4.Dealer}, zmq4.Pair: {zmq4.Pair},
		}[typ]
		type sender struct {
			name string
			send func(multi bool, fs [][]byte) error
			end  func()
			msgs [][][]byte
			next int
		}
		var ss []*sender
		owner := map[int]*sender{}
		n, busy, total := 0, 0, 0
		for k := c.Count(1, 6, 25, "senders"); k > 0; k-- {
			st := rapid.SampledFrom(types).Draw(c.T, "sender")
			raw := listens && rapid.IntRange(0, 2).Draw(c.T, "raw") == 0
			x := &sender{name: fmt.Sprintf("%s %d raw=%v", st, len(ss), raw)}
			if raw {
				p := c.DialRaw(ep)
				if err := p.Handshake(string(st), ""); err != nil {
					c.Violation("handshake: %v", err)
				}
				x.send = func(_ bool, fs [][]byte) error { return p.WriteMsg(fs...) }
				x.end = func() { p.Close() }
			} else {
				s := c.New(st, quiet, zmq4.WithTimeout(vlib.Long), zmq4.WithAutomaticReconnect(false))
				if listens {
					c.Dial(s, ep)
				} else {
					c.Dial(rx, c.Listen(s, kind))
				}
				x.send = func(multi bool, fs [][]byte) error { return vlib.Put(s, multi, fs) }
				x.end = func() { s.Close() }
			}
			k := c.Count(0, 60, 600, "messages")
			for i := 0; i < k; i++ {
				if i > 5 {
					x.msgs = append(x.msgs, append(vlib.TaggedPlain(n), vlib.Fill(i, uint64(n))))
				} else {
					x.msgs = append(x.msgs, c.Tagged(n, 70000))
				}
				owner[n] = x
				n++
			}
			if k > 0 {
				busy++
			}
			total += k
			ss = append(ss, x)
		}
		if busy > 1 {
			c.Nontrivial()
		}
		c.D("%d senders, %d messages", len(ss), total)
		bad := vlib.NewBroken()
		for _, x := range ss {
			if len(x.msgs) == 0 {
				continue
			}
			closing := rapid.IntRange(0, 3).Draw(c.T, "closing") == 0
			go func() {
				for i, fs := range x.msgs {
					if err := x.send(i%2 == 0, fs); err != nil {
						bad.Add("%s could not send message %d: %v", x.name, i, err)
					}
				}
				if closing {
					x.end()
				}
			}()
		}
		errs := 0
		for got := 0; got < total; {
			m, err := c.RecvErr(rx)
			bad.Check(c)
			if err != nil {
				if errs++; errs > len(ss) {
					c.Violation("Recv: %v", err)
				}
				continue // about one that closed
			}
			f := m.Frames
			if typ == zmq4.Router && len(f) > 0 {
				f = f[1:]
			}
			x := owner[vlib.TagOf(f)]
			if x == nil {
				c.Violation("received %s, which nobody sent", vlib.Clip(f))
			}
			if x.next >= len(x.msgs) || !vlib.Same(f, x.msgs[x.next]) {
				c.Violation("received %s; the next of %s is number %d of %d", vlib.Clip(f), x.name, x.next, len(x.msgs))
			}
			x.next++
			got++
		}
		// nothing else: what is sent last comes next
		for _, x := range ss {
			if len(x.msgs) > 0 {
				continue
			}
			if err := x.send(false, vlib.TaggedPlain(n)); err != nil {
				c.Violation("%s could not send: %v", x.name, err)
			}
			for {
				m, err := c.RecvErr(rx)
				if err != nil {
					if errs++; errs > len(ss) {
						c.Violation("Recv: %v", err)
					}
					continue
				}
				f := m.Frames
				if typ == zmq4.Router && len(f) > 0 {
					f = f[1:]
				}
				if vlib.TagOf(f) != n {
					c.Violation("received %s again", vlib.Clip(f))
				}
				break
			}
			n++
		}
	})
}

// TestSlow has consumers that do not receive for a while, and senders that do
// not send, in several groups at once.
func TestSlow(t *testing.T) {
	vlib.Run(t, 4, 60, "10-16 groups at once of 1-3 senders (PUSH, DEALER), each connected to each of 1-3 consumers (PULL, DEALER, ROUTER) over tcp, ipc, inproc or vmem; each sender sends 10-150 messages, silent before a drawn one for 0-5 s, and each consumer does not receive for 0-5 s after a drawn number of messages; every message must be received exactly once in its group, unmodified, and each sender's in order at each consumer; non-trivial: always", func(c *vlib.C) {
		wait := func(what string) time.Duration {
			most := rapid.SampledFrom([]int{0, 400, 1500, 5000}).Draw(c.T, what)
			return time.Duration(rapid.IntRange(most/2, most).Draw(c.T, "ms")) * time.Millisecond
		}
		type group struct {
			what  string
			mu    sync.Mutex
			last  map[[2]int]int // of a sender, at a consumer
			seen  map[int]bool
			total int
			fill  int
			count int
		}
		bad := vlib.NewBroken()
		var gs []*group
		for k := rapid.IntRange(10, 16).Draw(c.T, "groups"); k > 0; k-- {
			pair := rapid.SampledFrom([][2]zmq4.SocketType{{zmq4.Push, zmq4.Pull}, {zmq4.Push, zmq4.Pull}, {zmq4.Dealer, zmq4.Dealer}, {zmq4.Dealer, zmq4.Router}}).Draw(c.T, "types")
			kind := rapid.SampledFrom([]string{"tcp", "ipc", "inproc", "vmem"}).Draw(c.T, "transport")
			listens := rapid.Bool().Draw(c.T, "senders listen")
			ns, nc := rapid.IntRange(1, 3).Draw(c.T, "senders"), rapid.IntRange(1, 3).Draw(c.T, "consumers")
			g := &group{last: map[[2]int]int{}, seen: map[int]bool{}, fill: rapid.SampledFrom([]int{0, 50, 5000}).Draw(c.T, "size")}
			g.what = fmt.Sprintf("%d %s to %d %s over %s, senders listen=%v", ns, pair[0], nc, pair[1], kind, listens)
			c.D("%s", g.what)
			var txs, rxs []zmq4.Socket
			var eps []string
			for i := 0; i < ns; i++ {
				s := c.New(pair[0], quiet, zmq4.WithTimeout(2*vlib.Long))
				txs = append(txs, s)
				if listens {
					eps = append(eps, c.Listen(s, kind))
				}
			}
			for i := 0; i < nc; i++ {
				s := c.New(pair[1], quiet)
				rxs = append(rxs, s)
				if listens {
					for _, ep := range eps {
						c.Dial(s, ep)
					}
					continue
				}
				ep := c.Listen(s, kind)
				for _, x := range txs {
					c.Dial(x, ep)
				}
			}
			msg := func(tag int) [][]byte {
				return append(vlib.TaggedPlain(tag), vlib.Fill(g.fill, uint64(tag)))
			}
			for i, s := range txs {
				n := rapid.IntRange(10, 150).Draw(c.T, "messages")
				silent, idle := rapid.IntRange(0, n-1).Draw(c.T, "silent before"), wait("silence")
				c.D("  %d messages, %v of silence before number %d", n, idle, silent)
				g.total += n
				go func() {
					for k := 0; k < n; k++ {
						if k == silent {
							time.Sleep(idle)
						}
						if err := vlib.Put(s, k%2 == 0, msg(i<<16|k)); err != nil {
							bad.Add("%s: Send: %v", g.what, err)
							return
						}
					}
				}()
			}
			for j, s := range rxs {
				late, pause := rapid.IntRange(0, 60).Draw(c.T, "late after"), wait("pause")
				c.D("  a pause of %v after %d received", pause, late)
				strip := 0
				if pair[1] == zmq4.Router {
					strip = 1
				}
				go func() {
					for n, errs := 0, 0; ; n++ {
						if n == late {
							time.Sleep(pause)
						}
						m, err := vlib.Get(s)
						if err != nil {
							if !vlib.Again(err, &errs) {
								return
							}
							n--
							continue
						}
						f := m.Frames
						if len(f) < strip {
							bad.Add("%s: received %s", g.what, vlib.Clip(f))
							return
						}
						f = f[strip:]
						tag := vlib.TagOf(f)
						g.mu.Lock()
						at := [2]int{tag >> 16, j}
						last, ok := g.last[at]
						switch {
						case tag < 0 || !vlib.Same(f, msg(tag)):
							bad.Add("%s: received %s, which was not sent", g.what, vlib.Clip(f))
						case g.seen[tag]:
							bad.Add("%s: message %d of sender %d was received twice", g.what, tag&0xffff, tag>>16)
						case ok && last > tag:
							bad.Add("%s: message %d of sender %d was received after message %d", g.what, tag&0xffff, tag>>16, last&0xffff)
						}
						g.seen[tag] = true
						g.last[at] = tag
						g.count++
						g.mu.Unlock()
					}
				}()
			}
			gs = append(gs, g)
		}
		c.Nontrivial()
		end := time.Now().Add(vlib.Long + 12*time.Second)
		for _, g := range gs {
			for {
				bad.Check(c)
				g.mu.Lock()
				n := g.count
				g.mu.Unlock()
				if n >= g.total {
					break
				}
				if time.Now().After(end) {
					c.Violation("%s: of %d messages %d arrive", g.what, g.total, n)
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
		bad.Check(c)
	})
}
