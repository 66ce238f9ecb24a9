package c17

import (
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

const toklen = 12

func token(n int) []byte { return []byte(fmt.Sprintf("%0*d", toklen, n)) }

type dialed struct {
	conn net.Conn
	tok  int
}

type accepted struct {
	conn net.Conn
	err  error
}

type lis struct {
	l      *inproc.Listener
	addr   int
	open   bool
	queue  map[int]*dialed // dialed, not accepted yet
	waits  []chan accepted // blocked Accepts
	closes int
}

// TestHistory runs a history over a few addresses against a model.
func TestHistory(t *testing.T) {
	vlib.Run(t, 4000, 100000, "4-50 steps over 1-3 addresses: listen, dial, accept (with dialers waiting), an Accept that blocks until a dialer comes or the listener is closed, close and close again (also of a listener whose address was taken over); every connection exchanges tokens both ways, also after its listener closed; non-trivial: an address bound again after a close, and a close with calls pending or dialers unaccepted, or a refused second listener", func(c *vlib.C) {
		base := vlib.Unique("c17-") + "-"
		na := rapid.IntRange(1, 3).Draw(c.T, "addresses")
		var all []*lis
		bound := map[int]*lis{}
		wasClosed := map[int]bool{}
		rebound, busy, dup := false, false, false
		toks := 0
		type link struct{ a, d net.Conn }
		var links []link
		c.Cleanup(func() {
			for _, l := range all {
				l.l.Close()
			}
		})
		readTok := func(conn net.Conn, what string) string {
			b := make([]byte, toklen)
			var err error
			c.Within(what, func() {
				conn.SetReadDeadline(time.Now().Add(vlib.Long))
				_, err = io.ReadFull(conn, b)
			})
			if err != nil {
				c.Violation("%s: %v", what, err)
			}
			return string(b)
		}
		pass := func(from, to net.Conn) {
			toks++
			if _, err := from.Write(token(toks)); err != nil {
				c.Violation("Write on an established connection: %v", err)
			}
			if got := readTok(to, "reading on an established connection"); got != string(token(toks)) {
				c.Violation("sent %s, the other end read %s", token(toks), got)
			}
		}
		matched := func(l *lis, a accepted) {
			if a.err != nil {
				c.Violation("Accept on an open listener: %v", a.err)
			}
			got := readTok(a.conn, "reading the token of an accepted connection")
			var n int
			fmt.Sscanf(got, "%d", &n)
			d := l.queue[n]
			if d == nil {
				c.Violation("accepted a connection with token %s, which is not waiting at address %d", got, l.addr)
			}
			delete(l.queue, n)
			links = append(links, link{a.conn, d.conn})
			pass(a.conn, d.conn)
			pass(d.conn, a.conn)
		}
		dial := func(i int) {
			conn, err := inproc.Dial(fmt.Sprint(base, i))
			l := bound[i]
			if l == nil {
				if err == nil {
					c.Violation("Dial succeeded on address %d, which is not bound", i)
				}
				return
			}
			if err != nil {
				c.Violation("Dial on the bound address %d: %v", i, err)
			}
			toks++
			if _, err := conn.Write(token(toks)); err != nil {
				c.Violation("Write on a dialed connection: %v", err)
			}
			l.queue[toks] = &dialed{conn, toks}
		}
		steps := c.Count(4, 50, 300, "steps")
		for s := 0; s < steps; s++ {
			switch op := rapid.SampledFrom([]string{"listen", "listen", "dial", "dial", "dial", "accept", "accept", "block", "close", "close", "reclose", "talk", "hangup"}).Draw(c.T, "op"); op {
			case "listen":
				i := rapid.IntRange(0, na-1).Draw(c.T, "addr")
				l, err := inproc.Listen(fmt.Sprint(base, i))
				c.D("listen %d", i)
				if bound[i] != nil {
					dup = true
					if err == nil {
						l.Close()
						c.Violation("address %d was bound a second time", i)
					}
					continue
				}
				if err != nil {
					c.Violation("Listen on the free address %d: %v", i, err)
				}
				x := &lis{l: l, addr: i, open: true, queue: map[int]*dialed{}}
				rebound = rebound || wasClosed[i]
				bound[i] = x
				all = append(all, x)
			case "dial":
				i := rapid.IntRange(0, na-1).Draw(c.T, "addr")
				c.D("dial %d", i)
				dial(i)
				if l := bound[i]; l != nil && len(l.waits) > 0 {
					w := l.waits[0]
					// which of the blocked Accepts gets it is open
					var a accepted
					c.Within("a blocked Accept, a dialer coming,", func() {
						for {
							for k, x := range l.waits {
								select {
								case a = <-x:
									l.waits = append(l.waits[:k:k], l.waits[k+1:]...)
									return
								default:
								}
							}
							time.Sleep(20 * time.Microsecond)
						}
					})
					_ = w
					matched(l, a)
				}
			case "accept":
				i := rapid.IntRange(0, na-1).Draw(c.T, "addr")
				l := bound[i]
				if l == nil || len(l.queue) == 0 {
					continue
				}
				c.D("accept %d", i)
				var a accepted
				c.Within("Accept with a dialer waiting", func() { a.conn, a.err = l.l.Accept() })
				matched(l, a)
			case "block":
				i := rapid.IntRange(0, na-1).Draw(c.T, "addr")
				l := bound[i]
				if l == nil || len(l.queue) > 0 || len(l.waits) > 2 {
					continue
				}
				c.D("block %d", i)
				w := make(chan accepted, 1)
				go func() {
					conn, err := l.l.Accept()
					w <- accepted{conn, err}
				}()
				l.waits = append(l.waits, w)
				if rapid.Bool().Draw(c.T, "wait") {
					time.Sleep(50 * time.Microsecond)
					select {
					case a := <-w:
						c.Violation("Accept returned (%v) though nobody dialed", a.err)
					default:
					}
				}
			case "close", "reclose":
				var cand []*lis
				for _, l := range all {
					if l.open == (op == "close") {
						cand = append(cand, l)
					}
				}
				if len(cand) == 0 {
					continue
				}
				l := rapid.SampledFrom(cand).Draw(c.T, "listener")
				c.D("%s %d(%d waiting, %d blocked)", op, l.addr, len(l.queue), len(l.waits))
				c.Within("Close", func() { l.l.Close() })
				if op == "reclose" {
					continue
				}
				busy = busy || len(l.queue) > 0 || len(l.waits) > 0
				l.open = false
				delete(bound, l.addr)
				wasClosed[l.addr] = true
				for _, w := range l.waits {
					var a accepted
					c.Within("a blocked Accept, the listener being closed,", func() { a = <-w })
					if a.err == nil {
						c.Violation("Accept returned a connection nobody dialed when the listener was closed")
					}
				}
				l.waits = nil
				var err error
				c.Within("Accept on a closed listener", func() { _, err = l.l.Accept() })
				if err == nil {
					c.Violation("Accept on a closed listener succeeded")
				}
				for _, d := range l.queue {
					c.Within("reading at a dialer nobody accepted", func() { _, err = io.ReadFull(d.conn, make([]byte, 1)) })
					if err == nil {
						c.Violation("an unaccepted dialer read something")
					}
				}
			case "talk":
				if len(links) > 0 {
					l := rapid.SampledFrom(links).Draw(c.T, "link")
					c.D("talk")
					pass(l.a, l.d)
					pass(l.d, l.a)
				}
			case "hangup":
				if len(links) > 0 {
					i := rapid.IntRange(0, len(links)-1).Draw(c.T, "link")
					c.D("hangup")
					l := links[i]
					links = append(links[:i:i], links[i+1:]...)
					l.a.Close()
					var err error
					c.Within("reading after a hang-up", func() { _, err = l.d.Read(make([]byte, 1)) })
					if err != io.EOF {
						c.Violation("the other end of a closed connection read %v", err)
					}
					l.d.Close()
				}
			}
			for _, l := range all {
				if l.l.Addr().Network() != "inproc" {
					c.Violation("Addr() is %v", l.l.Addr())
				}
			}
		}
		for _, l := range links {
			pass(l.a, l.d)
			pass(l.d, l.a)
		}
		if rebound && busy || dup {
			c.Nontrivial()
		}
	})
}

// TestConcurrent has dialers, acceptors and listeners run against each other.
func TestConcurrent(t *testing.T) {
	vlib.Run(t, 400, 10000, "1-6 dialers making 1-30 dials each, 1-4 acceptors, and the listener closed and opened again up to 6 times meanwhile; every dial that succeeded is accepted exactly once or ends; non-trivial: several dialers and acceptors and a re-opened listener", func(c *vlib.C) {
		addr := vlib.Unique("c17c-")
		nd := rapid.IntRange(1, 6).Draw(c.T, "dialers")
		nn := rapid.IntRange(1, 30).Draw(c.T, "dials")
		na := rapid.IntRange(1, 4).Draw(c.T, "acceptors")
		cycles := rapid.IntRange(0, 6).Draw(c.T, "cycles")
		gap := rapid.IntRange(0, 200).Draw(c.T, "gap µs")
		c.D("%d×%d dials, %d acceptors, %d cycles, %d µs", nd, nn, na, cycles, gap)
		if nd > 1 && na > 1 && cycles > 0 {
			c.Nontrivial()
		}
		var mu sync.Mutex
		seen := map[string]int{}
		errs := make(chan error, 100)
		var acc, dls, handlers sync.WaitGroup
		handle := func(a net.Conn) {
			defer handlers.Done()
			a.SetReadDeadline(time.Now().Add(vlib.Long))
			b := make([]byte, toklen)
			if _, err := io.ReadFull(a, b); err != nil {
				// no token: only a dialer that never was
				errs <- fmt.Errorf("accepted connection without a dialer: %v", err)
				return
			}
			mu.Lock()
			seen[string(b)]++
			mu.Unlock()
			if _, err := a.Write(b); err != nil {
				errs <- fmt.Errorf("answering: %v", err)
			}
		}
		listen := func() *inproc.Listener {
			l, err := inproc.Listen(addr)
			if err != nil {
				c.Violation("Listen on the free address: %v", err)
			}
			for i := 0; i < na; i++ {
				acc.Add(1)
				go func() {
					defer acc.Done()
					for {
						a, err := l.Accept()
						if err != nil {
							return
						}
						handlers.Add(1)
						go handle(a)
					}
				}()
			}
			return l
		}
		l := listen()
		var served, ended, refused atomic.Int64
		answered := make([]map[string]bool, nd)
		for d := 0; d < nd; d++ {
			answered[d] = map[string]bool{}
			dls.Add(1)
			go func() {
				defer dls.Done()
				for i := 0; i < nn; i++ {
					conn, err := inproc.Dial(addr)
					if err != nil {
						refused.Add(1)
						time.Sleep(10 * time.Microsecond)
						continue
					}
					tok := token(d*1000 + i + 1)
					conn.Write(tok)
					b := make([]byte, toklen)
					conn.SetReadDeadline(time.Now().Add(vlib.Long))
					_, err = io.ReadFull(conn, b)
					switch {
					case err == nil && string(b) == string(tok):
						served.Add(1)
						answered[d][string(tok)] = true
					case err == nil:
						errs <- fmt.Errorf("dialer %s got the answer %s", tok, b)
					default:
						if ne, ok := err.(net.Error); ok && ne.Timeout() {
							errs <- fmt.Errorf("a dialer was neither accepted nor refused")
						}
						ended.Add(1)
					}
					conn.Close()
				}
			}()
		}
		for k := 0; k < cycles; k++ {
			time.Sleep(time.Duration(gap) * time.Microsecond)
			c.Within("Close", func() { l.Close() })
			c.Within("Accepts ending at Close", acc.Wait)
			l = listen()
		}
		done := func() { dls.Wait() }
		c.Within("dialing", done)
		l.Close()
		c.Within("Accepts ending at Close", acc.Wait)
		c.Within("the handlers", handlers.Wait)
		select {
		case err := <-errs:
			c.Violation("%v", err)
		default:
		}
		for tok, n := range seen {
			if n != 1 {
				c.Violation("token %s was accepted %d times", tok, n)
			}
		}
		for d := range answered {
			for tok := range answered[d] {
				if seen[tok] != 1 {
					c.Violation("token %s answered, accepted %d times", tok, seen[tok])
				}
			}
		}
		if cycles == 0 && (refused.Load() > 0 || ended.Load() > 0) {
			c.Violation("%d dials refused, %d ended, though the listener stayed open", refused.Load(), ended.Load())
		}
		c.Class("served %v refused %v ended %v", served.Load() > 0, refused.Load() > 0, ended.Load() > 0)
	})
}
