// Package c09: a requester rotates over its live repliers and fails over.
package c09

import (
	"fmt"
	"io"
	"log"
	"net"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

// replier answers with its name.
type replier struct {
	name string
	p    *vlib.Peer  // a raw one
	s    zmq4.Socket // or a socket
	mu   sync.Mutex
	die  bool // on its next request, instead of answering
	dead bool
	seen int
}

func (r *replier) serve() {
	for {
		if r.s != nil {
			m, err := vlib.Get(r.s)
			if err != nil {
				return
			}
			r.mu.Lock()
			r.seen++
			die := r.die
			r.mu.Unlock()
			if die {
				r.s.Close()
				return
			}
			if vlib.Put(r.s, false, [][]byte{[]byte(r.name), m.Frames[0]}) != nil {
				return
			}
			continue
		}
		f, err := r.p.ReadMsg()
		if err != nil || len(f) < 2 {
			return
		}
		r.mu.Lock()
		r.seen++
		die := r.die
		r.mu.Unlock()
		if die {
			r.p.Close()
			return
		}
		if r.p.WriteMsg([]byte{}, []byte(r.name), f[1]) != nil {
			return
		}
	}
}

func (r *replier) kill() {
	r.dead = true
	if r.s != nil {
		r.s.Close()
	} else {
		r.p.Close()
	}
}

// TestRotation sends requests while repliers come and go.
func TestRotation(t *testing.T) {
	vlib.Run(t, 1500, 25000, "a REQ (listening, or dialing without reconnection) with 1-6 repliers (REP sockets and raw peers; in-memory, ipc, tcp) goes through 2-14 steps: a number of exchanges, repliers killed at rest, repliers that die on receiving a request, new ones; with m live repliers any m consecutive requests must go to m different ones; each death may cost at most one exchange, with an error and not a hang, and disturb the turns once; with nobody left Send must fail, and work again when somebody new comes; non-trivial: somebody dies while others live", func(c *vlib.C) {
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "ipc", "tcp"}).Draw(c.T, "transport")
		listens := rapid.Bool().Draw(c.T, "listens")
		c.D("%s listens=%v", kind, listens)
		c.Class("%s listens=%v", kind, listens)
		req := c.New(zmq4.Req, quiet, zmq4.WithAutomaticReconnect(false))
		ep := ""
		if listens {
			ep = c.Listen(req, kind)
		}
		var rs []*replier
		live := func() (n int) {
			for _, r := range rs {
				if !r.dead {
					n++
				}
			}
			return
		}
		add := func() {
			r := &replier{name: vlib.Unique("r")}
			raw := rapid.Bool().Draw(c.T, "raw")
			switch {
			case raw && listens:
				r.p = c.DialRaw(ep)
				if err := r.p.Handshake("REP", ""); err != nil {
					c.Violation("handshake: %v", err)
				}
			case raw:
				name := vlib.MemName(nil, 0)
				l, err := vlib.MemListen(name)
				if err != nil {
					panic(err)
				}
				conns := make(chan net.Conn, 1)
				hs := make(chan error, 1)
				go func() {
					conn, _ := l.Accept()
					r.p = vlib.NewPeer(conn)
					hs <- r.p.Handshake("REP", "")
					conns <- conn
				}()
				c.Dial(req, "vmem://"+name)
				if err := <-hs; err != nil {
					c.Violation("handshake: %v", err)
				}
				l.Close()
				c.Cleanup(func() { r.p.Close() })
			default:
				r.s = c.New(zmq4.Rep, quiet, zmq4.WithAutomaticReconnect(false))
				if listens {
					c.Dial(r.s, ep)
				} else {
					c.Dial(req, c.Listen(r.s, kind))
				}
			}
			c.D("%s joins raw=%v", r.name, raw)
			rs = append(rs, r)
			go r.serve()
		}
		nreq := 0
		// exchange returns who answered.
		exchange := func() (string, error) {
			nreq++
			body := fmt.Sprintf("q%d", nreq)
			if err := c.SendErr(req, rapid.Bool().Draw(c.T, "multi"), []byte(body)); err != nil {
				return "", fmt.Errorf("send: %w", err)
			}
			m, err := c.RecvErr(req)
			if err != nil {
				return "", err
			}
			if len(m.Frames) != 2 || string(m.Frames[1]) != body {
				c.Violation("request %q was answered by %s", body, vlib.Clip(m.Frames))
			}
			return string(m.Frames[0]), nil
		}
		var last []string // the repliers of the latest requests, since the set changed
		allowance := 0    // of failed exchanges
		hiccups := 0      // of the rotation, when the set changes
		ask := func() {
			for {
				who, err := exchange()
				if err != nil {
					allowance--
					if allowance < 0 {
						c.Violation("an exchange fails with %d of %d repliers alive: %v", live(), len(rs), err)
					}
					last = nil
					continue
				}
				for _, r := range rs {
					if r.name == who && r.dead {
						c.Violation("answered by %s, which is dead", who)
					}
				}
				last = append(last, who)
				break
			}
			m := live()
			for i := len(last) - 2; i >= 0 && i > len(last)-1-m; i-- {
				if last[i] == last[len(last)-1] && hiccups > 0 {
					hiccups--
					last = last[len(last)-1:]
					break
				}
				if last[i] == last[len(last)-1] {
					c.Violation("of %d live repliers, %s gets two of the requests %v", m, last[i], last[i:])
				}
			}
		}
		// settle waits until new repliers get their turn.
		settle := func() {
			if live() == 0 {
				return
			}
			c.Must("a new replier is used", func() bool {
				seen := map[string]bool{}
				for i := 0; i < 2*live(); i++ {
					who, err := exchange()
					if err != nil {
						return false
					}
					seen[who] = true
				}
				return len(seen) == live()
			})
			last = nil
		}
		for n := c.Count(1, 6, 20, "repliers"); n > 0; n-- {
			add()
		}
		settle()
		for n := rapid.IntRange(2, 14).Draw(c.T, "steps"); n > 0; n-- {
			var alive []*replier
			for _, r := range rs {
				if !r.dead {
					alive = append(alive, r)
				}
			}
			step := rapid.IntRange(0, 7).Draw(c.T, "step")
			switch {
			case step == 0 && len(alive) < 6:
				add()
				settle()
				// a dead replier may still be taken out of the rotation later
				allowance = 0
			case (step == 1 || step == 2) && len(alive) > 0:
				// some die at rest
				for k := rapid.IntRange(1, len(alive)).Draw(c.T, "deaths"); k > 0; k-- {
					i := rapid.IntRange(0, len(alive)-1).Draw(c.T, "who")
					c.D("%s dies", alive[i].name)
					alive[i].kill()
					alive = append(alive[:i:i], alive[i+1:]...)
					allowance++
					hiccups++
				}
				last = nil
				if len(alive) > 0 {
					c.Nontrivial()
				}
				c.Class("death at rest")
			case step == 3 && len(alive) > 0:
				i := rapid.IntRange(0, len(alive)-1).Draw(c.T, "who")
				r := alive[i]
				c.D("%s dies on its next request", r.name)
				c.Class("death on request")
				if len(alive) > 1 {
					c.Nontrivial()
				}
				r.mu.Lock()
				r.die = true
				r.mu.Unlock()
				failed := false
				for k := 0; k < len(alive)+allowance && !failed; k++ {
					_, err := exchange()
					failed = err != nil
					if err != nil && allowance > 0 {
						// it may have been the loss of another one
						allowance--
						failed = false
					}
				}
				r.kill()
				allowance++
				hiccups++
				last = nil
			case len(alive) == 0:
				// nobody is left: Send says so
				c.Class("nobody left")
				c.Must("Send fails without repliers", func() bool {
					_, err := exchange()
					return err != nil && err.Error()[:4] == "send"
				})
				if _, err := exchange(); err == nil {
					c.Violation("an exchange succeeds without repliers")
				}
				allowance = 0
			default:
				k := rapid.IntRange(1, 3*len(alive)).Draw(c.T, "exchanges")
				c.D("%d exchanges", k)
				for ; k > 0; k-- {
					ask()
				}
			}
		}
		if live() > 0 {
			for k := 2 * live(); k > 0; k-- {
				ask()
			}
		}
	})
}

// TestDeathInSend kills repliers while requests are being written.
func TestDeathInSend(t *testing.T) {
	vlib.Run(t, 300, 5000, "a REQ with 2-4 repliers sends requests of up to 2 MB while a drawn raw replier that stopped reading, over a connection that buffers little, dies in the middle of the write, or all do: Send must return and the next exchanges succeed via the others, or fail if there are none; non-trivial: every case", func(c *vlib.C) {
		req := c.New(zmq4.Req, quiet, zmq4.WithTimeout(vlib.Long))
		name := vlib.MemName(nil, rapid.IntRange(300, 5000).Draw(c.T, "buffer"))
		if err := req.Listen("vmem://" + name); err != nil {
			c.Violation("listen: %v", err)
		}
		n := rapid.IntRange(2, 4).Draw(c.T, "repliers")
		stuck := rapid.IntRange(1, n).Draw(c.T, "stuck")
		size := rapid.SampledFrom([]int{6000, 100000, 2 << 20}).Draw(c.T, "size")
		all := stuck == n
		c.D("%d repliers, %d stuck, %d bytes", n, stuck, size)
		c.Class("all: %v", all)
		c.Nontrivial()
		var peers []*vlib.Peer
		used := make(chan int, 1000)
		for i := 0; i < n; i++ {
			p := c.Join(req, "vmem://"+name, "")
			peers = append(peers, p)
			go func() {
				for {
					f, err := p.ReadMsg()
					if err != nil || p.WriteMsg([]byte{}, []byte("re"), f[1][:min(4, len(f[1]))]) != nil {
						return
					}
					if len(f[1]) == 4 {
						used <- i
					} else if i < stuck {
						return
					}
					if string(f[1]) == "last" && i < stuck {
						return // and read no more
					}
				}
			}()
		}
		// all are connected
		c.Must("all repliers are used", func() bool {
			for k := 0; k < n; k++ {
				if c.SendErr(req, false, []byte("init")) != nil {
					return false
				}
				c.Recv(req)
			}
			seen := map[int]bool{}
			for k := 0; k < n; k++ {
				seen[<-used] = true
			}
			return len(seen) == n
		})
		for k := 0; k < n; k++ {
			c.Send(req, false, []byte("last"))
			c.Recv(req)
		}
		// those that are stuck die in the middle of a write
		over := make(chan struct{})
		defer close(over)
		for _, p := range peers[:stuck] {
			conn := p.Conn.(*vlib.MemConn)
			go func() {
				for conn.Pending() == 0 {
					select {
					case <-over:
						return
					case <-time.After(200 * time.Microsecond):
					}
				}
				conn.Close()
			}()
		}
		fails := 0
		for ok := 0; ok < 3; {
			err := c.SendErr(req, rapid.Bool().Draw(c.T, "multi"), vlib.Fill(size, 1))
			if err == nil {
				var m zmq4.Msg
				m, err = c.RecvErr(req)
				if err == nil && (len(m.Frames) != 2 || string(m.Frames[0]) != "re") {
					c.Violation("got %s", vlib.Clip(m.Frames))
				}
			}
			if err != nil {
				fails++
				if all && fails > n {
					if err := c.SendErr(req, false, []byte("x")); err == nil {
						if _, err = c.RecvErr(req); err == nil {
							c.Violation("an exchange succeeds without repliers")
						}
					}
					return
				}
				if !all && fails > stuck {
					c.Violation("exchange %d fails with %d of %d repliers alive: %v", fails, n-stuck, n, err)
				}
				if all {
					time.Sleep(5 * time.Millisecond)
				}
				continue
			}
			ok++
		}
		if all {
			c.Violation("exchanges succeed without repliers")
		}
	})
}
