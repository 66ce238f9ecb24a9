// Package c13: Close ends every blocked call and releases everything the
// socket held.
package c13

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

func TestMain(m *testing.M) {
	// sockets print about failed handshakes there
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	// what the runtime keeps for its network poller is not to be counted
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		l.Close()
	}
	os.Exit(m.Run())
}

// call is an operation in flight.
type call struct {
	name string
	done chan struct{}
	err  error
	must bool // it cannot succeed
}

func start(name string, must bool, f func() error) *call {
	x := &call{name: name, done: make(chan struct{}), must: must}
	go func() {
		x.err = f()
		close(x.done)
	}()
	return x
}

func (x *call) running() bool {
	select {
	case <-x.done:
		return false
	default:
		return true
	}
}

func receives(t zmq4.SocketType) bool {
	return t != zmq4.Pub && t != zmq4.Push && t != zmq4.XPub
}

// flood has p write messages until the connection ends.
func flood(typ zmq4.SocketType, p *vlib.Peer) {
	for i := 0; ; i++ {
		var err error
		switch typ {
		case zmq4.Rep, zmq4.Req:
			err = p.WriteMsg([]byte{}, []byte("flood"))
		case zmq4.Pub, zmq4.XPub:
			err = p.WriteMsg(append([]byte{byte(1 - i%2)}, fmt.Sprint("t", i/2)...))
		default:
			err = p.WriteMsg([]byte("flood"), vlib.Fill(300, uint64(i)))
		}
		if err != nil {
			return
		}
	}
}

// TestClose closes sockets in all sorts of states.
func TestClose(t *testing.T) {
	vlib.Run(t, 1500, 25000, "a socket of any type listens (vmem, inproc, ipc, tcp), dials sockets or raw peers, or neither, and has a drawn set of things going on: raw peers that are idle, flood it, read nothing, stay silent before or in the middle of the handshake; dialed peers that do, or have died with reconnection under way; Recv blocked in 1-3 goroutines, Send blocked for want of a peer or on one that does not read, Dial retrying, unanswered, or stuck in its handshake; publishing and receiving loops; then it is closed (once or by several goroutines) or its context cancelled and it is closed later; all calls must end, with an error where they could not succeed, later calls and a second Close fail, every peer see its connection end, the endpoint be free, and no goroutine, connection or descriptor be left; non-trivial: at least two things are going on", func(c *vlib.C) {
		fds := vlib.Descriptors()
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "inproc", "ipc", "tcp"}).Draw(c.T, "transport")
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		reconnect := rapid.Bool().Draw(c.T, "reconnect")
		timeout := 5 * time.Minute
		s := c.Sock(vlib.Make(typ, ctx, quiet, zmq4.WithTimeout(timeout), zmq4.WithDialerRetry(time.Duration(rapid.IntRange(1, 400).Draw(c.T, "retry"))*time.Millisecond),
			zmq4.WithDialerMaxRetries(-1), zmq4.WithAutomaticReconnect(reconnect)))
		c.D("%s %s reconnect=%v", typ, kind, reconnect)
		if typ == zmq4.Sub {
			s.SetOption(zmq4.OptionSubscribe, "")
		}
		var calls []*call
		var over atomic.Bool
		var raws []*vlib.Peer
		var others []zmq4.Socket
		ep := ""
		going := 0
		listens := rapid.IntRange(0, 3).Draw(c.T, "listens") > 0
		if listens {
			ep = c.Fresh(kind)
			if kind == "tcp" {
				ep = c.Fixed(kind)
			}
			if kind == "vmem" {
				ep = "vmem://" + vlib.MemName(nil, rapid.SampledFrom([]int{0, 300}).Draw(c.T, "buffer"))
			}
			if err := s.Listen(ep); err != nil {
				c.Violation("listen: %v", err)
			}
			for k := rapid.IntRange(0, 4).Draw(c.T, "peers"); k > 0; k-- {
				going++
				switch what := rapid.SampledFrom([]string{"idle", "flood", "deaf", "silent", "half", "socket", "gone"}).Draw(c.T, "peer"); what {
				case "socket":
					o := c.New(vlib.Partner(typ), quiet, zmq4.WithDialerMaxRetries(1), zmq4.WithDialerRetry(time.Millisecond))
					if o.Type() == zmq4.Sub {
						o.SetOption(zmq4.OptionSubscribe, "")
					}
					c.Dial(o, ep)
					others = append(others, o)
					c.D("%s", what)
				case "silent", "half":
					p := c.DialRaw(ep)
					if what == "half" {
						p.Write(vlib.Greeting("NULL", 0, 3, 0)[:rapid.IntRange(1, 64).Draw(c.T, "bytes")])
					}
					raws = append(raws, p)
					go io.Copy(io.Discard, p.R)
					c.D("%s", what)
				default:
					p := c.Join(s, ep, "")
					raws = append(raws, p)
					if typ == zmq4.Pub || typ == zmq4.XPub {
						p.WriteMsg([]byte{1})
					}
					if what == "flood" {
						go flood(typ, p)
					}
					if what != "deaf" {
						go io.Copy(io.Discard, p.R)
					}
					if what == "gone" {
						p.Close()
					}
					c.D("%s", what)
				}
				c.Class("peer")
			}
		}
		for k := rapid.IntRange(0, 2).Draw(c.T, "dialed"); k > 0; k-- {
			going++
			switch what := rapid.SampledFrom([]string{"socket", "raw", "died", "unbound", "hole", "silent"}).Draw(c.T, "dial"); what {
			case "socket":
				o := c.New(vlib.Partner(typ), quiet)
				c.Dial(s, c.Listen(o, kind))
				others = append(others, o)
				c.D("dials a socket")
			case "raw", "died", "silent":
				name := vlib.MemName(nil, rapid.SampledFrom([]int{0, 300}).Draw(c.T, "buffer"))
				l, err := vlib.MemListen(name)
				if err != nil {
					panic(err)
				}
				got := make(chan *vlib.Peer, 1)
				go func() {
					var conn net.Conn
					conn, err := l.Accept()
					if err != nil {
						got <- nil
						return
					}
					p := vlib.NewPeer(conn)
					if what != "silent" {
						p.Handshake(string(vlib.Partner(typ)), "")
					}
					got <- p
				}()
				x := start("Dial "+what, what == "silent", func() error { return s.Dial("vmem://" + name) })
				var p *vlib.Peer
				c.Within("a dialed connection", func() { p = <-got })
				if what == "silent" {
					calls = append(calls, x)
				} else {
					c.Within("Dial", func() { <-x.done })
					if x.err != nil {
						c.Violation("Dial: %v", x.err)
					}
				}
				go io.Copy(io.Discard, p.R)
				c.Cleanup(func() { p.Close() })
				if what == "died" {
					l.Close()
					p.Close()
				} else {
					raws = append(raws, p)
					l.Close()
				}
				c.D("dials %s", what)
			case "unbound":
				to := map[string]string{"vmem": "vmem://nobody", "inproc": "inproc://nobody", "ipc": "ipc://" + filepath.Join(c.Dir(), "nobody"), "tcp": fmt.Sprintf("tcp://127.0.0.1:%d", vlib.FreePort())}[kind]
				calls = append(calls, start("Dial unbound", true, func() error { return s.Dial(to) }))
				c.D("dials nobody")
			case "hole":
				calls = append(calls, start("Dial hole", true, func() error { return s.Dial("vmem://hole") }))
				c.D("dials a hole")
			}
		}
		// calls; a loop only ends with an error
		for k := rapid.IntRange(0, 3).Draw(c.T, "receivers"); k > 0; k-- {
			if !receives(typ) && typ != zmq4.XPub {
				break
			}
			going++
			calls = append(calls, start("Recv", true, func() error {
				for {
					if _, err := s.Recv(); err != nil {
						if over.Load() {
							return err
						}
						// about a peer, or there is nobody to receive from
						time.Sleep(time.Millisecond)
					}
				}
			}))
		}
		for k := rapid.IntRange(0, 3).Draw(c.T, "senders"); k > 0; k-- {
			if typ == zmq4.Pull {
				break
			}
			going++
			size := rapid.SampledFrom([]int{10, 10, 20000}).Draw(c.T, "size")
			multi := rapid.Bool().Draw(c.T, "multi")
			calls = append(calls, start("Send", true, func() error {
				for {
					fs := [][]byte{[]byte("nobody"), vlib.Fill(size, 1)}
					err := vlib.Put(s, multi, fs)
					if err != nil {
						if over.Load() {
							return err
						}
						time.Sleep(time.Millisecond)
					}
				}
			}))
		}
		if going > 1 {
			c.Nontrivial()
		}
		c.D("%d calls", len(calls))
		time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 0, 200, 3000, 10000}).Draw(c.T, "before")) * time.Microsecond)
		how := rapid.SampledFrom([]string{"close", "close", "closes", "cancel"}).Draw(c.T, "how")
		c.D("%s", how)
		c.Class("%s", how)
		end := func() {
			for _, x := range calls {
				select {
				case <-x.done:
				case <-time.After(vlib.Long):
					c.Violation("%s is still blocked %v after %s", x.name, vlib.Long, how)
				}
				if x.err == nil && x.must {
					c.Violation("%s returned without an error after %s", x.name, how)
				}
			}
		}
		switch how {
		case "cancel":
			cancel()
			over.Store(true)
			end()
			c.Within("Close", func() { s.Close() })
		case "closes":
			var wg sync.WaitGroup
			var mu sync.Mutex
			good := 0
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if s.Close() == nil {
						mu.Lock()
						good++
						mu.Unlock()
					}
				}()
			}
			c.Within("Close", wg.Wait)
			if good > 1 {
				c.Violation("%d of 3 calls of Close succeed", good)
			}
		default:
			var err error
			c.Within("Close", func() { err = s.Close() })
			if err != nil {
				c.Violation("Close: %v", err)
			}
		}
		over.Store(true)
		end()
		dead(c, s, kind)
		for _, p := range raws {
			if !vlib.Eventually(vlib.Long, func() bool {
				p.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
				_, err := p.Conn.Read(make([]byte, 10000))
				return err != nil && !errors.Is(err, os.ErrDeadlineExceeded)
			}) {
				c.Violation("a raw peer does not see its connection end")
			}
		}
		for _, o := range others {
			o.Close()
		}
		if listens {
			var o zmq4.Socket
			var err error
			if !vlib.Eventually(vlib.Long/4, func() bool {
				o = c.New(typ, quiet)
				err = o.Listen(ep)
				return err == nil
			}) {
				c.Violation("cannot listen on %s again: %v", ep, err)
			}
			alive(c, o, ep)
			o.Close()
		}
		for i := len(raws) - 1; i >= 0; i-- {
			raws[i].Close()
		}
		c.NoGoroutines("after Close")
		if !vlib.Eventually(vlib.Long/2, func() bool { return vlib.Descriptors() <= fds }) {
			c.Violation("%d descriptors were open before, %d are after", fds, vlib.Descriptors())
		}
	})
}

// dead checks that a closed socket refuses everything.
func dead(c *vlib.C, s zmq4.Socket, kind string) {
	for i, f := range []func() error{
		func() error { return s.Send(zmq4.NewMsgString("x")) },
		func() error { return s.SendMulti(zmq4.NewMsgFromString([]string{"x", "y"})) },
		func() error { _, err := s.Recv(); return err },
		func() error { return s.Listen(c.Fresh(kind)) },
		func() error { return s.Dial("vmem://nobody") },
		func() error { return s.Close() },
	} {
		name := []string{"Send", "SendMulti", "Recv", "Listen", "Dial", "Close"}[i]
		var err error
		c.Within(name+" after Close", func() { err = f() })
		if err == nil {
			c.Violation("%s succeeds after Close", name)
		}
	}
}

// TestEndpoints has sockets fight over endpoints.
func TestEndpoints(t *testing.T) {
	vlib.Run(t, 1500, 20000, "1-4 sockets of drawn types over 1-2 endpoints (ipc, tcp, inproc, vmem) go through 3-14 steps: Listen (also on an endpoint in use, which must fail, or one that was just freed, which must succeed), Close, Close again, Listen and Dial racing Close; after each step every endpoint whose listener lives must serve a new peer, and a free one be bindable; non-trivial: a Listen fails because the endpoint is in use, or an endpoint changes hands", func(c *vlib.C) {
		kind := rapid.SampledFrom([]string{"ipc", "ipc", "tcp", "inproc", "vmem"}).Draw(c.T, "transport")
		var eps []string
		for k := rapid.IntRange(1, 2).Draw(c.T, "endpoints"); k > 0; k-- {
			eps = append(eps, c.Fixed(kind))
		}
		c.D("%s %d endpoints", kind, len(eps))
		owner := map[string]zmq4.Socket{}
		used := map[string]int{}
		type sock struct {
			s      zmq4.Socket
			ep     string
			closed bool
		}
		var socks []*sock
		fresh := func() *sock {
			typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Pull, zmq4.Rep, zmq4.Pub, zmq4.Push, zmq4.Router, zmq4.Pair}).Draw(c.T, "type")
			x := &sock{s: c.New(typ, quiet)}
			socks = append(socks, x)
			return x
		}
		for k := rapid.IntRange(3, 14).Draw(c.T, "steps"); k > 0; k-- {
			ep := rapid.SampledFrom(eps).Draw(c.T, "endpoint")
			switch step := rapid.IntRange(0, 6).Draw(c.T, "step"); {
			case step < 3 || len(socks) == 0:
				x := fresh()
				c.D("a %s listens on %d", x.s.Type(), index(eps, ep))
				err := x.s.Listen(ep)
				switch {
				case owner[ep] != nil && err == nil:
					c.Violation("Listen on %s succeeds while another socket listens there", ep)
				case owner[ep] != nil:
					c.Nontrivial()
					c.Class("in use")
				case err != nil:
					c.Violation("Listen on the free %s: %v", ep, err)
				default:
					if used[ep]++; used[ep] > 1 {
						c.Nontrivial()
						c.Class("changes hands")
					}
					owner[ep] = x.s
					x.ep = ep
				}
			case step < 5:
				x := rapid.SampledFrom(socks).Draw(c.T, "socket")
				c.D("close")
				err := x.s.Close()
				if x.closed && err == nil {
					c.Violation("a second Close succeeds")
				}
				if !x.closed && err != nil {
					c.Violation("Close: %v", err)
				}
				x.closed = true
				if x.ep != "" && owner[x.ep] == x.s {
					delete(owner, x.ep)
				}
			default:
				// Listen or Dial against Close
				x := fresh()
				dial := owner[ep] != nil && step == 5
				c.D("a %s races dial=%v", x.s.Type(), dial)
				c.Class("race")
				var wg sync.WaitGroup
				wg.Add(1)
				go func() {
					defer wg.Done()
					if dial {
						x.s.Dial(ep)
					} else {
						x.s.Listen(ep)
					}
				}()
				time.Sleep(time.Duration(rapid.IntRange(0, 100).Draw(c.T, "µs")) * time.Microsecond)
				c.Within("Close", func() { x.s.Close() })
				c.Within("the racing call", wg.Wait)
				x.closed = true
			}
			for _, ep := range eps {
				if s := owner[ep]; s != nil {
					alive(c, s, ep)
					continue
				}
				// it must be free
				s := c.New(zmq4.Pull, quiet)
				var err error
				if !vlib.Eventually(vlib.Long/4, func() bool { err = s.Listen(ep); return err == nil }) {
					c.Violation("Listen on the free %s: %v", ep, err)
				}
				s.Close()
			}
		}
		for _, x := range socks {
			x.s.Close()
		}
		if kind == "ipc" {
			for _, ep := range eps {
				if _, err := os.Stat(strings.TrimPrefix(ep, "ipc://")); err == nil {
					c.Violation("the file of %s is left", ep)
				}
			}
		}
	})
}

// alive checks that s serves a new peer.
func alive(c *vlib.C, s zmq4.Socket, ep string) {
	id := vlib.Unique("healthy")
	p := c.Join(s, ep, id)
	c.Serves(s, p, id)
	p.Close()
}

func index(eps []string, ep string) int {
	for i := range eps {
		if eps[i] == ep {
			return i
		}
	}
	return -1
}

// TestJoinRace closes a socket while peers are joining.
func TestJoinRace(t *testing.T) {
	vlib.Run(t, 4000, 60000, "1-8 raw peers join a listening or dialing socket of any type over an in-memory transport, each a few µs later than the one before, while it is closed: all must see their connections end, and no goroutine may be left; non-trivial: some handshakes end before Close and some do not", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		s := c.New(typ, quiet, zmq4.WithAutomaticReconnect(false))
		name := vlib.MemName(nil, rapid.SampledFrom([]int{0, 300}).Draw(c.T, "buffer"))
		if err := s.Listen("vmem://" + name); err != nil {
			c.Violation("listen: %v", err)
		}
		n := rapid.IntRange(1, 8).Draw(c.T, "peers")
		gaps := rapid.SliceOfN(rapid.IntRange(0, 120), n, n).Draw(c.T, "gaps")
		wait := rapid.IntRange(0, 400).Draw(c.T, "close after")
		dialed := rapid.SliceOfN(rapid.Bool(), n, n).Draw(c.T, "dialed")
		c.D("%s gaps=%v wait=%d dialed=%v", typ, gaps, wait, dialed)
		var wg sync.WaitGroup
		var shook atomic.Int32
		bad := vlib.NewBroken()
		all := make([]*vlib.Peer, n)
		for i := range all {
			at := 0
			for _, g := range gaps[:i+1] {
				at += g
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(at) * time.Microsecond)
				var p *vlib.Peer
				if dialed[i] {
					to := vlib.MemName(nil, 0)
					l, err := vlib.MemListen(to)
					if err != nil {
						panic(err)
					}
					got := make(chan net.Conn, 1)
					go func() {
						conn, _ := l.Accept()
						got <- conn
					}()
					done := make(chan struct{})
					go func() { s.Dial("vmem://" + to); close(done) }()
					select {
					case conn := <-got:
						p = vlib.NewPeer(conn)
					case <-done:
						l.Close()
						if conn := <-got; conn == nil {
							return
						} else {
							p = vlib.NewPeer(conn)
						}
					}
					l.Close()
				} else {
					var err error
					if p, err = vlib.DialPeer("vmem://" + name); err != nil {
						return // closed already
					}
				}
				all[i] = p
				if p.Handshake(string(vlib.Partner(typ)), "") == nil {
					shook.Add(1)
				}
				p.SetReadDeadline(time.Now().Add(vlib.Long))
				for {
					if _, err := p.R.Discard(1); errors.Is(err, os.ErrDeadlineExceeded) {
						bad.Add("the connection of peer %d does not end", i)
						return
					} else if err != nil {
						return
					}
				}
			}()
		}
		time.Sleep(time.Duration(wait) * time.Microsecond)
		before := shook.Load()
		c.Within("Close", func() { s.Close() })
		wg.Wait()
		bad.Check(c)
		if before > 0 && before < int32(n) {
			c.Nontrivial()
		}
		for _, p := range all {
			if p != nil {
				p.Close()
			}
		}
		c.NoGoroutines("after Close")
	})
}
