// Package c08: each reply reaches the requester that asked, with both bodies
// intact.
package c08

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

type exchange struct {
	token      string
	req, rep   [][]byte
	envelope   [][]byte // of raw and DEALER requesters, without the delimiter
	multi      bool
	vanish     bool // the requester disconnects instead of waiting
	seen, late bool
}

type requester struct {
	kind  string // REQ, DEALER, raw REQ, raw DEALER
	s     zmq4.Socket
	p     *vlib.Peer
	ex    []*exchange
	burst bool // sends all before it receives any
}

type world struct {
	c  *vlib.C
	mu sync.Mutex
	by map[string]*exchange
	vs []string
}

func (w *world) bad(format string, args ...any) {
	w.mu.Lock()
	w.vs = append(w.vs, fmt.Sprintf(format, args...))
	w.mu.Unlock()
}

// body draws a body with the token in one of its frames.
func body(c *vlib.C, token string) [][]byte {
	var fs [][]byte
	n := c.Count(0, 4, 70, "frames before")
	for ; n > 0; n-- {
		fs = append(fs, frame(c))
	}
	fs = append(fs, append([]byte(token), frame(c)...))
	for n = rapid.IntRange(0, 3).Draw(c.T, "frames after"); n > 0; n-- {
		fs = append(fs, frame(c))
	}
	return fs
}

func frame(c *vlib.C) []byte {
	if rapid.IntRange(0, 2).Draw(c.T, "empty") == 0 {
		return []byte{}
	}
	return c.Frame(3000)
}

var tokenMark = []byte("\xfetoken")

// find finds the exchange a body belongs to.
func (w *world) find(fs [][]byte) *exchange {
	for _, f := range fs {
		if bytes.HasPrefix(f, tokenMark) && len(f) >= len(tokenMark)+6 {
			w.mu.Lock()
			e := w.by[string(f[:len(tokenMark)+6])]
			w.mu.Unlock()
			return e
		}
	}
	return nil
}

func (w *world) send(r *requester, e *exchange) error {
	whole := append(append(vlib.CloneFrames(e.envelope), []byte{}), e.req...)
	switch r.kind {
	case "REQ":
		var err error
		// one that listens has to wait for its connection
		vlib.Eventually(vlib.Long, func() bool { err = vlib.Put(r.s, e.multi, e.req); return err == nil })
		return err
	case "DEALER":
		return vlib.Put(r.s, e.multi, whole)
	}
	return r.p.WriteMsg(whole...)
}

func (w *world) receive(r *requester, e *exchange) bool {
	var got [][]byte
	var err error
	if r.s != nil {
		var m zmq4.Msg
		m, err = vlib.Get(r.s)
		got = m.Frames
	} else {
		got, err = r.p.ReadMsgT(vlib.Long)
	}
	if err != nil {
		w.bad("a %s gets no reply: %v", r.kind, err)
		return false
	}
	want := e.rep
	if r.kind != "REQ" {
		want = append(append(vlib.CloneFrames(e.envelope), []byte{}), e.rep...)
	}
	if !vlib.Same(got, want) {
		w.bad("a %s with envelope %s sent %s and got %s, the reply is %s", r.kind, vlib.Clip(e.envelope), vlib.Clip(e.req), vlib.Clip(got), vlib.Clip(want))
		return false
	}
	return true
}

// run goes through the exchanges of a requester.
func (w *world) run(r *requester) {
	if r.burst {
		for _, e := range r.ex {
			if err := w.send(r, e); err != nil {
				w.bad("a %s could not send: %v", r.kind, err)
				return
			}
		}
	}
	for _, e := range r.ex {
		if !r.burst {
			if err := w.send(r, e); err != nil {
				w.bad("a %s could not send: %v", r.kind, err)
				return
			}
		}
		if e.vanish {
			if r.s != nil {
				r.s.Close()
			} else {
				r.p.Close()
			}
			return
		}
		if !w.receive(r, e) {
			return
		}
	}
}

// TestExchanges has requesters be served.
func TestExchanges(t *testing.T) {
	vlib.Run(t, 2500, 40000, "1-5 requesters (REQ, DEALER, and raw REQ and DEALER peers with routing envelopes of 0-4 frames), each with 1-8 exchanges one by one or, for DEALERs, in a burst, connect to one REP directly or through 1-2 ROUTER-DEALER devices, over in-memory, inproc, ipc or tcp transports, dialing or listening; request and reply bodies have 1-8 frames, many empty; drawn requesters vanish before their reply; the replier must receive each body exactly as sent, and each requester exactly the reply to its own request with its envelope; non-trivial: at least two requesters, or a device, or an empty frame in front of a body", func(c *vlib.C) {
		w := &world{c: c, by: map[string]*exchange{}}
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "vmem-chunked", "inproc", "ipc", "tcp"}).Draw(c.T, "transport")
		devices := 0
		if rapid.IntRange(0, 2).Draw(c.T, "devices") == 0 {
			devices = rapid.IntRange(1, 2).Draw(c.T, "how many")
		}
		rep := c.New(zmq4.Rep, quiet)
		// the requesters may listen only if the replier is next to them
		reqListen := devices == 0 && rapid.IntRange(0, 3).Draw(c.T, "requesters listen") == 0
		c.D("%s devices=%d requesters listen=%v", kind, devices, reqListen)
		c.Class("%s devices=%d", kind, devices)
		ep := ""
		if !reqListen {
			ep = c.Listen(rep, kind)
		}
		for i := 0; i < devices; i++ {
			back := c.New(zmq4.Dealer, quiet)
			front := c.New(zmq4.Router, quiet)
			c.Dial(back, ep)
			ep = c.Listen(front, kind)
			forward := func(from, to zmq4.Socket) {
				for n := 0; ; {
					m, err := from.Recv()
					if err == nil {
						err = to.Send(zmq4.NewMsgFrom(m.Frames...))
					}
					// about a peer that vanished, or the end
					if err != nil && !vlib.Again(err, &n) {
						return
					}
				}
			}
			go forward(front, back)
			go forward(back, front)
		}
		n := c.Count(1, 5, 25, "requesters")
		if n > 1 || devices > 0 {
			c.Nontrivial()
		}
		var rs []*requester
		for i := 0; i < n; i++ {
			r := &requester{}
			if kind == "inproc" {
				r.kind = rapid.SampledFrom([]string{"REQ", "DEALER"}).Draw(c.T, "kind")
			} else {
				r.kind = rapid.SampledFrom([]string{"REQ", "REQ", "DEALER", "raw REQ", "raw DEALER"}).Draw(c.T, "kind")
			}
			if reqListen && r.kind[0] == 'r' {
				r.kind = r.kind[4:]
			}
			if r.kind == "DEALER" || r.kind == "raw DEALER" {
				r.burst = rapid.Bool().Draw(c.T, "burst")
			}
			c.Class("%s", r.kind)
			most := 60
			if r.burst {
				most = 8 // beyond what lies between the two, sending waits for receiving
			}
			for k := c.Count(1, 8, most, "exchanges"); k > 0; k-- {
				e := &exchange{token: fmt.Sprintf("%s%06d", tokenMark, len(w.by)), multi: rapid.Bool().Draw(c.T, "multi")}
				e.req, e.rep = body(c, e.token), body(c, e.token)
				if len(e.req[0]) == 0 {
					c.Nontrivial()
				}
				if r.kind == "DEALER" || r.kind == "raw DEALER" {
					for j := c.Count(0, 4, 60, "envelope"); j > 0; j-- {
						e.envelope = append(e.envelope, rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(c.T, "address"))
					}
				}
				w.by[e.token] = e
				r.ex = append(r.ex, e)
			}
			if rapid.IntRange(0, 5).Draw(c.T, "vanish") == 0 && !r.burst && kind != "inproc" {
				r.ex[len(r.ex)-1].vanish = true
				c.D("one vanishes")
				c.Class("vanish")
			}
			c.D("%s %d exchanges burst=%v first %s", r.kind, len(r.ex), r.burst, vlib.Sizes(r.ex[0].req))
			switch r.kind {
			case "REQ":
				r.s = c.New(zmq4.Req, quiet)
			case "DEALER":
				r.s = c.New(zmq4.Dealer, quiet)
			case "raw REQ":
				r.p = c.DialRaw(ep)
				if err := r.p.Handshake("REQ", ""); err != nil {
					c.Violation("handshake: %v", err)
				}
			case "raw DEALER":
				r.p = c.DialRaw(ep)
				if err := r.p.Handshake("DEALER", ""); err != nil {
					c.Violation("handshake: %v", err)
				}
			}
			switch {
			case r.s == nil:
			case reqListen:
				c.Dial(rep, c.Listen(r.s, kind))
			default:
				c.Dial(r.s, ep)
			}
			rs = append(rs, r)
		}

		// the replier
		stop := make(chan struct{})
		served := make(chan struct{})
		go func() {
			defer close(served)
			for fails := 0; fails < 10000; {
				m, err := vlib.Get(rep)
				select {
				case <-stop:
					return
				default:
				}
				if err != nil {
					fails++
					continue
				}
				e := w.find(m.Frames)
				switch {
				case e == nil:
					w.bad("the replier received %s, which nobody sent", vlib.Clip(m.Frames))
					return
				case e.seen:
					w.bad("the replier received %s twice", vlib.Clip(m.Frames))
				case !vlib.Same(m.Frames, e.req):
					w.bad("the replier received %s, sent was %s", vlib.Clip(m.Frames), vlib.Clip(e.req))
				}
				e.seen = true
				if err := vlib.Put(rep, e.multi, e.rep); err != nil {
					select {
					case <-stop: // it was closed
					default:
						w.bad("the replier could not reply: %v", err)
					}
				}
				if !vlib.Same(m.Frames, e.req) {
					w.bad("the request %s the replier holds became %s when it replied", vlib.Clip(e.req), vlib.Clip(m.Frames))
				}
			}
		}()
		var wg sync.WaitGroup
		for _, r := range rs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w.run(r)
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		ok := vlib.Eventually(vlib.Long, func() bool {
			select {
			case <-done:
				return true
			default:
			}
			w.mu.Lock()
			defer w.mu.Unlock()
			return len(w.vs) > 0
		})
		w.mu.Lock()
		vs := append([]string(nil), w.vs...)
		w.mu.Unlock()
		if len(vs) > 0 {
			c.Violation("%s", vs[0])
		}
		if !ok {
			c.Violation("some requester does not get its reply")
		}
		// nobody gets more than its replies
		for _, r := range rs {
			if r.p != nil && !r.ex[len(r.ex)-1].vanish {
				// all that the replier wrote before this exchange is here by then
				if f, err := r.p.ReadMsgT(time.Millisecond); err == nil {
					c.Violation("a %s got another reply %s", r.kind, vlib.Clip(f))
				}
			}
		}
		close(stop)
		rep.Close()
		c.Within("ending the replier", func() { <-served })
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.vs) > 0 {
			c.Violation("%s", w.vs[0])
		}
	})
}
