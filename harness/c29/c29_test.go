// Package c29: stalled and failing peers do not keep others from being served.
package c29

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

func TestMain(m *testing.M) {
	// sockets print about failed handshakes there
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Exit(m.Run())
}

// opening is all that a peer says before its first message.
func opening(typ zmq4.SocketType, id string) []byte {
	return append(vlib.Greeting("NULL", 0, 3, 0), vlib.Command("READY", vlib.MetaBytes("Socket-Type", string(typ), "Identity", id))...)
}

type guest struct {
	p    *vlib.Peer
	what string
	rest []byte // of its handshake, which it may yet finish
	id   string
	ok   bool // it finished its handshake
}

type house struct {
	c      *vlib.C
	s      zmq4.Socket
	typ    zmq4.SocketType
	kind   string
	ep     string
	guests []*guest // those that do not do what they should
	good   []*guest
	n      int
}

// say has a peer write without waiting for it, where there are no buffers.
func (h *house) say(p *vlib.Peer, b []byte) {
	if h.kind == "tcp" || h.kind == "ipc" {
		p.Write(b)
		return
	}
	done := make(chan struct{})
	go func() {
		p.Write(b)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Millisecond):
	}
}

func (h *house) dial(what string) *guest {
	h.n++
	h.c.D("%s", what)
	return &guest{p: h.c.DialRaw(h.ep), what: what, id: vlib.Unique("guest")}
}

func (h *house) hasReq() bool { return h.typ == zmq4.Req }

// mute connects a peer that says only a part of its opening.
func (h *house) mute() {
	open := opening(vlib.Partner(h.typ), "")
	k := rapid.IntRange(0, len(open)-1).Draw(h.c.T, "bytes")
	if rapid.IntRange(0, 3).Draw(h.c.T, "edge") == 0 {
		k = rapid.SampledFrom([]int{0, 1, 9, 10, 11, 12, 31, 32, 33, 63, 64, 65, 66, len(open) - 1}).Draw(h.c.T, "edge at")
	}
	g := h.dial(fmt.Sprintf("mute after %d", k))
	h.say(g.p, open[:k])
	g.rest = open[k:]
	h.guests = append(h.guests, g)
	h.c.Class("mute")
}

// rude connects a peer that says something wrong.
func (h *house) rude() {
	var b []byte
	var what string
	switch rapid.IntRange(0, 4).Draw(h.c.T, "rude") {
	case 0:
		b = rapid.SliceOfN(rapid.Byte(), 1, 150).Draw(h.c.T, "noise")
		what = fmt.Sprintf("noise %x", b)
	case 1:
		b = append(vlib.Greeting("PLAIN", 1, 3, 0), opening(vlib.Partner(h.typ), "")[64:]...)
		what = "other mechanism"
	case 2:
		bad := zmq4.Rep
		if h.typ == zmq4.Req || h.typ == zmq4.Dealer || h.typ == zmq4.Router || h.typ == zmq4.Rep {
			bad = zmq4.Push
		}
		b = opening(bad, "")
		what = "incompatible type"
	case 3:
		b = append(vlib.Greeting("NULL", 0, 3, 0), vlib.Command("ERROR", []byte("\x03bad"))...)
		what = "ERROR"
	case 4:
		b = append(vlib.Greeting("NULL", 0, 3, 0), vlib.EncodeMsg([]byte("message"))...)
		what = "message for READY"
	}
	g := h.dial("rude: " + what)
	h.say(g.p, b)
	h.guests = append(h.guests, g)
	h.c.Class("rude")
}

// enter connects a peer that finishes its handshake.
func (h *house) enter(what string) *guest {
	g := h.dial(what)
	if err := g.p.Handshake(string(vlib.Partner(h.typ)), g.id); err != nil {
		h.c.Violation("handshake of a peer: %v", err)
	}
	g.ok = true
	return g
}

// deaf connects a peer that never reads after its handshake; before that it
// may ask for things, or begin a message.
func (h *house) deaf() {
	g := h.enter("deaf")
	h.c.Class("deaf")
	h.guests = append(h.guests, g)
	switch h.typ {
	case zmq4.Pub, zmq4.XPub:
		h.say(g.p, vlib.EncodeMsg([]byte{1}))
	case zmq4.Push:
	default:
		for k := rapid.IntRange(0, 4).Draw(h.c.T, "messages"); k > 0; k-- {
			h.say(g.p, vlib.EncodeMsg([]byte{}, []byte("guest"), []byte("x")))
		}
	}
	if rapid.IntRange(0, 2).Draw(h.c.T, "partial") == 0 {
		h.c.D("begins a message")
		b := vlib.EncodeMsg([]byte("guest"), vlib.Fill(600, 1))
		h.say(g.p, b[:rapid.IntRange(1, len(b)-1).Draw(h.c.T, "part")])
	}
}

// asks has a peer ask something, and not take the answer, which does not fit.
func (h *house) asks() {
	if h.typ != zmq4.Rep && h.typ != zmq4.Router {
		h.deaf()
		return
	}
	g := h.enter("asks and does not listen")
	h.c.Class("asks")
	h.guests = append(h.guests, g)
	tag := []byte(vlib.Unique("ask"))
	go g.p.WriteMsg([]byte{}, tag)
	c := h.c
	c.Must("the request of a peer is received", func() bool {
		m, err := c.RecvErr(h.s)
		return err == nil && len(m.Frames) > 0 && bytes.Equal(m.Frames[len(m.Frames)-1], tag)
	})
	size := rapid.SampledFrom([]int{10, 3000, 100000}).Draw(c.T, "answer")
	frames := [][]byte{vlib.Fill(size, 2)}
	if h.typ == zmq4.Router {
		frames = [][]byte{[]byte(g.id), frames[0]}
	}
	c.D("answered with %d", size)
	c.SendErr(h.s, false, frames...) // may well time out
}

func closeWrite(conn net.Conn) bool {
	if w, ok := conn.(interface{ CloseWrite() error }); ok {
		w.CloseWrite()
		return true
	}
	return false
}

// leave has a peer go in one way or other.
func (h *house) leave(g *guest) {
	switch rapid.IntRange(0, 3).Draw(h.c.T, "leave") {
	case 0:
		if t, ok := g.p.Conn.(*net.TCPConn); ok {
			h.c.D("reset")
			t.SetLinger(0)
		}
	case 1:
		if m, ok := g.p.Conn.(*vlib.MemConn); ok {
			h.c.D("break")
			m.Break(syscall.ECONNRESET)
		}
	case 2:
		if g.ok {
			h.c.D("in the middle of a message")
			h.say(g.p, vlib.EncodeMsg([]byte("guest"), vlib.Fill(400, 3))[:5])
		}
	}
	h.c.D("gone: %s", g.what)
	g.p.Close()
}

func (h *house) serve(g *guest) { serves(h.c, h.s, g.p, g.id) }

// answer has a replier answer everything.
func answer(p *vlib.Peer, id string) {
	for {
		f, err := p.ReadMsg()
		if err != nil {
			return
		}
		p.WriteMsg(append([][]byte{{}, []byte(id)}, f[1:]...)...)
	}
}

// serves is C.Serves, but that all healthy repliers keep answering requests.
func serves(c *vlib.C, s zmq4.Socket, p *vlib.Peer, id string) {
	c.Helper()
	if s.Type() != zmq4.Req {
		c.Serves(s, p, id)
		return
	}
	if p.Meta[answering] == "" {
		p.Meta[answering] = "yes"
		go answer(p, id)
	}
	c.Must("a request reaches a healthy replier", func() bool {
		tag := []byte(vlib.Unique("ask"))
		if err := c.SendErr(s, false, tag); err != nil {
			return false
		}
		m, err := c.RecvErr(s)
		if err != nil {
			return false
		}
		if len(m.Frames) != 2 || !bytes.Equal(m.Frames[1], tag) {
			c.Violation("the answer to %q is %s", tag, vlib.Clip(m.Frames))
		}
		return string(m.Frames[0]) == id
	})
}

const answering = "answering"

// count is how many goroutines there are but for those of the harness.
func count() (n int, one string) {
	for _, g := range vlib.Goroutines() {
		if !strings.Contains(g, "zzverif/c29.") {
			n++
			if !strings.Contains(g, ").accept(") && !strings.Contains(g, ").connReaper(") || one == "" {
				one = g
			}
		}
	}
	return
}

// TestServed has healthy peers among others.
func TestServed(t *testing.T) {
	vlib.Run(t, 900, 12000, "a socket of any type listens over tcp, ipc, inproc, vmem (with buffers from 256 bytes to unlimited, data in drawn pieces) and gets 2-14 steps: a peer connects and goes mute after any number of the bytes of its opening (now and then 30-150 such peers at once), or says something wrong (noise, another mechanism, an incompatible type, ERROR, a message for READY), or shuts its writing side down; one finishes its handshake and never reads again, also after subscribing, sending, beginning a message, or asking what is then answered at length; one of them finishes its handshake after all and is served; any leaves by closing, a reset, or in the middle of a message; the socket changes its subscriptions; after each step and between them a new healthy peer, or one from before, must be served; in the end all peers leave and goroutines and descriptors must be as many as before; non-trivial: a peer stalls or fails before another is served", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "vmem", "inproc", "ipc", "tcp"}).Draw(c.T, "transport")
		c.Deaf = true
		s := c.New(typ, quiet, zmq4.WithTimeout(40*time.Millisecond))
		var ep string
		if kind == "vmem" {
			capacity := rapid.SampledFrom([]int{0, 256, 400, 5000}).Draw(c.T, "capacity")
			var chunks []int
			if rapid.Bool().Draw(c.T, "chunked") {
				chunks = c.Chunks()
			}
			ep = "vmem://" + vlib.MemName(chunks, capacity)
			c.D("capacity %d chunks %v", capacity, chunks)
		} else {
			ep = c.Fresh(kind)
		}
		c.Class("%s", typ)
		c.Class("%s", kind)
		c.D("%s %s", typ, kind)
		ntopics := 0
		if typ == zmq4.Sub {
			s.SetOption(zmq4.OptionSubscribe, "")
			for ntopics = rapid.SampledFrom([]int{0, 0, 1, 30}).Draw(c.T, "topics"); ntopics > 0; ntopics-- {
				s.SetOption(zmq4.OptionSubscribe, strings.Repeat("t", 10)+vlib.Unique("topic"))
			}
		}
		if err := s.Listen(ep); err != nil {
			c.Violation("Listen: %v", err)
		}
		h := &house{c: c, s: s, typ: typ, kind: kind, ep: vlib.Dialable(s, ep)}
		var g0 int
		if c.T != nil {
			time.Sleep(100 * time.Microsecond)
			g0, _ = count()
		}
		fds := vlib.Descriptors()
		newcomer := func() {
			g := h.enter("healthy")
			h.serve(g)
			h.good = append(h.good, g)
		}
		if rapid.Bool().Draw(c.T, "one before") {
			newcomer()
		}
		for k := rapid.IntRange(2, 14).Draw(c.T, "steps"); k > 0; k-- {
			switch step := rapid.IntRange(0, 14).Draw(c.T, "step"); {
			case step <= 2:
				h.mute()
			case step == 3:
				if rapid.IntRange(0, 5).Draw(c.T, "crowd") == 0 {
					c.Class("crowd")
					open := opening(vlib.Partner(typ), "")
					at := rapid.IntRange(0, len(open)-1).Draw(c.T, "mute after")
					for i := rapid.IntRange(30, 150).Draw(c.T, "how many"); i > 0; i-- {
						g := h.dial("")
						if kind == "inproc" {
							go g.p.Write(open[:at])
						} else {
							h.say(g.p, open[:at])
						}
						h.guests = append(h.guests, g)
					}
				} else {
					h.mute()
				}
			case step == 4:
				h.rude()
			case step <= 6:
				if h.hasReq() { // it would wait for an answer
					h.mute()
				} else {
					h.deaf()
				}
			case step == 7:
				if h.hasReq() {
					h.rude()
				} else {
					h.asks()
				}
			case step == 8 && len(h.guests) > 0:
				g := rapid.SampledFrom(h.guests).Draw(c.T, "which")
				if closeWrite(g.p.Conn) {
					c.D("half closed: %s", g.what)
					c.Class("half")
					g.rest = nil
				}
			case step <= 10 && len(h.guests) > 0:
				i := rapid.IntRange(0, len(h.guests)-1).Draw(c.T, "which")
				h.leave(h.guests[i])
				h.guests = append(h.guests[:i], h.guests[i+1:]...)
				c.Class("leave")
			case step == 11 && len(h.good) > 0:
				i := rapid.IntRange(0, len(h.good)-1).Draw(c.T, "which")
				h.leave(h.good[i])
				h.good = append(h.good[:i], h.good[i+1:]...)
				c.Class("healthy leaves")
			case step == 12 && typ == zmq4.Sub:
				topic := vlib.Unique("more")
				c.D("subscribes")
				c.Within("a change of subscriptions", func() { s.SetOption(zmq4.OptionSubscribe, topic) })
			case step >= 12:
				// one thinks better of it
				for i, g := range h.guests {
					if g.rest == nil || kind == "inproc" {
						continue
					}
					c.D("resumes: %s", g.what)
					c.Class("resume")
					h.guests = append(h.guests[:i:i], h.guests[i+1:]...)
					resume(c, g)
					g.id = ""
					if typ == zmq4.Router {
						h.guests = append(h.guests, g) // it does not know its name
						break
					}
					h.serve(g)
					h.good = append(h.good, g)
					break
				}
			}
			if len(h.guests) > 0 {
				c.Nontrivial()
			}
			switch rapid.IntRange(0, 4).Draw(c.T, "then") {
			case 0, 1:
				newcomer()
			case 2:
				if len(h.good) > 0 {
					c.D("again")
					h.serve(rapid.SampledFrom(h.good).Draw(c.T, "good"))
				}
			}
		}
		newcomer()
		if len(h.good) > 1 {
			h.serve(h.good[0])
		}
		// all leave
		stop := make(chan struct{})
		drained := drain(s, stop)
		for _, g := range append(h.guests, h.good...) {
			g.p.Close()
		}
		if !vlib.Eventually(vlib.Long, func() bool { n, _ := count(); return n <= g0 }) {
			n, one := count()
			c.Violation("when all peers are gone there are %d goroutines, at first there were %d; one is\n%s", n, g0, one)
		}
		if kind == "tcp" || kind == "ipc" {
			if !vlib.Eventually(vlib.Long, func() bool { return vlib.Descriptors() <= fds }) {
				c.Violation("when all peers are gone %d descriptors are open, at first %d were", vlib.Descriptors(), fds)
			}
		}
		close(stop)
		s.Close()
		c.Within("the end of Recv", func() { <-drained })
	})
}

// drain receives, as applications do.
func drain(s zmq4.Socket, stop chan struct{}) chan struct{} {
	done := make(chan struct{})
	if s.Type() == zmq4.Req { // nothing comes unasked
		close(done)
		return done
	}
	go func() {
		defer close(done)
		for {
			_, err := s.Recv()
			select {
			case <-stop:
				return
			default:
			}
			if err != nil {
				time.Sleep(time.Millisecond)
			}
		}
	}()
	return done
}

// resume finishes the opening of a peer.
func resume(c *vlib.C, g *guest) {
	p := g.p
	p.SetDeadline(time.Now().Add(vlib.Long))
	defer p.SetDeadline(time.Time{})
	p.Gr = make([]byte, 64)
	werr := make(chan error, 1)
	go func() {
		_, err := p.Write(g.rest)
		werr <- err
	}()
	if _, err := io.ReadFull(p.R, p.Gr); err != nil {
		c.Violation("a peer that goes on with its handshake: %v", err)
	}
	if _, body, err := p.ReadFrame(); err != nil || !bytes.HasPrefix(body, []byte("\x05READY")) {
		c.Violation("a peer that goes on with its handshake gets %q, %v", body, err)
	}
	if err := <-werr; err != nil {
		c.Violation("a peer that goes on with its handshake: %v", err)
	}
	g.p.Meta = map[string]string{}
	g.rest, g.ok = nil, true
}

const note = 100 << 10

// tracker is the NULL mechanism, but counts the connections it has seen that
// are still in memory.
type tracker struct {
	zmq4.Security
	live atomic.Int64
}

func (tr *tracker) Handshake(conn *zmq4.Conn, server bool) error {
	tr.live.Add(1)
	runtime.AddCleanup(conn, func(int) { tr.live.Add(-1) }, 0)
	return tr.Security.Handshake(conn, server)
}

// TestForgotten counts what is left of peers that are gone.
func TestForgotten(t *testing.T) {
	vlib.Run(t, 400, 4000, "100-200 peers, each with 100 KB of metadata, connect to a listening socket of any type over vmem, ipc or tcp, up to 20 at a time, and after their handshake (or in it, or refused in it) exchange a message or not, and leave; while a healthy peer stays; then most of their connections must be gone from memory, which must not have grown by the metadata of half of them, and the healthy peer and a new one must be served; non-trivial: all", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "ipc", "tcp"}).Draw(c.T, "transport")
		n := rapid.IntRange(100, 200).Draw(c.T, "peers")
		par := rapid.SampledFrom([]int{1, 5, 20}).Draw(c.T, "at a time")
		how := rapid.SampledFrom([]string{"handshake", "handshake", "message", "message", "half", "refused"}).Draw(c.T, "how")
		tr := &tracker{Security: null.Security()}
		s := c.New(typ, quiet, zmq4.WithTimeout(200*time.Millisecond), zmq4.WithSecurity(tr))
		if typ == zmq4.Sub {
			s.SetOption(zmq4.OptionSubscribe, "")
		}
		ep := c.Listen(s, kind)
		c.D("%s %s %d peers, %d at a time, %s", typ, kind, n, par, how)
		c.Class("%s", typ)
		c.Class("%s", how)
		c.Nontrivial()
		id := vlib.Unique("stays")
		stays := c.Join(s, ep, id)
		serves(c, s, stays, id)
		g0, _ := count()
		fds := vlib.Descriptors()
		before := heap()
		partner := vlib.Partner(typ)
		if how == "refused" {
			partner = typ
			switch typ {
			case zmq4.Pair, zmq4.Dealer, zmq4.Router:
				partner = zmq4.Sub
			}
		}
		big := string(bytes.Repeat([]byte("n"), note))
		bad := vlib.NewBroken()
		var wg sync.WaitGroup
		sem := make(chan struct{}, par)
		for i := 0; i < n; i++ {
			sem <- struct{}{}
			wg.Add(1)
			go func() {
				defer func() { <-sem; wg.Done() }()
				p, err := vlib.DialPeer(ep)
				if err != nil {
					bad.Add("a peer cannot connect: %v", err)
					return
				}
				defer p.Close()
				p.SetDeadline(time.Now().Add(vlib.Long))
				p.Write(vlib.Greeting("NULL", 0, 3, 0))
				ready := vlib.Command("READY", vlib.MetaBytes("Socket-Type", string(partner), "Identity", fmt.Sprintf("past%d", i), "X-Note", big))
				if how == "half" {
					ready = ready[:len(ready)/2]
				}
				p.Write(ready)
				if _, err := io.ReadFull(p.R, make([]byte, 64)); err != nil {
					if how == "half" || how == "refused" {
						return
					}
					bad.Add("no greeting: %v", err)
					return
				}
				if how == "half" || how == "refused" {
					return
				}
				if _, _, err := p.ReadFrame(); err != nil {
					bad.Add("no READY: %v", err)
					return
				}
				if how == "message" {
					switch typ {
					case zmq4.Pub, zmq4.XPub:
						p.WriteMsg([]byte("\x01past"))
					case zmq4.Push, zmq4.Req:
					default:
						p.WriteMsg([]byte{}, []byte("past"))
					}
				}
			}()
		}
		stop := make(chan struct{})
		drained := drain(s, stop)
		c.WithinD(2*vlib.Long, "all peers come and go", func() { wg.Wait() })
		bad.Check(c)
		if !vlib.Eventually(vlib.Long, func() bool { k, _ := count(); return k <= g0 }) {
			k, one := count()
			c.Violation("after %d peers there are %d goroutines, before there were %d; one is\n%s", n, k, g0, one)
		}
		if kind != "vmem" && !vlib.Eventually(vlib.Long, func() bool { return vlib.Descriptors() <= fds }) {
			c.Violation("after %d peers %d descriptors are open, before %d were", n, vlib.Descriptors(), fds)
		}
		// some may be kept by what is as large as the number of peers that
		// were there at the same time
		most := int64(n) * 3 / 4
		if !vlib.Eventually(vlib.Long, func() bool { runtime.GC(); return tr.live.Load() <= most }) {
			c.Violation("after %d peers, at most %d at a time, were here, %d of their connections are still in memory", n, par, tr.live.Load())
		}
		limit := int64(n) * note / 2
		if !vlib.Eventually(vlib.Long, func() bool { return heap()-before < limit }) {
			c.Violation("after %d peers with %d bytes of metadata each were here, %d bytes more are in use", n, note, heap()-before)
		}
		switch typ {
		case zmq4.Push, zmq4.Pub, zmq4.XPub, zmq4.Req: // the drain gets nothing
			close(stop)
		default:
			close(stop)
			if typ == zmq4.Rep {
				stays.WriteMsg([]byte{}, []byte("last"))
			} else {
				stays.WriteMsg([]byte("last"))
			}
			c.Within("a message of the peer that stayed", func() { <-drained })
		}
		serves(c, s, stays, id)
		id = vlib.Unique("new")
		serves(c, s, c.Join(s, ep, id), id)
	})
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// TestAcceptErrors has the listener fail now and then.
func TestAcceptErrors(t *testing.T) {
	errs := []error{syscall.ECONNABORTED, syscall.EMFILE, syscall.ENFILE, syscall.EINTR, syscall.ENOBUFS, io.ErrUnexpectedEOF, context.DeadlineExceeded}
	vlib.Run(t, 1500, 12000, "a socket of any type listens over a transport whose Accept fails 0-20 times with a drawn error (connection aborted, too many open files and the like) before each of 1-5 connections, some of which close before they are accepted; each new healthy peer must be served, and those that came before; non-trivial: Accept fails", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		s := c.New(typ, quiet, zmq4.WithTimeout(200*time.Millisecond))
		if typ == zmq4.Sub {
			s.SetOption(zmq4.OptionSubscribe, "")
		}
		name := vlib.MemName(nil, 0)
		ep := "vmem://" + name
		c.D("%s", typ)
		if err := s.Listen(ep); err != nil {
			c.Violation("Listen: %v", err)
		}
		type who struct {
			p  *vlib.Peer
			id string
		}
		var good []who
		for k := rapid.IntRange(1, 5).Draw(c.T, "peers"); k > 0; k-- {
			n := rapid.IntRange(0, 20).Draw(c.T, "failures")
			err := rapid.SampledFrom(errs).Draw(c.T, "error")
			vlib.MemAcceptFail(name, n, err)
			c.D("%d times %v", n, err)
			if n > 0 {
				c.Nontrivial()
			}
			if rapid.IntRange(0, 2).Draw(c.T, "aborted") == 0 {
				c.D("one aborts")
				c.DialRaw(ep).Close()
			}
			id := vlib.Unique("healthy")
			p := c.Join(s, ep, id)
			serves(c, s, p, id)
			good = append(good, who{p, id})
		}
		g := rapid.SampledFrom(good).Draw(c.T, "again")
		serves(c, s, g.p, g.id)
	})
}
