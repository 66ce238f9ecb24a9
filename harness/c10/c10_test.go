// Package c10: ROUTER delivers to exactly the addressed peer and labels
// senders truthfully.
package c10

import (
	"fmt"
	"io"
	"log"
	"net"
	"sync"
	"testing"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

const mainID = "the router"

type sent struct {
	n      int
	frames [][]byte
}

// peer is one connection to the router under test.
type peer struct {
	kind string // DEALER, REQ, ROUTER, raw
	s    zmq4.Socket
	p    *vlib.Peer
	id   string // "" until the router's label is seen, if the peer has none
	anon bool
	gone bool // or going

	reused bool // its identity is that of a former peer

	out  []sent // what it sends to the router
	next int    // of those the router received
	owed bool   // a REQ that waits for its reply

	in  [][][]byte // what the router sends to it
	mu  sync.Mutex
	got [][][]byte
}

func (p *peer) read() {
	for n := 0; ; {
		var f [][]byte
		var err error
		if p.s != nil {
			var m zmq4.Msg
			m, err = vlib.Get(p.s)
			f = m.Frames
		} else {
			f, err = p.p.ReadMsg()
		}
		if err != nil {
			if p.s == nil || !vlib.Again(err, &n) {
				return
			}
			continue
		}
		p.mu.Lock()
		p.got = append(p.got, f)
		p.mu.Unlock()
	}
}

func (p *peer) received() [][][]byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([][][]byte(nil), p.got...)
}

func (p *peer) send(multi bool, fs [][]byte) error {
	switch p.kind {
	case "raw":
		return p.p.WriteMsg(fs...)
	case "ROUTER":
		return vlib.Put(p.s, multi, append([][]byte{[]byte(mainID)}, fs...))
	}
	return vlib.Put(p.s, multi, fs)
}

func (p *peer) close() {
	if p.s != nil {
		p.s.Close()
	} else {
		p.p.Close()
	}
}

type world struct {
	c     *vlib.C
	r     zmq4.Socket
	bad   *vlib.Broken
	ep    string
	kind  string
	peers []*peer
	owner map[int]*peer // by tag
	n     int
}

func identity(c *vlib.C, used map[string]bool) string {
	for {
		var id string
		switch rapid.IntRange(0, 3).Draw(c.T, "identity") {
		case 0:
			id = string(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(c.T, "bytes"))
		case 1:
			// alike
			id = rapid.StringOfN(rapid.SampledFrom([]rune("a")), 1, 6, -1).Draw(c.T, "a's")
		case 2:
			id = string(vlib.Fill(rapid.IntRange(200, 255).Draw(c.T, "size"), rapid.Uint64().Draw(c.T, "fill")))
		default:
			id = string([]byte{0, byte(rapid.IntRange(0, 255).Draw(c.T, "b"))})
		}
		if !used[id] && id != mainID {
			return id
		}
		c.D("again")
		id += "x"
		if len(id) <= 255 && !used[id] {
			return id
		}
	}
}

// join connects a new peer and waits until the router heard from it.
func (w *world) join(id string, anon bool) {
	c := w.c
	kinds := []string{"raw", "raw", "DEALER", "DEALER", "REQ", "ROUTER"}
	if anon {
		kinds = []string{"raw"}
	}
	p := &peer{kind: rapid.SampledFrom(kinds).Draw(c.T, "kind"), id: id, anon: anon}
	for _, q := range w.peers {
		p.reused = p.reused || !anon && q.id == id
	}
	dialed := rapid.IntRange(0, 2).Draw(c.T, "dialed") == 0 && p.kind != "REQ" && p.kind != "ROUTER"
	c.D("%s joins as %q dialed=%v", p.kind, clip(id), dialed)
	c.Class("%s anonymous=%v dialed=%v", p.kind, anon, dialed)
	opts := []zmq4.Option{quiet, zmq4.WithID(zmq4.SocketIdentity(id)), zmq4.WithAutomaticReconnect(false)}
	typ := map[string]zmq4.SocketType{"DEALER": zmq4.Dealer, "REQ": zmq4.Req, "ROUTER": zmq4.Router}[p.kind]
	switch {
	case p.kind == "raw" && dialed:
		name := vlib.MemName(nil, 0)
		l, err := vlib.MemListen(name)
		if err != nil {
			panic(err)
		}
		hs := make(chan error, 1)
		go func() {
			var conn net.Conn
			conn, err := l.Accept()
			if err == nil {
				p.p = vlib.NewPeer(conn)
				err = p.p.Handshake("DEALER", id)
			}
			hs <- err
		}()
		c.Dial(w.r, "vmem://"+name)
		if err := <-hs; err != nil {
			c.Violation("handshake: %v", err)
		}
		l.Close()
	case p.kind == "raw":
		p.p = c.DialRaw(w.ep)
		if err := p.p.Handshake(rapid.SampledFrom([]string{"DEALER", "DEALER", "REQ", "ROUTER"}).Draw(c.T, "type"), id); err != nil {
			c.Violation("handshake: %v", err)
		}
	case dialed:
		p.s = c.New(typ, opts...)
		c.Dial(w.r, c.Listen(p.s, w.kind))
	default:
		p.s = c.New(typ, opts...)
		c.Dial(p.s, w.ep)
	}
	if p.p != nil {
		c.Cleanup(func() { p.p.Close() })
	}
	go p.read()
	w.peers = append(w.peers, p)
	w.queue(p, vlib.TaggedPlain(w.n))
	if err := p.send(false, p.out[0].frames); err != nil {
		c.Violation("a %s that just joined cannot send: %v", p.kind, err)
	}
	w.recv(p)
	if p.kind == "REQ" {
		w.answer(p, [][]byte{[]byte("welcome")})
		c.Must("the REQ gets its answer", func() bool { return len(p.received()) == len(p.in) })
	}
}

func clip(s string) string {
	if len(s) > 20 {
		s = s[:20] + "…"
	}
	return s
}

// queue plans a message of p.
func (w *world) queue(p *peer, fs [][]byte) {
	p.out = append(p.out, sent{w.n, fs})
	w.owner[w.n] = p
	w.n++
	p.owed = p.kind == "REQ"
}

// recv receives on the router until all that was sent by peers still there
// (or by one of them, which then must not be gone) has come.
func (w *world) recv(only *peer) {
	c := w.c
	done := func() bool {
		for _, p := range w.peers {
			if (only == nil || p == only) && !p.gone && p.next < len(p.out) {
				return false
			}
		}
		return true
	}
	for !done() {
		m, err := c.RecvErr(w.r)
		if err != nil {
			c.Violation("Recv on the router: %v", err)
		}
		f := m.Frames
		if len(f) < 2 {
			c.Violation("the router received %s", vlib.Clip(f))
		}
		p := w.owner[vlib.TagOf(f[1:])]
		if p == nil {
			c.Violation("the router received %s, which nobody sent", vlib.Clip(f))
		}
		label := string(f[0])
		body := f[1:]
		if p.kind == "REQ" {
			if len(body) == 0 || len(body[0]) != 0 {
				c.Violation("the request of a REQ came as %s", vlib.Clip(f))
			}
			body = body[1:]
		}
		if p.next >= len(p.out) {
			c.Violation("%s came from %q, which had sent %d messages that all came before", vlib.Clip(f), clip(p.id), p.next)
		}
		want := p.out[p.next]
		if !vlib.Same(body, want.frames) {
			c.Violation("message %d of a %s: the router received %s, want %s", p.next, p.kind, vlib.Clip(f), vlib.Clip(want.frames))
		}
		p.next++
		if p.anon && p.id == "" {
			if label == "" {
				c.Violation("a peer without an identity is labelled %q", label)
			}
			for _, q := range w.peers {
				if q.id == label {
					c.Violation("a peer without an identity is labelled %q like another", label)
				}
			}
			p.id = label
		}
		if label != p.id {
			c.Violation("message %d of the %s %q is labelled %q", p.next-1, p.kind, p.id, label)
		}
	}
}

// answer has the router send fs to p.
func (w *world) answer(p *peer, fs [][]byte) {
	msg := [][]byte{[]byte(p.id)}
	want := fs
	switch p.kind {
	case "REQ":
		msg = append(msg, []byte{})
		p.owed = false
	case "ROUTER":
		want = append([][]byte{[]byte(mainID)}, fs...)
	}
	msg = append(msg, fs...)
	p.in = append(p.in, want)
	// while the connection of a former peer of that name is still there, what
	// goes wrong with it may be reported
	if err := vlib.Put(w.r, len(fs)%2 == 0, msg); err != nil && !p.gone && !p.reused {
		w.bad.Add("the router could not send to %q: %v", clip(p.id), err)
	}
}

// TestRouting has a router and its peers exchange messages.
func TestRouting(t *testing.T) {
	vlib.Run(t, 2000, 30000, "a ROUTER (vmem, ipc, tcp, inproc) with 1-6 peers at a time (DEALER, REQ and ROUTER sockets and raw peers; dialing it or dialed; identities of 1-255 arbitrary bytes, some alike, and none) goes through 1-6 epochs; in each, drawn peers send bursts of up to 7 tagged messages at once while the router sends bursts to drawn peers and to unknown and departed identities, and drawn peers vanish; in between peers leave and join, also under a departed peer's identity; the router must receive every message of each staying peer, and of the vanishing ones the first ones, in order and labelled with that peer's identity, and each staying peer exactly what was addressed to it; non-trivial: at least two peers exchange messages", func(c *vlib.C) {
		w := &world{c: c, bad: vlib.NewBroken(), owner: map[int]*peer{}}
		w.kind = rapid.SampledFrom([]string{"vmem", "vmem", "vmem-chunked", "ipc", "tcp", "inproc"}).Draw(c.T, "transport")
		c.D("%s", w.kind)
		w.r = c.New(zmq4.Router, quiet, zmq4.WithID(zmq4.SocketIdentity(mainID)), zmq4.WithAutomaticReconnect(false))
		w.ep = c.Listen(w.r, w.kind)
		used := map[string]bool{}
		var free []string // identities of departed peers
		live := func() (out []*peer) {
			for _, p := range w.peers {
				if !p.gone {
					out = append(out, p)
				}
			}
			return
		}
		newPeer := func() {
			k := rapid.IntRange(0, 5).Draw(c.T, "who")
			switch {
			case k == 0:
				w.join("", true)
			case k < 3 && len(free) > 0:
				id := free[0]
				free = free[1:]
				c.Class("identity used again")
				w.join(id, false)
			default:
				id := identity(c, used)
				used[id] = true
				w.join(id, false)
			}
		}
		depart := func(p *peer) {
			p.gone = true
			if !p.anon {
				free = append(free, p.id)
			}
		}
		for n := c.Count(1, 5, 30, "peers"); n > 0; n-- {
			newPeer()
		}
		for e := rapid.IntRange(1, 6).Draw(c.T, "epochs"); e > 0; e-- {
			ps := live()
			var vanish []*peer
			if len(ps) > 1 && rapid.IntRange(0, 2).Draw(c.T, "vanishing") == 0 {
				v := ps[rapid.IntRange(0, len(ps)-1).Draw(c.T, "which")]
				vanish = append(vanish, v)
				c.Class("vanishing %s", v.kind)
			}
			if len(ps) > 1 {
				c.Nontrivial()
			}
			var wg sync.WaitGroup
			type plan struct {
				p  *peer
				to string
				fs [][]byte
			}
			var plans []plan
			// what the router sends
			for n := c.Count(0, 12, 150, "router sends"); n > 0 && len(ps) > 0; n-- {
				fs := c.Tagged(w.n, 3000)
				w.n++
				switch k := rapid.IntRange(0, 9).Draw(c.T, "to"); {
				case k < 7:
					p := ps[rapid.IntRange(0, len(ps)-1).Draw(c.T, "whom")]
					if p.kind != "REQ" {
						plans = append(plans, plan{p: p, fs: fs})
					}
				case k == 7 && len(free) > 0:
					plans = append(plans, plan{to: free[len(free)-1], fs: fs})
				default:
					// nobody's, but alike
					id := ps[rapid.IntRange(0, len(ps)-1).Draw(c.T, "like whom")].id
					switch rapid.IntRange(0, 2).Draw(c.T, "how") {
					case 0:
						id = id[:len(id)-1]
					case 1:
						id += "\x00"
					default:
						id = "\x00" + id
					}
					known := false
					for _, p := range w.peers {
						known = known || p.id == id && !p.gone
					}
					if !known {
						c.Class("unknown identity")
						plans = append(plans, plan{to: id, fs: fs})
					}
				}
			}
			// what the peers send
			type out struct {
				p    *peer
				from int
			}
			var outs []out
			for _, p := range ps {
				n := c.Count(0, 7, 80, "sends")
				if p.kind == "REQ" {
					n = min(n, 1)
				}
				o := out{p, len(p.out)}
				for ; n > 0; n-- {
					w.queue(p, c.Tagged(w.n, 3000))
				}
				outs = append(outs, o)
			}
			c.D("epoch with %d peers, %d vanishing, %d from the router, %d in all", len(ps), len(vanish), len(plans), w.n)
			for _, v := range vanish {
				depart(v)
			}
			for _, o := range outs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, s := range o.p.out[o.from:] {
						if err := o.p.send((i+s.n)%2 == 0, s.frames); err != nil && !o.p.gone {
							w.bad.Add("a %s could not send: %v", o.p.kind, err)
						}
					}
				}()
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, pl := range plans {
					if pl.p != nil {
						w.answer(pl.p, pl.fs)
						continue
					}
					// whatever it reports, nobody may be the worse for it
					vlib.Put(w.r, false, append([][]byte{[]byte(pl.to)}, pl.fs...))
				}
			}()
			for _, v := range vanish {
				wg.Add(1)
				go func() {
					defer wg.Done()
					v.close()
				}()
			}
			w.recv(nil)
			c.Within("sending", wg.Wait)
			w.bad.Check(c)
			for _, p := range live() {
				if p.kind == "REQ" && p.owed {
					w.answer(p, c.Tagged(w.n, 3000))
					w.n++
				}
			}
			w.bad.Check(c)
			c.Must("all that was sent to the peers arrives", func() bool {
				for _, p := range live() {
					if len(p.received()) < len(p.in) {
						return false
					}
				}
				return true
			})
			// come and go
			if ps := live(); len(ps) > 1 && rapid.IntRange(0, 2).Draw(c.T, "leave") == 0 {
				p := ps[rapid.IntRange(0, len(ps)-1).Draw(c.T, "who")]
				c.D("%q leaves", clip(p.id))
				depart(p)
				p.close()
			}
			if len(live()) < 6 && rapid.IntRange(0, 2).Draw(c.T, "come") == 0 {
				newPeer()
			}
		}
		// a last one to each, after which nothing else may have come
		for _, p := range live() {
			if p.kind == "REQ" {
				w.queue(p, vlib.TaggedPlain(w.n))
				if err := p.send(false, p.out[len(p.out)-1].frames); err != nil {
					c.Violation("a REQ could not send: %v", err)
				}
			}
		}
		w.recv(nil)
		for i, p := range live() {
			w.answer(p, [][]byte{[]byte(fmt.Sprintf("last %d", i))})
		}
		w.bad.Check(c)
		c.Must("the last message arrives", func() bool {
			for _, p := range live() {
				if len(p.received()) < len(p.in) {
					return false
				}
			}
			return true
		})
		for _, p := range live() {
			got := p.received()
			for i := range got {
				if i >= len(p.in) || !vlib.Same(got[i], p.in[i]) {
					c.Violation("message %d to the %s %q came as %s; sent were %s", i, p.kind, p.id, vlib.Clip(got[i]), vlib.Clip(p.in[min(i, len(p.in)-1)]))
				}
			}
		}
	})
}
