// Package c23: the sockets interoperate with libzmq.
package c23

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/czmq/v4"
	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Setenv("ZSYS_MAX_SOCKETS", "60000")
	dir, err := os.MkdirTemp("", "c23")
	if err != nil {
		panic(err)
	}
	file := ""
	for u, p := range users {
		file += u + "=" + p + "\n"
	}
	if err := os.WriteFile(dir+"/passwords", []byte(file), 0o600); err != nil {
		panic(err)
	}
	auth := czmq.NewAuth()
	if err := auth.Plain(dir + "/passwords"); err != nil {
		panic(err)
	}
	code := m.Run()
	auth.Destroy()
	os.RemoveAll(dir)
	os.Exit(code)
}

// users are those that libzmq's servers let in, with their passwords.
var users = map[string]string{
	"a":                      "b",
	"user":                   "secret",
	"user2":                  "Secret",
	strings.Repeat("u", 255): strings.Repeat("p", 255),
	strings.Repeat("v", 254): "x",
	"w":                      strings.Repeat("q", 128),
	"x-y.z_1":                "with blanks, and=signs",
	"\xc3\xa9\xff\x01":       "\x02\xfe\x7f\x80",
}

// world is where the sockets of a case meet.
type world struct {
	c    *vlib.C
	ep   string
	user string // with PLAIN
	pass string
	sec  bool
	beat int // ms
}

// end is a socket of either implementation.
type end struct {
	w    *world
	name string
	typ  zmq4.SocketType
	s    zmq4.Socket
	z    *czmq.Sock // if it is libzmq's
	id   string

	zmu    sync.Mutex
	closed bool

	mu   sync.Mutex
	msgs [][][]byte
	next int
}

func newWorld(c *vlib.C) *world {
	w := &world{c: c}
	if rapid.Bool().Draw(c.T, "tcp") {
		w.ep = "tcp://" + vlib.Loopback() + ":5555"
	} else {
		w.ep = c.Fresh("ipc")
	}
	if rapid.IntRange(0, 3).Draw(c.T, "plain") == 0 {
		w.sec = true
		var names []string
		for u := range users {
			names = append(names, u)
		}
		sort.Strings(names)
		w.user = rapid.SampledFrom(names).Draw(c.T, "user")
		w.pass = users[w.user]
	}
	if rapid.IntRange(0, 3).Draw(c.T, "heartbeats") == 0 {
		w.beat = rapid.IntRange(1, 20).Draw(c.T, "ms")
	}
	c.D("%s plain=%v heartbeat=%d", w.ep[:3], w.sec, w.beat)
	c.Class("%s plain=%v heartbeat=%v", w.ep[:3], w.sec, w.beat > 0)
	return w
}

// open makes a socket.
func (w *world) open(typ zmq4.SocketType, ours, hub bool, id string) *end {
	c := w.c
	e := &end{w: w, typ: typ, id: id, name: string(typ)}
	if ours {
		var opts []zmq4.Option
		if id != "" {
			opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(id)))
		}
		if w.sec {
			opts = append(opts, zmq4.WithSecurity(plain.Security(w.user, w.pass)))
		}
		e.s = c.New(typ, opts...)
		return e
	}
	e.name = "libzmq's " + e.name
	switch typ {
	case zmq4.Req, zmq4.Rep, zmq4.Dealer, zmq4.Router:
	default:
		// CZMQ lets no other have an identity
		id, e.id = "", ""
	}
	opts := []czmq.SockOption{func(z *czmq.Sock) { e.z = z }, czmq.SockSetLinger(0), czmq.SockSetSndtimeo(0), czmq.SockSetRcvtimeo(0)}
	if id != "" {
		opts = append(opts, zmq4.CWithID(zmq4.SocketIdentity(id)))
	}
	if w.beat > 0 {
		opts = append(opts, czmq.SockSetHeartbeatIvl(w.beat), czmq.SockSetHeartbeatTtl(60000), czmq.SockSetHeartbeatTimeout(60000))
	}
	if w.sec {
		if hub {
			opts = append(opts, czmq.SockSetPlainServer(1))
		} else {
			opts = append(opts, czmq.SockSetPlainUsername(w.user), czmq.SockSetPlainPassword(w.pass))
		}
	}
	e.s = map[zmq4.SocketType]func() zmq4.Socket{
		zmq4.Pair:   func() zmq4.Socket { return zmq4.NewCPair(nil, opts...) },
		zmq4.Pub:    func() zmq4.Socket { return zmq4.NewCPub(nil, opts...) },
		zmq4.Sub:    func() zmq4.Socket { return zmq4.NewCSub(nil, opts...) },
		zmq4.Req:    func() zmq4.Socket { return zmq4.NewCReq(nil, opts...) },
		zmq4.Rep:    func() zmq4.Socket { return zmq4.NewCRep(nil, opts...) },
		zmq4.Dealer: func() zmq4.Socket { return zmq4.NewCDealer(nil, opts...) },
		zmq4.Router: func() zmq4.Socket { return zmq4.NewCRouter(nil, opts...) },
		zmq4.Pull:   func() zmq4.Socket { return zmq4.NewCPull(nil, opts...) },
		zmq4.Push:   func() zmq4.Socket { return zmq4.NewCPush(nil, opts...) },
		zmq4.XPub:   func() zmq4.Socket { return zmq4.NewCXPub(nil, opts...) },
		zmq4.XSub:   func() zmq4.Socket { return zmq4.NewCXSub(nil, opts...) },
	}[typ]()
	if e.s.Type() != typ {
		c.Violation("a %s says its type is %s", e.name, e.s.Type())
	}
	c.Cleanup(e.close)
	return e
}

func (e *end) close() {
	if e.z == nil {
		e.s.Close()
		return
	}
	e.zmu.Lock()
	defer e.zmu.Unlock()
	if !e.closed {
		e.closed = true
		e.s.Close()
	}
}

// zdo calls f, with libzmq's socket to itself, once it is ready for it.
func (e *end) zdo(ready func() bool, f func() error) error {
	for t := time.Now().Add(vlib.Long); ; {
		e.zmu.Lock()
		if e.closed {
			e.zmu.Unlock()
			return errors.New("closed")
		}
		// what is ready need not be: a signal may have kept it from finding out
		if ready() && f() == nil {
			e.zmu.Unlock()
			return nil
		}
		e.zmu.Unlock()
		if time.Now().After(t) {
			return vlib.ErrTimeout
		}
		time.Sleep(50 * time.Microsecond)
	}
}

// send sends a message.
func (e *end) send(multi bool, fs [][]byte) error {
	if e.z != nil {
		return e.zdo(e.z.Pollout, func() error { return vlib.Put(e.s, multi, fs) })
	}
	err := vlib.Put(e.s, multi, fs)
	if err != nil && e.typ == zmq4.Req && strings.Contains(err.Error(), "no connections") {
		vlib.Eventually(vlib.Long, func() bool { err = vlib.Put(e.s, multi, fs); return err == nil })
	}
	return err
}

// recv receives a message.
func (e *end) recv() ([][]byte, error) {
	if e.z != nil {
		var m zmq4.Msg
		err := e.zdo(e.z.Pollin, func() (err error) { m, err = e.s.Recv(); return })
		return m.Frames, err
	}
	m, err := vlib.Get(e.s)
	return m.Frames, err
}

// collect starts receiving.
func (e *end) collect() {
	go func() {
		for n := 0; ; {
			fs, err := e.recv()
			if err != nil {
				if e.z != nil && err != vlib.ErrTimeout || e.z == nil && !vlib.Again(err, &n) {
					return
				}
				continue
			}
			e.mu.Lock()
			e.msgs = append(e.msgs, fs)
			e.mu.Unlock()
		}
	}()
}

func (e *end) got() [][][]byte {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.msgs[:len(e.msgs):len(e.msgs)]
}

// take returns the next message, for one who collects.
func (e *end) take() [][]byte {
	e.w.c.Must(fmt.Sprintf("a message arrives at %s", e.name), func() bool { return len(e.got()) > e.next })
	e.next++
	return e.got()[e.next-1]
}

func (w *world) listen(e *end) {
	if err := e.s.Listen(w.ep); err != nil {
		w.c.Violation("%s: Listen(%s): %v", e.name, w.ep, err)
	}
}

func (w *world) dial(e *end) {
	w.c.Within("Dial", func() {
		if err := e.s.Dial(w.ep); err != nil {
			w.c.Errorf("VIOLATED: %s: Dial(%s): %v", e.name, w.ep, err)
		}
	})
	if w.c.Failed() {
		w.c.Violation("Dial, see above")
	}
}

// meet makes a hub and its spokes, and connects them.
func (w *world) meet(hub, spoke zmq4.SocketType, k int, id func() string) (*end, []*end) {
	c := w.c
	ours := rapid.Bool().Draw(c.T, "hub is ours")
	hid := ""
	if id != nil {
		hid = id()
	}
	h := w.open(hub, ours, true, hid)
	var spokes []*end
	desc := ""
	for i := 0; i < k; i++ {
		o := !ours
		if i > 0 && rapid.IntRange(0, 3).Draw(c.T, "same") == 0 {
			o = ours
		}
		sid := ""
		if id != nil {
			sid = id()
		}
		e := w.open(spoke, o, false, sid)
		desc += fmt.Sprintf(" %s(%v)", e.name, clip(e.id))
		spokes = append(spokes, e)
	}
	c.D("%s(%v) binds, connect%s", h.name, clip(h.id), desc)
	c.Class("%s binds, %s connects", h.name, spokes[0].name)
	return h, spokes
}

// connect has the hub listen and the spokes dial.
func (w *world) connect(h *end, spokes []*end) {
	c := w.c
	early := map[*end]bool{}
	for _, e := range spokes {
		// libzmq may connect before there is anybody
		if e.z != nil && rapid.IntRange(0, 5).Draw(c.T, "early") == 0 {
			early[e] = true
			w.dial(e)
		}
	}
	w.listen(h)
	for _, e := range spokes {
		if !early[e] {
			w.dial(e)
		}
	}
}

func clip(s string) string {
	if len(s) > 12 {
		return fmt.Sprintf("%q…(%d)", s[:12], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// ident draws identities.
func ident(c *vlib.C) func() string {
	n := 0
	return func() string {
		n++
		switch rapid.IntRange(0, 3).Draw(c.T, "identity") {
		case 0:
			return ""
		case 1:
			return fmt.Sprint("id", n)
		case 2:
			b := bytes.ReplaceAll(rapid.SliceOfN(rapid.Byte(), 1, 30).Draw(c.T, "id"), []byte{0}, []byte{1})
			return string(b) + fmt.Sprint(n)
		default:
			k := rapid.IntRange(200, 255).Draw(c.T, "size")
			return fmt.Sprintf("%0*d", k, n)[0:k-1] + string(rune('a'+n))
		}
	}
}

// plan draws n messages.
func (w *world) plan(base, n int) (out [][][]byte) {
	max := rapid.SampledFrom([]int{300, 300, 3000, 70000}).Draw(w.c.T, "size")
	for i := 0; i < n; i++ {
		out = append(out, w.c.Tagged(base+i, max))
	}
	return
}

// TestStreams sends messages between the two implementations.
func TestStreams(t *testing.T) {
	vlib.Run(t, 1300, 30000, "sockets of this package and of libzmq (one that binds, 1-3 that connect, over tcp or ipc, with or without PLAIN, identities and libzmq's heartbeats) of the types PUSH-PULL, PAIR, DEALER-DEALER, DEALER-ROUTER, either side binding, send each other 1-60 generated messages each at once; each must arrive once, unaltered, in order, and at routers labelled with the identity of its sender; non-trivial: at least 10 messages", func(c *vlib.C) {
		w := newWorld(c)
		type pat struct {
			hub, spoke zmq4.SocketType
			max        int
		}
		p := rapid.SampledFrom([]pat{{zmq4.Push, zmq4.Pull, 3}, {zmq4.Pull, zmq4.Push, 3}, {zmq4.Pair, zmq4.Pair, 1}, {zmq4.Dealer, zmq4.Dealer, 1}, {zmq4.Router, zmq4.Dealer, 3}, {zmq4.Dealer, zmq4.Router, 1}}).Draw(c.T, "pattern")
		h, spokes := w.meet(p.hub, p.spoke, rapid.IntRange(1, p.max).Draw(c.T, "spokes"), ident(c))
		w.connect(h, spokes)
		ends := append([]*end{h}, spokes...)
		for _, e := range ends {
			if e.typ != zmq4.Push {
				e.collect()
			}
		}
		// what goes from whom to whom; a PUSH may choose
		type flow struct {
			from, to *end
			label    string // that the sender puts before it
			msgs     [][][]byte
		}
		var flows []*flow
		total := 0
		add := func(from, to *end) *flow {
			f := &flow{from: from, to: to, msgs: w.plan(total, rapid.IntRange(1, 60).Draw(c.T, "messages"))}
			total += len(f.msgs)
			flows = append(flows, f)
			return f
		}
		labels := map[*end]string{} // of the dealers, at the router
		for i, s := range spokes {
			switch {
			case p.hub == zmq4.Push:
				if i == 0 {
					add(h, nil)
				}
			case p.hub == zmq4.Pull:
				add(s, h)
			case p.hub == zmq4.Router || p.spoke == zmq4.Router:
				r, d := h, s
				if p.spoke == zmq4.Router {
					r, d = s, h
				}
				if err := d.send(false, [][]byte{[]byte("hello")}); err != nil {
					c.Violation("Send on %s: %v", d.name, err)
				}
				m := r.take()
				if len(m) != 2 || string(m[1]) != "hello" || len(m[0]) == 0 {
					c.Violation("%s received %s, want an identity and hello", r.name, vlib.Clip(m))
				}
				if d.id != "" && string(m[0]) != d.id {
					c.Violation("%s labels the message of %s %q, want %q", r.name, d.name, m[0], d.id)
				}
				for o, l := range labels {
					if l == string(m[0]) {
						c.Violation("%s labels messages of %s and %s %q", r.name, o.name, d.name, l)
					}
				}
				labels[d] = string(m[0])
				add(d, r)
				add(r, d).label = string(m[0])
			default:
				add(h, s)
				add(s, h)
			}
		}
		if total >= 10 {
			c.Nontrivial()
		}
		c.D("%d messages", total)
		bad := vlib.NewBroken()
		var wg sync.WaitGroup
		for _, f := range flows {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, m := range f.msgs {
					fs := m
					if f.label != "" {
						fs = append([][]byte{[]byte(f.label)}, m...)
					}
					if err := f.from.send(i%2 == 0, fs); err != nil {
						bad.Add("Send on %s: %v", f.from.name, err)
						return
					}
				}
			}()
		}
		c.Within("sending", wg.Wait)
		bad.Check(c)
		want := map[*end]int{}
		for _, f := range flows {
			if f.to != nil {
				want[f.to] += len(f.msgs)
			}
		}
		c.Must("all messages arrive", func() bool {
			n := 0
			for _, e := range ends {
				n += len(e.got()) - e.next
			}
			return n >= total
		})
		next := map[*flow]int{}
		count := 0
		for _, e := range ends {
			for len(e.got()) > e.next {
				m := e.take()
				count++
				body := m
				label := ""
				if e.typ == zmq4.Router {
					label, body = string(m[0]), m[1:]
				}
				n := vlib.TagOf(body)
				var fl *flow
				k := n
				for _, f := range flows {
					if k >= 0 && k < len(f.msgs) {
						fl = f
						break
					}
					k -= len(f.msgs)
				}
				if n < 0 || fl == nil {
					c.Violation("%s received %s, which nobody sent", e.name, vlib.Clip(m))
				}
				if !vlib.Same(body, fl.msgs[k]) {
					c.Violation("%s received %s, want %s", e.name, vlib.Clip(m), vlib.Clip(fl.msgs[k]))
				}
				if fl.to != nil {
					if fl.to != e {
						c.Violation("%s received a message for %s", e.name, fl.to.name)
					}
					if k != next[fl] {
						c.Violation("%s received message %d of %s, want %d", e.name, k, fl.from.name, next[fl])
					}
					next[fl]++
					if e.typ == zmq4.Router && label != labels[fl.from] {
						c.Violation("%s labels a message of %s %q, want %q", e.name, fl.from.name, label, labels[fl.from])
					}
				} else {
					// increasing at each, none twice
					if k < e.next-1 {
						c.Violation("%s received message %d, out of order", e.name, k)
					}
				}
			}
		}
		if count != total {
			c.Violation("%d messages arrived, %d were sent", count, total)
		}
		if p.hub == zmq4.Push {
			seen := map[int]int{}
			for _, s := range spokes {
				last := -1
				for _, m := range s.got() {
					n := vlib.TagOf(m)
					seen[n]++
					if n <= last {
						c.Violation("%s received message %d after %d", s.name, n, last)
					}
					last = n
				}
			}
			if len(seen) != total {
				c.Violation("%d of %d messages arrived", len(seen), total)
			}
		}
	})
}

// topics of the model
var topicPool = []string{"", "a", "ab", "abc", "b", "ba", "\xff", "a\x01"}

// TestPubSub publishes and subscribes between the two implementations.
func TestPubSub(t *testing.T) {
	vlib.Run(t, 1000, 20000, "PUB or XPUB and SUB or XSUB sockets of this package and of libzmq (one of either kind that binds, 1-3 of the other that connect, as above), in 1-4 epochs: subscribers subscribe and unsubscribe among 8 prefixes, a probe shows that the publishers know, and the publishers send 1-40 messages each at once; each subscriber must get exactly those that match, in each publisher's order; non-trivial: some message matches and some does not", func(c *vlib.C) {
		w := newWorld(c)
		pt := rapid.SampledFrom([]zmq4.SocketType{zmq4.Pub, zmq4.XPub}).Draw(c.T, "publisher")
		st := rapid.SampledFrom([]zmq4.SocketType{zmq4.Sub, zmq4.XSub}).Draw(c.T, "subscriber")
		ht, kt := pt, st
		if rapid.Bool().Draw(c.T, "subscriber binds") {
			ht, kt = st, pt
		}
		h, spokes := w.meet(ht, kt, rapid.IntRange(1, 3).Draw(c.T, "spokes"), nil)
		pubs, subs := []*end{h}, spokes
		if ht == st {
			pubs, subs = spokes, []*end{h}
		}
		topics := make([]map[string]bool, len(subs))
		all := make([]bool, len(subs)) // has been subscribed to everything
		change := func(i int, on bool, topic string) {
			e := subs[i]
			var err error
			if st == zmq4.XSub {
				b := byte(0)
				if on {
					b = 1
				}
				err = e.send(false, [][]byte{append([]byte{b}, topic...)})
			} else {
				name := zmq4.OptionUnsubscribe
				if on {
					name = zmq4.OptionSubscribe
				}
				if e.z != nil {
					e.zmu.Lock()
				}
				err = e.s.SetOption(name, topic)
				if e.z != nil {
					e.zmu.Unlock()
				}
			}
			if err != nil {
				c.Violation("%s cannot subscribe or unsubscribe: %v", e.name, err)
			}
			if on {
				all[i] = all[i] || topic == ""
				topics[i][topic] = true
			} else {
				delete(topics[i], topic)
			}
		}
		for i := range subs {
			topics[i] = map[string]bool{}
			if st == zmq4.Sub {
				// before there is a connection
				for n := rapid.IntRange(0, 2).Draw(c.T, "early subscriptions"); n > 0; n-- {
					if tp := rapid.SampledFrom(topicPool).Draw(c.T, "topic"); !topics[i][tp] {
						change(i, true, tp)
					}
				}
			}
		}
		w.connect(h, spokes)
		for _, s := range subs {
			s.collect()
		}
		nprobe := 0
		// sync makes sure that all that was subscribed to counts
		sync1 := func(epoch int) {
			for i, s := range subs {
				tp := fmt.Sprintf("S%d-%d|", epoch, i)
				change(i, true, tp)
				for j, p := range pubs {
					c.Must(fmt.Sprintf("%s gets what it subscribed to at %s", s.name, p.name), func() bool {
						if st == zmq4.XSub && epoch == 0 {
							// lost if sent too early
							change(i, true, tp)
						}
						nprobe++
						if err := p.send(false, [][]byte{fmt.Appendf(nil, "%s%d %d", tp, j, nprobe)}); err != nil {
							c.Violation("Send on %s: %v", p.name, err)
						}
						pre := fmt.Appendf(nil, "%s%d ", tp, j)
						for _, m := range s.got() {
							if bytes.HasPrefix(m[0], pre) {
								return true
							}
						}
						return false
					})
				}
			}
		}
		sync1(0)
		total, match, miss := 0, 0, 0
		for epoch := 1; epoch <= rapid.IntRange(1, 4).Draw(c.T, "epochs"); epoch++ {
			for i := range subs {
				for n := rapid.IntRange(0, 4).Draw(c.T, "changes"); n > 0; n-- {
					tp := rapid.SampledFrom(topicPool).Draw(c.T, "topic")
					on := !topics[i][tp]
					c.D("%d: %v %q", i, on, tp)
					change(i, on, tp)
				}
			}
			sync1(epoch)
			msgs := make([][][][]byte, len(pubs))
			base := total
			for j := range pubs {
				for n := rapid.IntRange(1, 40).Draw(c.T, "messages"); n > 0; n-- {
					m := [][]byte{[]byte(rapid.SampledFrom([]string{"", "a", "ab", "abcd", "b", "bab", "\xff\x00", "a\x01b", "c", "\x00", "\x01a"}).Draw(c.T, "topic") + rapid.SampledFrom([]string{"", "", "x", "a"}).Draw(c.T, "more"))}
					m = append(m, c.Tagged(total, 2000)...)
					total++
					msgs[j] = append(msgs[j], m)
				}
			}
			bad := vlib.NewBroken()
			var wg sync.WaitGroup
			for j, p := range pubs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, m := range msgs[j] {
						if err := p.send(i%2 == 0, m); err != nil {
							bad.Add("Send on %s: %v", p.name, err)
						}
					}
					for i := range subs {
						if err := p.send(false, [][]byte{fmt.Appendf(nil, "S%d-%d|end %d", epoch, i, j)}); err != nil {
							bad.Add("Send on %s: %v", p.name, err)
						}
					}
				}()
			}
			c.Within("publishing", wg.Wait)
			bad.Check(c)
			for i, s := range subs {
				var got [][][]byte
				for ends := 0; ends < len(pubs); {
					m := s.take()
					switch {
					case len(m) == 1 && bytes.HasPrefix(m[0], fmt.Appendf(nil, "S%d-%d|end ", epoch, i)):
						ends++
					case len(m) == 1 && bytes.HasPrefix(m[0], []byte("S")):
						var e, k int
						fmt.Sscanf(string(m[0]), "S%d-%d|", &e, &k)
						if k != i && !all[i] {
							c.Violation("%s received %q, which it did not subscribe to", s.name, m[0])
						}
					default:
						got = append(got, m)
					}
				}
				var tps []string
				for tp := range topics[i] {
					tps = append(tps, tp)
				}
				sort.Strings(tps)
				var want [][][]byte
				from := map[int]int{} // publisher of each
				n := base
				for j := range pubs {
					for _, m := range msgs[j] {
						ok := false
						for _, tp := range tps {
							ok = ok || bytes.HasPrefix(m[0], []byte(tp))
						}
						if ok {
							want = append(want, m)
							match++
						} else {
							miss++
						}
						from[n] = j
						n++
					}
				}
				// by publisher
				sort.SliceStable(got, func(a, b int) bool {
					return from[vlib.TagOf(got[a][1:])] < from[vlib.TagOf(got[b][1:])]
				})
				for k := 0; k < max(len(got), len(want)); k++ {
					switch {
					case k >= len(got):
						c.Violation("%s (%q) did not receive %s", s.name, tps, vlib.Clip(want[k]))
					case k >= len(want):
						c.Violation("%s (%q) received %s, too", s.name, tps, vlib.Clip(got[k]))
					case !vlib.Same(got[k], want[k]):
						c.Violation("%s (%q) received %s, want %s", s.name, tps, vlib.Clip(got[k]), vlib.Clip(want[k]))
					}
				}
			}
		}
		if match > 0 && miss > 0 {
			c.Nontrivial()
		}
	})
}

// TestSubscriptions has libzmq's XPUB tell what it is asked for.
func TestSubscriptions(t *testing.T) {
	vlib.Run(t, 1200, 25000, "an XPUB of libzmq, binding or connecting, receives the subscriptions of 1-3 SUBs or XSUBs of this package that subscribe and unsubscribe (arbitrary bytes) before and after connecting; it must get exactly those of before, in any order, and then each one, in order; non-trivial: some before and some after", func(c *vlib.C) {
		w := newWorld(c)
		st := rapid.SampledFrom([]zmq4.SocketType{zmq4.Sub, zmq4.Sub, zmq4.XSub}).Draw(c.T, "type")
		k := rapid.IntRange(1, 3).Draw(c.T, "subscribers")
		binds := rapid.Bool().Draw(c.T, "XPUB binds")
		if !binds {
			k = 1
		}
		x := w.open(zmq4.XPub, false, binds, "")
		x.z.SetOption(czmq.SockSetXPubVerboser(1))
		x.collect()
		bytesOf := func(i int) string {
			return fmt.Sprint(i, ":") + rapid.SampledFrom([]string{"", "a", "b"}).Draw(c.T, "p") + string(rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(c.T, "topic"))
		}
		var early []map[string]bool
		var subs []*end
		for i := 0; i < k; i++ {
			s := w.open(st, true, !binds, "")
			set := map[string]bool{}
			if st == zmq4.Sub {
				for n := rapid.IntRange(0, 5).Draw(c.T, "early"); n > 0; n-- {
					tp := bytesOf(i)
					if set[tp] {
						continue
					}
					if err := s.s.SetOption(zmq4.OptionSubscribe, tp); err != nil {
						c.Violation("subscribing: %v", err)
					}
					set[tp] = true
					if rapid.IntRange(0, 3).Draw(c.T, "undo") == 0 {
						if err := s.s.SetOption(zmq4.OptionUnsubscribe, tp); err != nil {
							c.Violation("unsubscribing: %v", err)
						}
						delete(set, tp)
					}
				}
			}
			early = append(early, set)
			subs = append(subs, s)
		}
		if binds {
			w.connect(x, subs)
		} else {
			w.connect(subs[0], []*end{x})
		}
		// the early ones, of each
		n := 0
		for _, s := range early {
			n += len(s)
		}
		if n > 0 {
			c.Must("the XPUB gets the early subscriptions", func() bool { return len(x.got()) >= n })
		}
		for ; n > 0; n-- {
			m := x.take()
			i := -1
			if len(m) == 1 && len(m[0]) > 1 {
				i = int(m[0][1] - '0')
			}
			if i < 0 || i >= k || m[0][0] != 1 || !early[i][string(m[0][1:])] {
				c.Violation("the XPUB received %s, which is not one of the early subscriptions", vlib.Clip(m))
			}
			delete(early[i], string(m[0][1:]))
		}
		// all are connected
		for i, s := range subs {
			hello := fmt.Sprint(i, ":hello")
			if st == zmq4.Sub {
				if err := s.s.SetOption(zmq4.OptionSubscribe, hello); err != nil {
					c.Violation("subscribing: %v", err)
				}
			}
			c.Must("the XPUB gets a subscription", func() bool {
				if st == zmq4.XSub {
					if err := s.send(false, [][]byte{[]byte("\x01" + hello)}); err != nil {
						c.Violation("Send on %s: %v", s.name, err)
					}
				}
				for len(x.got()) > x.next {
					if m := x.take(); len(m) == 1 && string(m[0]) == "\x01"+hello {
						return true
					}
				}
				return false
			})
		}
		var wg sync.WaitGroup
		bad := vlib.NewBroken()
		plans := make([][]string, k)
		for i := range subs {
			have := map[string]bool{}
			var list []string
			for n := rapid.IntRange(0, 12).Draw(c.T, "late"); n > 0; n-- {
				if len(list) > 0 && rapid.Bool().Draw(c.T, "cancel") {
					tp := rapid.SampledFrom(list).Draw(c.T, "which")
					if have[tp] {
						plans[i] = append(plans[i], "\x00"+tp)
						delete(have, tp)
						continue
					}
				}
				tp := fmt.Sprint(i, ":late") + string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(c.T, "topic"))
				if !have[tp] {
					have[tp] = true
					list = append(list, tp)
					plans[i] = append(plans[i], "\x01"+tp)
				}
			}
		}
		for i, s := range subs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, op := range plans[i] {
					var err error
					switch {
					case st == zmq4.XSub:
						err = s.send(false, [][]byte{[]byte(op)})
					case op[0] == 1:
						err = s.s.SetOption(zmq4.OptionSubscribe, op[1:])
					default:
						err = s.s.SetOption(zmq4.OptionUnsubscribe, op[1:])
					}
					if err != nil {
						bad.Add("%s cannot subscribe: %v", s.name, err)
					}
				}
			}()
		}
		c.Within("subscribing", wg.Wait)
		bad.Check(c)
		next := make([]int, k)
		for left := len(plans); left > 0; {
			left = 0
			for i := range plans {
				left += len(plans[i]) - next[i]
			}
			if left == 0 {
				break
			}
			m := x.take()
			i := -1
			if len(m) == 1 && len(m[0]) > 1 {
				i = int(m[0][1] - '0')
				if st == zmq4.XSub && string(m[0][2:]) == ":hello" {
					continue
				}
			}
			if i < 0 || i >= k || next[i] >= len(plans[i]) || string(m[0]) != plans[i][next[i]] {
				c.Violation("the XPUB received %s, which is not the next subscription of any of %q, after %d", vlib.Clip(m), plans, next)
			}
			next[i]++
		}
		if st == zmq4.Sub && len(plans[0]) > 0 {
			c.Nontrivial()
		}
	})
}

// TestRequests has requests answered by the other implementation.
func TestRequests(t *testing.T) {
	vlib.Run(t, 1000, 20000, "a server (REP or ROUTER) and 1-3 clients (REQ or DEALER, with a drawn envelope) of this package and of libzmq, either binding (then one of the other), as above, exchange 1-20 requests and replies per client, DEALERs sending several at once; every client must get the replies to its own requests, one each, unaltered and in order, and a ROUTER the identity of the client; non-trivial: at least 5 requests", func(c *vlib.C) {
		w := newWorld(c)
		srv := rapid.SampledFrom([]zmq4.SocketType{zmq4.Rep, zmq4.Router}).Draw(c.T, "server")
		cli := rapid.SampledFrom([]zmq4.SocketType{zmq4.Req, zmq4.Dealer}).Draw(c.T, "client")
		var server *end
		var clients []*end
		if rapid.IntRange(0, 2).Draw(c.T, "client binds") == 0 {
			if cli == zmq4.Req {
				// a REQ of libzmq that is the server in the PLAIN handshake
				// receives no replies, not even from libzmq's own peers
				w.sec = false
			}
			h, s := w.meet(cli, srv, 1, ident(c))
			clients, server = []*end{h}, s[0]
			w.connect(h, s)
		} else {
			server, clients = w.meet(srv, cli, rapid.IntRange(1, 3).Draw(c.T, "clients"), ident(c))
			w.connect(server, clients)
		}
		total := 0
		reqs := make([][][][]byte, len(clients))
		envs := make([][][]byte, len(clients))
		for i := range clients {
			reqs[i] = w.plan(total, rapid.IntRange(1, 20).Draw(c.T, "requests"))
			total += len(reqs[i])
			if cli == zmq4.Dealer {
				for n := rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(c.T, "envelope"); n > 0; n-- {
					envs[i] = append(envs[i], append([]byte{'e'}, rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(c.T, "hop")...))
				}
			}
		}
		owner := func(n int) (int, int) {
			for i := range reqs {
				if n >= 0 && n < len(reqs[i]) {
					return i, n
				}
				n -= len(reqs[i])
			}
			return -1, 0
		}
		if total >= 5 {
			c.Nontrivial()
		}
		bad := vlib.NewBroken()
		reply := func(body [][]byte) [][]byte { return append(vlib.CloneFrames(body), []byte("re"), nil) }
		labels := map[int]string{}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < total; k++ {
				m, err := server.recv()
				if err != nil {
					bad.Add("Recv on %s: %v", server.name, err)
					return
				}
				body := m
				var env [][]byte
				if srv == zmq4.Router {
					for n := range m {
						if n > 0 && len(m[n]) == 0 {
							env, body = m[:n+1], m[n+1:]
							break
						}
					}
					if env == nil {
						bad.Add("%s received %s, without a delimiter", server.name, vlib.Clip(m))
						return
					}
				}
				i, n := owner(vlib.TagOf(body))
				if i < 0 || !vlib.Same(body, reqs[i][n]) {
					bad.Add("%s received %s, which no client sent", server.name, vlib.Clip(m))
					return
				}
				if env != nil {
					if l, ok := labels[i]; ok && l != string(env[0]) || clients[i].id != "" && string(env[0]) != clients[i].id || len(env[0]) == 0 {
						bad.Add("%s labels a request of %s %q, want %q, before %q", server.name, clients[i].name, env[0], clients[i].id, l)
						return
					}
					labels[i] = string(env[0])
					if !vlib.Same(env[1:len(env)-1], envs[i]) {
						bad.Add("%s received the envelope %s, want %s", server.name, vlib.Clip(env), vlib.Clip(envs[i]))
						return
					}
				}
				if err := server.send(k%2 == 0, append(env[:len(env):len(env)], reply(body)...)); err != nil {
					bad.Add("Send on %s: %v", server.name, err)
					return
				}
			}
		}()
		for i, e := range clients {
			ahead := 1
			if cli == zmq4.Dealer {
				ahead = rapid.IntRange(1, 10).Draw(c.T, "ahead")
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sent := 0
				for k := range reqs[i] {
					for ; sent < len(reqs[i]) && sent < k+ahead; sent++ {
						m := reqs[i][sent]
						if cli == zmq4.Dealer {
							m = append(append(envs[i][:len(envs[i]):len(envs[i])], []byte{}), m...)
						}
						if err := e.send(sent%2 == 0, m); err != nil {
							bad.Add("Send on %s: %v", e.name, err)
							return
						}
					}
					m, err := e.recv()
					if err != nil {
						bad.Add("Recv on %s: %v", e.name, err)
						return
					}
					want := reply(reqs[i][k])
					if cli == zmq4.Dealer {
						want = append(append(envs[i][:len(envs[i]):len(envs[i])], []byte{}), want...)
					}
					if !vlib.Same(m, want) {
						bad.Add("%s received %s, want %s", e.name, vlib.Clip(m), vlib.Clip(want))
						return
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		c.Must("all requests are answered", func() bool {
			bad.Check(c)
			select {
			case <-done:
				return true
			default:
				return false
			}
		})
		bad.Check(c)
	})
}

// TestHeartbeats has libzmq watch over idle connections.
func TestHeartbeats(t *testing.T) {
	vlib.Run(t, 3, 24, "20-60 connections at once between a DEALER or ROUTER of this package and one of libzmq without an identity, which sends heartbeats every 20-500 ms and hangs up when none is answered for 4 s, are idle for 6 s; each must still be the same after that, by the label of its messages; non-trivial: always", func(c *vlib.C) {
		c.Nontrivial()
		type pair struct {
			r, d  *end
			label string
		}
		var pairs []*pair
		for n := rapid.IntRange(20, 60).Draw(c.T, "connections"); n > 0; n-- {
			w := &world{c: c}
			if rapid.Bool().Draw(c.T, "tcp") {
				w.ep = "tcp://" + vlib.Loopback() + ":5555"
			} else {
				w.ep = c.Fresh("ipc")
			}
			ours := rapid.Bool().Draw(c.T, "router is ours")
			binds := rapid.Bool().Draw(c.T, "router binds")
			p := &pair{}
			p.r = w.open(zmq4.Router, ours, binds, "")
			p.d = w.open(zmq4.Dealer, !ours, !binds, "")
			z := p.r.z
			if ours {
				z = p.d.z
			}
			z.SetOption(czmq.SockSetHeartbeatIvl(rapid.IntRange(20, 500).Draw(c.T, "interval")))
			z.SetOption(czmq.SockSetHeartbeatTimeout(4000))
			if rapid.Bool().Draw(c.T, "with ttl") {
				z.SetOption(czmq.SockSetHeartbeatTtl(rapid.IntRange(100, 60000).Draw(c.T, "ttl")))
			}
			h, s := p.r, p.d
			if !binds {
				h, s = p.d, p.r
			}
			w.listen(h)
			w.dial(s)
			p.r.collect()
			p.d.collect()
			pairs = append(pairs, p)
		}
		for round := 0; round < 2; round++ {
			for i, p := range pairs {
				hello := fmt.Appendf(nil, "hello %d", round)
				if err := p.d.send(false, [][]byte{hello}); err != nil {
					c.Violation("Send on %s: %v", p.d.name, err)
				}
				m := p.r.take()
				if len(m) != 2 || !bytes.Equal(m[1], hello) {
					c.Violation("%s received %s", p.r.name, vlib.Clip(m))
				}
				if round > 0 && string(m[0]) != p.label {
					c.Violation("%s connection %d was lost while idle: its label was %q, is %q", p.r.name, i, p.label, m[0])
				}
				p.label = string(m[0])
				if err := p.r.send(false, [][]byte{m[0], hello}); err != nil {
					c.Violation("Send on %s: %v", p.r.name, err)
				}
				m = p.d.take()
				if len(m) != 1 || !bytes.Equal(m[0], hello) {
					c.Violation("%s received %s", p.d.name, vlib.Clip(m))
				}
			}
			if round == 0 {
				time.Sleep(6 * time.Second)
			}
		}
	})
}
