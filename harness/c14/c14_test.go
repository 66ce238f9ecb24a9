// Package c14: dialing retries, and lost connections are re-established.
package c14

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

func TestMain(m *testing.M) {
	// sockets print about failed handshakes there
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Exit(m.Run())
}

// promptly bounds what must not wait for retries; generous for busy machines.
const promptly = 10 * time.Second

// TestRetries counts the attempts of Dial.
func TestRetries(t *testing.T) {
	vlib.Run(t, 1500, 20000, "a socket of any type with 0-6 retries or unlimited ones, 1-12 ms or an hour apart, dials an endpoint that refuses the first 0-8 attempts or all; Dial must succeed with the first attempt that is not refused if the retries allow it, and else fail after exactly that many; attempts must not come faster than the interval; when the context ends or the socket is closed Dial must fail promptly and make no further attempt; after success messages must pass; non-trivial: an attempt is refused", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		retries := rapid.IntRange(-1, 6).Draw(c.T, "retries")
		refuse := c.Count(0, 8, 60, "refused")
		interval := time.Duration(rapid.IntRange(1000, 12000).Draw(c.T, "interval")) * time.Microsecond
		end := ""
		switch rapid.IntRange(0, 5).Draw(c.T, "how") {
		case 0:
			refuse = 1 << 30
		case 1:
			end = rapid.SampledFrom([]string{"cancel", "close"}).Draw(c.T, "end")
			refuse = 1 << 30
			if rapid.Bool().Draw(c.T, "long") {
				interval = time.Hour
			} else {
				retries = -1
			}
		}
		if retries == -1 && refuse == 1<<30 && end == "" {
			retries = 3
		}
		if end != "" && retries == 0 {
			retries = 1
		}
		c.D("%s retries=%d refused=%d interval=%v end=%s", typ, retries, refuse, interval, end)
		c.Class("retries=%d end=%s", retries, end)
		if refuse > 0 {
			c.Nontrivial()
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		s := c.Sock(vlib.Make(typ, ctx, quiet, zmq4.WithDialerMaxRetries(retries), zmq4.WithDialerRetry(interval), zmq4.WithAutomaticReconnect(false)))
		name := vlib.MemName(nil, 0)
		vlib.MemRefuse(name, refuse)
		l, err := vlib.MemListen(name)
		if err != nil {
			panic(err)
		}
		defer l.Close()
		id := vlib.Unique("id")
		got := make(chan *vlib.Peer, 1)
		go func() {
			conn, err := l.Accept()
			if err != nil {
				got <- nil
				return
			}
			p := vlib.NewPeer(conn)
			p.Handshake(string(vlib.Partner(typ)), id)
			got <- p
		}()
		done := make(chan struct{})
		go func() {
			err = s.Dial("vmem://" + name)
			close(done)
		}()
		if end != "" {
			time.Sleep(time.Duration(rapid.IntRange(0, 5000).Draw(c.T, "end after")) * time.Microsecond)
			if end == "cancel" {
				cancel()
			} else {
				s.Close()
			}
			c.WithinD(promptly, "Dial of a socket that ended", func() { <-done })
			if err == nil {
				c.Violation("Dial of a socket that ended succeeds")
			}
			k := len(vlib.MemTries(name))
			if interval < time.Hour && rapid.IntRange(0, 4).Draw(c.T, "look") == 0 {
				time.Sleep(3 * interval)
				if len(vlib.MemTries(name)) > k {
					c.Violation("a socket that ended goes on dialing")
				}
			}
			return
		}
		c.Within("Dial", func() { <-done })
		tries := vlib.MemTries(name)
		want, ok := refuse+1, true
		if retries >= 0 && refuse > retries {
			want, ok = retries+1, false
		}
		if ok != (err == nil) {
			c.Violation("with %d retries and %d refusals Dial returns %v", retries, refuse, err)
		}
		if len(tries) != want {
			c.Violation("with %d retries and %d refusals Dial tries %d times", retries, refuse, len(tries))
		}
		for i := 1; i < len(tries); i++ {
			if d := tries[i].Sub(tries[i-1]); d < interval*9/10 {
				c.Violation("attempt %d comes %v after the one before, with an interval of %v", i, d, interval)
			}
		}
		if !ok {
			return
		}
		p := <-got
		c.Cleanup(func() { p.Close() })
		c.Serves(s, p, id)
	})
}

// TestLate listens after the dialing began.
func TestLate(t *testing.T) {
	vlib.Run(t, 400, 5000, "a socket dials an endpoint (tcp, ipc, inproc, vmem) that another socket begins to listen on 0-15 ms later: Dial must succeed and a message pass; non-trivial: the endpoint is bound after Dial was called", func(c *vlib.C) {
		kind := rapid.SampledFrom([]string{"tcp", "ipc", "inproc", "vmem"}).Draw(c.T, "transport")
		typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Push, zmq4.Req, zmq4.Dealer, zmq4.Pair}).Draw(c.T, "type")
		ep := c.Fixed(kind)
		s := c.New(typ, quiet, zmq4.WithDialerMaxRetries(-1), zmq4.WithDialerRetry(2*time.Millisecond))
		o := c.New(vlib.Partner(typ), quiet)
		wait := rapid.IntRange(0, 15).Draw(c.T, "wait")
		c.D("%s %s after %d ms", typ, kind, wait)
		c.Class("%s", kind)
		go func() {
			time.Sleep(time.Duration(wait) * time.Millisecond)
			o.Listen(ep)
		}()
		if wait > 0 {
			c.Nontrivial()
		}
		c.Dial(s, ep)
		c.Send(s, false, []byte("late"))
		if got := c.Recv(o); !vlib.Same(got, [][]byte{[]byte("late")}) {
			c.Violation("got %s", vlib.Clip(got))
		}
	})
}

// server is a raw listener at a fixed endpoint, that can be down.
type server struct {
	c     *vlib.C
	typ   zmq4.SocketType // of the peers it plays
	ep    string
	id    string
	l     net.Listener
	flaky int // connections to close before their handshake
	mu    sync.Mutex
	peers []*vlib.Peer
	lost  int // handshakes that failed
}

func (v *server) up() {
	kind, addr, _ := strings.Cut(v.ep, "://")
	var l net.Listener
	var err error
	if !vlib.Eventually(vlib.Long/4, func() bool {
		switch kind {
		case "vmem":
			l, err = vlib.MemListen(addr)
		case "inproc":
			l, err = inproc.Listen(addr)
		case "ipc":
			l, err = net.Listen("unix", addr)
		default:
			l, err = net.Listen("tcp", addr)
		}
		return err == nil
	}) {
		v.c.Violation("the harness cannot listen on %s: %v", v.ep, err)
	}
	v.l = l
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			v.mu.Lock()
			if v.flaky > 0 {
				v.flaky--
				v.mu.Unlock()
				conn.Close()
				continue
			}
			v.mu.Unlock()
			go func() {
				p := vlib.NewPeer(conn)
				err := p.Handshake(string(v.typ), v.id)
				v.mu.Lock()
				if err != nil {
					v.lost++
					conn.Close()
				} else {
					v.peers = append(v.peers, p)
				}
				v.mu.Unlock()
			}()
		}
	}()
}

func (v *server) count() int {
	v.mu.Lock()
	defer v.mu.Unlock()
	return len(v.peers)
}

func (v *server) last() *vlib.Peer {
	v.mu.Lock()
	defer v.mu.Unlock()
	return v.peers[len(v.peers)-1]
}

// TestReconnect has peers go away and come back.
func TestReconnect(t *testing.T) {
	vlib.Run(t, 700, 9000, "a socket of any type that also listens has dialed 1-3 raw peers (vmem, inproc, ipc, tcp), with automatic reconnection on or off; in 1-8 steps a drawn peer's connection ends (at rest, in the middle of a frame, with a read error, or with the listener down for a while and then back, refusing some connections before their handshake, or with as many attempts refused as the socket's limited retries allow), a SUB's subscriptions change, or a peer the socket accepted leaves; with reconnection every dialed endpoint that lost its connection must get exactly one new one, no other endpoint any, and it must be served, with the current subscriptions; without it there must be no attempt; nothing is ever dialed for accepted peers; non-trivial: a lost connection with others left", func(c *vlib.C) {
		typ := rapid.SampledFrom(append([]zmq4.SocketType{zmq4.Sub, zmq4.Sub}, vlib.Types...)).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "vmem", "inproc", "ipc", "tcp"}).Draw(c.T, "transport")
		auto := rapid.IntRange(0, 3).Draw(c.T, "auto") > 0
		retry := time.Duration(rapid.IntRange(500, 4000).Draw(c.T, "retry")) * time.Microsecond
		n := c.Count(1, 3, 12, "peers")
		if typ == zmq4.Req || kind == "inproc" && (typ == zmq4.Push || typ == zmq4.Dealer || typ == zmq4.Pair) {
			n = 1 // the others would have to answer, or to read
		}
		limit := -1
		if auto && rapid.IntRange(0, 2).Draw(c.T, "limited") == 0 {
			limit = rapid.IntRange(0, 4).Draw(c.T, "limit")
			c.Class("limited retries")
		}
		opts := []zmq4.Option{quiet, zmq4.WithDialerMaxRetries(limit), zmq4.WithDialerRetry(retry), zmq4.WithTimeout(vlib.Long)}
		if !auto || rapid.Bool().Draw(c.T, "explicit") {
			opts = append(opts, zmq4.WithAutomaticReconnect(auto))
		}
		s := c.New(typ, opts...)
		c.D("%s %s auto=%v retry=%v limit=%d peers=%d", typ, kind, auto, retry, limit, n)
		c.Class("%s auto=%v", kind, auto)
		topics := map[string]bool{}
		if typ == zmq4.Sub {
			for k := rapid.IntRange(0, 3).Draw(c.T, "topics"); k > 0; k-- {
				topic := rapid.SampledFrom([]string{"", "a", "ab", "\x00", "b"}).Draw(c.T, "topic")
				topics[topic] = true
				if err := s.SetOption(zmq4.OptionSubscribe, topic); err != nil {
					c.Violation("subscribe: %v", err)
				}
			}
		}
		own := c.Fixed("vmem")
		if err := s.Listen(own); err != nil {
			c.Violation("listen: %v", err)
		}
		var vs []*server
		want := make([]int, n)
		for i := 0; i < n; i++ {
			v := &server{c: c, typ: vlib.Partner(typ), ep: c.Fixed(kind), id: fmt.Sprintf("server%d", i)}
			v.up()
			vs = append(vs, v)
			c.Cleanup(func() {
				v.l.Close()
				for _, p := range v.peers {
					p.Close()
				}
			})
			c.Dial(s, v.ep)
			want[i]++
		}
		serves := func(i int) {
			v := vs[i]
			if typ == zmq4.Sub {
				checkSubs(c, v.last(), topics)
				if !topics[""] && !topics["\x05"] {
					return // it would get nothing
				}
			}
			c.Serves(s, v.last(), v.id)
		}
		counts := func() (out []int) {
			for _, v := range vs {
				out = append(out, v.count())
			}
			return
		}
		check := func(what string) {
			if !vlib.Eventually(vlib.Long, func() bool {
				for i, k := range counts() {
					if k < want[i] {
						return false
					}
				}
				return true
			}) {
				c.Violation("%s: the endpoints have had %v connections, should be %v", what, counts(), want)
			}
			for i, k := range counts() {
				if k > want[i] {
					c.Violation("%s: the endpoints have had %v connections, should be %v", what, counts(), want)
				}
			}
		}
		check("after Dial")
		alive := make([]bool, n)
		for i := range alive {
			alive[i] = true
			serves(i)
		}
		downs := 0
		for k := c.Count(1, 8, 40, "steps"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(c.T, "peer")
			v := vs[i]
			step := rapid.SampledFrom([]string{"end", "frame", "error", "down", "down", "topic", "accepted"}).Draw(c.T, "step")
			switch step {
			case "topic":
				if typ != zmq4.Sub {
					continue
				}
				topic := rapid.SampledFrom([]string{"", "a", "ab", "\x00", "b"}).Draw(c.T, "topic")
				name := zmq4.OptionSubscribe
				if topics[topic] {
					name = zmq4.OptionUnsubscribe
					delete(topics, topic)
				} else {
					topics[topic] = true
				}
				s.SetOption(name, topic) // errors are about lost connections
				c.D("%s %q", name, topic)
				continue
			case "accepted":
				p := c.Join(s, own, "accepted")
				before := len(vlib.MemTries(strings.TrimPrefix(own, "vmem://")))
				p.Close()
				c.D("an accepted peer leaves")
				time.Sleep(3 * retry)
				if k := len(vlib.MemTries(strings.TrimPrefix(own, "vmem://"))); k > before {
					c.Violation("the socket dials itself when a peer it accepted leaves")
				}
				check("after an accepted peer left")
				continue
			}
			if !alive[i] {
				continue
			}
			c.D("%s of %d", step, i)
			c.Class("%s", step)
			p := v.last()
			if n > 1 {
				c.Nontrivial()
			}
			if step == "down" && limit >= 0 {
				// as many failures as it may retry after
				step = "flaky"
				v.mu.Lock()
				v.flaky = rapid.IntRange(0, limit).Draw(c.T, "refused")
				c.D("%d attempts will fail", v.flaky)
				v.mu.Unlock()
			}
			down := step == "down"
			if down {
				v.l.Close()
				downs++
			}
			switch step {
			case "frame":
				p.Write([]byte{0, 50, 'h', 'a', 'l', 'f'})
				p.Close()
			case "error":
				if m, ok := p.Conn.(*vlib.MemConn); ok {
					m.Break(&net.OpError{Op: "read", Err: errors.New("broken")})
				} else if tc, ok := p.Conn.(*net.TCPConn); ok {
					tc.SetLinger(0) // a reset
					tc.Close()
				} else {
					p.Close()
				}
			default:
				p.Close()
			}
			if auto {
				want[i]++
			} else {
				alive[i] = false
			}
			if down {
				time.Sleep(time.Duration(rapid.IntRange(0, 3).Draw(c.T, "down for")) * retry)
				if typ == zmq4.Sub && rapid.Bool().Draw(c.T, "subscribe meanwhile") {
					topics["c"] = true
					s.SetOption(zmq4.OptionSubscribe, "c")
				}
				v.mu.Lock()
				if auto {
					v.flaky = rapid.IntRange(0, 2).Draw(c.T, "flaky")
				}
				v.mu.Unlock()
				v.up()
			}
			if !auto {
				time.Sleep(4 * retry)
			}
			check("after " + step)
			for j := range vs {
				if alive[j] && (j == i || rapid.IntRange(0, 3).Draw(c.T, "others too") == 0) {
					serves(j)
				}
			}
		}
		// nothing more comes
		time.Sleep(4 * retry)
		check("at the end")
		if kind == "vmem" && !auto {
			for i, v := range vs {
				if k := len(vlib.MemTries(strings.TrimPrefix(v.ep, "vmem://"))); k != 1 {
					c.Violation("without reconnection endpoint %d is dialed %d times", i, k)
				}
			}
		}
		s.Close()
		for _, v := range vs {
			v.l.Close()
			v.mu.Lock()
			for _, p := range v.peers {
				p.Close()
			}
			v.mu.Unlock()
		}
		c.NoGoroutines("after Close")
	})
}

// checkSubs wants the peer of a SUB to be told exactly the topics.
func checkSubs(c *vlib.C, p *vlib.Peer, topics map[string]bool) {
	c.Helper()
	var want []string
	for k := range topics {
		want = append(want, k)
	}
	sort.Strings(want)
	have := subs(p)
	deadline := time.Now().Add(vlib.Long)
	for {
		var got []string
		for k := range have {
			got = append(got, k)
		}
		sort.Strings(got)
		if strings.Join(got, "\x01") == strings.Join(want, "\x01") && len(got) == len(want) {
			return
		}
		f, err := p.ReadMsgT(time.Until(deadline))
		if err != nil {
			c.Violation("a publisher that came back knows of subscriptions to %q, should be %q (%v)", got, want, err)
		}
		if len(f) != 1 || len(f[0]) < 1 {
			c.Violation("the publisher was sent %s", vlib.Clip(f))
		}
		if bytes.HasPrefix(f[0], []byte{1}) {
			have[string(f[0][1:])] = true
		} else {
			delete(have, string(f[0][1:]))
		}
	}
}

var (
	subMu sync.Mutex
	table = map[*vlib.Peer]map[string]bool{}
)

// subs returns what a peer was told so far.
func subs(p *vlib.Peer) map[string]bool {
	subMu.Lock()
	defer subMu.Unlock()
	if table[p] == nil {
		table[p] = map[string]bool{}
	}
	return table[p]
}
