// Package c19: networking nodes deliver broadcasts and direct messages exactly once.
package c19

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4/networking"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Exit(m.Run())
}

// call is what a handler was called with.
type call struct {
	reg int // which registration
	msg networking.Message
}

type node struct {
	name     string
	t        *networking.Transport
	mu       sync.Mutex
	calls    []call
	peers    []int          // whom it connected to
	to       []int          // who connected to it
	handlers map[string]int // by type, which registration; the model
	sent     uint64
	received uint64
	s0, r0   uint64 // after warming up
}

// label is how a node calls another.
func label(from, to *node) string { return to.name }

func id(m *networking.Message) string { return string(m.SessionID) }

type want struct {
	reg           int
	typ, from, to string
	height        uint64
	round         uint32
	session       []byte
	data          json.RawMessage
}

func sameJSON(a, b json.RawMessage) bool {
	if len(a) == 0 || len(b) == 0 {
		return len(a) == len(b)
	}
	var x, y bytes.Buffer
	if json.Compact(&x, a) != nil || json.Compact(&y, b) != nil {
		return false
	}
	// numbers must be kept digit by digit, strings however escaped
	norm := func(b []byte) string {
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var v any
		if d.Decode(&v) != nil {
			return "?" + string(b)
		}
		out, _ := json.Marshal(v)
		return string(out)
	}
	return norm(x.Bytes()) == norm(y.Bytes())
}

var texts = rapid.OneOf(rapid.StringN(0, 8, 30), rapid.SampledFrom([]string{"", "t", "T", "vote", "vote ", "<b>&\u2028\"\\\x00", "ключ", "\U0001F511"}))

func payload(c *vlib.C) json.RawMessage {
	var v any
	switch rapid.IntRange(0, 9).Draw(c.T, "payload") {
	case 0:
		return nil
	case 1:
		return json.RawMessage(rapid.SampledFrom([]string{"null", "true", "[]", "{}", `""`, "0", "-0.0", "1e400", "123456789012345678901234567890", ` { "a" : [ 1 , 2 ] } `, "\"<>&\u2028\"", `"\ud83d\ude00\u0000"`}).Draw(c.T, "json"))
	case 2:
		v = texts.Draw(c.T, "text")
	case 3:
		n := rapid.SampledFrom([]int{1, 200, 255, 256, 300, 5000, 70000, 1 << 20}).Draw(c.T, "size")
		v = vlib.Fill(n, rapid.Uint64().Draw(c.T, "fill"))
	case 4:
		v = rapid.MapOfN(texts, rapid.Int64(), 0, 5).Draw(c.T, "map")
	case 5:
		v = rapid.SliceOfN(texts, 0, 5).Draw(c.T, "list")
	default:
		v = rapid.Int64().Draw(c.T, "number")
	}
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// TestHistory drives a network of nodes.
func TestHistory(t *testing.T) {
	types := []string{"a", "b", "A", "", "vote/1", "\u00fc"}
	vlib.Run(t, 1500, 30000, "1-4 nodes with a drawn graph of connections, among them to themselves and on the same or different addresses, get drawn registrations, replacements and removals of handlers (one of which never returns), broadcasts, direct messages (also to nodes not connected to, which must fail), single or in concurrent bursts, with or without retry, with drawn fields (payloads up to a megabyte, odd but valid JSON and UTF-8); after each step every node's counters must be exactly the model's, and each message must have been given once to the handler that was registered, with all fields as sent; non-trivial: a message reaches at least one handler and the graph is not symmetric or has at least 3 nodes", func(c *vlib.C) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		n := c.Count(1, 4, 9, "nodes")
		oneAddr := rapid.Bool().Draw(c.T, "one address")
		addr := vlib.Loopback()
		var nodes []*node
		var addrs []string
		var ports []int
		for i := 0; i < n; i++ {
			if i > 0 && !oneAddr {
				addr = vlib.Loopback()
			}
			name := rapid.SampledFrom([]string{"n%d", "node-%d.example", "%d", "узел%d", "Node<%d>&"}).Draw(c.T, "name")
			port := 5000 + i*7
			cfg := networking.DefaultConfig(fmt.Sprintf(name, i), port)
			if rapid.Bool().Draw(c.T, "plain config") {
				cfg = networking.Config{NodeID: cfg.NodeID, BasePort: port}
			}
			cfg.BindAddress = addr
			nd := &node{name: cfg.NodeID, t: networking.New(ctx, cfg), handlers: map[string]int{}}
			if err := nd.t.Start(); err != nil {
				c.Violation("Start: %v", err)
			}
			c.Cleanup(func() {
				done := make(chan struct{})
				go func() { nd.t.Stop(); close(done) }()
				select {
				case <-done:
				case <-time.After(vlib.Long):
				}
			})
			if got := nd.t.GetNodeID(); got != nd.name {
				c.Violation("GetNodeID is %q", got)
			}
			nodes, addrs, ports = append(nodes, nd), append(addrs, addr), append(ports, port)
		}
		asym := false
		edges := map[[2]int]bool{}
		for i := range nodes {
			for j := range nodes {
				p := 3
				if i == j {
					p = 1
				}
				if rapid.IntRange(0, 4).Draw(c.T, "edge") >= p {
					continue
				}
				edges[[2]int{i, j}] = true
				c.D("%d>%d", i, j)
				var err error
				if oneAddr && rapid.Bool().Draw(c.T, "without address") {
					c.Within("ConnectPeer", func() { err = nodes[i].t.ConnectPeer(nodes[j].name, ports[j]) })
				} else {
					c.Within("ConnectPeerWithAddress", func() { err = nodes[i].t.ConnectPeerWithAddress(nodes[j].name, addrs[j], ports[j]) })
				}
				if err != nil {
					c.Violation("connecting: %v", err)
				}
				nodes[i].peers = append(nodes[i].peers, j)
				nodes[j].to = append(nodes[j].to, i)
			}
		}
		for e := range edges {
			if !edges[[2]int{e[1], e[0]}] {
				asym = true
			}
		}
		// subscriptions take their time: broadcast until all get it
		for j, nd := range nodes {
			if len(nd.to) == 0 || len(nd.to) == 1 && nd.to[0] == j {
				// a node's own broadcasts cannot be seen to arrive
				continue
			}
			var mu sync.Mutex
			have := map[int]bool{}
			last := map[int]bool{}
			for _, i := range nd.to {
				nodes[i].t.RegisterHandler(" warm", func(m *networking.Message) {
					mu.Lock()
					have[i] = true
					last[i] = last[i] || m.Height == 1
					mu.Unlock()
				})
			}
			count := func(m map[int]bool) int {
				mu.Lock()
				defer mu.Unlock()
				k := len(nd.to)
				for _, i := range nd.to {
					if !m[i] && i != j {
						k--
					}
				}
				return k
			}
			c.Must(fmt.Sprintf("a broadcast of node %d reaches those who connected to it", j), func() bool {
				if err := nd.t.Broadcast(&networking.Message{Type: " warm"}); err != nil {
					c.Violation("Broadcast: %v", err)
				}
				return count(have) == len(nd.to)
			})
			nd.t.Broadcast(&networking.Message{Type: " warm", Height: 1})
			mu.Lock()
			for i := range last {
				last[i] = false
			}
			mu.Unlock()
			c.Must("the last broadcast arrives", func() bool {
				nd.t.Broadcast(&networking.Message{Type: " warm", Height: 1})
				return count(last) == len(nd.to)
			})
		}
		for _, nd := range nodes {
			nd.t.UnregisterHandler(" warm")
			// direct connections
			for _, j := range nd.peers {
				if err := nd.t.Send(nodes[j].name, &networking.Message{Type: " hi"}); err != nil {
					c.Violation("Send: %v", err)
				}
			}
		}
		// until nothing moves any more
		snap := func() (s string) {
			for _, nd := range nodes {
				a, b, d := nd.t.GetMetrics()
				nd.s0, nd.r0 = a, b
				s += fmt.Sprint(a, b, d, " ")
			}
			return
		}
		settle(c, nodes)
		snap()
		for _, nd := range nodes {
			if _, _, d := nd.t.GetMetrics(); d != 0 {
				c.Violation("%d messages were dropped though all were well-formed", d)
			}
		}
		gate := make(chan struct{})
		defer close(gate)
		regs := 0
		expected := map[string]map[int]want{} // by message id and node
		reached := false
		msgs := 0
		draw := func() *networking.Message {
			msgs++
			return &networking.Message{
				Type:      rapid.SampledFrom(types).Draw(c.T, "type"),
				SessionID: append([]byte(fmt.Sprintf("%06d", msgs)), rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "session")...),
				Height:    rapid.SampledFrom([]uint64{0, 1, 1 << 53, 1<<53 + 1, 1<<64 - 1, rapid.Uint64().Draw(c.T, "h")}).Draw(c.T, "height"),
				Round:     rapid.SampledFrom([]uint32{0, 1, 1<<32 - 1, rapid.Uint32().Draw(c.T, "r")}).Draw(c.T, "round"),
				Data:      payload(c),
				From:      rapid.SampledFrom([]string{"", "x", nodes[0].name}).Draw(c.T, "from"),
			}
		}
		expect := func(to *node, ti int, m networking.Message, from, addressee string) {
			to.received++
			if reg, ok := to.handlers[m.Type]; ok {
				reached = true
				if expected[id(&m)] == nil {
					expected[id(&m)] = map[int]want{}
				}
				expected[id(&m)][ti] = want{reg, m.Type, from, addressee, m.Height, m.Round, m.SessionID, m.Data}
			}
		}
		// reused is a message object that was sent before
		var reused *networking.Message
		for k := rapid.IntRange(3, 25).Draw(c.T, "steps"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(c.T, "node")
			nd := nodes[i]
			switch op := rapid.IntRange(0, 9).Draw(c.T, "step"); {
			case op < 2:
				typ := rapid.SampledFrom(types).Draw(c.T, "handler type")
				switch rapid.IntRange(0, 4).Draw(c.T, "registration") {
				case 0:
					c.D("%d unregisters %q", i, typ)
					nd.t.UnregisterHandler(typ)
					delete(nd.handlers, typ)
				case 1:
					c.D("%d registers nil for %q", i, typ)
					nd.t.RegisterHandler(typ, nil)
					delete(nd.handlers, typ)
				default:
					regs++
					reg, hang := regs, rapid.IntRange(0, 3).Draw(c.T, "hangs") == 0
					c.D("%d registers %q hanging=%v", i, typ, hang)
					nd.handlers[typ] = reg
					nd.t.RegisterHandler(typ, func(m *networking.Message) {
						nd.mu.Lock()
						nd.calls = append(nd.calls, call{reg, *m})
						nd.mu.Unlock()
						if hang {
							<-gate
						}
					})
				}
			case op < 9:
				burst := 1
				if rapid.IntRange(0, 5).Draw(c.T, "burst") == 0 {
					burst = c.Count(2, 60, 300, "burst of")
				}
				var wg sync.WaitGroup
				errs := make(chan error, burst)
				concurrent := rapid.Bool().Draw(c.T, "concurrent")
				for b := 0; b < burst; b++ {
					src := i
					if burst > 1 {
						src = rapid.IntRange(0, n-1).Draw(c.T, "from node")
					}
					s := nodes[src]
					m := draw()
					if burst > 1 && len(m.Data) > 1000 {
						m.Data = nil
					}
					if reused != nil && burst == 1 && rapid.IntRange(0, 3).Draw(c.T, "reuse") == 0 {
						keep := *m
						*reused = networking.Message{Type: keep.Type, SessionID: keep.SessionID, Height: keep.Height, Round: keep.Round, Data: keep.Data, From: reused.From, To: reused.To, Timestamp: reused.Timestamp}
						m = reused
						c.D("reusing a message to %q", m.To)
					}
					reused = m
					orig := *m
					retry := rapid.Bool().Draw(c.T, "retry")
					var do func() error
					if rapid.Bool().Draw(c.T, "broadcast") {
						c.D("%d broadcasts %q %d", src, m.Type, len(m.Data))
						for _, x := range s.to {
							if x != src {
								expect(nodes[x], x, orig, s.name, "")
							}
						}
						do = func() error { return s.t.Broadcast(m) }
						if retry {
							do = func() error { return s.t.BroadcastWithRetry(m) }
						}
					} else if len(s.peers) > 0 {
						j := rapid.SampledFrom(s.peers).Draw(c.T, "to")
						c.D("%d sends %q %d to %d", src, m.Type, len(m.Data), j)
						expect(nodes[j], j, orig, s.name, label(s, nodes[j]))
						do = func() error { return s.t.Send(nodes[j].name, m) }
						if retry {
							do = func() error { return s.t.SendWithRetry(nodes[j].name, m) }
						}
					} else {
						continue
					}
					s.sent++
					if !concurrent {
						var err error
						c.Within("sending", func() { err = do() })
						if err != nil {
							c.Violation("sending: %v", err)
						}
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs <- do()
					}()
				}
				c.Within("sending a burst", wg.Wait)
				close(errs)
				for err := range errs {
					if err != nil {
						c.Violation("sending: %v", err)
					}
				}
			default:
				// to one that it has not connected to
				name := "nobody"
				for j := range nodes {
					if !edges[[2]int{i, j}] {
						name = nodes[j].name
					}
				}
				c.D("%d sends to %q, not a peer", i, name)
				var err error
				c.Within("sending", func() { err = nd.t.Send(name, draw()) })
				if err == nil {
					c.Violation("sending to %q, which is no peer, succeeds", name)
				}
			}
			// all that was sent has arrived
			for j, x := range nodes {
				ok := vlib.Eventually(vlib.Long, func() bool {
					_, r, _ := x.t.GetMetrics()
					return r-x.r0 >= x.received
				})
				s, r, d := x.t.GetMetrics()
				if !ok || r-x.r0 != x.received {
					c.Violation("node %d received %d messages, %d were sent to it", j, r-x.r0, x.received)
				}
				if s-x.s0 != x.sent || d != 0 {
					c.Violation("node %d counts %d sent and %d dropped, it sent %d", j, s-x.s0, d, x.sent)
				}
			}
			if !check(c, nodes, expected) {
				c.Violation("handlers were called %s", missing(nodes, expected))
			}
		}
		if reached && (asym || n > 2) {
			c.Nontrivial()
		}
		c.Class("%d nodes", n)
		if rapid.IntRange(0, 9).Draw(c.T, "linger") == 0 {
			time.Sleep(5 * time.Millisecond)
			for j, x := range nodes {
				if _, r, _ := x.t.GetMetrics(); r-x.r0 != x.received {
					c.Violation("node %d received %d messages, %d were sent to it", j, r-x.r0, x.received)
				}
			}
			if !check(c, nodes, expected) {
				c.Violation("handlers were called %s", missing(nodes, expected))
			}
		}
	})
}

// settle waits until what was sent so far has arrived: along each connection
// messages arrive in order, so those that are last arrive last.
func settle(c *vlib.C, nodes []*node) {
	var mu sync.Mutex
	got := map[string]bool{}
	for _, nd := range nodes {
		nd.t.RegisterHandler(" settle", func(m *networking.Message) {
			mu.Lock()
			got[fmt.Sprint(nd.name, "|", m.From, "|", m.To == "", m.Height)] = true
			mu.Unlock()
		})
	}
	need := 0
	for j, nd := range nodes {
		if err := nd.t.Broadcast(&networking.Message{Type: " settle"}); err != nil {
			c.Violation("Broadcast: %v", err)
		}
		for _, i := range nd.to {
			if i != j {
				need++
			}
		}
		for _, i := range nd.peers {
			if err := nd.t.Send(nodes[i].name, &networking.Message{Type: " settle"}); err != nil {
				c.Violation("Send: %v", err)
			}
			need++
		}
	}
	c.Must("broadcasts and direct messages arrive on all connections", func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(got) == need
	})
	for _, nd := range nodes {
		nd.t.UnregisterHandler(" settle")
	}
}

// check waits until all expected calls were made and sees that they are right.
func check(c *vlib.C, nodes []*node, expected map[string]map[int]want) bool {
	total := 0
	for _, m := range expected {
		total += len(m)
	}
	if !vlib.Eventually(vlib.Long, func() bool {
		k := 0
		for _, nd := range nodes {
			nd.mu.Lock()
			k += len(nd.calls)
			nd.mu.Unlock()
		}
		return k >= total
	}) {
		return false
	}
	for i, nd := range nodes {
		nd.mu.Lock()
		calls := append([]call(nil), nd.calls...)
		nd.mu.Unlock()
		seen := map[string]bool{}
		for _, cl := range calls {
			m := cl.msg
			w, ok := expected[id(&m)][i]
			if !ok {
				c.Violation("node %d handled a message that was not for it: %s from %q to %q of type %q", i, vlib.Clip(m.SessionID), m.From, m.To, m.Type)
			}
			if seen[id(&m)] {
				c.Violation("node %d handled a message twice: %s", i, vlib.Clip(m.SessionID))
			}
			seen[id(&m)] = true
			if cl.reg != w.reg {
				c.Violation("node %d handled a message of type %q with another handler than the one registered", i, m.Type)
			}
			if m.Type != w.typ || m.From != w.from || m.To != w.to || m.Height != w.height || m.Round != w.round || !bytes.Equal(m.SessionID, w.session) || !sameJSON(m.Data, w.data) {
				c.Violation("node %d handled %s, sent was %s", i, vlib.Clip(fmt.Sprintf("%+v", m)), vlib.Clip(fmt.Sprintf("%+v", w)))
			}
			if m.Timestamp == 0 {
				c.Violation("node %d handled a message without time", i)
			}
		}
	}
	return true
}

func missing(nodes []*node, expected map[string]map[int]want) string {
	for k, m := range expected {
		for i, w := range m {
			found := false
			nodes[i].mu.Lock()
			for _, cl := range nodes[i].calls {
				found = found || id(&cl.msg) == k
			}
			nodes[i].mu.Unlock()
			if !found {
				return fmt.Sprintf("for fewer messages than arrived: node %d's handler of %q was not", i, w.typ)
			}
		}
	}
	return "as expected"
}
