// Package c15: concurrent senders never interleave or lose messages.
package c15

import (
	"errors"
	"fmt"
	"io"
	"log"
	"sync"
	"testing"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

// message draws a message that names its goroutine and number.
func message(c *vlib.C, n int, big bool) [][]byte {
	k := rapid.IntRange(1, 5).Draw(c.T, "frames")
	fs := vlib.TaggedPlain(n)
	for i := 1; i < k; i++ {
		size := rapid.SampledFrom([]int{0, 1, 5, 255, 256, 700}).Draw(c.T, "size")
		if big && rapid.IntRange(0, 4).Draw(c.T, "big") == 0 {
			size = rapid.IntRange(5000, 80000).Draw(c.T, "bigsize")
		}
		fs = append(fs, vlib.Fill(size, uint64(n*10+i)))
	}
	return fs
}

// TestConn has goroutines send messages and commands on one connection.
func TestConn(t *testing.T) {
	vlib.Run(t, 2500, 40000, "2-8 goroutines send 1-20 tagged messages (1-5 frames) and commands each on one connection (NULL or another mechanism; the transport buffers 200 bytes to everything and hands out pieces of drawn sizes), while the peer sends PINGs that are answered: the stream must be a sequence of whole messages and commands, each once, in the order of its goroutine; non-trivial: every case", func(c *vlib.C) {
		capacity := rapid.SampledFrom([]int{0, 200, 300, 1000, 20000}).Draw(c.T, "buffer")
		a, b := vlib.MemPipe(c.Chunks(), capacity)
		var sec zmq4.Security = &vlib.Sec{Kind: zmq4.NullSecurity}
		if rapid.IntRange(0, 3).Draw(c.T, "mechanism") == 0 {
			sec = &vlib.Sec{Kind: "MINE"}
		}
		mech := string(sec.Type())
		c.Class("%s buffer=%d", mech, capacity)
		c.Nontrivial()
		p := vlib.NewPeer(b)
		c.Cleanup(func() { b.Close() })
		c.Cleanup(func() { a.Close() })
		type res struct {
			conn *zmq4.Conn
			err  error
		}
		opened := make(chan res, 1)
		go func() {
			conn, err := zmq4.Open(a, sec, zmq4.Pair, nil, false, nil)
			opened <- res{conn, err}
		}()
		if err := p.HandshakeAs("PAIR", "", mech); err != nil {
			c.Violation("handshake: %v", err)
		}
		r := <-opened
		if r.err != nil {
			c.Violation("Open: %v", r.err)
		}
		conn := r.conn
		type item struct {
			cmd    bool
			frames [][]byte
		}
		g := c.Count(2, 8, 40, "goroutines")
		big := rapid.IntRange(0, 3).Draw(c.T, "big") == 0
		lists := make([][]int, g)
		var items []*item
		for i := range lists {
			for k := rapid.IntRange(1, 20).Draw(c.T, "items"); k > 0; k-- {
				x := &item{cmd: rapid.IntRange(0, 3).Draw(c.T, "command") == 0}
				x.frames = message(c, len(items), big)
				if x.cmd {
					x.frames = x.frames[:1]
					x.frames[0] = append(x.frames[0], vlib.Fill(rapid.SampledFrom([]int{0, 1, 230, 250, 300}).Draw(c.T, "size"), uint64(len(items)))...)
				}
				lists[i] = append(lists[i], len(items))
				items = append(items, x)
			}
		}
		pings := rapid.IntRange(0, 10).Draw(c.T, "pings")
		c.D("%s buffer=%d goroutines=%d items=%d big=%v pings=%d", mech, capacity, g, len(items), big, pings)
		bad := vlib.NewBroken()
		go func() {
			for i := 0; i < pings; i++ {
				if _, err := conn.RecvMsg(); err != nil {
					bad.Add("RecvMsg: %v", err)
				}
			}
		}()
		go func() {
			for i := 0; i < pings; i++ {
				if _, err := b.Write(vlib.Command("PING", append([]byte{0, 9}, fmt.Sprintf("ctx%d", i)...))); err != nil {
					bad.Add("cannot write a PING: %v", err)
				}
			}
		}()
		for _, l := range lists {
			go func() {
				for _, n := range l {
					x := items[n]
					var err error
					if x.cmd {
						err = conn.SendCmd("TAGGED", x.frames[0])
					} else {
						err = conn.SendMsg(zmq4.NewMsgFrom(x.frames...))
					}
					if err != nil {
						bad.Add("item %d: %v", n, err)
					}
				}
			}()
		}
		next := make([]int, g)
		pongs := 0
		for left := len(items) + pings; left > 0; left-- {
			var fs [][]byte
			var cmd bool
			var err error
			c.Within("reading", func() { fs, cmd, err = readItem(p) })
			bad.Check(c)
			if err != nil {
				c.Violation("the stream breaks: %v", err)
			}
			if cmd {
				name, body, err := vlib.SplitCmd(fs[0])
				if err != nil {
					c.Violation("a broken command: %s", vlib.Clip(fs))
				}
				if name == "PONG" {
					if string(body) != fmt.Sprintf("ctx%d", pongs) {
						c.Violation("answer %d to PINGs is %q", pongs, body)
					}
					pongs++
					continue
				}
				fs = [][]byte{body}
			}
			n := vlib.TagOf(fs)
			ok := false
			for i, l := range lists {
				if next[i] < len(l) && l[next[i]] == n {
					next[i]++
					ok = true
				}
			}
			if !ok || items[n].cmd != cmd || !vlib.Same(fs, items[n].frames) {
				c.Violation("the stream has %s (command: %v) next, which is not what any goroutine sends next", vlib.Clip(fs), cmd)
			}
		}
		if pongs != pings {
			c.Violation("%d PINGs, %d answers", pings, pongs)
		}
	})
}

func readItem(p *vlib.Peer) (fs [][]byte, cmd bool, err error) {
	for {
		fl, body, err := p.ReadFrame()
		if err != nil {
			return nil, false, err
		}
		fs = append(fs, body)
		if fl&vlib.CmdFlag != 0 {
			if len(fs) > 1 {
				return nil, false, errors.New("a command in the middle of a message")
			}
			return fs, true, nil
		}
		if fl&vlib.More == 0 {
			return fs, false, nil
		}
	}
}

// TestSockets has goroutines send on one socket.
func TestSockets(t *testing.T) {
	vlib.Run(t, 1500, 20000, "2-8 goroutines send 1-30 tagged messages each, by Send or SendMulti, on one socket (PUSH, DEALER, PAIR, PUB, XPUB, ROUTER, XSUB) with 1-4 peers, sockets or raw ones over little buffers that also send PINGs; PUB, XPUB and XSUB must deliver every message to every peer, ROUTER to the addressed one, the others to exactly one; always whole, once and in the order of its goroutine; non-trivial: every case", func(c *vlib.C) {
		typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Push, zmq4.Dealer, zmq4.Pair, zmq4.Pub, zmq4.XPub, zmq4.Router, zmq4.XSub}).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "inproc", "ipc", "tcp"}).Draw(c.T, "transport")
		tx := c.New(typ, quiet, zmq4.WithTimeout(vlib.Long), zmq4.WithAutomaticReconnect(false))
		ep := ""
		if kind == "vmem" {
			name := vlib.MemName(c.Chunks(), rapid.SampledFrom([]int{0, 200, 500, 5000}).Draw(c.T, "buffer"))
			ep = "vmem://" + name
			if err := tx.Listen(ep); err != nil {
				c.Violation("listen: %v", err)
			}
		} else {
			ep = c.Listen(tx, kind)
		}
		c.Class("%s", typ)
		c.Nontrivial()
		all := typ == zmq4.Pub || typ == zmq4.XPub || typ == zmq4.XSub
		np := c.Count(1, 4, 15, "peers")
		type peer struct {
			id   string
			raw  bool
			mu   sync.Mutex
			got  [][][]byte
			ping func()
		}
		bad := vlib.NewBroken()
		var peers []*peer
		collect := func(u *peer, fs [][]byte) {
			u.mu.Lock()
			u.got = append(u.got, fs)
			u.mu.Unlock()
		}
		count := func(u *peer) int {
			u.mu.Lock()
			defer u.mu.Unlock()
			return len(u.got)
		}
		for i := 0; i < np; i++ {
			u := &peer{id: fmt.Sprintf("peer%d", i), raw: rapid.Bool().Draw(c.T, "raw"), ping: func() {}}
			part := vlib.Partner(typ)
			if typ == zmq4.XSub {
				u.raw = true
			}
			if u.raw {
				p := c.DialRaw(ep)
				if err := p.Handshake(string(part), u.id); err != nil {
					c.Violation("handshake: %v", err)
				}
				var pings sync.WaitGroup
				if part == zmq4.Sub {
					p.WriteMsg([]byte{1})
				}
				if typ == zmq4.Router {
					p.WriteMsg([]byte("hello"))
				}
				u.ping = func() {
					pings.Add(1)
					go func() {
						defer pings.Done()
						for k := 0; k < 5; k++ {
							p.Write(vlib.Command("PING", []byte{0, 9, 'x'}))
						}
					}()
				}
				go func() {
					for {
						var fs [][]byte
						for {
							fl, body, err := p.ReadFrame()
							if err != nil {
								return
							}
							if fl&vlib.CmdFlag != 0 {
								if len(fs) > 0 {
									bad.Add("a command in the middle of a message to %s", u.id)
								}
								continue
							}
							fs = append(fs, body)
							if fl&vlib.More == 0 {
								break
							}
						}
						collect(u, fs)
					}
				}()
			} else {
				s := c.New(part, quiet, zmq4.WithID(zmq4.SocketIdentity(u.id)), zmq4.WithAutomaticReconnect(false))
				if part == zmq4.Sub {
					s.SetOption(zmq4.OptionSubscribe, "")
				}
				c.Dial(s, ep)
				if typ == zmq4.Router {
					c.Send(s, false, []byte("hello"))
				}
				go func() {
					for n := 0; ; {
						m, err := vlib.Get(s)
						if err != nil {
							if !vlib.Again(err, &n) {
								return
							}
							continue
						}
						collect(u, m.Frames)
					}
				}()
			}
			peers = append(peers, u)
		}
		// all connected
		n := 0
		put := func(multi bool, u *peer, fs [][]byte) error {
			if typ == zmq4.Router {
				fs = append([][]byte{[]byte(u.id)}, fs...)
			}
			return vlib.Put(tx, multi, fs)
		}
		if typ == zmq4.Router {
			for range peers {
				c.Recv(tx)
			}
		} else {
			c.Must("all peers are reached", func() bool {
				for range peers {
					if err := put(false, nil, vlib.TaggedPlain(n)); err != nil {
						c.Violation("Send: %v", err)
					}
					n++
				}
				for _, u := range peers {
					if count(u) == 0 {
						return false
					}
				}
				return true
			})
		}
		warm := n
		g := c.Count(2, 8, 40, "goroutines")
		type item struct {
			fs    [][]byte
			to    *peer
			multi bool
			g     int
		}
		var items []*item
		lists := make([][]int, g)
		big := rapid.IntRange(0, 3).Draw(c.T, "big") == 0
		for i := range lists {
			for k := rapid.IntRange(1, 30).Draw(c.T, "messages"); k > 0; k-- {
				items = append(items, &item{message(c, n, big), peers[rapid.IntRange(0, np-1).Draw(c.T, "to")], rapid.Bool().Draw(c.T, "multi"), i})
				lists[i] = append(lists[i], n)
				n++
			}
		}
		c.D("%s over %s to %d peers, %d goroutines, %d messages, big=%v", typ, kind, np, g, len(items), big)
		for _, u := range peers {
			u.ping()
		}
		for _, l := range lists {
			go func() {
				for _, k := range l {
					x := items[k-warm]
					if err := put(x.multi, x.to, x.fs); err != nil {
						bad.Add("Send: %v", err)
					}
				}
			}()
		}
		fresh := func(u *peer) (out [][][]byte) {
			u.mu.Lock()
			defer u.mu.Unlock()
			for _, fs := range u.got {
				if k := vlib.TagOf(fs); k < 0 || k >= warm {
					out = append(out, fs)
				}
			}
			return
		}
		done := func() bool {
			sum := 0
			for _, u := range peers {
				k := len(fresh(u))
				if all && k < len(items) {
					return false
				}
				sum += k
			}
			return sum >= len(items)
		}
		ok := vlib.Eventually(vlib.Long, done)
		bad.Check(c)
		if typ == zmq4.Router {
			// nothing comes after the last one
			for _, u := range peers {
				if err := put(false, u, [][]byte{[]byte("last")}); err != nil {
					c.Violation("Send: %v", err)
				}
			}
		}
		seen := map[int]string{}
		for _, u := range peers {
			last := make([]int, g)
			mine := map[int]bool{}
			for _, fs := range fresh(u) {
				k := vlib.TagOf(fs)
				if len(fs) == 1 && string(fs[0]) == "last" {
					continue
				}
				if k < warm || k >= n || !vlib.Same(fs, items[k-warm].fs) {
					c.Violation("%s received %s, which nobody sent", u.id, vlib.Clip(fs))
				}
				x := items[k-warm]
				if mine[k] || !all && seen[k] != "" {
					c.Violation("message %d came to %s and to %s", k, u.id, seen[k])
				}
				seen[k] = u.id
				mine[k] = true
				if typ == zmq4.Router && x.to != u {
					c.Violation("message %d for %s came to %s", k, x.to.id, u.id)
				}
				if k < last[x.g] {
					c.Violation("%s received message %d of goroutine %d after its message %d", u.id, k, x.g, last[x.g])
				}
				last[x.g] = k
			}
			if all && len(mine) < len(items) {
				c.Violation("%s received %d of %d messages", u.id, len(mine), len(items))
			}
		}
		if !ok || len(seen) < len(items) {
			c.Violation("of %d messages %d arrive", len(items), len(seen))
		}
	})
}
