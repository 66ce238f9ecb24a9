// Package c03: no peer byte stream can crash, bloat or confuse a socket.
package c03

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"net"
	"runtime"
	"strings"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

// mutate damages b.
func mutate(c *vlib.C, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := rapid.IntRange(1, 3).Draw(c.T, "mutations"); n > 0; n-- {
		i := 0
		if len(b) > 0 {
			i = rapid.IntRange(0, len(b)-1).Draw(c.T, "at")
		}
		switch rapid.IntRange(0, 6).Draw(c.T, "how") {
		case 0:
			b = b[:i]
			c.D("cut at %d", i)
		case 1:
			if len(b) > 0 {
				b[i] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
				c.D("flip %d", i)
			}
		case 2:
			if len(b) > 0 {
				b[i] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 0x7f, 0x80, 0xff}).Draw(c.T, "byte")
				c.D("byte %d=%d", i, b[i])
			}
		case 3:
			ins := rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(c.T, "insert")
			b = append(b[:i:i], append(ins, b[i:]...)...)
			c.D("insert %d@%d", len(ins), i)
		case 4:
			j := min(len(b), i+rapid.IntRange(1, 20).Draw(c.T, "drop"))
			b = append(b[:i:i], b[j:]...)
			c.D("drop %d-%d", i, j)
		case 5:
			var l [8]byte
			binary.BigEndian.PutUint64(l[:], rapid.SampledFrom(sizes).Draw(c.T, "size"))
			copy(b[i:], l[:])
			c.D("number %x at %d", l, i)
		case 6:
			j := min(len(b), i+rapid.IntRange(1, 40).Draw(c.T, "dup"))
			b = append(b[:j:j], b[i:]...)
			c.D("repeat %d-%d", i, j)
		}
	}
	return b
}

var sizes = []uint64{256, 1 << 16, 1 << 24, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1<<62 + 5, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// greeting draws a greeting that may be off.
func greeting(c *vlib.C, mech string) []byte {
	switch rapid.IntRange(0, 5).Draw(c.T, "greeting") {
	case 0, 1:
		return vlib.Greeting(mech, byte(rapid.IntRange(0, 3).Draw(c.T, "server")), 3, byte(rapid.IntRange(0, 2).Draw(c.T, "minor")))
	case 2:
		return mutate(c, vlib.Greeting(mech, 0, 3, 0))
	case 3:
		return rapid.SliceOfN(rapid.Byte(), 0, 130).Draw(c.T, "garbage")
	case 4:
		m := rapid.StringMatching("[A-Z]{0,20}").Draw(c.T, "mechanism")
		return vlib.Greeting(m, 0, byte(rapid.IntRange(0, 5).Draw(c.T, "major")), 0)
	}
	return []byte("GET / HTTP/1.1\r\nHost: localhost\r\nUser-Agent: something or other/1.0\r\n\r\n")
}

// metadata draws a property list that may be off.
func metadata(c *vlib.C, typ string) []byte {
	m := vlib.MetaBytes("Socket-Type", typ, "Identity", "h")
	switch rapid.IntRange(0, 7).Draw(c.T, "metadata") {
	case 0:
		return m
	case 1:
		return rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(c.T, "bytes")
	case 2:
		return vlib.MetaBytes("Socket-Type", rapid.SampledFrom([]string{"", "XYZZY", "ROUTER\x00", "STREAM", "SERVER", string(vlib.Fill(300, 1))}).Draw(c.T, "type"))
	case 3:
		return vlib.MetaBytes("Socket-Type", typ, "Identity", string(vlib.Fill(rapid.SampledFrom([]int{0, 255, 256, 70000}).Draw(c.T, "id"), 2)))
	case 4:
		return nil
	case 5: // lengths
		b := append([]byte{}, m...)
		binary.BigEndian.PutUint32(b[12:], rapid.SampledFrom([]uint32{0, 1, 3, 5, 100, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1}).Draw(c.T, "vlen"))
		return b
	}
	return mutate(c, m)
}

// handshake draws what a peer sends after its greeting.
func handshake(c *vlib.C, typ, mech string, listens bool) []byte {
	var b []byte
	cmd := func(name string, body []byte) {
		c.D("%s %d", name, len(body))
		switch rapid.IntRange(0, 9).Draw(c.T, "as") {
		case 0:
			b = append(b, mutate(c, vlib.Command(name, body))...)
		case 1: // not as a command
			b = append(b, vlib.Frame(0, vlib.CmdBody(name, body))...)
		case 2:
			b = append(b, vlib.FrameLong(vlib.CmdFlag, vlib.CmdBody(name, body))...)
		case 3: // name length off
			x := vlib.CmdBody(name, body)
			x[0] = rapid.SampledFrom([]byte{0, 1, 4, 6, 127, 200, 255}).Draw(c.T, "name length")
			b = append(b, vlib.Frame(vlib.CmdFlag, x)...)
		case 4: // in two frames
			x := vlib.CmdBody(name, body)
			b = append(b, vlib.Frame(vlib.CmdFlag|vlib.More, x[:1])...)
			b = append(b, vlib.Frame(vlib.CmdFlag, x[1:])...)
		default:
			b = append(b, vlib.Command(name, body)...)
		}
	}
	if mech == "PLAIN" && rapid.IntRange(0, 4).Draw(c.T, "plain") > 0 {
		if listens {
			hello := append(append([]byte{4}, "user"...), append([]byte{4}, "pass"...)...)
			if rapid.Bool().Draw(c.T, "bad hello") {
				hello = mutate(c, hello)
			}
			cmd("HELLO", hello)
			cmd("INITIATE", metadata(c, typ))
		} else {
			cmd("WELCOME", nil)
			cmd("READY", metadata(c, typ))
		}
		return b
	}
	switch rapid.IntRange(0, 6).Draw(c.T, "script") {
	case 0:
		b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(c.T, "noise")...)
	case 1:
		cmd(rapid.SampledFrom([]string{"ERROR", "HELLO", "WELCOME", "INITIATE", "PING", "SUBSCRIBE", "", "READYX", "ready"}).Draw(c.T, "command"), metadata(c, typ))
	case 2:
		b = append(b, vlib.EncodeMsg([]byte("not"), []byte("a command"))...)
	case 3: // an announced size nothing follows
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], rapid.SampledFrom(sizes).Draw(c.T, "size"))
		b = append(b, rapid.SampledFrom([]byte{2, 3, 6, 7, 0xff}).Draw(c.T, "flags"))
		b = append(b, l[:]...)
		b = append(b, 5, 'R', 'E', 'A', 'D', 'Y')
	default:
		cmd("READY", metadata(c, typ))
	}
	if rapid.Bool().Draw(c.T, "then noise") {
		b = append(b, mutate(c, vlib.EncodeMsg([]byte("x"), vlib.Fill(300, 5), []byte("y")))...)
	}
	return b
}

// hostile runs a hostile peer on p: it writes the bytes, in pieces, and reads
// whatever comes.
func hostile(c *vlib.C, conn net.Conn, b []byte) {
	go io.Copy(io.Discard, conn)
	conn.SetWriteDeadline(time.Now().Add(vlib.Long))
	for len(b) > 0 {
		n := min(len(b), rapid.SampledFrom([]int{1, 10, 64, 100, 1 << 20}).Draw(c.T, "write"))
		if _, err := conn.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
	}
}

// TestHostilePeers connects hostile peers to a listening socket.
func TestHostilePeers(t *testing.T) {
	vlib.Run(t, 4000, 60000, "1-5 peers connect to a listening socket of any type, NULL or PLAIN, over an in-memory transport, tcp or ipc, and send drawn bytes: good, odd, damaged or random greetings, handshake commands, metadata and messages, in drawn pieces, then stay, disconnect or half-close; the process must survive and the socket exchange messages with a healthy peer afterwards; non-trivial: at least one peer sends more than a greeting", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "vmem-chunked", "tcp", "ipc"}).Draw(c.T, "transport")
		mech := "NULL"
		opts := []zmq4.Option{quiet, zmq4.WithTimeout(2 * time.Second)}
		if rapid.IntRange(0, 4).Draw(c.T, "mechanism") == 0 {
			mech = "PLAIN"
			opts = append(opts, zmq4.WithSecurity(plain.Security("user", "pass")))
		}
		c.D("%s %s %s", typ, kind, mech)
		c.Class("%s", typ)
		s := c.New(typ, opts...)
		ep := c.Listen(s, kind)
		other := string(vlib.Partner(typ))
		var left []net.Conn
		for i := rapid.IntRange(1, 5).Draw(c.T, "peers"); i > 0; i-- {
			p := c.DialRaw(ep)
			b := greeting(c, mech)
			if rapid.IntRange(0, 5).Draw(c.T, "further") > 0 {
				b = append(b, handshake(c, other, mech, true)...)
				c.Nontrivial()
			}
			c.D("peer %x", b[:min(len(b), 120)])
			hostile(c, p.Conn, b)
			if rapid.Bool().Draw(c.T, "stay") {
				left = append(left, p.Conn)
			} else {
				p.Close()
			}
		}
		if mech != "NULL" {
			// a healthy client of that mechanism
			alivePlain(c, s, ep, typ, left)
			return
		}
		switch typ {
		case zmq4.Rep, zmq4.Req, zmq4.Push, zmq4.Dealer, zmq4.Pair:
			// peers that are connected and do not read or answer have their share
			for _, l := range left {
				l.Close()
			}
		}
		c.Alive(s, ep)
	})
}

func alivePlain(c *vlib.C, s zmq4.Socket, ep string, typ zmq4.SocketType, left []net.Conn) {
	p := c.DialRaw(ep)
	p.SetDeadline(time.Now().Add(vlib.Long))
	p.Write(vlib.Greeting("PLAIN", 0, 3, 0))
	p.Gr = make([]byte, 64)
	if _, err := io.ReadFull(p.R, p.Gr); err != nil {
		c.Violation("a healthy PLAIN peer got no greeting: %v", err)
	}
	p.Write(vlib.Command("HELLO", []byte("\x04user\x04pass")))
	next := func(want string) {
		fl, body, err := p.ReadFrame()
		if err != nil || fl != vlib.CmdFlag || !bytes.HasPrefix(body, vlib.CmdBody(want, nil)) {
			c.Violation("a healthy PLAIN peer got %d %q instead of %s (%v)", fl, body, want, err)
		}
	}
	next("WELCOME")
	p.Write(vlib.Command("INITIATE", vlib.MetaBytes("Socket-Type", string(vlib.Partner(typ)), "Identity", "good")))
	next("READY")
	p.SetDeadline(time.Time{})
	for _, l := range left {
		l.Close()
	}
	c.Serves(s, p, "good")
}

// TestHostileListener has a socket dial a hostile peer.
func TestHostileListener(t *testing.T) {
	vlib.Run(t, 2000, 30000, "a socket of any type, NULL or PLAIN, dials a raw listener that answers with drawn bytes (as above) and then hangs up; Dial must return, and the socket then dial and serve a healthy peer; non-trivial: more than a greeting is sent", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		mech := rapid.SampledFrom([]string{"NULL", "NULL", "PLAIN"}).Draw(c.T, "mechanism")
		opts := []zmq4.Option{quiet, zmq4.WithTimeout(2 * time.Second), zmq4.WithAutomaticReconnect(false), zmq4.WithDialerMaxRetries(0)}
		if mech == "PLAIN" {
			opts = append(opts, zmq4.WithSecurity(plain.Security("user", "pass")))
		}
		c.D("%s %s", typ, mech)
		c.Class("%s", typ)
		s := c.New(typ, opts...)
		name := vlib.MemName(c.Chunks(), 0)
		l, err := vlib.MemListen(name)
		if err != nil {
			panic(err)
		}
		defer l.Close()
		b := greeting(c, mech)
		if rapid.IntRange(0, 5).Draw(c.T, "further") > 0 {
			b = append(b, handshake(c, string(vlib.Partner(typ)), mech, false)...)
			c.Nontrivial()
		}
		c.D("sends %x", b[:min(len(b), 120)])
		res := make(chan error, 1)
		go func() { res <- s.Dial("vmem://" + name) }()
		conn, _ := l.Accept()
		hostile(c, conn, b)
		conn.Close()
		select {
		case err := <-res:
			c.Class("dial error: %v", err != nil)
		case <-time.After(vlib.Long):
			c.Violation("Dial of %s hangs though its peer hung up", typ)
		}
		if mech != "NULL" {
			return
		}
		// a healthy one
		name2 := vlib.MemName(nil, 0)
		l2, err := vlib.MemListen(name2)
		if err != nil {
			panic(err)
		}
		defer l2.Close()
		go func() { res <- s.Dial("vmem://" + name2) }()
		conn2, _ := l2.Accept()
		p := vlib.NewPeer(conn2)
		c.Cleanup(func() { p.Close() })
		if err := p.Handshake(string(vlib.Partner(typ)), "good"); err != nil {
			c.Violation("healthy peer dialed by %s: %v", typ, err)
		}
		if err := <-res; err != nil {
			c.Violation("%s could not dial a healthy peer after a hostile one: %v", typ, err)
		}
		c.Serves(s, p, "good")
	})
}

// message draws an encoded message, maybe with commands between its frames.
func message(c *vlib.C, max int) (b []byte) {
	fs := c.Frames(max)
	for i, f := range fs {
		fl := byte(vlib.More)
		if i == len(fs)-1 {
			fl = 0
		}
		b = append(b, vlib.Frame(fl, f)...)
		if fl != 0 && rapid.IntRange(0, 9).Draw(c.T, "inner") == 0 {
			b = append(b, vlib.Command(rapid.SampledFrom([]string{"PONG", "X"}).Draw(c.T, "name"), rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "body"))...)
		}
	}
	return
}

// deliverable tells what of the items a socket of the given type delivers, and
// whether it goes on after it.
func deliverable(typ zmq4.SocketType, id string, it vlib.Item) ([][]byte, bool) {
	if it.Cmd {
		_, _, err := vlib.SplitCmd(it.Frames[0])
		return nil, err == nil
	}
	f := it.Frames
	switch typ {
	case zmq4.Router:
		return append([][]byte{[]byte(id)}, f...), true
	case zmq4.Rep:
		for i := range f {
			if len(f[i]) == 0 {
				// a request without body is delivered as a message of no frames
				return append([][]byte{}, f[i+1:]...), true
			}
		}
		return nil, true
	case zmq4.XPub:
		if len(f) == 1 && len(f[0]) > 0 && f[0][0] <= 1 {
			return nil, true
		}
	}
	return f, true
}

// TestHostileStream compares what is delivered of a damaged stream.
func TestHostileStream(t *testing.T) {
	types := []zmq4.SocketType{zmq4.Pull, zmq4.Pair, zmq4.Dealer, zmq4.Sub, zmq4.XSub, zmq4.Router, zmq4.Rep, zmq4.XPub}
	vlib.Run(t, 6000, 100000, "a peer that finished its handshake writes a damaged stream of 1-8 messages and commands (cut, changed, inserted, removed or repeated bytes, announced sizes up to 2^64-1), or a random one, to each receiving socket type over a transport cutting it into drawn pieces, then disconnects or stays; a strict reference parser tells which complete messages come before the first malformed item, and exactly those must be delivered while a healthy peer is served before and after; non-trivial: the stream does not parse to its end", func(c *vlib.C) {
		typ := rapid.SampledFrom(types).Draw(c.T, "type")
		ch := c.Chunks()
		c.D("%s chunks=%v", typ, ch)
		c.Class("%s", typ)
		s := c.New(typ, quiet, zmq4.WithTimeout(2*time.Second))
		ep := "vmem://" + vlib.MemName(ch, 0)
		if err := s.Listen(ep); err != nil {
			c.Violation("listen: %v", err)
		}
		good := c.Join(s, ep, "good")
		bad := c.Join(s, ep, "bad")
		go io.Copy(io.Discard, bad.Conn)
		in := vlib.NewInbox(s)

		var stream []byte
		for i := rapid.IntRange(1, 8).Draw(c.T, "items"); i > 0; i-- {
			if rapid.IntRange(0, 4).Draw(c.T, "what") == 0 {
				stream = append(stream, vlib.Command(rapid.SampledFrom([]string{"PING", "PONG", "X", ""}).Draw(c.T, "name"), rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "body"))...)
				continue
			}
			stream = append(stream, message(c, 3000)...)
		}
		switch rapid.IntRange(0, 9).Draw(c.T, "damage") {
		case 0:
		case 1:
			stream = append(stream, rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(c.T, "noise")...)
		default:
			stream = mutate(c, stream)
		}
		items, rest, perr := vlib.ParseLax(stream)
		if perr != nil && bytes.HasPrefix([]byte(perr.Error()), []byte("reserved")) {
			// what receivers do with reserved bits is up to them: leave it at what precedes
			stream = stream[:len(stream)-len(rest)]
			rest = nil
		}
		if len(rest) > 0 {
			c.Nontrivial()
		}
		c.D("stream of %d bytes, %d items, then %d: %v", len(stream), len(items), len(rest), perr)
		var want [][][]byte
		for _, it := range items {
			f, on := deliverable(typ, "bad", it)
			if f != nil {
				want = append(want, f)
			}
			if !on {
				c.Class("malformed command")
				c.Nontrivial()
				break
			}
		}
		c.Class("delivers %d", min(len(want), 4))

		bad.SetWriteDeadline(time.Now().Add(vlib.Long))
		bad.Write(stream) // may fail: the socket may hang up before it has read all
		// an unanswerable PING ends a connection as well
		if rapid.Bool().Draw(c.T, "hang up") && !bytes.Contains(stream, []byte("PING")) {
			bad.Close()
		}
		// the healthy peer's messages tell how far it got
		tag := []byte(vlib.Unique("\x06healthy"))
		isTag := func(f [][]byte) bool { return len(f) > 0 && bytes.Equal(f[len(f)-1], tag) }
		count := func() (n, tags int) {
			for _, f := range in.All() {
				if isTag(f) {
					tags++
				} else {
					n++
				}
			}
			return
		}
		if !vlib.Eventually(vlib.Long, func() bool { n, _ := count(); return n >= len(want) }) {
			c.Violation("%s delivered only %d of the %d complete messages", typ, len(in.All()), len(want))
		}
		for i := 1; i <= 2; i++ {
			if err := good.WriteMsg([]byte{}, tag); err != nil {
				c.Violation("the healthy peer of %s was cut off: %v", typ, err)
			}
			c.Must("the healthy peer's message arrives", func() bool { _, n := count(); return n >= i })
			if i == 1 && len(rest) > 0 {
				time.Sleep(time.Millisecond)
			}
		}
		var got [][][]byte
		for _, f := range in.All() {
			if !isTag(f) {
				got = append(got, f)
			}
		}
		for i := range got {
			if i >= len(want) {
				c.Violation("%s delivered %s, which is no complete message of the stream (%d are)", typ, vlib.Clip(got[i]), len(want))
			}
			if !vlib.Same(got[i], want[i]) {
				c.Violation("%s delivered %s as message %d, want %s", typ, vlib.Clip(got[i]), i, vlib.Clip(want[i]))
			}
		}
	})
}

// TestAnnounced measures memory for sizes that are announced only.
func TestAnnounced(t *testing.T) {
	vlib.Run(t, 300, 4000, "1-6 peers of a listening socket, or a dialed raw listener, announce frames of up to 2^64-1 bytes in place of the handshake command or as a message, and send 0-2000 bytes of them (or, in other cases, several hundred kilobytes); what the process allocates meanwhile must stay within 4 MiB per peer plus 16 times the bytes sent plus 48 MiB; non-trivial: the announced sizes exceed what is allowed", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"vmem", "tcp", "ipc"}).Draw(c.T, "transport")
		mech := rapid.SampledFrom([]string{"NULL", "NULL", "PLAIN"}).Draw(c.T, "mechanism")
		opts := []zmq4.Option{quiet}
		if mech == "PLAIN" {
			opts = append(opts, zmq4.WithSecurity(plain.Security("user", "pass")))
		}
		c.D("%s %s %s", typ, kind, mech)
		s := c.New(typ, opts...)
		ep := c.Listen(s, kind)
		k := rapid.IntRange(1, 6).Draw(c.T, "peers")
		var announced, sent uint64
		type todo struct {
			p *vlib.Peer
			b []byte
		}
		var todos []todo
		for i := 0; i < k; i++ {
			p := c.DialRaw(ep)
			after := mech == "NULL" && rapid.Bool().Draw(c.T, "after the handshake")
			if after {
				if err := p.Handshake(string(vlib.Partner(typ)), fmt.Sprint("p", i)); err != nil {
					c.Violation("handshake: %v", err)
				}
			}
			go io.Copy(io.Discard, p.Conn)
			if !after {
				p.Write(vlib.Greeting(mech, 0, 3, 0))
			}
			size := rapid.SampledFrom([]uint64{1 << 20, 1 << 26, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 32, 1 << 36, 1 << 40, 1 << 48, 1<<62 - 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(c.T, "size")
			var b []byte
			for n := rapid.IntRange(0, 3).Draw(c.T, "frames before"); n > 0 && after; n-- {
				b = append(b, vlib.Frame(vlib.More, []byte("part"))...)
			}
			fl := byte(vlib.LongFlag)
			if !after {
				fl |= vlib.CmdFlag
			} else if rapid.Bool().Draw(c.T, "more") {
				fl |= vlib.More
			}
			b = append(b, fl)
			b = binary.BigEndian.AppendUint64(b, size)
			n := rapid.IntRange(0, 2000).Draw(c.T, "sent")
			if rapid.IntRange(0, 4).Draw(c.T, "much") == 0 {
				n = rapid.IntRange(1<<18, 3<<20).Draw(c.T, "sent much")
			}
			b = append(b, make([]byte, min(uint64(n), size))...)
			announced = max(announced, size)
			sent += uint64(len(b))
			c.D("after=%v announces %d sends %d", after, size, len(b))
			todos = append(todos, todo{p, b})
		}
		limit := uint64(k)*4<<20 + 16*sent + 48<<20
		if announced > limit {
			c.Nontrivial()
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for _, td := range todos {
			td.p.SetWriteDeadline(time.Now().Add(vlib.Long))
			td.p.Write(td.b)
		}
		// the socket has seen them once it serves a peer that came later
		if mech == "NULL" {
			p := c.DialRaw(ep)
			if err := p.Handshake(string(vlib.Partner(typ)), "late"); err != nil {
				c.Violation("handshake of a later peer: %v", err)
			}
		}
		time.Sleep(2 * time.Millisecond)
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > limit {
			c.Violation("%s allocated %d bytes for %d bytes sent by %d peers", typ, d, sent, k)
		}
	})
}

// TestHostileConn goes on receiving from a connection after errors.
func TestHostileConn(t *testing.T) {
	vlib.Run(t, 5000, 100000, "the peer of a Conn that was opened with a NULL handshake writes a stream of 1-6 messages and commands with up to two damaged places, among which frames announced with up to 2^64-1 bytes, in drawn pieces, and hangs up; RecvMsg is called until it has failed 5 times after the last complete item, which must give exactly the complete messages and command bodies before the first item that cannot be told from what follows; non-trivial: the stream does not parse to its end", func(c *vlib.C) {
		ch := c.Chunks()
		a, b := vlib.MemPipe(ch, 0)
		defer a.Close()
		p := vlib.NewPeer(b)
		defer p.Close()
		hs := make(chan error, 1)
		go func() { hs <- p.Handshake("PAIR", "") }()
		var conn *zmq4.Conn
		var err error
		c.Within("Open", func() { conn, err = zmq4.Open(a, null.Security(), zmq4.Pair, nil, true, nil) })
		if err != nil {
			c.Violation("Open: %v", err)
		}
		if err := <-hs; err != nil {
			c.Violation("handshake: %v", err)
		}
		defer conn.Close()
		var stream []byte
		for i := rapid.IntRange(1, 6).Draw(c.T, "items"); i > 0; i-- {
			switch rapid.IntRange(0, 6).Draw(c.T, "what") {
			case 0:
				stream = append(stream, vlib.Command(rapid.SampledFrom([]string{"PONG", "X", "READY"}).Draw(c.T, "name"), rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(c.T, "body"))...)
			case 1:
				// a huge frame whose body looks like messages
				n := rapid.SampledFrom(sizes[8:]).Draw(c.T, "size")
				fl := rapid.SampledFrom([]byte{vlib.LongFlag, vlib.LongFlag | vlib.More, vlib.LongFlag | vlib.CmdFlag}).Draw(c.T, "flags")
				stream = binary.BigEndian.AppendUint64(append(stream, fl), n)
				c.D("frame of %d bytes announced", n)
			default:
				stream = append(stream, message(c, 300)...)
			}
		}
		if rapid.IntRange(0, 2).Draw(c.T, "damage") == 0 {
			stream = mutate(c, stream)
		}
		items, rest, perr := vlib.ParseLax(stream)
		if perr != nil && !strings.HasPrefix(perr.Error(), "oversized") {
			// it may go on after what is malformed but ends somewhere, and what
			// it makes of reserved bits is up to it
			stream, rest = stream[:len(stream)-len(rest)], nil
		}
		if len(rest) > 0 {
			c.Nontrivial()
		}
		c.D("stream of %d bytes, %d items, then %d: %v", len(stream), len(items), len(rest), perr)
		b.Write(stream)
		b.Close()
		fails := 0
		for fails < 5 {
			var m zmq4.Msg
			c.Within("RecvMsg", func() { m, err = conn.RecvMsg() })
			if len(items) == 0 {
				if err == nil {
					c.Violation("%s is received, which is no complete item of the stream", vlib.Clip(m.Frames))
				}
				fails++
				continue
			}
			it := items[0]
			items = items[1:]
			for it.Inner {
				name, _, cerr := vlib.SplitCmd(it.Frames[0])
				if cerr != nil || name == "PING" {
					c.Class("command within a message")
					if err == nil && cerr != nil {
						c.Violation("%s is received, though a malformed command is in it", vlib.Clip(m.Frames))
					}
					if err != nil {
						// the end of the connection
						c.Within("RecvMsg", func() { m, err = conn.RecvMsg() })
						if err == nil {
							c.Violation("%s is received after an error in the middle of a message", vlib.Clip(m.Frames))
						}
						return
					}
				}
				it = items[0]
				items = items[1:]
			}
			want := it.Frames
			if it.Cmd {
				name, body, cerr := vlib.SplitCmd(it.Frames[0])
				if cerr != nil || name == "PING" {
					// an error, which may end the connection
					if err == nil && cerr != nil {
						c.Violation("a malformed command is received as %s", vlib.Clip(m.Frames))
					}
					if err != nil {
						var late zmq4.Msg
						c.Within("RecvMsg", func() { late, err = conn.RecvMsg() })
						if err != nil {
							return
						}
						if len(items) == 0 {
							c.Violation("%s is received, which is no complete item of the stream", vlib.Clip(late.Frames))
						}
						if !items[0].Cmd && !vlib.Same(late.Frames, items[0].Frames) {
							c.Violation("received %s, sent was %s", vlib.Clip(late.Frames), vlib.Clip(items[0].Frames))
						}
						return
					}
					continue
				}
				want = nil
				if len(body) > 0 {
					want = [][]byte{body}
				}
			}
			if err != nil {
				c.Violation("RecvMsg: %v for %s", err, vlib.Clip(it.Frames))
			}
			if !vlib.Same(m.Frames, want) {
				c.Violation("received %s, sent was %s", vlib.Clip(m.Frames), vlib.Clip(want))
			}
		}
	})
}
