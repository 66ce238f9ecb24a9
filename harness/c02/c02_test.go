package c02

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func init() { vlib.RecordAll = true }

// accept plays the raw side of a connection, which one socket dials or accepts.
func connect(c *vlib.C, s zmq4.Socket, listens bool, chunks []int) (*vlib.Peer, *vlib.MemConn) {
	name := vlib.MemName(chunks, 0)
	if listens {
		if err := s.Listen("vmem://" + name); err != nil {
			c.Violation("Listen: %v", err)
		}
		p := c.DialRaw("vmem://" + name)
		return p, p.Conn.(*vlib.MemConn)
	}
	l, err := vlib.MemListen(name)
	if err != nil {
		panic(err)
	}
	c.Cleanup(func() { l.Close() })
	conns := make(chan net.Conn, 1)
	go func() {
		conn, err := l.Accept()
		if err == nil {
			conns <- conn
		}
	}()
	go s.Dial("vmem://" + name)
	conn := <-conns
	c.Cleanup(func() { conn.Close() })
	return vlib.NewPeer(conn), conn.(*vlib.MemConn)
}

func checkGreeting(c *vlib.C, g []byte) {
	if g[0] != 0xff || g[9] != 0x7f {
		c.Violation("greeting signature %x", g[:10])
	}
	if g[10] != 3 {
		c.Violation("greeting version %d.%d", g[10], g[11])
	}
	if !bytes.Equal(g[12:32], append([]byte("NULL"), make([]byte, 16)...)) {
		c.Violation("greeting mechanism %q", g[12:32])
	}
	if g[32] != 0 {
		c.Violation("greeting server flag %d with NULL", g[32])
	}
	if !bytes.Equal(g[33:], make([]byte, 31)) {
		c.Violation("greeting filler %x", g[33:])
	}
}

// TestEncode compares all bytes a socket writes with what ZMTP prescribes.
func TestEncode(t *testing.T) {
	types := []zmq4.SocketType{zmq4.Push, zmq4.Pair, zmq4.Dealer, zmq4.Router, zmq4.Pub, zmq4.XPub, zmq4.Req, zmq4.Rep, zmq4.Sub, zmq4.XSub}
	vlib.Run(t, 4000, 60000, "a socket of each sending type, dialing or listening, writes a greeting, a READY and 0-8 messages, plain or multipart, to a recording transport that is compared byte by byte with an independent encoder; non-trivial: some message has several frames, or a frame of 0 or over 255 bytes", func(c *vlib.C) {
		typ := rapid.SampledFrom(types).Draw(c.T, "type")
		listens := rapid.Bool().Draw(c.T, "listens")
		id := string(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(c.T, "id"))
		if rapid.IntRange(0, 9).Draw(c.T, "long id") == 0 {
			id = string(vlib.Fill(rapid.IntRange(200, 255).Draw(c.T, "id size"), 7))
		}
		n := rapid.IntRange(0, 8).Draw(c.T, "messages")
		c.D("%s id %q listens=%v", typ, vlib.Clip(id), listens)
		c.Class("%s", typ)
		s := c.New(typ, zmq4.WithID(zmq4.SocketIdentity(id)))
		p, mc := connect(c, s, listens, nil)
		peerID := "peer"
		if err := p.Handshake(string(vlib.Partner(typ)), peerID); err != nil {
			c.Violation("handshake: %v", err)
		}
		checkGreeting(c, p.Gr)
		if p.Meta["socket-type"] != string(typ) || p.Meta["identity"] != id {
			c.Violation("READY says type %q identity %q", p.Meta["socket-type"], p.Meta["identity"])
		}
		for k := range p.Meta {
			if k != "socket-type" && k != "identity" && (len(k) < 2 || k[:2] != "x-") {
				c.Violation("READY has a property %q", k)
			}
		}
		// the greeting and the READY in its only encoding
		rec := mc.Recorded()
		if items, rest, err := vlib.Parse(rec[64:]); err != nil || len(rest) != 0 || len(items) != 1 || !items[0].Cmd ||
			!bytes.Equal(rec[64:], vlib.Frame(vlib.CmdFlag, items[0].Frames[0])) {
			c.Violation("READY is not one command in its shortest form: %x", rec[64:])
		}

		var want []byte
		expect := func(frames ...[]byte) { want = append(want, vlib.EncodeMsg(frames...)...) }
		sync := func() {
			c.Must("everything written", func() bool { return len(mc.Recorded()) >= len(rec)+len(want) })
		}
		switch typ {
		case zmq4.Pub, zmq4.XPub:
			if err := p.WriteMsg([]byte{1}); err != nil {
				c.Violation("subscribe: %v", err)
			}
			// probe until the subscription holds
			got := make(chan bool)
			go func() { p.ReadMsgT(vlib.Long); close(got) }()
			probes := 0
			c.Must("subscription holds", func() bool {
				select {
				case <-got:
					return true
				default:
					probes++
					c.Send(s, false, []byte{'?'})
					return false
				}
			})
			c.Send(s, false, []byte{'!'})
			for {
				f, err := p.ReadMsgT(vlib.Long)
				if err != nil {
					c.Violation("probing: %v", err)
				}
				if f[0][0] == '!' {
					break
				}
			}
			rec = mc.Recorded()
		case zmq4.Router:
			if err := p.WriteMsg([]byte("hi")); err != nil {
				c.Violation("hello: %v", err)
			}
			c.Recv(s)
		}
		for i := 0; i < n; i++ {
			fs := c.Frames(70000)
			multi := rapid.Bool().Draw(c.T, "multipart")
			c.D("multi=%v %s", multi, vlib.Sizes(fs))
			if len(fs) > 1 || len(fs[0]) == 0 || len(fs[0]) > 255 {
				c.Nontrivial()
			}
			switch typ {
			case zmq4.Sub:
				topic := string(fs[0])
				on := rapid.Bool().Draw(c.T, "subscribe")
				opt, b := zmq4.OptionUnsubscribe, byte(0)
				if on {
					opt, b = zmq4.OptionSubscribe, 1
				}
				// a SUB that just connected may not know of it yet: it
				// subscribes, once, when it does
				if i == 0 {
					if err := s.SetOption(zmq4.OptionSubscribe, ""); err != nil {
						c.Violation("subscribe: %v", err)
					}
					expect([]byte{1})
					sync()
				}
				if err := s.SetOption(opt, topic); err != nil {
					c.Violation("subscribe: %v", err)
				}
				expect(append([]byte{b}, topic...))
			case zmq4.Router:
				c.Send(s, multi, append([][]byte{[]byte(peerID)}, fs...)...)
				expect(fs...)
			case zmq4.Req:
				if i > 0 {
					c.Send(s, multi, fs...)
				} else {
					c.Must("REQ connected", func() bool { return c.SendErr(s, multi, fs...) == nil })
				}
				expect(append([][]byte{{}}, fs...)...)
				if err := p.WriteMsg([]byte{}, []byte("r")); err != nil {
					c.Violation("reply: %v", err)
				}
				c.Recv(s)
			case zmq4.Rep:
				env := [][]byte{}
				for j := rapid.IntRange(0, 3).Draw(c.T, "envelope"); j > 0; j-- {
					env = append(env, []byte(fmt.Sprint("hop", j)))
				}
				env = append(env, []byte{})
				if err := p.WriteMsg(append(env[:len(env):len(env)], []byte("q"))...); err != nil {
					c.Violation("request: %v", err)
				}
				if got := c.Recv(s); len(got) != 1 || string(got[0]) != "q" {
					c.Violation("request received as %s", vlib.Clip(got))
				}
				c.Send(s, multi, fs...)
				expect(append(env[:len(env):len(env)], fs...)...)
			default:
				c.Send(s, multi, fs...)
				expect(fs...)
			}
		}
		sync()
		got := mc.Recorded()[len(rec):]
		if !bytes.Equal(got, want) {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			c.Violation("wrote %d bytes, want %d, first difference at %d: %x / %x", len(got), len(want), i,
				got[i:min(len(got), i+20)], want[i:min(len(want), i+20)])
		}
	})
}

// TestDecode feeds well-formed streams, cut anywhere, to receiving sockets.
func TestDecode(t *testing.T) {
	types := []zmq4.SocketType{zmq4.Pull, zmq4.Pair, zmq4.Dealer, zmq4.Router, zmq4.Sub, zmq4.XSub, zmq4.Rep, zmq4.Req}
	vlib.Run(t, 4000, 60000, "a raw peer writes 1-10 messages, short bodies partly in the long form, with commands (PING, PONG, unknown ones) between them and between their frames, to a socket of each receiving type over a transport cutting the stream into drawn pieces; what is received is compared with what was encoded, and PINGs with the PONGs; non-trivial: a command, a long-form short frame, or a multi-frame message is among them", func(c *vlib.C) {
		typ := rapid.SampledFrom(types).Draw(c.T, "type")
		listens := rapid.Bool().Draw(c.T, "listens")
		ch := c.Chunks()
		c.D("%s listens=%v chunks=%v", typ, listens, ch)
		c.Class("%s", typ)
		s := c.New(typ)
		p, _ := connect(c, s, listens, ch)
		if err := p.Handshake(string(vlib.Partner(typ)), "peer"); err != nil {
			c.Violation("handshake: %v", err)
		}
		if typ == zmq4.Req {
			c.Must("REQ connected", func() bool { return c.SendErr(s, false, []byte("q")) == nil })
		}
		var stream []byte
		var want [][][]byte
		var pings [][]byte
		n := rapid.IntRange(1, 10).Draw(c.T, "messages")
		if typ == zmq4.Req || typ == zmq4.Rep {
			n = 1
		}
		commands := func(rarity int) {
			for rapid.IntRange(0, rarity).Draw(c.T, "command") == 0 {
				c.Nontrivial()
				c.Class("with commands")
				switch rapid.IntRange(0, 3).Draw(c.T, "which") {
				case 0, 1:
					ctx := rapid.SliceOfN(rapid.Byte(), 0, 16).Draw(c.T, "context")
					c.D("PING %x", ctx)
					stream = append(stream, vlib.Command("PING", append([]byte{0, 10}, ctx...))...)
					pings = append(pings, ctx)
				case 2:
					c.D("PONG")
					stream = append(stream, vlib.Command("PONG", []byte("ctx"))...)
				case 3:
					name := rapid.StringMatching("[A-Z]{1,12}").Draw(c.T, "name")
					if name == "PING" {
						name = "PINGX"
					}
					body := c.Frame(600)
					c.D("%s %d", name, len(body))
					stream = append(stream, vlib.Command(name, body)...)
				}
			}
		}
		for i := 0; i < n; i++ {
			commands(3)
			fs := c.Frames(20000)
			all := fs
			switch typ {
			case zmq4.Rep, zmq4.Req:
				all = append([][]byte{{}}, fs...)
			}
			c.D("%s", vlib.Sizes(fs))
			if len(fs) > 1 {
				c.Nontrivial()
			}
			for j, f := range all {
				var fl byte
				if j < len(all)-1 {
					fl = vlib.More
				}
				if len(f) <= 255 && rapid.IntRange(0, 4).Draw(c.T, "long form") == 0 {
					stream = append(stream, vlib.FrameLong(fl, f)...)
					c.Class("short frame in long form")
					c.Nontrivial()
				} else {
					stream = append(stream, vlib.Frame(fl, f)...)
				}
				if fl != 0 {
					// libzmq does that
					commands(15)
				}
			}
			if typ == zmq4.Router {
				fs = append([][]byte{[]byte("peer")}, fs...)
			}
			want = append(want, fs)
		}
		go p.Write(stream)
		var got [][][]byte
		for range want {
			got = append(got, c.Recv(s))
		}
		for i := range want {
			if !vlib.Same(got[i], want[i]) {
				c.Violation("message %d encoded %s was received as %s (%s / %s)", i, vlib.Sizes(want[i]), vlib.Sizes(got[i]), vlib.Clip(want[i]), vlib.Clip(got[i]))
			}
		}
		if typ == zmq4.Req {
			p.ReadMsgT(vlib.Long)
		}
		for i, ctx := range pings {
			p.SetReadDeadline(time.Now().Add(vlib.Long))
			fl, body, err := p.ReadFrame()
			if err != nil || fl != vlib.CmdFlag || !bytes.Equal(body, vlib.CmdBody("PONG", ctx)) {
				c.Violation("PING %d with context %x was answered by %d %q (%v)", i, ctx, fl, body, err)
			}
		}
	})
}

// TestConn exchanges commands and messages between two bare connections.
func TestConn(t *testing.T) {
	vlib.Run(t, 4000, 60000, "two connections opened over a pipe cutting the stream into drawn pieces exchange 1-8 commands and messages in both directions through SendCmd/RecvCmd and SendMsg/RecvMsg; every byte is compared with an independent encoder; non-trivial: at least one command and one message", func(c *vlib.C) {
		ch := c.Chunks()
		a, b := vlib.MemPipe(ch, 0)
		conns := make([]*zmq4.Conn, 2)
		errs := make(chan error, 2)
		sec := func() zmq4.Security { return nullSec{} }
		for i, rw := range []net.Conn{a, b} {
			go func() {
				var err error
				conns[i], err = zmq4.Open(rw, sec(), zmq4.Pair, zmq4.SocketIdentity(fmt.Sprint("id", i)), i == 1, nil)
				errs <- err
			}()
		}
		for range 2 {
			var err error
			c.Within("handshake", func() { err = <-errs })
			if err != nil {
				c.Violation("handshake: %v", err)
			}
		}
		c.Cleanup(func() { conns[0].Close(); conns[1].Close() })
		rec := []*vlib.MemConn{b, a}
		base := []int{len(rec[0].Recorded()), len(rec[1].Recorded())}
		want := [2][]byte{}
		cmds, msgs := 0, 0
		for n := rapid.IntRange(1, 8).Draw(c.T, "steps"); n > 0; n-- {
			from := rapid.IntRange(0, 1).Draw(c.T, "from")
			tx, rx := conns[from], conns[1-from]
			if rapid.Bool().Draw(c.T, "command") {
				name := rapid.StringMatching("[A-Z]{0,20}").Draw(c.T, "name")
				if rapid.IntRange(0, 9).Draw(c.T, "long name") == 0 {
					name = string(bytes.Repeat([]byte("N"), rapid.IntRange(250, 260).Draw(c.T, "size")))
				}
				body := c.Frame(5000)
				c.D("%d: cmd %q %d", from, vlib.Clip(name), len(body))
				var err error
				c.Within("SendCmd", func() { err = tx.SendCmd(name, body) })
				if (err != nil) != (len(name) > 255) {
					c.Violation("SendCmd with a name of %d bytes: %v", len(name), err)
				}
				if err != nil {
					continue
				}
				cmds++
				want[from] = append(want[from], vlib.Command(name, body)...)
				var cmd zmq4.Cmd
				c.Within("RecvCmd", func() { cmd, err = rx.RecvCmd() })
				if err != nil || cmd.Name != name || !bytes.Equal(cmd.Body, body) {
					c.Violation("command %q with %d bytes received as %q with %d: %v", name, len(body), cmd.Name, len(cmd.Body), err)
				}
				continue
			}
			fs := c.Frames(20000)
			c.D("%d: msg %s", from, vlib.Sizes(fs))
			var err error
			c.Within("SendMsg", func() { err = tx.SendMsg(zmq4.NewMsgFrom(fs...)) })
			if err != nil {
				c.Violation("SendMsg: %v", err)
			}
			msgs++
			want[from] = append(want[from], vlib.EncodeMsg(fs...)...)
			var m zmq4.Msg
			c.Within("RecvMsg", func() { m, err = rx.RecvMsg() })
			if err != nil || !vlib.Same(m.Frames, fs) || m.Type != zmq4.UsrMsg {
				c.Violation("message %s received as %s of type %d: %v", vlib.Sizes(fs), vlib.Sizes(m.Frames), m.Type, err)
			}
		}
		if cmds > 0 && msgs > 0 {
			c.Nontrivial()
		}
		for i := range want {
			if got := rec[i].Recorded()[base[i]:]; !bytes.Equal(got, want[i]) {
				c.Violation("bytes written by %d differ from the encoding: %d / %d bytes", i, len(got), len(want[i]))
			}
		}
	})
}

type nullSec struct{}

func (nullSec) Type() zmq4.SecurityType { return zmq4.NullSecurity }
func (nullSec) Handshake(conn *zmq4.Conn, server bool) error {
	raw, err := conn.Meta.MarshalZMTP()
	if err != nil {
		return err
	}
	if err = conn.SendCmd(zmq4.CmdReady, raw); err != nil {
		return err
	}
	cmd, err := conn.RecvCmd()
	if err != nil {
		return err
	}
	return conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
}
func (nullSec) Encrypt(w io.Writer, data []byte) (int, error) { return w.Write(data) }
func (nullSec) Decrypt(w io.Writer, data []byte) (int, error) { return w.Write(data) }
