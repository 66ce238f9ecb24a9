// Package c25: pluggable security mechanisms transform traffic transparently.
package c25

import (
	"bytes"
	"compress/flate"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func init() { vlib.RecordAll = true }

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

func TestMain(m *testing.M) {
	// sockets print about failed handshakes there
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Exit(m.Run())
}

// transform is an invertible transform of frames.
type transform struct {
	name     string
	enc, dec func(b []byte) ([]byte, error)
}

var errDecode = errors.New("cannot be decrypted")

// draw makes a transform.
func draw(c *vlib.C) transform {
	key := byte(rapid.IntRange(1, 255).Draw(c.T, "key"))
	n := rapid.SampledFrom([]int{1, 2, 16, 200, 254, 255, 256, 300, 70000}).Draw(c.T, "n")
	xor := func(b []byte) ([]byte, error) {
		out := make([]byte, len(b))
		for i := range b {
			out[i] = b[i] ^ key
		}
		return out, nil
	}
	kinds := []transform{
		{"identity", func(b []byte) ([]byte, error) { return append([]byte(nil), b...), nil }, func(b []byte) ([]byte, error) { return append([]byte(nil), b...), nil }},
		{"in place", func(b []byte) ([]byte, error) { return b, nil }, func(b []byte) ([]byte, error) { return b, nil }},
		{"xor", xor, xor},
		{fmt.Sprintf("pad%d", n), func(b []byte) ([]byte, error) {
			return append(append(bytes.Repeat([]byte{key}, n), b...), key), nil
		}, func(b []byte) ([]byte, error) {
			if len(b) < n+1 || !bytes.Equal(b[:n], bytes.Repeat([]byte{key}, n)) || b[len(b)-1] != key {
				return nil, errDecode
			}
			return b[n : len(b)-1], nil
		}},
		{"hex", func(b []byte) ([]byte, error) { return []byte(hex.EncodeToString(b)), nil },
			func(b []byte) ([]byte, error) { return hex.DecodeString(string(b)) }},
		{"deflate", func(b []byte) ([]byte, error) {
			var buf bytes.Buffer
			w, _ := flate.NewWriter(&buf, flate.BestSpeed)
			w.Write(b)
			w.Close()
			return buf.Bytes(), nil
		}, func(b []byte) ([]byte, error) {
			out, err := io.ReadAll(flate.NewReader(bytes.NewReader(b)))
			return append([]byte{}, out...), err
		}},
		{"short", func(b []byte) ([]byte, error) {
			// what the application sends often is nothing on the wire
			if len(b) == 5 && string(b) == "often" {
				return nil, nil
			}
			return append([]byte{1}, b...), nil
		}, func(b []byte) ([]byte, error) {
			if len(b) == 0 {
				return []byte("often"), nil
			}
			if b[0] != 1 {
				return nil, errDecode
			}
			return b[1:], nil
		}},
	}
	return rapid.SampledFrom(kinds).Draw(c.T, "transform")
}

// number makes a transform depend on the position of a frame and on the direction.
func number(t transform, i int) transform {
	var e, d atomic.Uint32
	return transform{t.name + " numbered", func(b []byte) ([]byte, error) {
		out, err := t.enc(b)
		return binary.BigEndian.AppendUint32(append([]byte{byte(i)}, out...), e.Add(1)), err
	}, func(b []byte) ([]byte, error) {
		if n := d.Add(1); len(b) < 5 || b[0] != byte(1-i) || binary.BigEndian.Uint32(b[len(b)-4:]) != n {
			return nil, fmt.Errorf("%w: out of order", errDecode)
		}
		return t.dec(b[1 : len(b)-4])
	}}
}

// spy records what goes through a mechanism.
type spy struct {
	mu       sync.Mutex
	enc, dec [][]byte // what it was given
	encOut   [][]byte
	failEnc  int // the call, counted from 1, that fails; 0: none
	failDec  int
	partial  bool // writes something before failing
}

var errInjected = errors.New("injected")

func (s *spy) sec(kind string, t transform) *secWriter {
	return &secWriter{Sec: vlib.Sec{Kind: zmq4.SecurityType(kind)}, s: s, t: t}
}

type secWriter struct {
	vlib.Sec
	s *spy
	t transform
}

// Handshake is that of NULL over the encrypted connection.
func (w *secWriter) Handshake(conn *zmq4.Conn, server bool) error {
	return w.Sec.Handshake(conn, server)
}

func (w *secWriter) Encrypt(out io.Writer, b []byte) (int, error) {
	w.s.mu.Lock()
	w.s.enc = append(w.s.enc, append([]byte{}, b...))
	fail := len(w.s.enc) == w.s.failEnc
	w.s.mu.Unlock()
	if fail {
		if w.s.partial {
			out.Write([]byte("partial"))
		}
		return 0, errInjected
	}
	x, err := w.t.enc(b)
	if err != nil {
		return 0, err
	}
	w.s.mu.Lock()
	w.s.encOut = append(w.s.encOut, append([]byte{}, x...))
	w.s.mu.Unlock()
	// in two pieces
	n, err := out.Write(x[:len(x)/2])
	if err == nil {
		var m int
		m, err = out.Write(x[len(x)/2:])
		n += m
	}
	return n, err
}

func (w *secWriter) Decrypt(out io.Writer, b []byte) (int, error) {
	w.s.mu.Lock()
	w.s.dec = append(w.s.dec, append([]byte{}, b...))
	fail := len(w.s.dec) == w.s.failDec
	w.s.mu.Unlock()
	if fail {
		if w.s.partial {
			out.Write([]byte("partial"))
		}
		return 0, errInjected
	}
	x, err := w.t.dec(b)
	if err != nil {
		return 0, err
	}
	n, err := out.Write(x[:len(x)/2])
	if err == nil {
		var m int
		m, err = out.Write(x[len(x)/2:])
		n += m
	}
	return n, err
}

// frames draws frames, some of which the transforms treat in their own way.
func frames(c *vlib.C) [][]byte {
	fs := c.Frames(rapid.SampledFrom([]int{300, 600, 600, 70000}).Draw(c.T, "max"))
	for i := range fs {
		switch rapid.IntRange(0, 5).Draw(c.T, "often") {
		case 0:
			fs[i] = []byte("often")
		case 1:
			fs[i] = bytes.Repeat([]byte{7}, rapid.SampledFrom([]int{1, 255, 256, 5000}).Draw(c.T, "run"))
		}
	}
	return fs
}

// TestConn sends over a connection of two Conns.
func TestConn(t *testing.T) {
	vlib.Run(t, 5000, 120000, "two Conns with a mechanism that is a drawn invertible transform (identity, in place, xor, padding by 1 to 70000 bytes, hex, deflate, one with empty encrypted forms; numbered by position or not) exchange 1-12 messages and commands of drawn frames in both directions; an encryption or decryption may fail, after writing something or not; all must arrive as sent, the wire must carry exactly one frame per frame sent, with the encrypted form and its length, and each frame must be given to the mechanism exactly once, in order; when the mechanism fails, the operation must return an error, nothing of the message may be written or delivered, and what is received afterwards must be what was sent; non-trivial: the transform changes lengths or a failure is injected", func(c *vlib.C) {
		kind := rapid.SampledFrom([]string{"MINE", "PLAIN", "CURVE", "XYZ-ABCDEFGHIJKLMNOP"}).Draw(c.T, "name")
		tr := draw(c)
		numbered := rapid.Bool().Draw(c.T, "numbered")
		failing := !numbered && rapid.IntRange(0, 1).Draw(c.T, "failing") == 0
		c.D("%s %s numbered=%v failing=%v", kind, tr.name, numbered, failing)
		c.Class("%s", strings.TrimRight(tr.name, "0123456789"))
		if !strings.HasPrefix(tr.name, "i") && !strings.HasPrefix(tr.name, "xor") || failing {
			c.Nontrivial()
		}
		spies := [2]*spy{{}, {}}
		conns := [2]*vlib.MemConn{}
		conns[0], conns[1] = vlib.MemPipe(c.Chunks(), 0)
		type res struct {
			i    int
			conn *zmq4.Conn
			err  error
		}
		done := make(chan res, 2)
		for i := range conns {
			t := tr
			if numbered {
				t = number(tr, i)
			}
			sec := spies[i].sec(kind, t)
			go func() {
				conn, err := zmq4.Open(conns[i], sec, zmq4.Pair, zmq4.SocketIdentity(fmt.Sprint("id", i)), i == 0, nil)
				done <- res{i, conn, err}
			}()
		}
		z := [2]*zmq4.Conn{}
		for range conns {
			select {
			case r := <-done:
				if r.err != nil {
					c.Violation("Open: %v", r.err)
				}
				z[r.i] = r.conn
			case <-time.After(vlib.Long):
				c.Violation("Open hangs")
			}
		}
		defer z[0].Close()
		defer z[1].Close()
		for i := range z {
			if got := z[i].Peer.Meta["Identity"]; got != fmt.Sprint("id", 1-i) {
				c.Violation("the peer's identity is %q", got)
			}
		}
		// the handshake went through the mechanism, too
		for i, s := range spies {
			if len(s.enc) != 1 || len(s.dec) != 1 || !bytes.Contains(s.enc[0], []byte("Socket-Type")) {
				c.Violation("side %d: the handshake gave %d frames to Encrypt and %d to Decrypt", i, len(s.enc), len(s.dec))
			}
		}
		type item struct {
			cmd    bool
			frames [][]byte // as given to Encrypt
		}
		wire := [2][]item{} // by sender, what is on the wire
		for k := rapid.IntRange(1, 12).Draw(c.T, "operations"); k > 0; k-- {
			from := rapid.IntRange(0, 1).Draw(c.T, "from")
			tx, rx := z[from], z[1-from]
			out, in := spies[from], spies[1-from]
			fs := frames(c)
			it := item{false, fs}
			name := ""
			if rapid.IntRange(0, 3).Draw(c.T, "command") == 0 {
				fs = fs[:1]
				name = rapid.SampledFrom([]string{"READY", "HELLO", "X", "ERROR"}).Draw(c.T, "command name")
				it = item{true, [][]byte{vlib.CmdBody(name, fs[0])}}
			}
			c.D("%d %s%s", from, name, vlib.Sizes(fs))
			failEnc, failDec := 0, 0
			if failing {
				switch rapid.IntRange(0, 3).Draw(c.T, "fail") {
				case 0:
					failEnc = rapid.IntRange(1, len(it.frames)).Draw(c.T, "encryption")
				case 1:
					failDec = rapid.IntRange(1, len(it.frames)).Draw(c.T, "decryption")
				}
				c.D("encryption %d, decryption %d fails", failEnc, failDec)
			}
			encs := out.arm(failEnc, 0, rapid.Bool().Draw(c.T, "partial"))
			in.arm(0, failDec, rapid.Bool().Draw(c.T, "partial decryption"))
			before := len(conns[1-from].Recorded())
			var err error
			c.Within("sending", func() {
				if it.cmd {
					err = tx.SendCmd(name, fs[0])
				} else {
					err = tx.SendMsg(zmq4.NewMsgFrom(vlib.CloneFrames(fs)...))
				}
			})
			if failEnc > 0 {
				c.Class("encryption fails")
				if err == nil {
					c.Violation("sending succeeds though encryption failed")
				}
				if n := len(conns[1-from].Recorded()); n != before {
					c.Violation("%d bytes are written though encryption failed", n-before)
				}
				out.forget(encs)
				continue
			}
			if err != nil {
				c.Violation("sending: %v", err)
			}
			wire[from] = append(wire[from], it)
			var got zmq4.Msg
			var gotCmd zmq4.Cmd
			c.Within("receiving", func() {
				if it.cmd {
					gotCmd, err = rx.RecvCmd()
				} else {
					got, err = rx.RecvMsg()
				}
			})
			if failDec > 0 {
				c.Class("decryption fails")
				if err == nil {
					c.Violation("receiving succeeds though decryption failed")
				}
				// nothing of the message may pass for another
				in.arm(0, 0, false)
				after := [][]byte{[]byte("after"), []byte("that")}
				tx.SendMsg(zmq4.NewMsgFrom(vlib.CloneFrames(after)...))
				var next zmq4.Msg
				c.Within("receiving after a failed decryption", func() { next, err = rx.RecvMsg() })
				if err == nil && !vlib.Same(next.Frames, after) {
					c.Violation("after a failed decryption %s is received", vlib.Clip(next.Frames))
				}
				return
			}
			if err != nil {
				c.Violation("receiving: %v", err)
			}
			if it.cmd {
				if gotCmd.Name != name || !bytes.Equal(gotCmd.Body, fs[0]) {
					c.Violation("sent command %s %s, got %s %s", name, vlib.Clip(fs[0]), gotCmd.Name, vlib.Clip(gotCmd.Body))
				}
			} else if !vlib.Same(got.Frames, fs) {
				c.Violation("sent %s, got %s", vlib.Clip(fs), vlib.Clip(got.Frames))
			}
		}
		// what went through the mechanisms, and over the wire
		for from, items := range wire {
			var all [][]byte
			for _, it := range items {
				all = append(all, it.frames...)
			}
			encIn, encOut, decIn := spies[from].enc[1:], spies[from].encOut[1:], spies[1-from].dec[1:]
			rec := conns[1-from].Recorded()
			if len(rec) < 64 {
				c.Violation("only %d bytes are on the wire", len(rec))
			}
			parsed, rest, err := vlib.Parse(rec[64:])
			if err != nil || len(rest) > 0 || len(parsed) != len(items)+1 {
				c.Violation("%d items are on the wire for %d sent, and %d bytes (%v)", len(parsed)-1, len(items), len(rest), err)
			}
			var bodies [][]byte
			for i, it := range parsed[1:] {
				if it.Cmd != items[i].cmd || len(it.Frames) != len(items[i].frames) {
					c.Violation("item %d on the wire is of %d frames, command: %v; sent were %d frames, command: %v", i, len(it.Frames), it.Cmd, len(items[i].frames), items[i].cmd)
				}
				bodies = append(bodies, it.Frames...)
			}
			if !vlib.Same(encIn, all) {
				c.Violation("Encrypt was given %s for %s", vlib.Clip(encIn), vlib.Clip(all))
			}
			if !vlib.Same(encOut, bodies) {
				c.Violation("on the wire are %s; Encrypt made %s", vlib.Clip(bodies), vlib.Clip(encOut))
			}
			if !vlib.Same(decIn, bodies) {
				c.Violation("Decrypt was given %s; on the wire were %s", vlib.Clip(decIn), vlib.Clip(bodies))
			}
		}
	})
}

// arm sets which of the next calls fails. It returns how many calls of Encrypt
// there were.
func (s *spy) arm(enc, dec int, partial bool) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.failEnc, s.failDec, s.partial = 0, 0, partial
	if enc > 0 {
		s.failEnc = len(s.enc) + enc
	}
	if dec > 0 {
		s.failDec = len(s.dec) + dec
	}
	return len(s.enc)
}

// forget drops what was encrypted since.
func (s *spy) forget(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.failEnc = 0
	s.enc, s.encOut = s.enc[:n], s.encOut[:n]
}

// TestLinks sends over sockets.
func TestLinks(t *testing.T) {
	vlib.Run(t, 3000, 60000, "every pair of socket types that exchanges messages (14 of them), over tcp, ipc, inproc or vmem in pieces, either side listening, both with the same drawn transform as mechanism, exchanges 1-6 messages, plain or multipart; all must arrive as sent and in order; non-trivial: some message has several frames", func(c *vlib.C) {
		tr := draw(c)
		pat := rapid.SampledFrom(vlib.Patterns).Draw(c.T, "pattern")
		kind := rapid.SampledFrom([]string{"tcp", "ipc", "inproc", "vmem", "vmem-chunked"}).Draw(c.T, "transport")
		listens := rapid.Bool().Draw(c.T, "sender listens")
		c.D("%s %v %s %v", tr.name, pat, kind, listens)
		c.Class("%v", pat)
		s := &spy{}
		l := c.NewLink(pat, kind, listens, zmq4.WithSecurity(s.sec("MINE", tr)), quiet)
		n := rapid.IntRange(1, 6).Draw(c.T, "messages")
		for i := 0; i < n; i++ {
			fs := frames(c)
			if len(fs) > 1 {
				c.Nontrivial()
			}
			multi := rapid.Bool().Draw(c.T, "multi")
			c.D("%v%s", multi, vlib.Sizes(fs))
			sent := make(chan error, 1)
			send := func() { sent <- l.Send(multi, vlib.CloneFrames(fs)) }
			if l.LockStep {
				c.Within("sending", send)
			} else {
				go send()
			}
			var got [][]byte
			var err error
			c.Within("receiving", func() { got, err = l.Recv() })
			if err != nil {
				c.Violation("receiving: %v", err)
			}
			if !vlib.Same(got, fs) {
				c.Violation("sent %s, got %s", vlib.Clip(fs), vlib.Clip(got))
			}
			c.Within("sending", func() { err = <-sent })
			if err != nil {
				c.Violation("sending: %v", err)
			}
		}
	})
}

// peer is a raw peer that encrypts and decrypts by itself.
type peer struct {
	*vlib.Peer
	t    transform
	msgs chan any      // messages read, and at last an error
	out  chan [][]byte // messages to write
}

// run starts reading and writing.
func (p *peer) run() {
	p.msgs, p.out = make(chan any, 10000), make(chan [][]byte, 1000)
	go func() {
		for {
			fs, err := p.readOne()
			if err != nil {
				p.msgs <- err
				close(p.msgs)
				return
			}
			p.msgs <- fs
		}
	}()
	go func() {
		for fs := range p.out {
			if p.WriteMsg(fs...) != nil {
				return
			}
		}
	}()
}

func (p *peer) write(fs ...[]byte) { p.out <- p.encrypt(fs) }

// read returns the next message.
func (p *peer) read() ([][]byte, error) {
	select {
	case m := <-p.msgs:
		if fs, ok := m.([][]byte); ok {
			return fs, nil
		}
		err, _ := m.(error)
		if err == nil {
			err = net.ErrClosed
		}
		return nil, err
	case <-time.After(vlib.Long):
		return nil, os.ErrDeadlineExceeded
	}
}

func (p *peer) encrypt(fs [][]byte) [][]byte {
	out := make([][]byte, len(fs))
	for i, f := range fs {
		x, err := p.t.enc(append([]byte{}, f...))
		if err != nil {
			panic(err)
		}
		out[i] = x
	}
	return out
}

func (p *peer) readOne() ([][]byte, error) {
	fs, err := p.ReadMsg()
	if err != nil {
		return nil, err
	}
	for i, f := range fs {
		if fs[i], err = p.t.dec(f); err != nil {
			return nil, fmt.Errorf("on the wire is %q: %w", vlib.Clip(f), err)
		}
	}
	return fs, nil
}

func (p *peer) handshake(typ zmq4.SocketType, id, mechanism string) error {
	p.SetDeadline(time.Now().Add(vlib.Long))
	defer p.SetDeadline(time.Time{})
	if _, err := p.Write(vlib.Greeting(mechanism, 0, 3, 0)); err != nil {
		return err
	}
	if _, err := io.ReadFull(p.R, make([]byte, 64)); err != nil {
		return err
	}
	ready := vlib.CmdBody("READY", vlib.MetaBytes("Socket-Type", string(typ), "Identity", id))
	if _, err := p.Write(vlib.Frame(vlib.CmdFlag, p.encrypt([][]byte{ready})[0])); err != nil {
		return err
	}
	fl, body, err := p.ReadFrame()
	if err != nil {
		return err
	}
	if fl != vlib.CmdFlag {
		return fmt.Errorf("flags %#x", fl)
	}
	if body, err = p.t.dec(body); err != nil {
		return err
	}
	name, rest, err := vlib.SplitCmd(body)
	if err != nil || name != "READY" {
		return fmt.Errorf("got %q instead of READY (%v)", name, err)
	}
	p.Meta, err = vlib.ParseMeta(rest)
	return err
}

// TestRaw lets sockets talk to a peer that does the encryption by itself.
func TestRaw(t *testing.T) {
	vlib.Run(t, 5000, 100000, "a listening or dialing socket of any type with a drawn transform as mechanism exchanges 1-8 messages with a raw peer that encrypts and decrypts by itself; in some cases an encryption or decryption of the socket fails; what the peer reads must be what was sent, frame by frame encrypted, and what it writes must be received; a failed encryption must make Send fail (except on publishers, whose sending is not seen) and nothing of the message may reach the peer, a failed decryption must lose the message and may lose later ones, but nothing may arrive that was not sent; non-trivial: a failure is injected or there is a message of several frames", func(c *vlib.C) {
		tr := draw(c)
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		kind := rapid.SampledFrom([]string{"tcp", "ipc", "vmem", "vmem-chunked"}).Draw(c.T, "transport")
		listens := kind == "ipc" || rapid.Bool().Draw(c.T, "listens")
		c.D("%s %s %s listens=%v", tr.name, typ, kind, listens)
		c.Class("%s", typ)
		s := &spy{}
		sock := c.New(typ, zmq4.WithSecurity(s.sec("MINE", tr)), quiet, zmq4.WithID(zmq4.SocketIdentity("me")))
		if typ == zmq4.Sub {
			sock.SetOption(zmq4.OptionSubscribe, "")
		}
		var p *peer
		partner := vlib.Partner(typ)
		if listens {
			p = &peer{Peer: c.DialRaw(c.Listen(sock, kind)), t: tr}
			if err := p.handshake(partner, "peer", "MINE"); err != nil {
				c.Violation("handshake: %v", err)
			}
		} else {
			var l net.Listener
			var err error
			ep := ""
			if kind == "tcp" {
				if l, err = net.Listen("tcp", "127.0.0.1:0"); err == nil {
					ep = "tcp://" + l.Addr().String()
				}
			} else {
				ep = c.Fresh(kind)
				l, err = vlib.MemListen(strings.TrimPrefix(ep, "vmem://"))
			}
			if err != nil {
				panic(err)
			}
			defer l.Close()
			errs := make(chan error, 1)
			go func() {
				conn, err := l.Accept()
				if err == nil {
					p = &peer{Peer: vlib.NewPeer(conn), t: tr}
					err = p.handshake(partner, "peer", "MINE")
				}
				errs <- err
			}()
			c.Dial(sock, ep)
			c.Within("handshake", func() { err = <-errs })
			if err != nil {
				c.Violation("handshake: %v", err)
			}
			c.Cleanup(func() { p.Close() })
		}
		if got := p.Meta["identity"]; got != "me" {
			c.Violation("the socket's identity is %q", got)
		}
		p.run()
		defer close(p.out)
		read := func() [][]byte {
			fs, err := p.read()
			if err != nil {
				c.Violation("the peer reads: %v", err)
			}
			return fs
		}
		write := p.write
		want := func(got [][]byte, want ...[]byte) {
			if !vlib.Same(got, want) {
				c.Violation("sent %s, got %s", vlib.Clip(want), vlib.Clip(got))
			}
		}
		var send, recv func(fs [][]byte)
		var put func(fs [][]byte) error // sends from the socket, and no more
		multi := false
		putPrefixed := func(prefix ...[]byte) func(fs [][]byte) error {
			return func(fs [][]byte) error {
				return c.SendErr(sock, multi, append(prefix[:len(prefix):len(prefix)], vlib.CloneFrames(fs)...)...)
			}
		}
		wire := func(fs [][]byte) [][]byte { return fs } // what the peer reads for fs
		switch typ {
		case zmq4.Pull, zmq4.Sub, zmq4.XSub:
			if typ == zmq4.Sub {
				want(read(), []byte{1})
			}
			if typ == zmq4.XSub {
				c.Must("XSUB subscribes", func() bool { return c.SendErr(sock, false, []byte("\x01abc")) == nil })
				want(read(), []byte("\x01abc"))
			}
			recv = func(fs [][]byte) { write(fs...); want(c.Recv(sock), fs...) }
		case zmq4.Push:
			put = putPrefixed()
		case zmq4.Pair, zmq4.Dealer:
			put = putPrefixed()
			recv = func(fs [][]byte) { write(fs...); want(c.Recv(sock), fs...) }
		case zmq4.Router:
			put = putPrefixed([]byte("peer"))
			recv = func(fs [][]byte) {
				write(fs...)
				want(c.Recv(sock), append([][]byte{[]byte("peer")}, fs...)...)
			}
			recv([][]byte{[]byte("known")})
		case zmq4.Rep:
			put = putPrefixed()
			wire = func(fs [][]byte) [][]byte { return append([][]byte{{}}, fs...) }
			recv = func(fs [][]byte) {
				write(wire(fs)...)
				want(c.Recv(sock), fs...)
			}
			recv([][]byte{[]byte("first")})
			plain := put
			put = func(fs [][]byte) error { // it answers one request after another
				if err := plain(fs); err != nil {
					return err
				}
				want(read(), wire(fs)...)
				recv([][]byte{[]byte("next")})
				return nil
			}
		case zmq4.Req:
			put = putPrefixed()
			wire = func(fs [][]byte) [][]byte { return append([][]byte{{}}, fs...) }
			c.Must("a request can be sent", func() bool { return put([][]byte{[]byte("q")}) == nil })
			want(read(), wire([][]byte{[]byte("q")})...)
			write([]byte{}, []byte("a"))
			want(c.Recv(sock), []byte("a"))
			plain := put
			put = func(fs [][]byte) error {
				if err := plain(fs); err != nil {
					return err
				}
				want(read(), wire(fs)...)
				write(wire(fs)...)
				want(c.Recv(sock), fs...)
				return nil
			}
		case zmq4.Pub, zmq4.XPub:
			write([]byte("\x01"))
			stop := make(chan struct{})
			go func() {
				defer close(stop)
				for {
					if fs, err := p.read(); err != nil || len(fs) == 2 {
						return
					}
				}
			}()
			c.Must("the subscription is known", func() bool {
				c.Send(sock, false, []byte("first"))
				s.mu.Lock()
				defer s.mu.Unlock()
				return len(s.enc) > 1
			})
			c.Send(sock, false, []byte("first"), []byte("end"))
			c.Within("publishing", func() { <-stop })
			put = putPrefixed()
		}
		lockstep := typ == zmq4.Req || typ == zmq4.Rep
		send = func(fs [][]byte) {
			if err := put(fs); err != nil {
				c.Violation("Send: %v", err)
			}
			if !lockstep {
				want(read(), wire(fs)...)
			}
		}
		for n := rapid.IntRange(1, 8).Draw(c.T, "messages"); n > 0; n-- {
			fs := frames(c)
			if len(fs) > 1 {
				c.Nontrivial()
			}
			multi = rapid.Bool().Draw(c.T, "multi")
			out := put != nil && (lockstep || recv == nil || rapid.Bool().Draw(c.T, "out"))
			fail := 0
			if rapid.IntRange(0, 5).Draw(c.T, "fail") == 0 {
				fail = rapid.IntRange(1, len(fs)).Draw(c.T, "failing")
				c.Nontrivial()
			}
			partial := rapid.Bool().Draw(c.T, "partial")
			c.D("out=%v multi=%v %s failing=%d partial=%v", out, multi, vlib.Sizes(fs), fail, partial)
			switch {
			case fail == 0 && out:
				send(fs)
			case fail == 0:
				recv(fs)
			case out:
				c.Class("encryption of %s fails", typ)
				s.arm(fail, 0, partial)
				err := put(fs)
				pub := typ == zmq4.Pub || typ == zmq4.XPub
				if err == nil && !pub {
					c.Violation("Send succeeds though encryption failed")
				}
				if pub {
					c.Must("the message is encrypted", func() bool {
						s.mu.Lock()
						defer s.mu.Unlock()
						return len(s.enc) >= s.failEnc
					})
				}
				s.arm(0, 0, false)
				// what the peer reads next is another message, or the end
				last := [][]byte{[]byte("last"), {}, []byte("one")}
				lastWire := wire(last)
				got := make(chan struct{})
				var rd [][]byte
				var rerr error
				go func() { rd, rerr = p.read(); close(got) }()
				for i := 0; ; i++ {
					sent := make(chan error, 1)
					go func() { sent <- vlib.Put(sock, false, append(putPrefix(typ), vlib.CloneFrames(last)...)) }()
					select {
					case err = <-sent:
					case <-got:
					case <-time.After(vlib.Long):
						c.Violation("after a failed encryption neither does Send return nor the peer read anything")
					}
					if err == nil || typ != zmq4.Req || i > 20 {
						break
					}
				}
				if err != nil {
					// the connection, or the state of a REP, may have ended
					return
				}
				select {
				case <-got:
				case <-time.After(vlib.Long):
					c.Violation("a message sent after a failed encryption does not arrive")
				}
				if rerr == nil && !vlib.Same(rd, lastWire) {
					c.Violation("after a failed encryption the peer reads %s", vlib.Clip(rd))
				}
				if rerr != nil && errors.Is(rerr, errDecode) {
					c.Violation("after a failed encryption: %v", rerr)
				}
				return
			default:
				c.Class("decryption of %s fails", typ)
				in := vlib.NewInbox(sock)
				s.arm(0, fail, partial)
				write(wire(fs)...)
				last := [][]byte{[]byte("last"), {}, []byte("one")}
				write(wire(last)...)
				c.Must("the connection ends or the next message is received", func() bool {
					return in.Len() > 0 || len(p.msgs) > 0
				})
				if typ == zmq4.Router {
					last = append([][]byte{[]byte("peer")}, last...)
				}
				for _, m := range in.All() {
					if !vlib.Same(m, last) {
						c.Violation("after a failed decryption %s is received", vlib.Clip(m))
					}
				}
				return
			}
		}
	})
}

func putPrefix(typ zmq4.SocketType) [][]byte {
	if typ == zmq4.Router {
		return [][]byte{[]byte("peer")}
	}
	return nil
}
