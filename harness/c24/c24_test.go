// Package c24: the PLAIN handshake follows its protocol and is repeatable.
package c24

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/plain"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func init() { vlib.RecordAll = true }

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

func TestMain(m *testing.M) {
	// sockets print about failed handshakes there
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr = f
	}
	os.Exit(m.Run())
}

// credential draws a user or password.
func credential(c *vlib.C, max int, what string) string {
	switch rapid.IntRange(0, 4).Draw(c.T, what) {
	case 0:
		return ""
	case 1:
		n := rapid.SampledFrom([]int{1, 127, 128, 254, 255, 256, 257, 300, 511, 512, 70000}).Draw(c.T, "length")
		return string(vlib.Fill(min(n, max), rapid.Uint64().Draw(c.T, "fill")))
	case 2:
		return rapid.SampledFrom([]string{"user", "\x00", "\x00\x00", "pa\x00ss", "\xff\xfe", "é", "WELCOME"}).Draw(c.T, "text")
	}
	return string(rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(c.T, "bytes"))
}

// hello is the body of a HELLO command.
func hello(user, pass string) []byte {
	b := append([]byte{byte(len(user))}, user...)
	b = append(b, byte(len(pass)))
	return append(b, pass...)
}

// step is what a raw peer writes at one step of the handshake.
type step struct {
	what string
	raw  []byte
	good bool
	hang bool // the other side needs to see the end of the connection
}

// draw makes a step that should be the command name with body.
func draw(c *vlib.C, name string, body []byte, valid func(b []byte) bool) step {
	good := step{what: name, raw: vlib.Command(name, body), good: true}
	if rapid.IntRange(0, 9).Draw(c.T, "good step") < 5 {
		if rapid.IntRange(0, 3).Draw(c.T, "long form") == 0 {
			good.raw = vlib.FrameLong(vlib.CmdFlag, vlib.CmdBody(name, body))
			good.what += " (long)"
		}
		return good
	}
	switch rapid.IntRange(0, 6).Draw(c.T, "kind") {
	case 0, 1:
		other := rapid.SampledFrom([]string{"HELLO", "WELCOME", "INITIATE", "READY", "ERROR", "PING", "SUBSCRIBE", "", "hello", "HELL", "HELLO2", "READ", "READYY", "WELCOM", "INITIATEX", "INIT", "\x00", "WELCOME\x00"}).Draw(c.T, "other name")
		if other == name {
			return good
		}
		return step{what: fmt.Sprintf("%q for %s", other, name), raw: vlib.Command(other, body)}
	case 2:
		return step{what: name + " as a message", raw: vlib.Frame(0, vlib.CmdBody(name, body))}
	case 3:
		return step{what: name + " in two frames", raw: append(vlib.Frame(vlib.CmdFlag|vlib.More, vlib.CmdBody(name, body)), vlib.Frame(0, []byte("more"))...)}
	case 4:
		k := rapid.IntRange(0, len(good.raw)-1).Draw(c.T, "cut")
		return step{what: fmt.Sprintf("%d of %d bytes of %s", k, len(good.raw), name), raw: good.raw[:k], hang: true}
	}
	// a body that was tampered with
	bad := append([]byte(nil), body...)
	what := ""
	switch rapid.IntRange(0, 3).Draw(c.T, "tamper") {
	case 0, 1:
		if len(bad) == 0 {
			// the command's name is cut
			return step{what: "a cut name for " + name, raw: vlib.Frame(vlib.CmdFlag, vlib.CmdBody(name, nil)[:rapid.IntRange(0, len(name)).Draw(c.T, "name cut")])}
		}
		bad = bad[:rapid.IntRange(0, len(bad)-1).Draw(c.T, "cut at")]
		what = fmt.Sprintf("%s with %d of %d bytes", name, len(bad), len(body))
	case 2:
		if name == "WELCOME" {
			return good
		}
		bad = append(bad, c.Frame(20)...)
		what = fmt.Sprintf("%s with %d more bytes", name, len(bad)-len(body))
	case 3:
		if len(bad) == 0 {
			return good
		}
		i := rapid.IntRange(0, len(bad)-1).Draw(c.T, "at")
		bad[i] ^= 1 << rapid.IntRange(0, 7).Draw(c.T, "bit")
		what = fmt.Sprintf("%s with byte %d changed", name, i)
	}
	return step{what: what, raw: vlib.Command(name, bad), good: valid(bad)}
}

func validHello(b []byte) bool {
	for i := 0; i < 2; i++ {
		if len(b) < 1 || len(b) < 1+int(b[0]) {
			return false
		}
		b = b[1+int(b[0]):]
	}
	return len(b) == 0
}

// validMeta is for partners of typ.
func validMeta(typ zmq4.SocketType) func(b []byte) bool {
	return func(b []byte) bool {
		m, err := vlib.ParseMeta(b)
		return err == nil && compatible(typ, m["socket-type"])
	}
}

func compatible(typ zmq4.SocketType, peer string) bool {
	ok := map[zmq4.SocketType]string{
		zmq4.Pair: "PAIR", zmq4.Pub: "SUB XSUB", zmq4.XPub: "SUB XSUB", zmq4.Sub: "PUB XPUB", zmq4.XSub: "PUB XPUB",
		zmq4.Req: "REP ROUTER", zmq4.Rep: "REQ DEALER", zmq4.Dealer: "REP DEALER ROUTER", zmq4.Router: "REQ DEALER ROUTER",
		zmq4.Push: "PULL", zmq4.Pull: "PUSH",
	}[typ]
	for _, t := range strings.Fields(ok) {
		if t == peer {
			return true
		}
	}
	return false
}

// odd tells that the oracle does not decide metadata like that: a property
// twice, one without a name, or another case of a name.
func odd(b []byte) bool {
	m, err := vlib.ParseMeta(b)
	if _, ok := m["socket-type"]; ok && !bytes.Contains(b, []byte("\x0bSocket-Type")) {
		return true
	}
	return err != nil && (strings.Contains(err.Error(), "duplicate") || strings.Contains(err.Error(), "name"))
}

// metadata draws what the peer of typ tells about itself.
func metadata(c *vlib.C, typ zmq4.SocketType) []byte {
	kv := []string{"Socket-Type", string(vlib.Partner(typ))}
	if rapid.Bool().Draw(c.T, "identity") {
		kv = append(kv, "Identity", string(vlib.Fill(rapid.IntRange(0, 255).Draw(c.T, "id length"), 3)))
	}
	if rapid.IntRange(0, 3).Draw(c.T, "extra") == 0 {
		kv = append(kv, "X-Extra", string(c.Frame(600)))
	}
	if rapid.IntRange(0, 9).Draw(c.T, "other type") == 0 {
		kv[1] = rapid.SampledFrom([]string{"PUSH", "PULL", "", "NONE", "SUB"}).Draw(c.T, "type")
	}
	return vlib.MetaBytes(kv...)
}

// got is what a side has written: the commands after the greeting.
func got(c *vlib.C, conn *vlib.MemConn) []string {
	b := conn.Recorded()
	if len(b) < 64 {
		return nil
	}
	if !bytes.HasPrefix(b[12:32], []byte("PLAIN\x00")) {
		c.Violation("the greeting is %q", b[:64])
	}
	items, rest, err := vlib.Parse(b[64:])
	if err != nil || len(rest) > 0 {
		c.Violation("the handshake writes %q (%v)", b[64:], err)
	}
	var out []string
	for _, it := range items {
		name, body, err := vlib.SplitCmd(it.Frames[0])
		if !it.Cmd || err != nil {
			c.Violation("the handshake writes %s", vlib.Clip(it.Frames))
		}
		out = append(out, name+":"+string(body))
	}
	return out
}

// wantMeta is the metadata a side has to send.
func wantMeta(c *vlib.C, raw string, typ zmq4.SocketType, id string) {
	m, err := vlib.ParseMeta([]byte(raw))
	if err != nil || m["socket-type"] != string(typ) || m["identity"] != id || len(m) > 2 {
		c.Violation("%s with identity %q sends the metadata %q (%v)", typ, id, raw, err)
	}
}

// TestScript plays the other side of one handshake.
func TestScript(t *testing.T) {
	vlib.Run(t, 12000, 250000, "Open with PLAIN as a client or server of any socket type and identity, with credentials of 0-300 (and 70000) binary bytes, against a raw peer that plays WELCOME and READY, or HELLO and INITIATE; each command is right, or wrongly named, out of order, a message, split, cut at any byte, extended or with a bit flipped; Open must succeed if and only if both commands were right and the types compatible, and what it writes must be exactly the protocol's commands with the configured credentials and metadata in their order, each only after the one before was answered, nothing but an ERROR after a wrong one; credentials over 255 bytes must be refused and not sent; non-trivial: a step is wrong, or credentials are over 40 bytes", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		id := credential(c, 255, "id")
		server := rapid.Bool().Draw(c.T, "server")
		user, pass := credential(c, 1<<20, "user"), credential(c, 1<<20, "password")
		c.D("%s server=%v id %d bytes, user %d, password %d", typ, server, len(id), len(user), len(pass))
		a, b := vlib.MemPipe(c.Chunks(), 0)
		defer a.Close()
		type res struct {
			conn *zmq4.Conn
			err  error
		}
		done := make(chan res, 1)
		go func() {
			conn, err := zmq4.Open(a, plain.Security(user, pass), typ, zmq4.SocketIdentity(id), server, nil)
			done <- res{conn, err}
		}()
		p := vlib.NewPeer(b)
		defer p.Close()
		p.SetDeadline(time.Now().Add(vlib.Long))
		if _, err := p.Write(vlib.Greeting("PLAIN", 0, 3, 0)); err != nil {
			c.Violation("writing the greeting: %v", err)
		}
		gr := make([]byte, 64)
		if _, err := io.ReadFull(p.R, gr); err != nil {
			c.Violation("reading the greeting: %v", err)
		}
		finish := func() error {
			select {
			case r := <-done:
				return r.err
			case <-time.After(vlib.Long):
				c.Violation("Open hangs")
			}
			return nil
		}
		tooLong := !server && (len(user) > 255 || len(pass) > 255)
		if tooLong {
			c.Class("too long")
			c.Nontrivial()
			if finish() == nil {
				c.Violation("Open with credentials of %d and %d bytes succeeds", len(user), len(pass))
			}
			for _, cmd := range got(c, b) {
				if !strings.HasPrefix(cmd, "ERROR:") {
					c.Violation("with credentials of %d and %d bytes, Open writes %s", len(user), len(pass), vlib.Clip(cmd))
				}
			}
			return
		}
		// next reads the next command, without which no step can be played
		next := func(want string) string {
			fl, body, err := p.ReadFrame()
			if err != nil {
				c.Violation("waiting for %s: %v", want, err)
			}
			name, rest, err := vlib.SplitCmd(body)
			if fl != vlib.CmdFlag || err != nil || name != want {
				c.Violation("got the frame %d %s instead of %s", fl, vlib.Clip(body), want)
			}
			return string(rest)
		}
		early := func(what string) {
			if rapid.IntRange(0, 15).Draw(c.T, "wait") == 0 {
				time.Sleep(2 * time.Millisecond)
			}
			if p.R.Buffered() > 0 || b.Pending() > 0 {
				c.Violation("more is written before %s was", what)
			}
		}
		allGood := true
		bad := func(s step) {
			allGood = false
			c.Class("bad " + map[bool]string{true: "client", false: "server"}[!server])
			c.Nontrivial()
		}
		var steps []string
		play := func(s step) bool {
			c.D("%s", s.what)
			steps = append(steps, s.what)
			p.Write(s.raw)
			if s.hang {
				p.Close()
			}
			if !s.good {
				bad(s)
				err := finish()
				if err == nil {
					c.Violation("Open succeeds after %v", steps)
				}
			}
			return s.good
		}
		if len(user) > 40 || len(pass) > 40 {
			c.Nontrivial()
		}
		meta := metadata(c, typ)
		mv := validMeta(typ)
		if server {
			early("HELLO")
			if s := draw(c, "HELLO", hello(user[:min(255, len(user))], pass[:min(255, len(pass))]), validHello); !play(s) {
				if n := len(got(c, b)); n > 1 {
					c.Violation("after %v, %d commands are written", steps, n)
				}
				for _, cmd := range got(c, b) {
					if !strings.HasPrefix(cmd, "ERROR:") {
						c.Violation("after %v, %s is written", steps, vlib.Clip(cmd))
					}
				}
				return
			}
			if rest := next("WELCOME"); rest != "" {
				c.Violation("WELCOME has the body %q", rest)
			}
			early("INITIATE")
			s := draw(c, "INITIATE", meta, mv)
			s.good = s.good && mv(meta) || s.good && strings.Contains(s.what, "changed")
			if isOdd(s) {
				return
			}
			if !play(s) {
				// READY may have been sent if only the types do not fit
				for i, cmd := range got(c, b) {
					if i > 0 && !strings.HasPrefix(cmd, "ERROR:") && !strings.HasPrefix(cmd, "READY:") {
						c.Violation("after %v, %s is written", steps, vlib.Clip(cmd))
					}
					if strings.HasPrefix(cmd, "READY:") && !strings.HasPrefix(s.what, "INITIATE") {
						c.Violation("after %v, READY is written", steps)
					}
				}
				return
			}
			wantMeta(c, next("READY"), typ, id)
		} else {
			rest := next("HELLO")
			if rest != string(hello(user, pass)) {
				c.Violation("HELLO for %q, %q is %q", user, pass, rest)
			}
			early("WELCOME")
			if s := draw(c, "WELCOME", nil, func(b []byte) bool { return true }); !play(s) {
				for i, cmd := range got(c, b) {
					if i > 0 && !strings.HasPrefix(cmd, "ERROR:") {
						c.Violation("after %v, %s is written", steps, vlib.Clip(cmd))
					}
				}
				return
			}
			wantMeta(c, next("INITIATE"), typ, id)
			early("READY")
			s := draw(c, "READY", meta, mv)
			s.good = s.good && mv(meta) || s.good && strings.Contains(s.what, "changed")
			if isOdd(s) {
				return
			}
			if !play(s) {
				for i, cmd := range got(c, b) {
					if i > 1 && !strings.HasPrefix(cmd, "ERROR:") {
						c.Violation("after %v, %s is written", steps, vlib.Clip(cmd))
					}
				}
				return
			}
		}
		if !allGood {
			return
		}
		c.Class("good")
		if err := finish(); err != nil {
			c.Violation("Open fails after %v: %v", steps, err)
		}
		want := 2
		if n := len(got(c, b)); n != want {
			c.Violation("after %v, %d commands were written", steps, n)
		}
	})
}

// isOdd tells that metadata of a step is of a kind that is not specified.
func isOdd(s step) bool {
	items, _, err := vlib.Parse(s.raw)
	if err != nil || len(items) != 1 || !items[0].Cmd {
		return false
	}
	_, body, err := vlib.SplitCmd(items[0].Frames[0])
	return err == nil && (strings.Contains(s.what, "changed") || strings.Contains(s.what, "more bytes")) && odd(body)
}

// handshake plays PLAIN for a raw peer.
func handshake(p *vlib.Peer, asClient bool, user, pass, typ, id string) error {
	p.SetDeadline(time.Now().Add(vlib.Long))
	defer p.SetDeadline(time.Time{})
	if _, err := p.Write(vlib.Greeting("PLAIN", 0, 3, 0)); err != nil {
		return err
	}
	gr := make([]byte, 64)
	if _, err := io.ReadFull(p.R, gr); err != nil {
		return err
	}
	next := func(want string) ([]byte, error) {
		fl, body, err := p.ReadFrame()
		if err != nil {
			return nil, err
		}
		name, rest, err := vlib.SplitCmd(body)
		if fl != vlib.CmdFlag || err != nil || name != want {
			return nil, fmt.Errorf("got the frame %d %q instead of %s", fl, body, want)
		}
		return rest, nil
	}
	meta := vlib.MetaBytes("Socket-Type", typ, "Identity", id)
	if asClient {
		p.Write(vlib.Command("HELLO", hello(user, pass)))
		if _, err := next("WELCOME"); err != nil {
			return err
		}
		p.Write(vlib.Command("INITIATE", meta))
		_, err := next("READY")
		return err
	}
	rest, err := next("HELLO")
	if err != nil {
		return err
	}
	if string(rest) != string(hello(user, pass)) {
		return fmt.Errorf("HELLO for %q, %q is %q", user, pass, rest)
	}
	p.Write(vlib.Command("WELCOME", nil))
	if _, err := next("INITIATE"); err != nil {
		return err
	}
	_, err = p.Write(vlib.Command("READY", meta))
	return err
}

// TestRepeat has one socket make many connections.
func TestRepeat(t *testing.T) {
	vlib.Run(t, 2500, 40000, "one socket of any type, with PLAIN and drawn credentials, makes 2-6 connections: to raw servers it dials (one after another or at once, and again after they hung up, by automatic reconnection), and with raw clients, of which some send a wrong HELLO or leave, if it listens; another socket may share its Security value and connect meanwhile; every handshake must go by the protocol with exactly the configured credentials, and messages must pass over each connection; non-trivial: more than two connections", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		user, pass := credential(c, 255, "user"), credential(c, 255, "password")
		n := rapid.IntRange(2, 6).Draw(c.T, "connections")
		listens := rapid.Bool().Draw(c.T, "listens")
		sec := plain.Security(user, pass)
		s := c.New(typ, quiet, zmq4.WithSecurity(sec), zmq4.WithDialerRetry(time.Millisecond), zmq4.WithDialerMaxRetries(-1), zmq4.WithTimeout(vlib.Long))
		if typ == zmq4.Sub {
			s.SetOption(zmq4.OptionSubscribe, "")
		}
		c.D("%s user %q password %q listens=%v connections=%d", typ, vlib.Clip(user), vlib.Clip(pass), listens, n)
		c.Class("listens=%v", listens)
		if n > 2 {
			c.Nontrivial()
		}
		if rapid.IntRange(0, 2).Draw(c.T, "shared") == 0 {
			// meanwhile another socket uses the same value
			o := c.New(zmq4.Push, quiet, zmq4.WithSecurity(sec), zmq4.WithDialerMaxRetries(0))
			l := c.New(zmq4.Pull, quiet, zmq4.WithSecurity(sec))
			ep := c.Listen(l, "vmem")
			go func() {
				if o.Dial(ep) == nil {
					o.Send(zmq4.NewMsgString("meanwhile"))
				}
			}()
		}
		if listens {
			ep := c.Listen(s, "vmem")
			for i := 0; i < n; i++ {
				p := c.DialRaw(ep)
				switch rapid.IntRange(0, 4).Draw(c.T, "client") {
				case 0:
					p.Write(vlib.Greeting("PLAIN", 0, 3, 0))
					p.Write(vlib.Command("HELLO", []byte{9, 'x'}))
					c.D("bad")
					p.SetDeadline(time.Now().Add(vlib.Long))
					if _, err := io.Copy(io.Discard, p); errors.Is(err, os.ErrDeadlineExceeded) {
						c.Violation("a client with a truncated HELLO is not hung up on")
					}
					continue
				case 1:
					p.Write(vlib.Greeting("PLAIN", 0, 3, 0)[:rapid.IntRange(0, 64).Draw(c.T, "part")])
					p.Close()
					c.D("gone")
					continue
				}
				id := fmt.Sprintf("client%d", i)
				if err := handshake(p, true, credential(c, 255, "its user"), credential(c, 255, "its password"), string(vlib.Partner(typ)), id); err != nil {
					c.Violation("client %d: %v", i, err)
				}
				c.Serves(s, p, id)
				if rapid.IntRange(0, 3).Draw(c.T, "leaves") > 0 || typ == zmq4.Req {
					p.Close()
				}
			}
			return
		}
		// the socket dials
		l, err := vlib.MemListen(vlib.MemName(nil, 0))
		if err != nil {
			panic(err)
		}
		c.Cleanup(func() { l.Close() })
		name := l.Addr().String()
		var mu sync.Mutex
		var up []*vlib.Peer
		bad := vlib.NewBroken()
		go func() {
			for i := 0; ; i++ {
				conn, err := l.Accept()
				if err != nil {
					return
				}
				p := vlib.NewPeer(conn)
				mu.Lock()
				k := len(up)
				mu.Unlock()
				if err := handshake(p, false, user, pass, string(vlib.Partner(typ)), fmt.Sprintf("server%d", k)); err != nil {
					bad.Add("connection %d: %v", k, err)
				}
				mu.Lock()
				up = append(up, p)
				mu.Unlock()
			}
		}()
		count := func() int {
			mu.Lock()
			defer mu.Unlock()
			return len(up)
		}
		c.Cleanup(func() {
			mu.Lock()
			defer mu.Unlock()
			for _, p := range up {
				p.Close()
			}
		})
		for made := 0; made < n; made++ {
			if made > 0 && (typ == zmq4.Req || rapid.Bool().Draw(c.T, "reconnect")) {
				c.D("reconnects")
				mu.Lock()
				p := up[made-1]
				mu.Unlock()
				p.Close()
			} else {
				c.D("dials")
				errs := make(chan error, 1)
				go func() { errs <- s.Dial("vmem://" + name) }()
				c.Within("Dial", func() { err = <-errs })
				bad.Check(c)
				if err != nil {
					c.Violation("Dial no. %d: %v", made, err)
				}
			}
			c.Must("there is a connection", func() bool { return count() > made })
			bad.Check(c)
			mu.Lock()
			p := up[made]
			mu.Unlock()
			c.Serves(s, p, fmt.Sprintf("server%d", made))
		}
		if count() != n {
			c.Violation("%d connections instead of %d", count(), n)
		}
		bad.Check(c)
	})
}

// TestTraffic sends messages over connections with PLAIN.
func TestTraffic(t *testing.T) {
	vlib.Run(t, 2500, 40000, "messages of drawn frames (empty to 70000 bytes, plain or multipart) go over a connection of two sockets with PLAIN and drawn credentials, of any pattern and transport; they must arrive unchanged and in order, as without security; non-trivial: always", func(c *vlib.C) {
		pat := rapid.SampledFrom(vlib.Patterns).Draw(c.T, "pattern")
		kind := rapid.SampledFrom([]string{"vmem", "vmem-chunked", "inproc", "ipc", "tcp"}).Draw(c.T, "transport")
		tl := rapid.Bool().Draw(c.T, "sender listens")
		sec := plain.Security(credential(c, 255, "user"), credential(c, 255, "password"))
		c.D("%s-%s %s %v", pat.Tx, pat.Rx, kind, tl)
		c.Class("%s", kind)
		c.Nontrivial()
		l := c.NewLink(pat, kind, tl, quiet, zmq4.WithSecurity(sec))
		n := rapid.IntRange(1, 8).Draw(c.T, "messages")
		var sent [][][]byte
		check := func(want [][]byte) {
			var got [][]byte
			var err error
			c.Within("Recv", func() { got, err = l.Recv() })
			if err != nil || !vlib.Same(got, want) {
				c.Violation("got %s instead of %s (%v)", vlib.Clip(got), vlib.Clip(want), err)
			}
		}
		for i := 0; i < n; i++ {
			fs := c.Frames(rapid.SampledFrom([]int{300, 3000, 70000}).Draw(c.T, "max"))
			c.D("%s", vlib.Sizes(fs))
			sent = append(sent, fs)
		}
		if l.LockStep {
			for i, fs := range sent {
				var err error
				c.Within("Send", func() { err = l.Send(i%2 == 0, fs) })
				if err != nil {
					c.Violation("Send: %v", err)
				}
				check(fs)
			}
			return
		}
		go func() {
			for i, fs := range sent {
				l.Send(i%2 == 0, fs)
			}
		}()
		for _, fs := range sent {
			check(fs)
		}
	})
}
