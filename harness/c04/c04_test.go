// Package c04: a handshake succeeds exactly for compatible peers and exchanges
// identities.
package c04

import (
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/security/null"
	"github.com/luxfi/zmq/v4/security/plain"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

// pairs is the table of RFC 23 (and 28 for PAIR, 29, 30).
var pairs = map[string][]string{
	"PAIR":   {"PAIR"},
	"PUB":    {"SUB", "XSUB"},
	"XPUB":   {"SUB", "XSUB"},
	"SUB":    {"PUB", "XPUB"},
	"XSUB":   {"PUB", "XPUB"},
	"REQ":    {"REP", "ROUTER"},
	"REP":    {"REQ", "DEALER"},
	"DEALER": {"REP", "DEALER", "ROUTER"},
	"ROUTER": {"REQ", "DEALER", "ROUTER"},
	"PUSH":   {"PULL"},
	"PULL":   {"PUSH"},
}

func allowed(a, b string) bool {
	for _, t := range pairs[a] {
		if t == b {
			return true
		}
	}
	return false
}

// named is the NULL handshake under another name.
type named struct {
	zmq4.Security
	name string
}

func (n named) Type() zmq4.SecurityType { return zmq4.SecurityType(n.name) }

func peerType(c *vlib.C, typ string) string {
	switch rapid.IntRange(0, 9).Draw(c.T, "peer type") {
	case 0:
		return rapid.SampledFrom([]string{"", "XYZ", "STREAM", "SERVER", "CLIENT", "RADIO", "dealer", "PAIR ", "PU", "PUBX", "\x00", "REQ\x00"}).Draw(c.T, "odd type")
	case 1, 2, 3, 4:
		return rapid.SampledFrom(pairs[typ]).Draw(c.T, "compatible type")
	}
	return string(rapid.SampledFrom(vlib.Types).Draw(c.T, "type"))
}

func identity(c *vlib.C) []byte {
	switch rapid.IntRange(0, 5).Draw(c.T, "identity") {
	case 0:
		return nil
	case 1:
		return vlib.Fill(rapid.SampledFrom([]int{1, 127, 128, 254, 255}).Draw(c.T, "length"), rapid.Uint64().Draw(c.T, "fill"))
	case 2:
		return []byte(rapid.SampledFrom([]string{"\x00", "\x00abc", "id", "Socket-Type", "é€", "\xff\xfe"}).Draw(c.T, "id"))
	}
	return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(c.T, "bytes")
}

type offer struct {
	mech         string
	major, minor byte
	server       byte
	typ          string
	id           []byte
	extra        []string
}

func (o offer) String() string {
	return fmt.Sprintf("%s %d.%d server=%d %q id=%x extra=%q", o.mech, o.major, o.minor, o.server, o.typ, o.id, o.extra)
}

func drawOffer(c *vlib.C, mech, typ string) offer {
	o := offer{mech: mech, major: 3, typ: peerType(c, typ), id: identity(c)}
	switch rapid.IntRange(0, 5).Draw(c.T, "version") {
	case 0:
		o.major = rapid.SampledFrom([]byte{0, 1, 2, 2, 3, 4, 255}).Draw(c.T, "major")
		o.minor = rapid.SampledFrom([]byte{0, 1, 9, 255}).Draw(c.T, "minor")
	case 1:
		o.minor = 1
	}
	if rapid.IntRange(0, 4).Draw(c.T, "other mechanism") == 0 {
		o.mech = rapid.SampledFrom([]string{"NULL", "PLAIN", "CURVE", "GSSAPI", "", "NUL", "NULLX", "null", "ABCDEFGHIJKLMNOPQRST"}).Draw(c.T, "mechanism")
	}
	o.server = byte(rapid.IntRange(0, 1).Draw(c.T, "server"))
	for rapid.IntRange(0, 2).Draw(c.T, "more metadata") == 0 {
		o.extra = append(o.extra, fmt.Sprintf("X-Key%d", len(o.extra)), string(c.Frame(300)))
	}
	return o
}

// good is the oracle.
func (o offer) good(mech, typ string) bool {
	return o.mech == mech && o.major >= 3 && allowed(typ, o.typ)
}

func (o offer) metadata(c *vlib.C) []byte {
	kv := []string{"Socket-Type", o.typ, "Identity", string(o.id)}
	switch rapid.IntRange(0, 3).Draw(c.T, "order") {
	case 0:
		kv = []string{"Identity", string(o.id), "Socket-Type", o.typ}
	case 1:
		if len(o.id) == 0 {
			kv = kv[:2]
		}
	}
	return vlib.MetaBytes(append(kv, o.extra...)...)
}

// run plays the peer's part over p; it returns when it is through or the
// other side hung up.
func (o offer) run(c *vlib.C, p *vlib.Peer, meta []byte, listens bool) error {
	p.SetDeadline(time.Now().Add(vlib.Long))
	defer p.SetDeadline(time.Time{})
	if _, err := p.Write(vlib.Greeting(o.mech, o.server, o.major, o.minor)); err != nil {
		return err
	}
	p.Gr = make([]byte, 64)
	if _, err := io.ReadFull(p.R, p.Gr); err != nil {
		return err
	}
	cmd := func(name string, body []byte) error {
		_, err := p.Write(vlib.Command(name, body))
		return err
	}
	next := func(want string) ([]byte, error) {
		fl, body, err := p.ReadFrame()
		if err != nil {
			return nil, err
		}
		name, rest, err := vlib.SplitCmd(body)
		if fl != vlib.CmdFlag || err != nil || name != want {
			return nil, fmt.Errorf("got %d %q instead of %s", fl, body, want)
		}
		return rest, nil
	}
	var rest []byte
	var err error
	switch {
	case o.mech != "PLAIN":
		if err = cmd("READY", meta); err != nil {
			return err
		}
		rest, err = next("READY")
	case listens: // the real one is the server
		if err = cmd("HELLO", []byte("\x01u\x01p")); err != nil {
			return err
		}
		if _, err = next("WELCOME"); err != nil {
			return err
		}
		if err = cmd("INITIATE", meta); err != nil {
			return err
		}
		rest, err = next("READY")
	default:
		if _, err = next("HELLO"); err != nil {
			return err
		}
		if err = cmd("WELCOME", nil); err != nil {
			return err
		}
		if rest, err = next("INITIATE"); err != nil {
			return err
		}
		err = cmd("READY", meta)
	}
	if err != nil {
		return err
	}
	p.Meta, err = vlib.ParseMeta(rest)
	return err
}

func mechanism(c *vlib.C) (string, zmq4.Security) {
	switch rapid.IntRange(0, 5).Draw(c.T, "own mechanism") {
	case 0:
		return "PLAIN", plain.Security("u", "p")
	case 1:
		return "MYOWN", named{null.Security(), "MYOWN"}
	case 2:
		return "ABCDEFGHIJKLMNOPQRST", named{null.Security(), "ABCDEFGHIJKLMNOPQRST"}
	}
	return "NULL", null.Security()
}

// TestSocket has sockets of all types meet peers of all kinds.
func TestSocket(t *testing.T) {
	vlib.Run(t, 8000, 150000, "a socket of any type, identity and mechanism, listening or dialing, meets a raw peer with a drawn version, mechanism, server flag, socket type (known, unknown, empty), identity of 0-255 bytes and further metadata; a table of the RFC tells whether they are compatible: then messages must pass, otherwise the peer must be hung up on, Dial fail, and no message be delivered; non-trivial: not simply the same mechanism with version 3.0 and a compatible type", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		listens := rapid.Bool().Draw(c.T, "listens")
		mech, sec := mechanism(c)
		own := identity(c)
		o := drawOffer(c, mech, string(typ))
		good := o.good(mech, string(typ))
		c.D("%s %s listens=%v id=%x meets %v: %v", typ, mech, listens, own, o, good)
		c.Class("good: %v", good)
		if o.mech != mech || o.major != 3 || o.minor != 0 || !allowed(string(typ), o.typ) || len(o.extra) > 0 || o.server != 0 || len(o.id) > 100 {
			c.Nontrivial()
		}
		opts := []zmq4.Option{quiet, zmq4.WithSecurity(sec), zmq4.WithTimeout(5 * time.Second), zmq4.WithAutomaticReconnect(false), zmq4.WithDialerMaxRetries(0)}
		if len(own) > 0 {
			opts = append(opts, zmq4.WithID(zmq4.SocketIdentity(own)))
		}
		s := c.New(typ, opts...)
		var p *vlib.Peer
		dialed := make(chan error, 1)
		name := vlib.MemName(c.Chunks(), 0)
		if listens {
			if err := s.Listen("vmem://" + name); err != nil {
				c.Violation("listen: %v", err)
			}
			p = c.DialRaw("vmem://" + name)
		} else {
			l, err := vlib.MemListen(name)
			if err != nil {
				panic(err)
			}
			defer l.Close()
			go func() { dialed <- s.Dial("vmem://" + name) }()
			conn, err := l.Accept()
			if err != nil {
				panic(err)
			}
			p = vlib.NewPeer(conn)
			c.Cleanup(func() { p.Close() })
		}
		err := o.run(c, p, o.metadata(c), listens)
		if good {
			if err != nil {
				c.Violation("the handshake fails: %v", err)
			}
			if !listens {
				select {
				case err = <-dialed:
				case <-time.After(vlib.Long):
					err = errors.New("hangs")
				}
				if err != nil {
					c.Violation("Dial to a compatible peer: %v", err)
				}
			}
			if p.Meta["socket-type"] != string(typ) {
				c.Violation("a %s says it is a %q", typ, p.Meta["socket-type"])
			}
			if len(own) > 0 && p.Meta["identity"] != string(own) {
				c.Violation("identity %x was sent as %x", own, p.Meta["identity"])
			}
			if string(vlib.Partner(typ)) == o.typ && (typ != zmq4.Router || len(o.id) > 0) {
				c.Serves(s, p, string(o.id))
			}
			return
		}
		if err == nil {
			// what the peer sends now must not get anywhere
			p.WriteMsg([]byte{1})
			p.WriteMsg([]byte{}, []byte("not"), []byte("to be delivered"))
		}
		if !listens {
			select {
			case err = <-dialed:
			case <-time.After(vlib.Long):
				c.Violation("Dial to an incompatible peer hangs")
			}
			if err == nil {
				c.Violation("Dial to an incompatible peer succeeds")
			}
		}
		// it hangs up
		p.SetDeadline(time.Now().Add(vlib.Long))
		rest, err := io.ReadAll(p.R)
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			c.Violation("a %s keeps the connection of an incompatible peer", typ)
		}
		if len(rest) > 0 {
			if items, _, _ := vlib.Parse(rest); len(items) > 0 && !items[0].Cmd {
				c.Violation("a %s sends %q to an incompatible peer", typ, rest)
			}
		}
		if listens && mech == "NULL" && (typ == zmq4.Pull || typ == zmq4.Sub || typ == zmq4.Router || typ == zmq4.Rep || typ == zmq4.Dealer) {
			// a compatible one is served; the other's message is not before that
			id := vlib.Unique("good")
			q := c.Join(s, "vmem://"+name, id)
			if err := q.WriteMsg([]byte{}, []byte("good")); err != nil {
				c.Violation("a compatible peer is cut off: %v", err)
			}
			m := c.Recv(s)
			if string(m[len(m)-1]) != "good" {
				c.Violation("%s delivers %q of an incompatible peer", typ, m)
			}
		}
	})
}

// TestOpen opens both ends of a connection.
func TestOpen(t *testing.T) {
	vlib.Run(t, 8000, 150000, "two connections with drawn types, identities (0-255 bytes), mechanisms and application metadata are opened over a pipe cut into drawn pieces, or one with a raw peer: both must succeed exactly if the table says so, and then know the other's type, identity, server flag and metadata; non-trivial: the mechanisms or types differ, or an identity is not printable", func(c *vlib.C) {
		ch := c.Chunks()
		a, b := vlib.MemPipe(ch, 0)
		defer a.Close()
		defer b.Close()
		mechs, secs := make([]string, 2), make([]zmq4.Security, 2)
		types, ids := make([]string, 2), make([][]byte, 2)
		types[0] = string(rapid.SampledFrom(vlib.Types).Draw(c.T, "type"))
		ids[0], ids[1] = identity(c), identity(c)
		mechs[0], secs[0] = mechanism(c)
		if rapid.IntRange(0, 3).Draw(c.T, "raw") == 0 {
			server := rapid.Bool().Draw(c.T, "server")
			o := drawOffer(c, mechs[0], types[0])
			good := o.good(mechs[0], types[0])
			c.D("%s %s server=%v opens with %v: %v", types[0], mechs[0], server, o, good)
			c.Class("raw")
			c.Nontrivial()
			meta := o.metadata(c)
			go func() {
				if o.run(c, vlib.NewPeer(a), meta, server) != nil {
					a.Close()
				}
			}()
			var conn *zmq4.Conn
			var err error
			c.Within("Open", func() {
				conn, err = zmq4.Open(b, secs[0], zmq4.SocketType(types[0]), zmq4.SocketIdentity(ids[0]), server, nil)
			})
			if good != (err == nil) {
				c.Violation("Open: %v", err)
			}
			if err != nil {
				return
			}
			if got := conn.Peer.Meta["Identity"]; got != string(o.id) {
				c.Violation("identity %x sent, %x received", o.id, got)
			}
			if got := conn.Peer.Meta["Socket-Type"]; got != o.typ {
				c.Violation("type %q sent, %q received", o.typ, got)
			}
			if conn.Peer.Server != (o.server == 1) {
				c.Violation("server flag %d sent, %v received", o.server, conn.Peer.Server)
			}
			for i := 0; i < len(o.extra); i += 2 {
				if got := conn.Peer.Meta[o.extra[i]]; got != o.extra[i+1] {
					c.Violation("property %q: %q sent, %q received", o.extra[i], o.extra[i+1], got)
				}
			}
			return
		}
		types[1] = peerType(c, types[0])
		if types[1] == "STREAM" {
			types[1] = "STREAMS" // does not speak ZMTP
		}
		mechs[1], secs[1] = mechs[0], secs[0]
		if rapid.IntRange(0, 3).Draw(c.T, "mechanisms") == 0 {
			mechs[1], secs[1] = mechanism(c)
		}
		good := mechs[0] == mechs[1] && allowed(types[0], types[1])
		c.D("%s %q id=%x and %s %q id=%x: %v", mechs[0], types[0], ids[0], mechs[1], types[1], ids[1], good)
		c.Class("good: %v", good)
		if mechs[0] != mechs[1] || types[0] != types[1] {
			c.Nontrivial()
		}
		conns := make([]*zmq4.Conn, 2)
		errs := make([]error, 2)
		done := make(chan int, 2)
		for i, rw := range []net.Conn{a, b} {
			go func() {
				conns[i], errs[i] = zmq4.Open(rw, secs[i], zmq4.SocketType(types[i]), zmq4.SocketIdentity(ids[i]), i == 1, nil)
				done <- i
			}()
		}
		c.Within("Open", func() { <-done; <-done })
		for i := range conns {
			if good != (errs[i] == nil) {
				c.Violation("side %d: %v", i, errs[i])
			}
			if good != (conns[i] != nil) {
				c.Violation("side %d: connection %v", i, conns[i])
			}
		}
		if !good {
			return
		}
		for i := range conns {
			m := conns[i].Peer.Meta
			if m["Socket-Type"] != types[1-i] || m["Identity"] != string(ids[1-i]) {
				c.Violation("side %d got %q, the other is %q with identity %q", i, m, types[1-i], ids[1-i])
			}
			if conns[i].Peer.Server {
				c.Violation("side %d got a server flag that was not sent", i)
			}
		}
	})
}
