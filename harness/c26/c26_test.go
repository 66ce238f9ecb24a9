package c26

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var (
	hosts = []string{"", "*", "127.0.0.1", "localhost", "[::1]", "::1", "0.0.0.0", "[::]", "example.org", "[fe80::1%lo]", "10.0.0.1", "**", "*.*", " ", "[", "]", "[]", "a]b", "[*]"}
	ports = []string{"", "0", "*", "1", "80", "5555", "65535", "00", "http", "**", "a:b", "-1", " 0", "99999", "*0"}
)

func hostport(c *vlib.C) string {
	s := rapid.SampledFrom(hosts).Draw(c.T, "host")
	sep := ":"
	if rapid.IntRange(0, 9).Draw(c.T, "sep") == 0 {
		sep = rapid.SampledFrom([]string{"", "::", ";", ":/", "/"}).Draw(c.T, "separator")
	}
	return mutate(c, s+sep+rapid.SampledFrom(ports).Draw(c.T, "port"))
}

func mutate(c *vlib.C, s string) string {
	for rapid.IntRange(0, 3).Draw(c.T, "mutate") == 0 {
		i := rapid.IntRange(0, len(s)).Draw(c.T, "at")
		switch rapid.IntRange(0, 2).Draw(c.T, "mutation") {
		case 0:
			s = s[:i] + rapid.SampledFrom([]string{":", "/", "[", "]", "*", "0", " ", "\x00", "é", "://"}).Draw(c.T, "insert") + s[i:]
		case 1:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		default:
			s = s[i:] + s[:i]
		}
	}
	return s
}

// refAddr is what an address means to a transport over net.
func refAddr(prot, ep string) (string, bool) {
	switch prot {
	case "unix":
		return ep, true
	case "tcp", "udp":
		h, p, err := net.SplitHostPort(ep)
		if err != nil {
			return "", false
		}
		if h == "" || h == "*" {
			h = "0.0.0.0"
		}
		if p == "" || p == "*" || p == "0" {
			p = "0"
		}
		if strings.Contains(h, ":") {
			h = "[" + h + "]"
		}
		return h + ":" + p, true
	}
	return "", false
}

// TestAddr checks the pure part.
func TestAddr(t *testing.T) {
	vlib.Run(t, 30000, 500000, "addresses put together of 19 hosts and 15 ports with up to several mutations, or arbitrary strings, under tcp, udp, unix and other protocol names, against a reference; non-trivial: refused, or a wildcard", func(c *vlib.C) {
		prot := rapid.SampledFrom([]string{"tcp", "tcp", "tcp", "udp", "unix", "tcp4", "", "TCP", "x"}).Draw(c.T, "protocol")
		var ep string
		if rapid.IntRange(0, 9).Draw(c.T, "any") == 0 {
			ep = rapid.String().Draw(c.T, "ep")
		} else {
			ep = hostport(c)
		}
		c.D("%s %q", prot, ep)
		want, ok := refAddr(prot, ep)
		got, err := transport.New(prot).Addr(ep)
		c.Class("%s accepted=%v", prot, ok)
		if ok != (err == nil) {
			c.Violation("Addr(%q) of %q: %q, %v; it should be accepted: %v (%q)", ep, prot, got, err, ok, want)
		}
		if ok && got != want {
			c.Violation("Addr(%q) of %q is %q, not %q", ep, prot, got, want)
		}
		if !ok || got != ep {
			c.Nontrivial()
		}
	})
}

// bad draws an endpoint that must be refused, whoever uses it.
func bad(c *vlib.C) string {
	switch rapid.IntRange(0, 7).Draw(c.T, "bad") {
	case 0:
		return rapid.SampledFrom([]string{"", ":", "//", "://", "tcp", "tcp:", "tcp:/", "tcp:/127.0.0.1:0", "tcp//127.0.0.1:0", "127.0.0.1:0", "tcp:127.0.0.1:0", "ipc", "inproc:x", "inproc:/x"}).Draw(c.T, "fragment")
	case 1: // no such transport
		return rapid.SampledFrom([]string{"", "TCP", "tcp ", " tcp", "tcp4", "http", "ws", "unix", "pgm", "tcpx", "inproc:", "x\x00", "*"}).Draw(c.T, "name") + "://" + rapid.SampledFrom([]string{"127.0.0.1:0", "", "x"}).Draw(c.T, "address")
	case 2: // no such address
		return "tcp://" + rapid.SampledFrom([]string{"", "127.0.0.1", "localhost", "*", "[::1]", "127.0.0.1:80:90", "::1:80", "[::1:80", "::1]:80", "[127.0.0.1:0", "a[b:1", "a]b:1"}).Draw(c.T, "address")
	case 3: // no such port
		return "tcp://127.0.0.1:" + rapid.SampledFrom([]string{"-1", "65536", "99999", "nosuchservice", "**", "4294967296", "18446744073709551616", "0x50"}).Draw(c.T, "port")
	case 4: // two separators
		return rapid.SampledFrom([]string{"tcp://127.0.0.1:0://x", "tcp://tcp://127.0.0.1:0", "inproc://a://b", "ipc://a://b", "://://", "tcp://127.0.0.1:0://"}).Draw(c.T, "double")
	case 5:
		return "ipc://" + c.Dir() + "/no/such/directory/s"
	case 6: // longer than a unix socket's name can be
		return "ipc://" + c.Dir() + "/" + strings.Repeat("x", rapid.IntRange(110, 300).Draw(c.T, "length"))
	default:
		s := rapid.StringOfN(rapid.SampledFrom([]rune("tcpipnro:/*.x0 ")), 0, 20, -1).Draw(c.T, "string")
		if strings.Count(s, "://") == 1 {
			s = strings.Replace(s, "://", ":/", 1)
			if strings.Contains(s, "://") {
				return "nothing"
			}
		}
		return s
	}
}

// TestEndpoints has a socket refuse endpoints and then use a good one.
func TestEndpoints(t *testing.T) {
	vlib.Run(t, 2500, 60000, "a socket of any type is given 0-6 endpoints that cannot be right (fragments, unknown transports, bad hosts, ports, double separators, occupied addresses), to listen on or to dial, then listens on a good one (wildcard, empty or concrete host and port; ipc; inproc) and serves a peer at the address it reports; non-trivial: at least two refused endpoints", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		s := c.New(typ, zmq4.WithDialerMaxRetries(0), zmq4.WithDialerRetry(time.Millisecond))
		n := rapid.IntRange(0, 6).Draw(c.T, "refused")
		for i := 0; i < n; i++ {
			ep := bad(c)
			listen := rapid.Bool().Draw(c.T, "listen")
			switch rapid.IntRange(0, 9).Draw(c.T, "taken") {
			case 0, 1: // occupied
				if listen {
					other := c.New(zmq4.Rep)
					kind := rapid.SampledFrom([]string{"tcp", "ipc", "inproc"}).Draw(c.T, "occupied")
					ep = c.Listen(other, kind)
				}
			case 2: // nobody there
				if !listen {
					switch rapid.IntRange(0, 2).Draw(c.T, "absent") {
					case 0:
						ep = fmt.Sprint("tcp://127.0.0.1:", vlib.FreePort())
					case 1:
						ep = "ipc://" + c.Dir() + "/" + vlib.Unique("none")
					default:
						ep = "inproc://" + vlib.Unique("none")
					}
				}
			case 3:
				if listen {
					ep = "udp://127.0.0.1:0"
				}
			}
			if i > 0 {
				c.Nontrivial()
			}
			c.D("%v %q", listen, ep)
			var err error
			if listen {
				c.Within("Listen", func() { err = s.Listen(ep) })
			} else {
				c.Within("Dial", func() { err = s.Dial(ep) })
			}
			if err == nil {
				c.Violation("%s accepted %q (listening: %v)", typ, ep, listen)
			}
			if a := s.Addr(); a != nil {
				c.Violation("%s has the address %v after refusing %q", typ, a, ep)
			}
		}
		kind := rapid.SampledFrom([]string{"tcp", "tcp", "tcp", "ipc", "inproc"}).Draw(c.T, "good")
		var ep string
		host := ""
		port := ""
		switch kind {
		case "tcp":
			host = rapid.SampledFrom([]string{"", "*", "127.0.0.1", "0.0.0.0", "localhost"}).Draw(c.T, "host")
			port = rapid.SampledFrom([]string{"", "*", "0", "fixed"}).Draw(c.T, "port")
			if port == "fixed" {
				port = strconv.Itoa(vlib.FreePort())
			}
			ep = "tcp://" + host + ":" + port
		case "ipc":
			ep = "ipc://" + c.Dir() + "/" + vlib.Unique("s")
		default:
			ep = "inproc://" + vlib.Unique("c26")
		}
		c.D("good %q", ep)
		c.Class("%s %s", kind, typ)
		var err error
		c.Within("Listen", func() { err = s.Listen(ep) })
		if err != nil {
			c.Violation("%s refused %q: %v", typ, ep, err)
		}
		a := s.Addr()
		if a == nil {
			c.Violation("%s has no address while listening on %q", typ, ep)
		}
		dial := ep
		if kind == "tcp" {
			ta, ok := a.(*net.TCPAddr)
			if !ok || ta.Port == 0 {
				c.Violation("listening on %q, the address is %v", ep, a)
			}
			if p, err := strconv.Atoi(port); err == nil && p != 0 && ta.Port != p {
				c.Violation("listening on %q, the port is %d", ep, ta.Port)
			}
			switch host {
			case "", "*", "0.0.0.0":
				if !ta.IP.IsUnspecified() {
					c.Violation("listening on %q, the address is %v", ep, a)
				}
				other, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.2:%d", ta.Port), vlib.Long)
				if err != nil {
					c.Violation("listening on %q, another local address is not reachable: %v", ep, err)
				}
				other.Close()
			default:
				if !ta.IP.IsLoopback() {
					c.Violation("listening on %q, the address is %v", ep, a)
				}
			}
			dial = fmt.Sprintf("tcp://127.0.0.1:%d", ta.Port)
		}
		if kind == "inproc" {
			peer := c.New(vlib.Partner(typ))
			c.Dial(peer, dial)
			return
		}
		c.Alive(s, dial)
	})
}

// wrapper is a transport that records what it is asked for.
type wrapper struct {
	name string
	mu   sync.Mutex
	log  []string
	bad  string
}

func (w *wrapper) note(op, addr string) {
	w.mu.Lock()
	w.log = append(w.log, op+" "+addr)
	w.mu.Unlock()
}

func (w *wrapper) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	return l
}

var errRefused = errors.New("refused here")

func (w *wrapper) Dial(ctx context.Context, d transport.Dialer, addr string) (net.Conn, error) {
	w.note("dial", addr)
	return nil, errRefused
}

func (w *wrapper) Listen(ctx context.Context, addr string) (net.Listener, error) {
	w.note("listen", addr)
	return nil, errRefused
}

func (w *wrapper) Addr(ep string) (string, error) {
	if strings.Contains(ep, "bad") {
		return "", errRefused
	}
	return "<" + ep + ">", nil
}

var model = map[string]*wrapper{"tcp": nil, "ipc": nil, "udp": nil, "inproc": nil, "vmem": nil}

// TestRegistry registers transports and looks at what the sockets make of them.
func TestRegistry(t *testing.T) {
	vlib.Run(t, 800, 2500, "1-8 registrations of new or taken names; the list of transports and the transport a drawn endpoint reaches, with which address, against a map; non-trivial: a taken name was refused and its first transport goes on being used", func(c *vlib.C) {
		var mine []string
		refused := false
		for n := rapid.IntRange(1, 8).Draw(c.T, "registrations"); n > 0; n-- {
			var name string
			if len(mine) > 0 && rapid.IntRange(0, 2).Draw(c.T, "again") == 0 {
				name = rapid.SampledFrom(append(mine, "tcp", "ipc", "inproc", "udp")).Draw(c.T, "taken")
			} else {
				name = rapid.SampledFrom([]string{"", "a", "Z", "tcp", "-", "é"}).Draw(c.T, "prefix") + vlib.Unique("t")
			}
			w := &wrapper{name: name}
			err := zmq4.RegisterTransport(name, w)
			_, dup := model[name]
			c.D("register %q dup=%v", name, dup)
			if dup != (err != nil) {
				c.Violation("RegisterTransport(%q): %v, registered before: %v", name, err, dup)
			}
			if dup {
				refused = true
			} else {
				model[name] = w
				mine = append(mine, name)
			}
			var want []string
			for k := range model {
				want = append(want, k)
			}
			sort.Strings(want)
			got := zmq4.Transports()
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				c.Violation("Transports() is %s, should be %s", vlib.Clip(got), vlib.Clip(want))
			}
			// the caller's list is its own
			for i := range got {
				got[i] = "x"
			}
		}
		if len(mine) == 0 {
			return
		}
		s := c.New(rapid.SampledFrom(vlib.Types).Draw(c.T, "type"), zmq4.WithDialerMaxRetries(0))
		for n := rapid.IntRange(1, 5).Draw(c.T, "uses"); n > 0; n-- {
			name := rapid.SampledFrom(mine).Draw(c.T, "name")
			addr := rapid.SampledFrom([]string{"", "x", "*:*", "a:b/c", "bad", " ", "//", ":", "/x:"}).Draw(c.T, "address")
			ep := name + "://" + addr
			var err error
			op := "listen"
			if rapid.Bool().Draw(c.T, "dial") {
				op = "dial"
				c.Within("Dial", func() { err = s.Dial(ep) })
			} else {
				c.Within("Listen", func() { err = s.Listen(ep) })
			}
			c.D("%s %q", op, ep)
			if err == nil {
				c.Violation("%s %q succeeded though the transport failed", op, ep)
			}
			if s.Addr() != nil {
				c.Violation("the socket has an address though listening failed")
			}
			want := op + " <" + addr + ">"
			if strings.Contains(addr, "bad") || strings.Contains(addr, "://") {
				want = ""
			}
			if got := strings.Join(model[name].take(), ","); got != want {
				c.Violation("%s %q reached its transport as %q, should be %q", op, ep, got, want)
			}
			for k, w := range model {
				if w != nil && k != name && len(w.take()) > 0 {
					c.Violation("%s %q reached transport %q", op, ep, k)
				}
			}
		}
		if refused {
			c.Nontrivial()
		}
	})
}
