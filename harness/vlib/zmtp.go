package vlib

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/luxfi/zmq/v4/internal/inproc"
)

// An independent implementation of ZMTP 3.0 framing (rfc 23).

const (
	More     = 1
	LongFlag = 2
	CmdFlag  = 4
)

// Greeting encodes a greeting.
func Greeting(mech string, server byte, major, minor byte) []byte {
	b := make([]byte, 64)
	b[0], b[9] = 0xff, 0x7f
	b[10], b[11] = major, minor
	copy(b[12:32], mech)
	b[32] = server
	return b
}

// Frame encodes a frame; flags are MORE and COMMAND.
func Frame(flags byte, body []byte) []byte {
	if len(body) > 255 {
		return FrameLong(flags, body)
	}
	return append([]byte{flags, byte(len(body))}, body...)
}

// FrameLong encodes a frame with a 64-bit length.
func FrameLong(flags byte, body []byte) []byte {
	b := make([]byte, 9, 9+len(body))
	b[0] = flags | LongFlag
	binary.BigEndian.PutUint64(b[1:], uint64(len(body)))
	return append(b, body...)
}

// EncodeMsg encodes a message.
func EncodeMsg(frames ...[]byte) []byte {
	var b []byte
	for i, f := range frames {
		var fl byte
		if i < len(frames)-1 {
			fl = More
		}
		b = append(b, Frame(fl, f)...)
	}
	return b
}

// CmdBody encodes the body of a command frame.
func CmdBody(name string, body []byte) []byte {
	b := append([]byte{byte(len(name))}, name...)
	return append(b, body...)
}

// Command encodes a command.
func Command(name string, body []byte) []byte {
	return Frame(CmdFlag, CmdBody(name, body))
}

// MetaBytes encodes properties, given as name, value, name, value...
func MetaBytes(kv ...string) []byte {
	var b []byte
	for i := 0; i+1 < len(kv); i += 2 {
		b = append(b, byte(len(kv[i])))
		b = append(b, kv[i]...)
		b = binary.BigEndian.AppendUint32(b, uint32(len(kv[i+1])))
		b = append(b, kv[i+1]...)
	}
	return b
}

// ParseMeta decodes properties. The names come out in lower case.
func ParseMeta(p []byte) (map[string]string, error) {
	m := map[string]string{}
	for len(p) > 0 {
		n := int(p[0])
		if n == 0 || len(p) < 1+n+4 {
			return nil, errors.New("bad property name")
		}
		k := strings.ToLower(string(p[1 : 1+n]))
		p = p[1+n:]
		v := binary.BigEndian.Uint32(p)
		p = p[4:]
		if uint64(v) > uint64(len(p)) {
			return nil, errors.New("bad property value")
		}
		if _, dup := m[k]; dup {
			return nil, errors.New("duplicate property")
		}
		m[k] = string(p[:v])
		p = p[v:]
	}
	return m, nil
}

// Item is a message or command of a stream.
type Item struct {
	Cmd    bool
	Inner  bool // a command between the frames of the next item, a message
	Frames [][]byte
}

// Parse decodes a stream strictly. It returns the complete items, and the rest:
// an incomplete item, or with an error, one that is not well-formed.
func Parse(b []byte) (items []Item, rest []byte, err error) { return parse(b, false) }

// ParseLax accepts commands between the frames of a message, as libzmq sends
// them.
func ParseLax(b []byte) (items []Item, rest []byte, err error) { return parse(b, true) }

func parse(b []byte, lax bool) (items []Item, rest []byte, err error) {
	for {
		start := b
		var it Item
		var inner []Item
		for {
			if len(b) < 2 {
				return items, start, nil
			}
			fl := b[0]
			if fl&^7 != 0 {
				return items, start, fmt.Errorf("reserved flag bits %#x", fl)
			}
			var n uint64
			if fl&LongFlag != 0 {
				if len(b) < 9 {
					return items, start, nil
				}
				n = binary.BigEndian.Uint64(b[1:9])
				b = b[9:]
			} else {
				n = uint64(b[1])
				b = b[2:]
			}
			if n > 1<<62 {
				return items, start, errors.New("oversized frame")
			}
			if lax && fl&(CmdFlag|More) == CmdFlag && len(it.Frames) > 0 {
				if uint64(len(b)) < n {
					return items, start, nil
				}
				inner = append(inner, Item{Cmd: true, Inner: true, Frames: [][]byte{b[:n:n]}})
				b = b[n:]
				continue
			}
			if fl&CmdFlag != 0 {
				if fl&More != 0 || len(it.Frames) > 0 {
					return items, start, errors.New("command in several frames")
				}
				it.Cmd = true
			}
			if uint64(len(b)) < n {
				return items, start, nil
			}
			it.Frames = append(it.Frames, b[:n:n])
			b = b[n:]
			if fl&More == 0 {
				break
			}
		}
		items = append(append(items, inner...), it)
	}
}

// SplitCmd splits the body of a command frame.
func SplitCmd(b []byte) (name string, body []byte, err error) {
	if len(b) == 0 || int(b[0]) > len(b)-1 {
		return "", nil, errors.New("bad command")
	}
	return string(b[1 : 1+b[0]]), b[1+b[0]:], nil
}

// Peer is a raw ZMTP peer.
type Peer struct {
	net.Conn
	R    *bufio.Reader
	Meta map[string]string // what the other side sent
	Gr   []byte            // its greeting
	Cmds []Item            // commands skipped by ReadMsg
}

// NewPeer wraps a connection.
func NewPeer(c net.Conn) *Peer { return &Peer{Conn: c, R: bufio.NewReader(c)} }

// DialRaw connects to an endpoint as a ZMTP peer would, without handshake.
func (c *C) DialRaw(ep string) *Peer {
	p, err := DialPeer(ep)
	if err != nil {
		c.Violation("could not connect to %s: %v", ep, err)
	}
	c.Cleanup(func() { p.Close() })
	return p
}

// DialPeer connects to an endpoint.
func DialPeer(ep string) (*Peer, error) {
	var conn net.Conn
	var err error
	switch {
	case strings.HasPrefix(ep, "tcp://"):
		conn, err = net.DialTimeout("tcp", ep[6:], Long)
	case strings.HasPrefix(ep, "ipc://"):
		conn, err = net.DialTimeout("unix", ep[6:], Long)
	case strings.HasPrefix(ep, "inproc://"):
		conn, err = inproc.Dial(ep[9:])
	case strings.HasPrefix(ep, "vmem://"):
		conn, err = memNet.dial(ep[7:])
	default:
		err = fmt.Errorf("no raw peers for %q", ep)
	}
	if err != nil {
		return nil, err
	}
	return NewPeer(conn), nil
}

// Handshake performs a NULL handshake as the given socket type.
func (p *Peer) Handshake(typ, id string) error { return p.HandshakeAs(typ, id, "NULL") }

// HandshakeAs performs a NULL handshake under another mechanism's name.
func (p *Peer) HandshakeAs(typ, id, mechanism string) error {
	p.SetDeadline(time.Now().Add(Long))
	defer p.SetDeadline(time.Time{})
	if _, err := p.Write(Greeting(mechanism, 0, 3, 0)); err != nil {
		return err
	}
	p.Gr = make([]byte, 64)
	if _, err := io.ReadFull(p.R, p.Gr); err != nil {
		return err
	}
	meta := MetaBytes("Socket-Type", typ, "Identity", id)
	if _, err := p.Write(Command("READY", meta)); err != nil {
		return err
	}
	fl, body, err := p.ReadFrame()
	if err != nil {
		return err
	}
	if fl&CmdFlag == 0 {
		return errors.New("not a command")
	}
	name, rest, err := SplitCmd(body)
	if err != nil || name != "READY" {
		return fmt.Errorf("got %q instead of READY (%v)", name, err)
	}
	p.Meta, err = ParseMeta(rest)
	return err
}

// ReadFrame reads a frame.
func (p *Peer) ReadFrame() (flags byte, body []byte, err error) {
	var h [9]byte
	if _, err = io.ReadFull(p.R, h[:2]); err != nil {
		return
	}
	flags = h[0]
	if flags&^7 != 0 {
		return flags, nil, fmt.Errorf("malformed: reserved flag bits %#x", flags)
	}
	n := uint64(h[1])
	if flags&LongFlag != 0 {
		if _, err = io.ReadFull(p.R, h[2:]); err != nil {
			return
		}
		n = binary.BigEndian.Uint64(h[1:])
	}
	if n > 1<<30 {
		return flags, nil, fmt.Errorf("malformed: frame of %d bytes", n)
	}
	body = make([]byte, n)
	_, err = io.ReadFull(p.R, body)
	return flags &^ LongFlag, body, err
}

// ReadMsg reads the next message; commands before it go to p.Cmds.
func (p *Peer) ReadMsg() ([][]byte, error) {
	var frames [][]byte
	for {
		fl, body, err := p.ReadFrame()
		if err != nil {
			return nil, err
		}
		if fl&CmdFlag != 0 {
			if fl&More != 0 || len(frames) > 0 {
				return nil, errors.New("malformed: command inside a message")
			}
			p.Cmds = append(p.Cmds, Item{Cmd: true, Frames: [][]byte{body}})
			continue
		}
		frames = append(frames, body)
		if fl&More == 0 {
			return frames, nil
		}
	}
}

// ReadMsgT is ReadMsg with a time limit.
func (p *Peer) ReadMsgT(d time.Duration) ([][]byte, error) {
	p.SetReadDeadline(time.Now().Add(d))
	defer p.SetReadDeadline(time.Time{})
	return p.ReadMsg()
}

// WriteMsg writes a message.
func (p *Peer) WriteMsg(frames ...[]byte) error {
	_, err := p.Write(EncodeMsg(frames...))
	return err
}
