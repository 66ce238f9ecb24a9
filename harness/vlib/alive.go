package vlib

import (
	"bytes"
	"fmt"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
)

// Partner returns a socket type that typ exchanges messages with.
func Partner(typ zmq4.SocketType) zmq4.SocketType {
	switch typ {
	case zmq4.Pub, zmq4.XPub:
		return zmq4.Sub
	case zmq4.Sub, zmq4.XSub:
		return zmq4.Pub
	case zmq4.Req:
		return zmq4.Rep
	case zmq4.Rep:
		return zmq4.Req
	case zmq4.Router:
		return zmq4.Dealer
	case zmq4.Push:
		return zmq4.Pull
	case zmq4.Pull:
		return zmq4.Push
	}
	return typ
}

// Join connects a raw healthy peer, with its handshake done.
func (c *C) Join(s zmq4.Socket, ep, id string) *Peer {
	c.Helper()
	p := c.DialRaw(ep)
	if err := p.Handshake(string(Partner(s.Type())), id); err != nil {
		c.Violation("handshake of a healthy peer with %s: %v", s.Type(), err)
	}
	return p
}

// Alive checks that s, listening on ep, serves a new healthy peer. Messages of
// other peers, and errors about them, are passed over.
func (c *C) Alive(s zmq4.Socket, ep string) {
	c.Helper()
	id := Unique("healthy")
	c.Serves(s, c.Join(s, ep, id), id)
}

// Serves checks that s exchanges messages with a healthy peer.
func (c *C) Serves(s zmq4.Socket, p *Peer, id string) {
	c.Helper()
	tag := []byte(Unique("\x05tag"))
	recv := func(want ...[]byte) [][]byte {
		for n := 0; ; n++ {
			m, err := c.RecvErr(s)
			if err != nil {
				if n > 20 {
					time.Sleep(time.Millisecond)
				}
				if n > 30000 {
					c.Violation("%s only receives errors: %v", s.Type(), err)
				}
				continue
			}
			f := m.Frames
			if len(f) > 0 && bytes.Equal(f[len(f)-1], tag) {
				return f
			}
		}
	}
	// the peer reads until it finds the tag
	find := func() [][]byte {
		for {
			f, err := p.ReadMsgT(Long)
			if err != nil {
				c.Violation("healthy peer of %s: %v", s.Type(), err)
			}
			if len(f) > 0 && bytes.Equal(f[len(f)-1], tag) {
				return f
			}
		}
	}
	write := func(frames ...[]byte) {
		p.SetWriteDeadline(time.Now().Add(Long))
		if err := p.WriteMsg(frames...); err != nil {
			c.Violation("healthy peer of %s cannot write: %v", s.Type(), err)
		}
	}
	expect := func(got [][]byte, want ...[]byte) {
		if !Same(got, want) {
			c.Violation("%s: healthy peer exchange: got %s, want %s", s.Type(), Clip(got), Clip(want))
		}
	}
	switch s.Type() {
	case zmq4.Pull, zmq4.Sub, zmq4.XSub:
		write([]byte{}, tag)
		expect(recv(), []byte{}, tag)
	case zmq4.Pair, zmq4.Dealer:
		write([]byte{}, tag)
		expect(recv(), []byte{}, tag)
		c.untilGot(s, p, tag)
	case zmq4.Push:
		c.untilGot(s, p, tag)
	case zmq4.Router:
		write([]byte("x"), tag)
		got := recv()
		expect(got, []byte(id), []byte("x"), tag)
		if err := c.SendErr(s, false, []byte(id), []byte("y"), tag); err != nil {
			c.Violation("router cannot answer: %v", err)
		}
		expect(find(), []byte("y"), tag)
	case zmq4.Rep:
		write([]byte{}, []byte("x"), tag)
		expect(recv(), []byte("x"), tag)
		if err := c.SendErr(s, false, []byte("y"), tag); err != nil {
			c.Violation("rep cannot answer: %v", err)
		}
		expect(find(), []byte{}, []byte("y"), tag)
	case zmq4.Pub, zmq4.XPub:
		write(append([]byte{1}, tag...))
		got := make(chan error, 1)
		go func() {
			f, err := p.ReadMsgT(Long)
			for err == nil && len(f) == 2 && bytes.HasPrefix(f[0], []byte("\x05tag")) && !bytes.Equal(f[0], tag) {
				f, err = p.ReadMsgT(Long) // from when it was served before
			}
			if err == nil && !Same(f, [][]byte{tag, []byte("z")}) {
				err = fmt.Errorf("healthy subscriber got %q", f)
			}
			got <- err
		}()
		var res error
		c.Must("a new subscriber gets messages", func() bool {
			if err := c.SendErr(s, false, tag, []byte("z")); err != nil {
				c.Violation("publish: %v", err)
			}
			select {
			case res = <-got:
				return true
			default:
				return false
			}
		})
		if res != nil {
			c.Violation("%v", res)
		}
	case zmq4.Req:
		// its turn comes
		stop := make(chan struct{})
		answered := make(chan struct{}, 1)
		go func() {
			defer close(stop)
			for {
				f, err := p.ReadMsgT(Long)
				if err != nil {
					return
				}
				if len(f) == 2 && bytes.Equal(f[1], tag) {
					p.WriteMsg([]byte{}, append([]byte("re"), tag...))
					select {
					case answered <- struct{}{}:
					default:
					}
				}
			}
		}()
		ok := false
		c.Must("a request reaches the healthy replier", func() bool {
			if err := c.SendErr(s, false, tag); err != nil {
				return false
			}
			m, err := c.RecvErr(s)
			if err != nil {
				return false
			}
			ok = len(m.Frames) == 1 && bytes.Equal(m.Frames[0], append([]byte("re"), tag...))
			return ok
		})
	}
}

// untilGot sends from s until the peer, in its turn, gets the tag.
func (c *C) untilGot(s zmq4.Socket, p *Peer, tag []byte) {
	c.Helper()
	wait := 5 * time.Millisecond
	if p.LocalAddr().Network() == "inproc" {
		wait = Long // its buffers are small: a Send may last until its message is read
		if c.Deaf {
			wait = 20 * time.Millisecond
		}
	}
	got := make(chan error, 1)
	go func() {
		for {
			f, err := p.ReadMsgT(Long)
			if err != nil {
				got <- err
				return
			}
			if Same(f, [][]byte{[]byte("w"), tag}) {
				got <- nil
				return
			}
			if len(f) > 0 && bytes.Equal(f[len(f)-1], tag) {
				got <- fmt.Errorf("healthy peer got %q", f)
				return
			}
		}
	}()
	c.Must(fmt.Sprintf("a message of %s reaches the healthy peer", s.Type()), func() bool {
		if err := c.SendErr(s, false, []byte("w"), tag); err != nil {
			return false
		}
		select {
		case err := <-got:
			if err != nil {
				c.Violation("%v", err)
			}
			return true
		case <-time.After(wait):
			return false
		}
	})
}
