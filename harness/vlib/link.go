package vlib

import (
	"bytes"
	"fmt"

	zmq4 "github.com/luxfi/zmq/v4"
)

// Pattern is a pair of socket types and a direction.
type Pattern struct{ Tx, Rx zmq4.SocketType }

// Patterns are all pairs over which messages go from Tx to Rx.
var Patterns = []Pattern{
	{zmq4.Push, zmq4.Pull}, {zmq4.Pair, zmq4.Pair}, {zmq4.Dealer, zmq4.Dealer},
	{zmq4.Dealer, zmq4.Router}, {zmq4.Router, zmq4.Dealer}, {zmq4.Router, zmq4.Router},
	{zmq4.Req, zmq4.Rep}, {zmq4.Rep, zmq4.Req}, {zmq4.Dealer, zmq4.Rep}, {zmq4.Req, zmq4.Router},
	{zmq4.Pub, zmq4.Sub}, {zmq4.Pub, zmq4.XSub}, {zmq4.XPub, zmq4.Sub}, {zmq4.XPub, zmq4.XSub},
}

// Link is a connection over which messages can be sent one way.
type Link struct {
	c        *C
	P        Pattern
	Tx, Rx   zmq4.Socket
	prefix   [][]byte // what goes before the frames on sending
	strip    int      // how many frames come before them on receiving
	LockStep bool     // each message must be received before the next is sent
	warm     bool     // a REQ has been seen to have a connection
}

const rxID, txID = "receiver", "sender"

// NewLink connects a pair of sockets.
func (c *C) NewLink(p Pattern, kind string, txListens bool, opts ...zmq4.Option) *Link {
	l := &Link{c: c, P: p,
		Tx: c.New(p.Tx, append(opts, zmq4.WithID(zmq4.SocketIdentity(txID)))...),
		Rx: c.New(p.Rx, append(opts, zmq4.WithID(zmq4.SocketIdentity(rxID)))...)}
	if p.Rx == zmq4.Sub {
		if err := l.Rx.SetOption(zmq4.OptionSubscribe, ""); err != nil {
			c.Violation("subscribe: %v", err)
		}
	}
	if txListens {
		c.Dial(l.Rx, c.Listen(l.Tx, kind))
	} else {
		c.Dial(l.Tx, c.Listen(l.Rx, kind))
	}
	l.ready()
	return l
}

// ready waits until the link carries messages.
func (l *Link) ready() {
	c := l.c
	switch l.P.Rx {
	case zmq4.XSub:
		// it subscribes by a message, once it has a connection
		c.Send(l.Rx, false, []byte{1})
	}
	switch l.P.Tx {
	case zmq4.Pub, zmq4.XPub:
		l.sync()
	case zmq4.Router:
		l.prefix = [][]byte{[]byte(rxID)}
		if l.P.Rx == zmq4.Router {
			// neither can send before it knows the other
			l.strip = 1
			l.sync()
			return
		}
		// a router can send to whom it has heard from
		c.Send(l.Rx, false, []byte("hello"))
		got := c.Recv(l.Tx)
		if len(got) != 2 || string(got[0]) != rxID || string(got[1]) != "hello" {
			c.Violation("router received %s from its first peer", Clip(got))
		}
	}
	switch l.P {
	case Pattern{zmq4.Dealer, zmq4.Router}:
		l.strip = 1
	case Pattern{zmq4.Dealer, zmq4.Rep}:
		l.prefix = [][]byte{{}}
		l.LockStep = true
	case Pattern{zmq4.Req, zmq4.Router}:
		l.strip = 2
		l.LockStep = true
	case Pattern{zmq4.Req, zmq4.Rep}, Pattern{zmq4.Rep, zmq4.Req}:
		l.LockStep = true
	}
}

// sync sends probes until one arrives, and receives up to the last one.
func (l *Link) sync() {
	c := l.c
	got := make(chan string, 100000)
	stop := []byte("\x02stop")
	go func() {
		for {
			m, err := Get(l.Rx)
			if err != nil {
				continue
			}
			f := m.Frames
			if l.strip < len(f) && bytes.Equal(f[l.strip], stop) {
				close(got)
				return
			}
			got <- string(f[min(l.strip, len(f)-1)])
		}
	}()
	n := 0
	c.Must(fmt.Sprintf("messages get through from %s to %s", l.P.Tx, l.P.Rx), func() bool {
		n++
		if err := Put(l.Tx, false, append(l.prefix[:len(l.prefix):len(l.prefix)], []byte(fmt.Sprintf("\x02probe%d", n)))); err != nil {
			c.Violation("Send on %s: %v", l.P.Tx, err)
		}
		return len(got) > 0
	})
	c.Send(l.Tx, false, append(l.prefix[:len(l.prefix):len(l.prefix)], stop)...)
	c.Within("receiving the probes", func() {
		for range got {
		}
	})
}

// put sends; a REQ that listens refuses to until it has a connection.
func (l *Link) put(s zmq4.Socket, multi bool, frames [][]byte) error {
	if s.Type() != zmq4.Req || l.warm {
		return Put(s, multi, frames)
	}
	var err error
	l.warm = Eventually(Long, func() bool { err = Put(s, multi, frames); return err == nil })
	return err
}

// Send sends frames over the link.
func (l *Link) Send(multi bool, frames [][]byte) error {
	if l.P.Tx == zmq4.Rep {
		if err := l.put(l.Rx, false, [][]byte{[]byte("question")}); err != nil {
			return err
		}
		if _, err := Get(l.Tx); err != nil {
			return err
		}
	}
	return l.put(l.Tx, multi, append(l.prefix[:len(l.prefix):len(l.prefix)], frames...))
}

// Recv receives from the link. In lock-step patterns it also answers.
func (l *Link) Recv() ([][]byte, error) {
	m, err := Get(l.Rx)
	if err != nil {
		return nil, err
	}
	f := m.Frames
	if len(f) < l.strip {
		return nil, fmt.Errorf("message without envelope: %q", f)
	}
	env := f[:l.strip]
	if l.strip > 0 && string(env[0]) != txID {
		return nil, fmt.Errorf("labelled as from %q", env[0])
	}
	if l.strip > 1 && len(env[1]) != 0 {
		return nil, fmt.Errorf("envelope %q", env)
	}
	if l.LockStep && l.P.Tx != zmq4.Rep {
		ans := []byte("answer")
		if l.P.Rx == zmq4.Router {
			err = Put(l.Rx, false, [][]byte{env[0], {}, ans})
		} else {
			err = Put(l.Rx, false, [][]byte{ans})
		}
		if err != nil {
			return nil, err
		}
		if m, err = Get(l.Tx); err != nil {
			return nil, err
		}
		if l.P.Tx == zmq4.Dealer && len(m.Frames) == 2 && len(m.Frames[0]) == 0 {
			m.Frames = m.Frames[1:]
		}
		if len(m.Frames) != 1 || !bytes.Equal(m.Frames[0], ans) {
			return nil, fmt.Errorf("answered %q, got %q", ans, m.Frames)
		}
	}
	return f[l.strip:], nil
}
