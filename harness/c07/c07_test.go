// Package c07: publishing never blocks, and overload loses messages only for
// the slow peer.
package c07

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

// reader is a subscriber that can stop reading.
type reader struct {
	name    string
	raw     *vlib.Peer
	sub     zmq4.Socket
	mu      sync.Mutex
	cond    *sync.Cond
	stalled bool
	got     [][][]byte
	err     error
	at      int // how many messages had been published when it last kept up
	atTotal int // the same, with those published to synchronize
	gone    bool
}

func (r *reader) stall(on bool) {
	r.mu.Lock()
	r.stalled = on
	r.cond.Broadcast()
	r.mu.Unlock()
}

func (r *reader) run() {
	for {
		r.mu.Lock()
		for r.stalled {
			r.cond.Wait()
		}
		r.mu.Unlock()
		var f [][]byte
		var err error
		if r.raw != nil {
			f, err = r.raw.ReadMsg()
		} else {
			var m zmq4.Msg
			m, err = vlib.Get(r.sub)
			f = m.Frames
		}
		r.mu.Lock()
		if err != nil {
			r.err = err
			r.mu.Unlock()
			return
		}
		r.got = append(r.got, f)
		r.mu.Unlock()
	}
}

func (r *reader) has(last string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := len(r.got) - 1; i >= 0; i-- {
		if string(r.got[i][len(r.got[i])-1]) == last {
			return true
		}
	}
	return false
}

func has(p zmq4.Socket, topic string) bool {
	for _, t := range p.(zmq4.Topics).Topics() {
		if t == topic {
			return true
		}
	}
	return false
}

// TestStall has subscribers stop and resume reading.
func TestStall(t *testing.T) {
	vlib.Run(t, 500, 8000, "a PUB (send high-water mark 1-40 or the default 1000) or XPUB publishes drawn bursts to 1-5 subscribers (raw peers and SUB sockets, over bounded in-memory, inproc or tcp connections) of which drawn ones stop reading, resume, or vanish between the bursts; bursts are within the mark whenever somebody must keep up, else up to four times it; no Send may block, readers must get everything in order, those that stalled an in-order selection without duplicates whose beginning is complete up to the mark, and after they caught up everything again; non-trivial: more than the mark is published while a subscriber is stalled", func(c *vlib.C) {
		kind := rapid.SampledFrom([]string{"vmem", "vmem", "vmem", "inproc", "tcp"}).Draw(c.T, "transport")
		typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Pub, zmq4.Pub, zmq4.Pub, zmq4.XPub}).Draw(c.T, "type")
		hwm := 1000
		p := c.New(typ, quiet)
		if typ == zmq4.Pub && rapid.IntRange(0, 9).Draw(c.T, "set hwm") > 0 {
			hwm = rapid.IntRange(1, 40).Draw(c.T, "hwm")
			if err := p.SetOption(zmq4.OptionHWM, hwm); err != nil {
				c.Violation("setting the high-water mark: %v", err)
			}
		}
		capacity := rapid.SampledFrom([]int{200, 201, 300, 500, 5000}).Draw(c.T, "connection buffer")
		size := rapid.SampledFrom([]int{0, 1, 20, 300, 2000}).Draw(c.T, "message size")
		ep := c.Fresh(kind)
		switch kind {
		case "vmem":
			ep = "vmem://" + vlib.MemName(nil, capacity)
		case "tcp":
			size = rapid.SampledFrom([]int{100, 1 << 16, 1 << 19}).Draw(c.T, "big message size")
			hwm = min(hwm, 1000)
		}
		if hwm == 1000 {
			size = min(size, 300)
		}
		if err := p.Listen(ep); err != nil {
			c.Violation("listen: %v", err)
		}
		ep = vlib.Dialable(p, ep)
		c.D("%s %s hwm=%d size=%d buffer=%d", typ, kind, hwm, size, capacity)
		c.Class("%s %s", typ, kind)

		var rs []*reader
		for i := c.Count(1, 5, 25, "subscribers"); i > 0; i-- {
			r := &reader{name: vlib.Unique("s")}
			r.cond = sync.NewCond(&r.mu)
			if kind == "inproc" || rapid.IntRange(0, 2).Draw(c.T, "socket") == 0 {
				r.sub = c.New(zmq4.Sub, quiet)
				r.sub.SetOption(zmq4.OptionSubscribe, "")
				r.sub.SetOption(zmq4.OptionSubscribe, "\xff"+r.name)
				c.Dial(r.sub, ep)
			} else {
				r.raw = c.DialRaw(ep)
				if err := r.raw.Handshake("SUB", ""); err != nil {
					c.Violation("handshake: %v", err)
				}
				r.raw.WriteMsg([]byte{1})
				r.raw.WriteMsg(append([]byte{1, 0xff}, r.name...))
			}
			c.D("%s socket=%v", r.name, r.sub != nil)
			rs = append(rs, r)
			c.Must("the subscription arrives", func() bool { return has(p, "\xff"+r.name) })
			c.Cleanup(func() {
				r.stall(false)
				if r.raw != nil {
					r.raw.Close()
				} else {
					r.sub.Close()
				}
			})
			go r.run()
		}

		var sent []string
		nsync := 0
		total := 0      // of all that was published, syncs included
		var index []int // in that order, of sent
		put := func(frames ...[]byte) {
			total++
			if err := vlib.Put(p, len(sent)%2 == 1, frames); err != nil {
				c.Violation("Send on %s: %v", typ, err)
			}
		}
		publish := func(n int) {
			c.Within(fmt.Sprintf("publishing %d messages", n), func() {
				for ; n > 0; n-- {
					id := fmt.Sprintf("m%d", len(sent))
					sent = append(sent, id)
					index = append(index, total)
					put(vlib.Fill(size, uint64(len(sent))), []byte(id))
				}
			})
		}
		// caughtUp waits until nothing is left in the queue of r.
		caughtUp := func(r *reader) {
			c.Must("a subscriber that reads catches up", func() bool {
				nsync++
				id := fmt.Sprintf("sync%d", nsync)
				put([]byte("\x01"), []byte(id))
				return vlib.Eventually(25*time.Millisecond, func() bool { return r.has(id) })
			})
		}
		// due tells how many messages since r last kept up must be there
		due := func(r *reader) int {
			n := 0
			for r.at+n < len(sent) && index[r.at+n] < r.atTotal+hwm {
				n++
			}
			return n
		}
		verify := func(r *reader, what string, from, complete int) {
			// of what was published since from, the first complete must be there
			r.mu.Lock()
			got := r.got
			r.got = nil
			r.mu.Unlock()
			next := from
			for _, f := range got {
				last := string(f[len(f)-1])
				if strings.HasPrefix(last, "sync") {
					continue
				}
				k := -1
				fmt.Sscanf(last, "m%d", &k)
				if k < 0 || k >= len(sent) || len(f) != 2 || !bytes.Equal(f[0], vlib.Fill(size, uint64(k+1))) {
					c.Violation("%s subscriber %s received %s, which was not published", what, r.name, vlib.Clip(f))
				}
				if k < next {
					c.Violation("%s subscriber %s received message %d again or out of order", what, r.name, k)
				}
				if next < from+complete && k > next {
					c.Violation("%s subscriber %s lost message %d, %d of %d since it was last known to keep up (high-water mark %d)", what, r.name, next, next-from+1, len(sent)-from, hwm)
				}
				next = k + 1
			}
			if next < from+complete {
				c.Violation("%s subscriber %s received nothing of messages %d to %d (high-water mark %d)", what, r.name, next, from+complete-1, hwm)
			}
		}
		for n := rapid.IntRange(2, 8).Draw(c.T, "steps"); n > 0; n-- {
			r := rapid.SampledFrom(rs).Draw(c.T, "who")
			step := rapid.IntRange(0, 5).Draw(c.T, "step")
			switch {
			case step <= 1 && !r.gone && !r.stalled:
				caughtUp(r)
				c.D("%s stops reading", r.name)
				verify(r, "reading", r.at, len(sent)-r.at)
				r.at, r.atTotal = len(sent), total
				r.stall(true)
				c.Class("stall")
				if r.raw != nil || kind != "vmem" {
					break
				}
				// a SUB goes on reading from its connection until its own queue is full
			case step == 2 && !r.gone && r.stalled:
				c.D("%s resumes", r.name)
				r.stall(false)
				caughtUp(r)
				if len(sent)-r.at > hwm {
					c.Nontrivial()
				}
				verify(r, "stalled", r.at, due(r))
				r.at = len(sent)
				c.Class("resume")
			case step == 3 && !r.gone && rapid.IntRange(0, 2).Draw(c.T, "really") == 0:
				c.D("%s vanishes", r.name)
				r.gone = true
				if r.raw != nil {
					r.raw.Close()
				} else {
					r.sub.Close()
				}
				c.Class("vanish")
			default:
				reading := 0
				for _, r := range rs {
					if !r.gone && !r.stalled {
						reading++
					}
				}
				k := rapid.IntRange(1, hwm).Draw(c.T, "burst")
				if reading == 0 {
					k = rapid.IntRange(1, 4*min(hwm, 500)).Draw(c.T, "overload")
				} else if rapid.Bool().Draw(c.T, "full") {
					k = hwm
				}
				k = min(k, 1500)
				c.D("burst of %d", k)
				publish(k)
				for _, r := range rs {
					if !r.gone && !r.stalled {
						// keeps up: the next burst finds an empty queue
						caughtUp(r)
						verify(r, "reading", r.at, len(sent)-r.at)
						r.at = len(sent)
					}
				}
			}
		}
		for _, r := range rs {
			if r.gone {
				continue
			}
			was := r.stalled
			r.stall(false)
			caughtUp(r)
			complete := len(sent) - r.at
			if was {
				if complete > hwm {
					c.Nontrivial()
				}
				complete = due(r)
			}
			verify(r, "finally", r.at, complete)
			r.at = len(sent)
		}
		// all have caught up: everything arrives again
		k := min(hwm, 20)
		for _, r := range rs {
			if !r.gone {
				caughtUp(r)
				verify(r, "after", r.at, 0)
			}
		}
		publish(k)
		for _, r := range rs {
			if r.gone {
				continue
			}
			caughtUp(r)
			verify(r, "caught-up", r.at, k)
		}
	})
}
