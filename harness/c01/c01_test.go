package c01

import (
	"fmt"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

const end = "\x03the end"

type sent struct {
	frames [][]byte
	multi  bool
}

// exchange sends all messages and compares what arrived only when everything
// has: messages must not change after they were received.
func exchange(c *vlib.C, l *vlib.Link, msgs []sent) {
	msgs = append(msgs, sent{[][]byte{[]byte(end)}, false})
	want := make([]string, len(msgs))
	for i, m := range msgs {
		want[i] = vlib.S(m.frames)
	}
	var got [][][]byte
	if l.LockStep {
		for i, m := range msgs {
			var f [][]byte
			var err error
			c.Within(fmt.Sprintf("exchange of message %d", i), func() {
				if err = l.Send(m.multi, m.frames); err == nil {
					f, err = l.Recv()
				}
			})
			if err != nil {
				c.Violation("message %d (%s): %v", i, vlib.Sizes(m.frames), err)
			}
			got = append(got, f)
		}
	} else {
		errs := make(chan error, 1)
		go func() {
			for i, m := range msgs {
				if err := l.Send(m.multi, m.frames); err != nil {
					errs <- fmt.Errorf("Send of message %d: %w", i, err)
					return
				}
			}
			errs <- nil
		}()
		for i := range msgs {
			var f [][]byte
			var err error
			c.Within(fmt.Sprintf("Recv of message %d of %d", i, len(msgs)), func() { f, err = l.Recv() })
			if err != nil {
				c.Violation("Recv of message %d: %v", i, err)
			}
			got = append(got, f)
		}
		if err := <-errs; err != nil {
			c.Violation("%v", err)
		}
	}
	for i := range got {
		if vlib.S(got[i]) != want[i] {
			c.Violation("message %d of %d: sent %s, received %s\n sent %s\n got  %s", i, len(msgs),
				vlib.Sizes(msgs[i].frames), vlib.Sizes(got[i]), vlib.Clip(msgs[i].frames), vlib.Clip(got[i]))
		}
	}
}

func TestMessages(t *testing.T) {
	vlib.Run(t, 3000, 60000, "1-12 messages of 1-40 and sometimes up to 3000 frames (0 bytes to 3 MB, sizes around 255/256 and 64 KiB frequent), sent plain or multipart over one of 14 socket pairs, 4 transports (one cutting the stream into drawn pieces) and either end listening; non-trivial: at least one multi-frame message or a frame of 0 or over 255 bytes", func(c *vlib.C) {
		p := rapid.SampledFrom(vlib.Patterns).Draw(c.T, "pattern")
		kind := rapid.SampledFrom([]string{"tcp", "ipc", "inproc", "vmem-chunked"}).Draw(c.T, "transport")
		txl := rapid.Bool().Draw(c.T, "sender listens")
		max := 3 << 20
		if kind == "vmem-chunked" {
			max = 70000
		}
		n := rapid.IntRange(1, 12).Draw(c.T, "messages")
		c.D("%s-%s over %s, sender listens=%v", p.Tx, p.Rx, kind, txl)
		var msgs []sent
		for i := 0; i < n; i++ {
			m := sent{c.Frames(max), rapid.Bool().Draw(c.T, "multipart")}
			if len(m.frames) > 1 {
				c.Class("multi-frame")
				c.Nontrivial()
			}
			for _, f := range m.frames {
				if len(f) == 0 || len(f) > 255 {
					c.Class("empty or long frame")
					c.Nontrivial()
				}
				if len(f) >= 1<<16 {
					c.Class("frame of 64 KiB or more")
				}
			}
			c.D("multi=%v %s", m.multi, vlib.Sizes(m.frames))
			msgs = append(msgs, m)
		}
		c.Class("%s-%s", p.Tx, p.Rx)
		c.Class("%s", kind)
		exchange(c, c.NewLink(p, kind, txl), msgs)
	})
}

func TestMany(t *testing.T) {
	vlib.Run(t, 300, 5000, "100-900, and sometimes up to 70000, small numbered messages in a row on one connection of a streaming pattern; non-trivial: always", func(c *vlib.C) {
		var ps []vlib.Pattern
		for _, p := range vlib.Patterns {
			switch p.Tx {
			case "REQ", "REP":
				continue
			}
			if p.Rx != "REP" {
				ps = append(ps, p)
			}
		}
		p := rapid.SampledFrom(ps).Draw(c.T, "pattern")
		kind := rapid.SampledFrom([]string{"tcp", "ipc", "inproc", "vmem-chunked"}).Draw(c.T, "transport")
		n := rapid.IntRange(100, 900).Draw(c.T, "messages")
		if rapid.IntRange(0, 79).Draw(c.T, "very many") == 79 && kind != "vmem-chunked" && p.Tx != zmq4.Pub && p.Tx != zmq4.XPub {
			n *= 79
		}
		k := rapid.IntRange(1, 3).Draw(c.T, "frames")
		size := rapid.IntRange(0, 400).Draw(c.T, "size")
		multi := rapid.Bool().Draw(c.T, "multipart")
		c.D("%d messages of %d+1 frames of %d bytes, %s-%s over %s, multi=%v", n, k, size, p.Tx, p.Rx, kind, multi)
		c.Nontrivial()
		msgs := make([]sent, n)
		for i := range msgs {
			fs := [][]byte{[]byte(fmt.Sprint("n", i))}
			for j := 0; j < k; j++ {
				fs = append(fs, vlib.Fill(size, uint64(i*10+j)))
			}
			msgs[i] = sent{fs, multi}
		}
		exchange(c, c.NewLink(p, kind, rapid.Bool().Draw(c.T, "sender listens")), msgs)
	})
}

// TestSlow lets time pass: between messages, and before they are received.
func TestSlow(t *testing.T) {
	vlib.Run(t, 4, 60, "20-30 connections at once, as in the other tests, carry 2-40 messages each; before a drawn one the sender is silent for 0-6 s, and before a drawn one the receiver does not receive for 0-6 s; all must arrive; non-trivial: always", func(c *vlib.C) {
		bad := vlib.NewBroken()
		var wg sync.WaitGroup
		for k := rapid.IntRange(20, 30).Draw(c.T, "connections"); k > 0; k-- {
			p := rapid.SampledFrom(vlib.Patterns).Draw(c.T, "pattern")
			kind := rapid.SampledFrom([]string{"tcp", "ipc", "inproc", "vmem-chunked"}).Draw(c.T, "transport")
			txl := rapid.Bool().Draw(c.T, "sender listens")
			n := rapid.IntRange(2, 40).Draw(c.T, "messages")
			silent, idle := rapid.IntRange(0, n-1).Draw(c.T, "silent before"), wait(c, "silence")
			late, pause := rapid.IntRange(0, n-1).Draw(c.T, "late for"), wait(c, "pause")
			size := rapid.SampledFrom([]int{0, 10, 300, 3000}).Draw(c.T, "size")
			c.D("%d x %d bytes %s-%s over %s, sender listens=%v, %v silence before %d, %v pause before %d", n, size, p.Tx, p.Rx, kind, txl, idle, silent, pause, late)
			l := c.NewLink(p, kind, txl)
			msgs := make([][][]byte, n)
			for i := range msgs {
				msgs[i] = [][]byte{[]byte(fmt.Sprint("n", i)), vlib.Fill(size, uint64(i))}
			}
			next, sent := make(chan bool, n), make(chan bool, n)
			wg.Add(2)
			go func() {
				defer wg.Done()
				defer close(sent)
				for i, m := range msgs {
					if i == silent {
						time.Sleep(idle)
					}
					if err := l.Send(i%2 == 0, m); err != nil {
						bad.Add("%s-%s over %s, Send of message %d of %d, after %v of silence before %d: %v", p.Tx, p.Rx, kind, i, n, idle, silent, err)
						return
					}
					if l.LockStep {
						sent <- true
						<-next
					}
				}
			}()
			go func() {
				defer wg.Done()
				defer close(next)
				for i, m := range msgs {
					if l.LockStep {
						// a REQ receives only what it has asked for
						<-sent
					}
					if i == late {
						time.Sleep(pause)
					}
					got, err := l.Recv()
					if err != nil {
						bad.Add("%s-%s over %s, Recv of message %d of %d, after %v of silence before %d and a pause of %v before %d: %v", p.Tx, p.Rx, kind, i, n, idle, silent, pause, late, err)
						return
					}
					if !vlib.Same(got, m) {
						bad.Add("%s-%s over %s, after %v of silence before %d and a pause of %v before %d: message %d arrives as %s", p.Tx, p.Rx, kind, idle, silent, pause, late, i, vlib.Clip(got))
						return
					}
					next <- true
				}
			}()
		}
		c.Nontrivial()
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		end := time.After(vlib.Long + 12*time.Second)
		for {
			select {
			case <-done:
				bad.Check(c)
				return
			case <-time.After(100 * time.Millisecond):
				bad.Check(c)
			case <-end:
				c.Violation("messages do not arrive")
			}
		}
	})
}

func wait(c *vlib.C, what string) time.Duration {
	max := rapid.SampledFrom([]int{0, 300, 1500, 6000}).Draw(c.T, what)
	return time.Duration(rapid.IntRange(max/2, max).Draw(c.T, "ms")) * time.Millisecond
}
