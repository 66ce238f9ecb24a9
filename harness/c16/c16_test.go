package c16

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4/internal/inproc"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

// pair returns the two ends of a connection.
func pair(c *vlib.C) [2]net.Conn {
	addr := vlib.Unique("c16-")
	l, err := inproc.Listen(addr)
	if err != nil {
		c.Violation("Listen: %v", err)
	}
	defer l.Close()
	d, err := inproc.Dial(addr)
	if err != nil {
		c.Violation("Dial: %v", err)
	}
	var a net.Conn
	c.Within("Accept", func() { a, err = l.Accept() })
	if err != nil {
		c.Violation("Accept: %v", err)
	}
	c.Cleanup(func() { a.Close(); d.Close() })
	if rapid.Bool().Draw(c.T, "swap") {
		return [2]net.Conn{d, a}
	}
	return [2]net.Conn{a, d}
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

func size(c *vlib.C, name string) int {
	switch rapid.IntRange(0, 4).Draw(c.T, name+" class") {
	case 0, 1:
		return rapid.IntRange(1, 9).Draw(c.T, name)
	case 2:
		return rapid.SampledFrom([]int{255, 256, 257, 512, 1024, 4096}).Draw(c.T, name)
	default:
		return rapid.IntRange(1, 65536).Draw(c.T, name)
	}
}

type result struct {
	n   int
	err error
}

// dir is the model of one direction.
type dir struct {
	sent    []byte // all bytes handed to Write calls that succeeded, or are under way
	got     int    // how many of them were read
	done    int    // bytes of completed writes
	pending chan result
	plen    int
	seed    uint64
}

type end struct {
	conn   net.Conn
	closed bool
}

// TestHistory runs a history of operations on both ends against a model.
func TestHistory(t *testing.T) {
	vlib.Run(t, 4000, 100000, "3-60 steps on the two ends: write 0-64 KiB (its buffer overwritten afterwards), read into 1-64 KiB, a read or write ended by a deadline in the past or near future, a blocked read ended by data, deadline or either close, pending writes at a close, then reading up to the end of file; non-trivial: a read shorter than the write it came from, and a deadline or a close while bytes were unread or a call was blocked", func(c *vlib.C) {
		conns := pair(c)
		ends := [2]*end{{conn: conns[0]}, {conn: conns[1]}}
		dirs := [2]*dir{{seed: 1}, {seed: 1000}} // dirs[i]: written at i, read at 1-i
		short, event := false, false

		finish := func(i int, must bool) { // collect a pending write of end i
			d := dirs[i]
			if d.pending == nil {
				return
			}
			var r result
			if must {
				c.Within("a pending Write", func() { r = <-d.pending })
			} else {
				select {
				case r = <-d.pending:
				default:
					return
				}
			}
			d.pending = nil
			switch {
			case r.err == nil && r.n != d.plen:
				c.Violation("Write of %d bytes returned %d without error", d.plen, r.n)
			case r.err != nil && !ends[0].closed && !ends[1].closed:
				c.Violation("Write failed: %v", r.err)
			case r.n < 0 || r.n > d.plen:
				c.Violation("Write of %d bytes returned %d", d.plen, r.n)
			}
			d.done += r.n
			d.sent = d.sent[:d.done]
			if d.got > d.done {
				c.Violation("%d bytes were read of %d written", d.got, d.done)
			}
		}
		write := func(i, n int) {
			d := dirs[i]
			d.seed++
			b := vlib.Fill(n, d.seed)
			d.sent = append(d.sent, b...)
			d.plen = n
			d.pending = make(chan result, 1)
			go func(p chan result) {
				k, err := conns[i].Write(b)
				for j := range b {
					b[j] = 0xEE // the buffer is ours again
				}
				p <- result{k, err}
			}(d.pending)
		}
		take := func(i int, b []byte, what string) { // bytes read at i
			d := dirs[1-i]
			if len(b) > len(d.sent)-d.got {
				c.Violation("%s returned %d bytes, only %d can be there", what, len(b), len(d.sent)-d.got)
			}
			if !bytes.Equal(b, d.sent[d.got:d.got+len(b)]) {
				c.Violation("%s returned other bytes than were written at offset %d: %s, want %s", what, d.got, vlib.Clip(b), vlib.Clip(d.sent[d.got:d.got+len(b)]))
			}
			d.got += len(b)
		}
		read := func(i, n int) {
			b := make([]byte, n)
			var k int
			var err error
			c.Within("Read with bytes there", func() { k, err = conns[i].Read(b) })
			if err != nil {
				c.Violation("Read at %d with %d bytes there: %v", i, len(dirs[1-i].sent)-dirs[1-i].got, err)
			}
			if k < 1 || k > n {
				c.Violation("Read into %d bytes returned %d", n, k)
			}
			take(i, b[:k], "Read")
		}
		unread := func(i int) int { return len(dirs[1-i].sent) - dirs[1-i].got }
		deadline := func() time.Time {
			return time.Now().Add(time.Duration(rapid.SampledFrom([]int{-3600000, -1, 0, 1, 3}).Draw(c.T, "ms")) * time.Millisecond)
		}
		set := func(i int, t time.Time, both, write bool) {
			var err error
			switch {
			case both:
				err = conns[i].SetDeadline(t)
			case write:
				err = conns[i].SetWriteDeadline(t)
			default:
				err = conns[i].SetReadDeadline(t)
			}
			if err != nil {
				c.Violation("setting a deadline: %v", err)
			}
		}

		// relax takes a deadline back, also one that has passed: by none, or
		// by one far away, perhaps after others that pass unnoticed
		relax := func(i int, both, write bool) {
			for n := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(c.T, "more deadlines"); n > 0; n-- {
				dl := deadline()
				set(i, dl, both, write)
				if rapid.Bool().Draw(c.T, "let it pass") && time.Until(dl) > 0 {
					time.Sleep(time.Until(dl) + 100*time.Microsecond)
				}
			}
			if rapid.Bool().Draw(c.T, "far away") {
				set(i, time.Now().Add(time.Hour), both, write)
			} else {
				set(i, time.Time{}, both, write)
			}
		}

		steps := c.Count(3, 60, 400, "steps")
	history:
		for s := 0; s < steps; s++ {
			i := rapid.IntRange(0, 1).Draw(c.T, "end")
			finish(0, false)
			finish(1, false)
			switch op := rapid.SampledFrom([]string{"write", "write", "write", "read", "read", "read", "drain", "rtimeout", "wtimeout", "blocked", "empty", "dl", "close"}).Draw(c.T, "op"); op {
			case "write":
				if dirs[i].pending == nil {
					n := size(c, "n")
					c.D("w%d:%d", i, n)
					write(i, n)
				}
			case "read":
				if unread(i) > 0 {
					n := size(c, "n")
					c.D("r%d:%d", i, n)
					short = short || n < unread(i)
					read(i, n)
				}
			case "drain":
				n := size(c, "n")
				if n*200 < unread(i) {
					n = unread(i)/200 + 1
				}
				c.D("drain%d:%d", i, n)
				for unread(i) > 0 {
					read(i, n)
				}
				finish(1-i, true)
			case "empty":
				if dirs[i].pending == nil {
					if k, err := conns[i].Write(nil); k != 0 || err != nil {
						c.Violation("Write of nothing: %d, %v", k, err)
					}
				}
			case "rtimeout":
				// an expired deadline ends reading without taking anything away
				past := unread(i) > 0
				dl := deadline()
				if past {
					dl = time.Now().Add(-time.Second)
					event = true
				}
				c.D("rtimeout%d(%d)", i, unread(i))
				both := rapid.Bool().Draw(c.T, "both") && dirs[i].pending == nil
				set(i, dl, both, false)
				var k int
				var err error
				c.Within("Read with a deadline", func() { k, err = conns[i].Read(make([]byte, 10)) })
				if k != 0 || !isTimeout(err) {
					c.Violation("Read past its deadline returned %d, %v", k, err)
				}
				relax(i, both, false)
			case "wtimeout":
				// what a Write that timed out says it wrote is what was written
				d := dirs[i]
				if d.pending != nil {
					continue
				}
				n := size(c, "n")
				both := rapid.Bool().Draw(c.T, "both")
				dl := deadline()
				set(i, dl, both, true)
				rounds := rapid.SampledFrom([]int{1, 12}).Draw(c.T, "rounds")
				c.D("wtimeout%d:%d×%d", i, n, rounds)
				for r := 0; r < rounds; r++ {
					write(i, n)
					var res result
					c.Within("Write with a deadline", func() { res = <-d.pending })
					d.pending = nil
					if res.err != nil && !isTimeout(res.err) {
						c.Violation("Write with a deadline: %v", res.err)
					}
					if (res.err == nil) != (res.n == n) {
						c.Violation("Write of %d bytes returned %d, %v", n, res.n, res.err)
					}
					if res.err == nil && time.Until(dl) < -time.Minute {
						c.Violation("Write succeeded past its deadline")
					}
					d.done += res.n
					d.sent = d.sent[:d.done]
					if res.err != nil {
						event = event || unread(1-i) > 0
						break
					}
				}
				relax(i, both, true)
			case "dl":
				// deadlines far away change nothing
				set(i, time.Now().Add(time.Hour), true, false)
				if rapid.Bool().Draw(c.T, "again") {
					set(i, time.Now().Add(2*time.Hour), true, false)
					set(i, time.Time{}, true, false)
				}
				c.D("dl%d", i)
			case "blocked":
				if unread(i) > 0 {
					continue
				}
				b := make([]byte, size(c, "n"))
				ch := make(chan result, 1)
				go func() {
					k, err := conns[i].Read(b)
					ch <- result{k, err}
				}()
				if rapid.Bool().Draw(c.T, "wait") {
					time.Sleep(time.Duration(rapid.IntRange(1, 300).Draw(c.T, "µs")) * time.Microsecond)
				}
				var r result
				switch how := rapid.SampledFrom([]string{"data", "data", "deadline", "close", "remote"}).Draw(c.T, "how"); how {
				case "data":
					finish(1-i, true) // all of it was read
					n := size(c, "m")
					c.D("blocked%d data %d", i, n)
					write(1-i, n)
					c.Within("a blocked Read, data being written,", func() { r = <-ch })
					if r.err != nil || r.n < 1 {
						c.Violation("blocked Read returned %d, %v when data came", r.n, r.err)
					}
					take(i, b[:r.n], "blocked Read")
				case "deadline":
					c.D("blocked%d deadline", i)
					event = true
					set(i, deadline(), false, false)
					c.Within("a blocked Read, the deadline passing,", func() { r = <-ch })
					if r.n != 0 || !isTimeout(r.err) {
						c.Violation("blocked Read returned %d, %v at its deadline", r.n, r.err)
					}
					relax(i, false, false)
				case "close", "remote":
					k := i
					if how == "remote" {
						k = 1 - i
					}
					c.D("blocked%d %s", i, how)
					event = true
					conns[k].Close()
					ends[k].closed = true
					c.Within("a blocked Read, an end being closed,", func() { r = <-ch })
					if r.n != 0 || r.err == nil || isTimeout(r.err) || how == "remote" && r.err != io.EOF {
						c.Violation("blocked Read returned %d, %v at a %s", r.n, r.err, how)
					}
					break history
				}
			case "close":
				if rapid.IntRange(0, 2).Draw(c.T, "really") > 0 {
					continue
				}
				c.D("close%d", i)
				if unread(1-i) > 0 || dirs[0].pending != nil || dirs[1].pending != nil {
					event = true
				}
				if rapid.Bool().Draw(c.T, "both ends") && unread(1-i) == 0 {
					conns[1-i].Close()
					ends[1-i].closed = true
				}
				conns[i].Close()
				ends[i].closed = true
				break history
			}
		}
		if !ends[0].closed && !ends[1].closed {
			i := rapid.IntRange(0, 1).Draw(c.T, "closer")
			event = event || unread(1-i) > 0 || dirs[i].pending != nil
			c.D("end%d", i)
			conns[i].Close()
			ends[i].closed = true
		}
		if short && event {
			c.Nontrivial()
		}
		// pending writes end now
		finish(0, true)
		finish(1, true)
		for i, e := range ends {
			k, err := e.conn.Write([]byte("x"))
			if k != 0 || err == nil {
				c.Violation("Write at end %d returned %d, %v, after a close", i, k, err)
			}
			if e.closed {
				k, err := e.conn.Read(make([]byte, 1))
				if k != 0 || err == nil {
					c.Violation("Read at a closed end returned %d, %v", k, err)
				}
				continue
			}
			// what was written before the other end closed, then its end
			for {
				var k int
				var err error
				n := max(size(c, "n"), unread(i)/100)
				b := make([]byte, n)
				c.Within("Read after the other end closed", func() { k, err = e.conn.Read(b) })
				take(i, b[:k], "Read after the other end closed")
				if err != nil {
					if err != io.EOF {
						c.Violation("Read after the other end closed: %v", err)
					}
					break
				}
				if k == 0 {
					c.Violation("Read returned neither bytes nor an error")
				}
			}
			if unread(i) != 0 {
				c.Violation("%d bytes written before the close were lost", unread(i))
			}
		}
		for i := range ends {
			conns[i].Close() // closing again does no harm
			conns[i].Close()
		}
	})
}

// TestDuplex streams both ways at once.
func TestDuplex(t *testing.T) {
	vlib.Run(t, 500, 15000, "1-60 writes of 0-64 KiB each way at the same time, reads of drawn sizes with expiring deadlines in between, one side closing when it is done; non-trivial: both directions carry over 10 writes", func(c *vlib.C) {
		conns := pair(c)
		var wg sync.WaitGroup
		errs := make(chan error, 8)
		var counts [2]int
		for i := 0; i < 2; i++ {
			n := rapid.IntRange(1, 60).Draw(c.T, "writes")
			counts[i] = n
			sizes := rapid.SliceOfN(rapid.IntRange(0, 3000), n, n).Draw(c.T, "sizes")
			if rapid.Bool().Draw(c.T, "big") {
				sizes[0] = 65536
			}
			rsizes := rapid.SliceOfN(rapid.IntRange(1, 5000), 1, 5).Draw(c.T, "reads")
			every := rapid.IntRange(0, 7).Draw(c.T, "deadline every")
			c.D("%d writes, reads %v, deadline every %d", n, rsizes, every)
			var want []byte
			for j, s := range sizes {
				want = append(want, vlib.Fill(s, uint64(j+1000*i))...)
			}
			w, r := conns[i], conns[1-i]
			wg.Add(2)
			go func() {
				defer wg.Done()
				buf := make([]byte, 65536)
				for j, s := range sizes {
					copy(buf, vlib.Fill(s, uint64(j+1000*i)))
					if k, err := w.Write(buf[:s]); k != s || err != nil {
						errs <- fmt.Errorf("Write of %d returned %d, %v", s, k, err)
						return
					}
				}
			}()
			go func() {
				defer wg.Done()
				var got []byte
				for x := 0; len(got) < len(want); x++ {
					b := make([]byte, rsizes[x%len(rsizes)])
					if every > 0 && x%every == 0 {
						r.SetReadDeadline(time.Now().Add(time.Duration(x%5-1) * 100 * time.Microsecond))
					}
					k, err := r.Read(b)
					got = append(got, b[:k]...)
					if isTimeout(err) {
						r.SetReadDeadline(time.Time{})
					} else if err != nil {
						errs <- fmt.Errorf("Read: %v", err)
						return
					}
				}
				if !bytes.Equal(got, want) {
					errs <- fmt.Errorf("other bytes were read than written")
				}
			}()
		}
		if counts[0] > 10 && counts[1] > 10 {
			c.Nontrivial()
		}
		c.Within("streaming both ways", wg.Wait)
		select {
		case err := <-errs:
			c.Violation("%v", err)
		default:
		}
		conns[1].SetReadDeadline(time.Time{})
		conns[0].Close()
		var err error
		c.Within("Read", func() { _, err = conns[1].Read(make([]byte, 1)) })
		if err != io.EOF {
			c.Violation("Read at the end: %v", err)
		}
	})
}
