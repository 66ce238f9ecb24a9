package c21

import (
	"fmt"
	"testing"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

// model of the queue
type entry struct {
	key string
	typ zmq4.MsgType
}

func same(m zmq4.Msg, e entry) bool { return vlib.S(m.Frames) == e.key && m.Type == e.typ }

func pops(q *zmq4.Queue) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	q.Pop()
	return
}

// TestHistory runs drawn histories against a slice.
func TestHistory(t *testing.T) {
	vlib.Run(t, 3000, 60000, "2-60 steps of push (runs of 1-1300 messages, lengths around multiples of 256 and 512 frequent), pop (runs), peek, drain, reset, on one or two queues, compared with a slice after every operation; non-trivial: over 512 messages passed through, or the queue was emptied and used again", func(c *vlib.C) {
		nq := rapid.IntRange(1, 2).Draw(c.T, "queues")
		qs := make([]*zmq4.Queue, nq)
		models := make([][]entry, nq)
		for i := range qs {
			qs[i] = zmq4.NewQueue()
		}
		count := 0
		emptied, reused := false, false
		check := func(i int, what string) {
			q, m := qs[i], models[i]
			if q.Len() != len(m) {
				c.Violation("after %s: Len() is %d, should be %d", what, q.Len(), len(m))
			}
			got, ok := q.Peek()
			if ok != (len(m) > 0) {
				c.Violation("after %s: Peek() says %v with %d messages", what, ok, len(m))
			}
			if ok && !same(got, m[0]) {
				c.Violation("after %s: Peek() is %s, should be %s", what, vlib.Clip(got.Frames), vlib.Clip(m[0].key))
			}
			if !ok && (len(got.Frames) != 0) {
				c.Violation("after %s: Peek() of an empty queue is %s", what, vlib.Clip(got.Frames))
			}
		}
		run := func() int {
			switch rapid.IntRange(0, 5).Draw(c.T, "run") {
			case 0, 1:
				return rapid.IntRange(1, 5).Draw(c.T, "n")
			case 2, 3:
				return rapid.SampledFrom([]int{255, 256, 257, 510, 511, 512, 513, 514, 1023, 1024, 1025}).Draw(c.T, "n")
			default:
				return rapid.IntRange(1, 1300).Draw(c.T, "n")
			}
		}
		push := func(i int) {
			var fs [][]byte
			switch count % 7 {
			case 0:
				fs = [][]byte{}
			case 3:
				fs = [][]byte{{}, []byte(fmt.Sprint(count)), {}}
			default:
				fs = [][]byte{[]byte(fmt.Sprint(i, ":", count))}
			}
			m := zmq4.NewMsgFrom(fs...)
			if count%5 == 0 {
				m.Type = zmq4.CmdMsg
			}
			count++
			qs[i].Push(m)
			models[i] = append(models[i], entry{vlib.S(fs), m.Type})
			if emptied {
				reused = true
			}
		}
		steps := rapid.IntRange(2, 60).Draw(c.T, "steps")
		for s := 0; s < steps && count < 20000; s++ {
			i := rapid.IntRange(0, nq-1).Draw(c.T, "queue")
			switch op := rapid.SampledFrom([]string{"push", "push", "pop", "pop", "mix", "drain", "init", "emptypop"}).Draw(c.T, "op"); op {
			case "push":
				n := run()
				c.D("push%d×%d", i, n)
				for k := 0; k < n; k++ {
					push(i)
					check(i, "Push")
				}
			case "pop":
				n := min(run(), len(models[i]))
				c.D("pop%d×%d", i, n)
				for k := 0; k < n; k++ {
					if pops(qs[i]) {
						c.Violation("Pop panicked with %d messages in the queue", len(models[i]))
					}
					models[i] = models[i][1:]
					check(i, "Pop")
				}
			case "mix":
				n := run()
				a := rapid.IntRange(1, 3).Draw(c.T, "a")
				b := rapid.IntRange(1, 3).Draw(c.T, "b")
				c.D("mix%d×%d(%d+,%d-)", i, n, a, b)
				for k := 0; k < n; k++ {
					for x := 0; x < a; x++ {
						push(i)
					}
					for x := 0; x < b && len(models[i]) > 0; x++ {
						if pops(qs[i]) {
							c.Violation("Pop panicked")
						}
						models[i] = models[i][1:]
					}
					check(i, "mixed operations")
				}
			case "drain":
				c.D("drain%d(%d)", i, len(models[i]))
				for len(models[i]) > 0 {
					if pops(qs[i]) {
						c.Violation("Pop panicked with %d messages in the queue", len(models[i]))
					}
					models[i] = models[i][1:]
					check(i, "Pop")
				}
				emptied = true
			case "init":
				c.D("init%d(%d)", i, len(models[i]))
				qs[i].Init()
				models[i] = nil
				emptied = true
			case "emptypop":
				if len(models[i]) == 0 {
					c.D("emptypop%d", i)
					if !pops(qs[i]) {
						c.Violation("Pop on an empty queue did not panic")
					}
					emptied = true
				}
			}
			for j := range qs {
				check(j, "the step")
			}
		}
		if count > 512 {
			c.Class("crossed a block")
			c.Nontrivial()
		}
		if reused {
			c.Class("emptied and used again")
			c.Nontrivial()
		}
	})
}

// TestContents holds the queue to handing out what was pushed, not copies that
// lose a part of it.
func TestContents(t *testing.T) {
	vlib.Run(t, 1500, 30000, "1-700 messages with drawn frames pushed, then peeked and popped until empty; non-trivial: a multi-frame message with an empty frame", func(c *vlib.C) {
		n := rapid.IntRange(1, 30).Draw(c.T, "distinct")
		msgs := make([]zmq4.Msg, n)
		for i := range msgs {
			fs := rapid.SliceOfN(rapid.SliceOfN(rapid.Byte(), 0, 6), 0, 4).Draw(c.T, "frames")
			msgs[i] = zmq4.NewMsgFrom(fs...)
			if rapid.Bool().Draw(c.T, "cmd") {
				msgs[i].Type = zmq4.CmdMsg
			}
			if len(fs) > 1 && (len(fs[0]) == 0 || len(fs[len(fs)-1]) == 0) {
				c.Nontrivial()
			}
		}
		total := rapid.IntRange(1, 700).Draw(c.T, "total")
		c.D("%d messages of %d kinds, first %s", total, n, vlib.Sizes(msgs[0].Frames))
		q := zmq4.NewQueue()
		for i := 0; i < total; i++ {
			q.Push(msgs[i%n])
		}
		for i := 0; i < total; i++ {
			for k := 0; k < 2; k++ {
				m, ok := q.Peek()
				if !ok {
					c.Violation("nothing to peek at position %d of %d", i, total)
				}
				w := msgs[i%n]
				if !vlib.Same(m.Frames, w.Frames) || m.Type != w.Type || (m.Frames == nil) != (w.Frames == nil) {
					c.Violation("message %d came out as %s type %v, was %s type %v", i, vlib.Clip(m.Frames), m.Type, vlib.Clip(w.Frames), w.Type)
				}
			}
			if q.Len() != total-i {
				c.Violation("Len() %d with %d left", q.Len(), total-i)
			}
			q.Pop()
		}
		if _, ok := q.Peek(); ok || q.Len() != 0 {
			c.Violation("the queue is not empty at the end")
		}
	})
}
