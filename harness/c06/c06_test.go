// Package c06: a subscriber receives exactly the published messages matching
// its subscriptions.
package c06

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var quiet = zmq4.WithLogger(log.New(io.Discard, "", 0))

// flushes and barriers use topics of their own
const flushTopic, barrierTopic = "\x00\xffF", "\x00\xffB"

type subscriber struct {
	i       int
	typ     zmq4.SocketType
	s       zmq4.Socket
	in      *vlib.Inbox
	subs    map[string]bool   // its subscriptions now
	states  []map[string]bool // since the last barrier
	barrier string            // subscribed to for the last barrier
	from    int               // how many messages had been published when it joined
	left    bool
	flushes int
}

type published struct {
	pub    int
	frames [][]byte
	must   map[int]bool // by subscriber
	may    map[int]bool
}

type world struct {
	c    *vlib.C
	pubs []zmq4.Socket
	subs []*subscriber
	eps  []string // of the publishers, or of the subscribers if those listen
	kind string
	sent []published
	nb   int
	pool []string
	open int      // what was sent from here on may not have been written yet
	last [][]byte // by publisher, the first frame of what it sent last
}

func (w *world) topic() string {
	c := w.c
	if rapid.IntRange(0, 2).Draw(c.T, "topic") > 0 {
		return rapid.SampledFrom(w.pool).Draw(c.T, "of the pool")
	}
	return rapid.SampledFrom([]string{"", "a", "ab", "abc", "abd", "b", "\x00", "\x01", "\x00\x01", "a\x00", "\x01a", "\xff\xfe", "é", " "}).Draw(c.T, "common")
}

func matches(subs map[string]bool, first []byte) bool {
	for t := range subs {
		if strings.HasPrefix(string(first), t) {
			return true
		}
	}
	return false
}

func copySet(m map[string]bool) map[string]bool {
	o := map[string]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

// set changes a subscription.
func (sb *subscriber) set(topic string, on bool) error {
	if sb.typ == zmq4.XSub {
		b := byte(0)
		if on {
			b = 1
		}
		return sb.s.Send(zmq4.NewMsg(append([]byte{b}, topic...)))
	}
	if on {
		return sb.s.SetOption(zmq4.OptionSubscribe, topic)
	}
	return sb.s.SetOption(zmq4.OptionUnsubscribe, topic)
}

func (w *world) join(first bool) {
	c := w.c
	sb := &subscriber{i: len(w.subs), subs: map[string]bool{}, typ: zmq4.Sub, from: len(w.sent)}
	if rapid.IntRange(0, 3).Draw(c.T, "xsub") == 0 {
		sb.typ = zmq4.XSub
	}
	sb.s = c.New(sb.typ, quiet)
	pre := 0
	if sb.typ == zmq4.Sub {
		for pre = c.Count(0, 4, 150, "subscriptions before"); pre > 0; pre-- {
			t := w.topic()
			if err := sb.set(t, true); err != nil {
				c.Violation("subscribing to %q: %v", t, err)
			}
			sb.subs[t] = true
			c.Class("subscribed before connecting")
		}
		if len(sb.subs) > 0 && rapid.IntRange(0, 2).Draw(c.T, "and out again") == 0 {
			for _, t := range sortedKeys(sb.subs)[:1] {
				sb.set(t, false)
				delete(sb.subs, t)
			}
		}
	}
	c.D("%s %d joins with %q", sb.typ, sb.i, sortedKeys(sb.subs))
	if w.eps != nil {
		for _, ep := range w.eps {
			c.Dial(sb.s, ep)
		}
	} else {
		ep := c.Listen(sb.s, w.kind)
		for _, p := range w.pubs {
			c.Dial(p, ep)
		}
	}
	w.subs = append(w.subs, sb)
	sb.in = vlib.NewInbox(sb.s)
	if w.eps == nil && sb.typ == zmq4.XSub {
		// it accepts connections in the background, and what it sends goes to
		// those it has: probe until all publishers have heard
		c.Must("an XSUB reaches all publishers", func() bool {
			if err := sb.set(flushTopic+"ready", true); err != nil {
				c.Violation("XSUB Send: %v", err)
			}
			for _, p := range w.pubs {
				if !has(p, flushTopic+"ready") {
					return false
				}
			}
			return true
		})
		sb.set(flushTopic+"ready", false)
	}
	t := flushTopic + strconv.Itoa(sb.i)
	if err := sb.set(t, true); err != nil {
		c.Violation("subscribing: %v", err)
	}
	sb.subs[t] = true
	w.await(sb)
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func has(p zmq4.Socket, topic string) bool {
	for _, t := range p.(zmq4.Topics).Topics() {
		if t == topic {
			return true
		}
	}
	return false
}

// await waits until all publishers know the subscriptions of sb.
func (w *world) await(sb *subscriber) {
	w.nb++
	b := barrierTopic + strconv.Itoa(w.nb)
	old := sb.barrier
	sb.barrier = b
	if old != "" {
		if err := sb.set(old, false); err != nil {
			w.c.Violation("unsubscribing: %v", err)
		}
	}
	if err := sb.set(b, true); err != nil {
		w.c.Violation("subscribing: %v", err)
	}
	for _, p := range w.pubs {
		w.c.Must(fmt.Sprintf("a publisher learns of the subscriptions of %s %d", sb.typ, sb.i), func() bool { return has(p, b) })
	}
	sb.states = []map[string]bool{copySet(sb.subs)}
}

// flush waits until all that was published has arrived.
func (w *world) flush() {
	for _, sb := range w.subs {
		if sb.left {
			continue
		}
		for pi, p := range w.pubs {
			sb.flushes++
			id := fmt.Sprintf("%d/%d", pi, sb.flushes)
			if err := vlib.Put(p, false, [][]byte{[]byte(flushTopic + strconv.Itoa(sb.i)), []byte(id)}); err != nil {
				w.c.Violation("publishing: %v", err)
			}
			w.c.Must(fmt.Sprintf("%s %d goes on receiving from publisher %d", sb.typ, sb.i, pi), func() bool {
				all := sb.in.All()
				for k := len(all) - 1; k >= 0 && k > len(all)-4000; k-- {
					if len(all[k]) == 2 && string(all[k][0]) == flushTopic+strconv.Itoa(sb.i) && string(all[k][1]) == id {
						return true
					}
				}
				return false
			})
		}
	}
	w.open = len(w.sent)
	clear(w.last)
}

func (w *world) message(pub int) published {
	c := w.c
	t := []byte(w.topic())
	if again := w.last[pub]; again != nil && rapid.IntRange(0, 2).Draw(c.T, "the same again") == 0 {
		t = append([]byte(nil), again...)
	} else if rapid.IntRange(0, 2).Draw(c.T, "longer") == 0 {
		t = append(t, rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(c.T, "suffix")...)
	}
	id := []byte(fmt.Sprintf("#%d:%d", pub, len(w.sent)))
	var fs [][]byte
	if rapid.IntRange(0, 4).Draw(c.T, "single") == 0 {
		fs = [][]byte{append(append(t, '|'), id...)}
	} else {
		fs = [][]byte{t}
		for n := rapid.IntRange(0, 3).Draw(c.T, "frames"); n > 0; n-- {
			fs = append(fs, c.Frame(3000))
		}
		fs = append(fs, id)
		w.last[pub] = t
	}
	return published{pub: pub, frames: fs, must: map[int]bool{}, may: map[int]bool{}}
}

// epoch has subscriptions change and messages be published; if racing, at the
// same time.
func (w *world) epoch(racing bool) {
	c := w.c
	type change struct {
		topic string
		on    bool
	}
	changes := make([][]change, len(w.subs))
	any := false
	for i, sb := range w.subs {
		if sb.left {
			continue
		}
		for n := rapid.IntRange(0, 3).Draw(c.T, "changes"); n > 0; n-- {
			ch := change{w.topic(), rapid.IntRange(0, 2).Draw(c.T, "on") > 0}
			if lf := w.last[rapid.IntRange(0, len(w.pubs)-1).Draw(c.T, "of publisher")]; lf != nil && rapid.IntRange(0, 2).Draw(c.T, "what was sent last") == 0 {
				ch.topic = string(lf)
				ch.on = !sb.subs[ch.topic] || ch.on && rapid.Bool().Draw(c.T, "on again")
			}
			if !ch.on && len(sb.subs) > 1 && !sb.subs[ch.topic] && rapid.Bool().Draw(c.T, "an existing one") {
				ch.topic = rapid.SampledFrom(sortedKeys(sb.subs)).Draw(c.T, "which")
			}
			if strings.HasPrefix(ch.topic, flushTopic) {
				continue
			}
			any = true
			changes[i] = append(changes[i], ch)
			if ch.on {
				sb.subs[ch.topic] = true
			} else {
				delete(sb.subs, ch.topic)
			}
			sb.states = append(sb.states, copySet(sb.subs))
			for k := max(w.open, sb.from); k < len(w.sent); k++ {
				yes := matches(sb.subs, w.sent[k].frames[0])
				w.sent[k].must[sb.i] = w.sent[k].must[sb.i] && yes
				w.sent[k].may[sb.i] = w.sent[k].may[sb.i] || yes
			}
			c.D("%d %v%q", sb.i, map[bool]string{true: "+", false: "-"}[ch.on], ch.topic)
		}
	}
	apply := func() {
		var wg sync.WaitGroup
		for i, sb := range w.subs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, ch := range changes[i] {
					if err := sb.set(ch.topic, ch.on); err != nil {
						c.Errorf("VIOLATED: subscription change of %s %d: %v", sb.typ, sb.i, err)
					}
				}
			}()
		}
		wg.Wait()
	}
	await := func() {
		if any {
			for _, sb := range w.subs {
				if !sb.left {
					w.await(sb)
				}
			}
		}
	}
	if !racing {
		c.Within("changing subscriptions", apply)
		await()
	}
	start := len(w.sent)
	batch := make([][]published, len(w.pubs))
	most := rapid.SampledFrom([]int{2, 25}).Draw(c.T, "at most")
	for n := rapid.IntRange(0, most).Draw(c.T, "messages"); n > 0; n-- {
		p := rapid.IntRange(0, len(w.pubs)-1).Draw(c.T, "publisher")
		m := w.message(p)
		for _, sb := range w.subs {
			if sb.left {
				continue
			}
			k := 0
			for _, st := range sb.states {
				if matches(st, m.frames[0]) {
					k++
				}
			}
			m.must[sb.i] = k == len(sb.states)
			m.may[sb.i] = k > 0
		}
		w.sent = append(w.sent, m)
		batch[p] = append(batch[p], m)
	}
	c.D("%d messages racing=%v", len(w.sent)-start, racing)
	publish := func() {
		var wg sync.WaitGroup
		for i, p := range w.pubs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, m := range batch[i] {
					if err := vlib.Put(p, k%2 == 0, m.frames); err != nil {
						c.Errorf("VIOLATED: publishing: %v", err)
					}
				}
			}()
		}
		wg.Wait()
	}
	if racing {
		done := make(chan bool)
		go func() { apply(); close(done) }()
		c.Within("publishing", publish)
		c.Within("changing subscriptions", func() { <-done })
		await()
	} else {
		c.Within("publishing", publish)
	}
	if rapid.Bool().Draw(c.T, "flush") {
		w.flush()
	} else {
		// the next change of subscriptions may find the last messages
		// still queued, or not
		c.D("no flush")
		time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 100, 1000, 3000}).Draw(c.T, "µs")) * time.Microsecond)
	}
	for _, sb := range w.subs {
		sb.states = []map[string]bool{copySet(sb.subs)}
	}
}

// check compares what arrived with the model.
func (w *world) check() {
	c := w.c
	for _, sb := range w.subs {
		next := make([]int, len(w.pubs)) // per publisher, index into w.sent
		for i := range next {
			next[i] = 0
		}
		for _, f := range sb.in.All() {
			if bytes.HasPrefix(f[0], []byte(flushTopic)) {
				continue
			}
			last := f[len(f)-1]
			k := bytes.LastIndexByte(last, '#')
			if k < 0 {
				c.Violation("%s %d received %s, which was not published", sb.typ, sb.i, vlib.Clip(f))
			}
			var pub, seq int
			if n, _ := fmt.Sscanf(string(last[k:]), "#%d:%d", &pub, &seq); n != 2 || seq >= len(w.sent) || w.sent[seq].pub != pub || !vlib.Same(w.sent[seq].frames, f) {
				c.Violation("%s %d received %s, which was not published", sb.typ, sb.i, vlib.Clip(f))
			}
			m := w.sent[seq]
			if seq < next[pub] {
				c.Violation("%s %d received %s again or out of order", sb.typ, sb.i, vlib.Clip(f))
			}
			for ; next[pub] < seq; next[pub]++ {
				if s := w.sent[next[pub]]; s.pub == pub && s.must[sb.i] {
					c.Violation("%s %d did not receive %s of publisher %d", sb.typ, sb.i, vlib.Clip(s.frames), pub)
				}
			}
			next[pub] = seq + 1
			if !m.may[sb.i] {
				c.Violation("%s %d received %s, which it is not subscribed to", sb.typ, sb.i, vlib.Clip(f))
			}
		}
		for pub := range w.pubs {
			for k := next[pub]; k < len(w.sent); k++ {
				if s := w.sent[k]; s.pub == pub && s.must[sb.i] {
					c.Violation("%s %d did not receive %s of publisher %d", sb.typ, sb.i, vlib.Clip(s.frames), pub)
				}
			}
		}
	}
}

// topics compares the topics that sockets report.
func (w *world) topics() {
	c := w.c
	all := map[string]bool{}
	for _, sb := range w.subs {
		if sb.left {
			continue
		}
		mine := copySet(sb.subs)
		mine[sb.barrier] = true
		for t := range mine {
			all[t] = true
		}
		if sb.typ == zmq4.Sub {
			got := sb.s.(zmq4.Topics).Topics()
			if !reflect.DeepEqual(got, sortedKeys(mine)) {
				c.Violation("SUB %d reports topics %q, its subscriptions are %q", sb.i, got, sortedKeys(mine))
			}
		}
	}
	for i, p := range w.pubs {
		var got []string
		// a subscriber that left is noticed in time
		if !vlib.Eventually(vlib.Long, func() bool {
			got = p.(zmq4.Topics).Topics()
			return len(got) == len(all) && (len(got) == 0 || reflect.DeepEqual(got, sortedKeys(all)))
		}) {
			c.Violation("publisher %d reports topics %q, the subscriptions are %q", i, got, sortedKeys(all))
		}
	}
}

// TestHistory drives publishers and subscribers.
func TestHistory(t *testing.T) {
	vlib.Run(t, 1200, 20000, "1-3 PUB or XPUB and 1-4 SUB or XSUB sockets over tcp, ipc, inproc or in-memory transports, either side listening, go through 1-7 epochs of subscribing, unsubscribing and publishing (topics empty, binary, long, prefixes of one another; 1-5 frames), with subscribers joining (with subscriptions already made) and leaving; in racing epochs messages are published while subscriptions change; a set-of-prefixes model says for each message who must and who may get it, in which order; reported topics are compared with the model; non-trivial: at least one message must be received by some subscribers and must not by others", func(c *vlib.C) {
		w := &world{c: c, kind: rapid.SampledFrom([]string{"vmem", "vmem", "vmem-chunked", "inproc", "ipc", "tcp"}).Draw(c.T, "transport")}
		w.pool = []string{"", "x", "xy"}
		for n := c.Count(0, 4, 120, "topics"); n > 0; n-- {
			b := c.Frame(400)
			w.pool = append(w.pool, string(b))
			if len(b) > 0 {
				w.pool = append(w.pool, string(b[:len(b)-1]))
			}
		}
		subsListen := rapid.IntRange(0, 2).Draw(c.T, "subscribers listen") == 0
		c.D("%s subscribers listen=%v", w.kind, subsListen)
		c.Class("%s", w.kind)
		for n := rapid.IntRange(1, 3).Draw(c.T, "publishers"); n > 0; n-- {
			typ := rapid.SampledFrom([]zmq4.SocketType{zmq4.Pub, zmq4.XPub}).Draw(c.T, "type")
			p := c.New(typ, quiet)
			c.D("%s", typ)
			w.pubs = append(w.pubs, p)
			w.last = append(w.last, nil)
			if !subsListen {
				w.eps = append(w.eps, c.Listen(p, w.kind))
			}
		}
		for n := rapid.IntRange(1, 3).Draw(c.T, "subscribers"); n > 0; n-- {
			w.join(true)
		}
		for n := rapid.IntRange(1, 7).Draw(c.T, "epochs"); n > 0; n-- {
			switch rapid.IntRange(0, 9).Draw(c.T, "step") {
			case 0:
				if len(w.subs) < 5 {
					w.join(false)
					c.Class("late joiner")
				}
			case 1:
				sb := rapid.SampledFrom(w.subs).Draw(c.T, "leaver")
				if !sb.left {
					c.D("%d leaves", sb.i)
					c.Class("leaver")
					sb.left = true
					for k := w.open; k < len(w.sent); k++ {
						w.sent[k].must[sb.i] = false
					}
					c.Within("Close", func() { sb.s.Close() })
				}
			case 2, 3, 4:
				w.epoch(true)
				c.Class("racing")
			default:
				w.epoch(false)
			}
		}
		w.flush()
		w.check()
		w.topics()
		some, none := false, false
		for _, m := range w.sent {
			for i := range w.subs {
				if _, was := m.must[i]; was {
					some = some || m.must[i]
					none = none || !m.may[i]
				}
			}
		}
		if some && none {
			c.Nontrivial()
		}
	})
}
