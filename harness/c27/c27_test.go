package c27

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var names = []string{zmq4.OptionSubscribe, zmq4.OptionUnsubscribe, zmq4.OptionHWM, zmq4.OptionIdentity, "", "x", "hwm", "subscribe", "LINGER"}

func value(c *vlib.C) any {
	switch rapid.IntRange(0, 11).Draw(c.T, "value") {
	case 0, 1:
		return rapid.IntRange(0, 5000).Draw(c.T, "int")
	case 2:
		return rapid.IntRange(-100000, -1).Draw(c.T, "negative")
	case 3, 4, 5:
		return rapid.SampledFrom([]string{"", "a", "ab", "b", "\x00", "\xff\xfe", "topic"}).Draw(c.T, "string")
	case 6:
		return []byte("bytes")
	case 7:
		return nil
	case 8:
		return rapid.SampledFrom([]any{int64(7), uint(7), int32(7), uint8(7), true, 1.5, -1.5, struct{ A int }{3}, time.Second, zmq4.SocketIdentity("id")}).Draw(c.T, "other")
	case 9:
		return strings.Repeat("long", 200)
	default:
		return rapid.Int().Draw(c.T, "anyint")
	}
}

// accepts is the documented behaviour.
func accepts(typ zmq4.SocketType, name string, v any) bool {
	switch typ {
	case zmq4.Pub:
		n, ok := v.(int)
		return name == zmq4.OptionHWM && ok && n >= 0
	case zmq4.Sub:
		_, ok := v.(string)
		return ok && (name == zmq4.OptionSubscribe || name == zmq4.OptionUnsubscribe)
	}
	return true
}

// TestOptions runs drawn calls against a map.
func TestOptions(t *testing.T) {
	vlib.Run(t, 5000, 120000, "1-40 calls of SetOption and GetOption with 9 names and values of 15 kinds on a socket of any type, listening or not, against a map of accepted values and, for SUB, a set of topics; non-trivial: a refused call after an accepted one of the same option", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		s := c.New(typ)
		if rapid.IntRange(0, 3).Draw(c.T, "listening") == 0 {
			c.Listen(s, "inproc")
		}
		model := map[string]any{}
		topics := map[string]bool{}
		for n := rapid.IntRange(1, 40).Draw(c.T, "calls"); n > 0; n-- {
			name := rapid.SampledFrom(names).Draw(c.T, "name")
			switch rapid.IntRange(0, 8).Draw(c.T, "bias") {
			case 0, 1, 2:
				if typ == zmq4.Pub {
					name = zmq4.OptionHWM
				} else if typ == zmq4.Sub {
					name = zmq4.OptionSubscribe
				}
			}
			if rapid.IntRange(0, 4).Draw(c.T, "get") > 0 {
				v := value(c)
				if i, ok := v.(int); ok && typ == zmq4.Pub && i > 5000 {
					v = i % 5000
				}
				ok := accepts(typ, name, v)
				err := s.SetOption(name, v)
				c.D("set %q %T %v -> %v", name, v, ok, err)
				if ok != (err == nil) {
					c.Violation("%s: SetOption(%q, %T(%v)) returned %v", typ, name, v, v, err)
				}
				if !ok {
					if !errors.Is(err, zmq4.ErrBadProperty) {
						c.Violation("%s: SetOption(%q, %T(%v)) refused with %v", typ, name, v, v, err)
					}
					if _, had := model[name]; had {
						c.Nontrivial()
					}
				} else {
					model[name] = v
					if typ == zmq4.Sub {
						if name == zmq4.OptionSubscribe {
							topics[v.(string)] = true
						} else {
							delete(topics, v.(string))
						}
					}
				}
			}
			for _, n := range append([]string{name}, names...) {
				got, err := s.GetOption(n)
				want, ok := model[n]
				if ok != (err == nil) || ok && !reflect.DeepEqual(got, want) {
					c.Violation("%s: GetOption(%q) is %T(%v), %v; accepted %v: %T(%v)", typ, n, got, got, err, ok, want, want)
				}
				if !ok && !errors.Is(err, zmq4.ErrBadProperty) {
					c.Violation("%s: GetOption(%q) of an option never set: %v", typ, n, err)
				}
			}
			if ts, ok := s.(zmq4.Topics); ok {
				want := []string{}
				for k := range topics {
					want = append(want, k)
				}
				sort.Strings(want)
				if got := ts.Topics(); strings.Join(got, "\x01,") != strings.Join(want, "\x01,") || len(got) != len(want) {
					c.Violation("%s: Topics() is %q, should be %q", typ, got, want)
				}
			}
		}
		if s.Type() != typ {
			c.Violation("a %s says it is a %s", typ, s.Type())
		}
	})
}

// TestRoles checks what a socket type does not do, in several states.
func TestRoles(t *testing.T) {
	vlib.Run(t, 1200, 30000, "a socket of any type, fresh, listening, with 1-3 peers joined, or with a peer that left; receiving on PUB and PUSH and sending on PULL, plain and multipart, any number of times; Addr before and after listening; a second Listen on the same or another endpoint, after which the first still serves; non-trivial: a peer had joined", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		s := c.New(typ)
		roles := func(state string) {
			c.D("%s %s", typ, state)
			if s.Type() != typ {
				c.Violation("a %s says it is a %s", typ, s.Type())
			}
			n := rapid.IntRange(1, 3).Draw(c.T, "tries")
			for i := 0; i < n; i++ {
				switch typ {
				case zmq4.Pub, zmq4.Push:
					if m, err := c.RecvErr(s); err == nil {
						c.Violation("Recv on %s returned %s without error", typ, vlib.Clip(m.Frames))
					}
				case zmq4.Pull:
					fs := c.Frames(300)
					if rapid.IntRange(0, 9).Draw(c.T, "none") == 0 {
						fs = nil
					}
					if err := c.SendErr(s, rapid.Bool().Draw(c.T, "multi"), fs...); err == nil {
						c.Violation("Send on %s succeeded", typ)
					}
				}
			}
		}
		if rapid.Bool().Draw(c.T, "bias") {
			typ = rapid.SampledFrom([]zmq4.SocketType{zmq4.Pub, zmq4.Push, zmq4.Pull}).Draw(c.T, "restricted")
			s = c.New(typ)
		}
		roles("fresh")
		if s.Addr() != nil {
			c.Violation("%s has address %v before listening", typ, s.Addr())
		}
		kind := rapid.SampledFrom([]string{"tcp", "ipc", "vmem"}).Draw(c.T, "transport")
		ep := c.Listen(s, kind)
		a := s.Addr()
		if a == nil || a.String() == "" {
			c.Violation("%s has address %v after listening", typ, a)
		}
		roles("listening")
		n := rapid.IntRange(0, 3).Draw(c.T, "peers")
		for i := 0; i < n; i++ {
			p := c.Join(s, ep, vlib.Unique("p"))
			c.Nontrivial()
			roles("joined")
			if rapid.Bool().Draw(c.T, "leave") {
				p.Close()
				roles("left")
			} else if typ != zmq4.Pair && i == n-1 {
				c.Class("peer stays")
			}
			p.Close()
		}
		for i := rapid.IntRange(1, 3).Draw(c.T, "second listens"); i > 0; i-- {
			ep2 := ep
			if rapid.Bool().Draw(c.T, "elsewhere") {
				ep2 = c.Fresh(rapid.SampledFrom([]string{"tcp", "ipc", "inproc"}).Draw(c.T, "where"))
			}
			var err error
			c.Within("a second Listen", func() { err = s.Listen(ep2) })
			c.D("second listen %s", ep2)
			if err == nil {
				c.Violation("%s listens on %s and %s", typ, ep, ep2)
			}
			if b := s.Addr(); b == nil || b.String() != a.String() {
				c.Violation("%s has address %v instead of %v after a second Listen", typ, b, a)
			}
			if ep2 != ep && !strings.HasPrefix(ep2, "tcp") {
				if l := c.New(zmq4.Rep); l.Listen(ep2) != nil {
					c.Violation("a refused second Listen took %s", ep2)
				}
			}
		}
		c.Alive(s, ep)
		roles("serving")
	})
}

// TestHWM has the accepted high-water mark, and no other, take effect.
func TestHWM(t *testing.T) {
	vlib.Run(t, 300, 8000, "1-6 SetOption calls for HWM on a PUB, valid (1-40) and not, then a subscriber that stops reading gets 400 messages published; it later receives the first high-water-mark ones, and not many more; non-trivial: a refused value after the last accepted one", func(c *vlib.C) {
		s := c.New(zmq4.Pub)
		hwm := -1
		for n := rapid.IntRange(1, 6).Draw(c.T, "calls"); n > 0 || hwm < 0; n-- {
			if hwm < 0 || rapid.Bool().Draw(c.T, "valid") {
				hwm = rapid.IntRange(1, 40).Draw(c.T, "hwm")
				c.D("hwm %d", hwm)
				if err := s.SetOption(zmq4.OptionHWM, hwm); err != nil {
					c.Violation("SetOption(HWM, %d): %v", hwm, err)
				}
				continue
			}
			v := rapid.SampledFrom([]any{-1, int64(2000), "2000", uint(2000), nil, 2000.0, -2000}).Draw(c.T, "bad")
			c.D("bad %T %v", v, v)
			c.Nontrivial()
			if err := s.SetOption(zmq4.OptionHWM, v); err == nil {
				c.Violation("SetOption(HWM, %T %v) succeeded", v, v)
			}
		}
		ep := "vmem://" + vlib.MemName(nil, 64)
		if err := s.Listen(ep); err != nil {
			c.Violation("Listen: %v", err)
		}
		p := c.Join(s, ep, "sub")
		p.WriteMsg([]byte("\x01"))
		c.Must("the subscription arrives", func() bool { return len(s.(zmq4.Topics).Topics()) == 1 })
		const total = 400
		for i := 0; i < total; i++ {
			c.Send(s, false, []byte(fmt.Sprintf("%05d%s", i, strings.Repeat("x", 200))))
		}
		got := 0
		first := true
		var wg sync.WaitGroup
		wg.Add(1)
		stop := make(chan struct{})
		go func() { // a message for each one that may have been dropped
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					vlib.Put(s, false, [][]byte{[]byte("end")})
					time.Sleep(time.Millisecond)
				}
			}
		}()
		for {
			m, err := p.ReadMsgT(vlib.Long)
			if err != nil {
				close(stop)
				wg.Wait()
				c.Violation("subscriber: %v", err)
			}
			if string(m[0]) == "end" {
				break
			}
			var i int
			fmt.Sscanf(string(m[0][:5]), "%d", &i)
			if i != got {
				first = false
			}
			if first || i == got {
				got++
			} else {
				got++
			}
			if first && i != got-1 {
				first = false
			}
		}
		close(stop)
		wg.Wait()
		c.D("got %d", got)
		if got < hwm || !first && got <= hwm {
			c.Violation("the subscriber got %d messages, the high-water mark is %d", got, hwm)
		}
		if got > 2*hwm+10 {
			c.Violation("the subscriber got %d messages, the high-water mark is %d", got, hwm)
		}
	})
}

// TestConcurrentOptions calls from several goroutines.
func TestConcurrentOptions(t *testing.T) {
	vlib.Run(t, 200, 6000, "2-6 goroutines setting and reading the same options 10-200 times while peers join; every value read is one that was set, the last one is the last of some goroutine; non-trivial: always", func(c *vlib.C) {
		typ := rapid.SampledFrom(vlib.Types).Draw(c.T, "type")
		s := c.New(typ)
		ep := c.Listen(s, "vmem")
		g := rapid.IntRange(2, 6).Draw(c.T, "goroutines")
		n := rapid.IntRange(10, 200).Draw(c.T, "calls")
		c.D("%s %d×%d", typ, g, n)
		c.Nontrivial()
		name := "opt"
		val := func(i, j int) any { return i*1000 + j }
		if typ == zmq4.Pub {
			name = zmq4.OptionHWM
		}
		if typ == zmq4.Sub {
			name = zmq4.OptionSubscribe
			val = func(i, j int) any { return fmt.Sprint(i, ".", j) }
		}
		errs := make(chan error, g+1)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					if err := s.SetOption(name, val(i, j)); err != nil && typ != zmq4.Sub {
						errs <- err
						return
					}
					v, err := s.GetOption(name)
					if err != nil || reflect.TypeOf(v) != reflect.TypeOf(val(0, 0)) {
						errs <- fmt.Errorf("read %v, %v", v, err)
						return
					}
				}
			}()
		}
		for i := rapid.IntRange(0, 3).Draw(c.T, "peers"); i > 0; i-- {
			p := c.Join(s, ep, vlib.Unique("p"))
			go func() {
				for {
					if _, err := p.ReadMsg(); err != nil {
						return
					}
				}
			}()
		}
		c.Within("option calls", wg.Wait)
		select {
		case err := <-errs:
			c.Violation("%v", err)
		default:
		}
		v, err := s.GetOption(name)
		ok := false
		for i := 0; i < g; i++ {
			ok = ok || err == nil && reflect.DeepEqual(v, val(i, n-1))
		}
		if !ok {
			c.Violation("at last GetOption gives %v, %v", v, err)
		}
		if typ == zmq4.Sub {
			if got := len(s.(zmq4.Topics).Topics()); got != g*n {
				c.Violation("%d topics after %d subscriptions", got, g*n)
			}
		}
	})
}
