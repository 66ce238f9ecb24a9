package vlib

import (
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/transport"
)

// Mem is an in-memory transport ("vmem") whose connections can be made to
// stall, to break, and to hand out data in pieces of any size.
type Mem struct {
	mu    sync.Mutex
	ls    map[string]*memListener
	fails map[string]int         // how many dials to refuse
	tries map[string][]time.Time // when sockets dialed
}

// MemRefuse has the next n dials of sockets to name refused.
func MemRefuse(name string, n int) {
	memNet.mu.Lock()
	memNet.fails[name] = n
	memNet.mu.Unlock()
}

// MemTries returns when sockets dialed name.
func MemTries(name string) []time.Time {
	memNet.mu.Lock()
	defer memNet.mu.Unlock()
	return append([]time.Time(nil), memNet.tries[name]...)
}

var memNet = func() *Mem {
	m := &Mem{ls: map[string]*memListener{}, fails: map[string]int{}, tries: map[string][]time.Time{}}
	if err := zmq4.RegisterTransport("vmem", m); err != nil {
		panic(err)
	}
	return m
}()

type memAddr string

func (a memAddr) Network() string { return "vmem" }
func (a memAddr) String() string  { return string(a) }

type memListener struct {
	name  string
	m     *Mem
	conns chan *MemConn
	done  chan struct{}
	once  sync.Once
	pat   []int
	cap   int

	failing chan error // what Accept returns before anything else
}

// MemAcceptFail has the next n Accepts of the listener at name fail.
func MemAcceptFail(name string, n int, err error) {
	memNet.mu.Lock()
	l := memNet.ls[name]
	memNet.mu.Unlock()
	for ; l != nil && n > 0; n-- {
		l.failing <- err
	}
}

func (m *Mem) Addr(ep string) (string, error) { return ep, nil }

func (m *Mem) Listen(ctx context.Context, addr string) (net.Listener, error) {
	return m.listen(addr)
}

func (m *Mem) listen(addr string) (*memListener, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if _, dup := m.ls[addr]; dup {
		return nil, fmt.Errorf("vmem: %q in use", addr)
	}
	pat := patFor(addr)
	l := &memListener{name: addr, m: m, conns: make(chan *MemConn, 1024), done: make(chan struct{}), failing: make(chan error, 100), pat: pat.chunks, cap: pat.cap}
	m.ls[addr] = l
	return l, nil
}

func (m *Mem) Dial(ctx context.Context, _ transport.Dialer, addr string) (net.Conn, error) {
	if strings.HasPrefix(addr, "hole") {
		// nobody ever answers
		<-ctx.Done()
		return nil, ctx.Err()
	}
	m.mu.Lock()
	m.tries[addr] = append(m.tries[addr], time.Now())
	refuse := m.fails[addr] > 0
	if refuse {
		m.fails[addr]--
	}
	m.mu.Unlock()
	if refuse {
		return nil, fmt.Errorf("vmem: %q refused", addr)
	}
	return m.dial(addr)
}

func (m *Mem) dial(addr string) (net.Conn, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	l := m.ls[addr]
	if l == nil || len(l.conns) == cap(l.conns) {
		return nil, fmt.Errorf("vmem: %q refused", addr)
	}
	a, b := MemPipe(l.pat, l.cap)
	select {
	case <-l.done:
		return nil, fmt.Errorf("vmem: %q refused", addr)
	case l.conns <- b:
		return a, nil
	}
}

// MemListen listens like a raw peer would.
func MemListen(name string) (net.Listener, error) { return memNet.listen(name) }

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case <-l.done:
		return nil, net.ErrClosed
	case err := <-l.failing:
		return nil, err
	case c := <-l.conns:
		return c, nil
	}
}

func (l *memListener) Close() error {
	err := net.ErrClosed
	l.once.Do(func() {
		err = nil
		close(l.done)
		l.m.mu.Lock()
		delete(l.m.ls, l.name)
		// those not accepted are refused
		defer l.m.mu.Unlock()
		for {
			select {
			case c := <-l.conns:
				c.Close()
			default:
				return
			}
		}
	})
	return err
}

func (l *memListener) Addr() net.Addr { return memAddr(l.name) }

type memPat struct {
	chunks []int
	cap    int
}

var (
	patMu sync.Mutex
	pats  = map[string]memPat{}
)

func patFor(name string) memPat {
	patMu.Lock()
	defer patMu.Unlock()
	return pats[name]
}

// MemName returns a fresh vmem address whose connections hand out data in
// pieces of the given sizes, in turn, and hold cap bytes (0: any number).
func MemName(chunks []int, cap int) string {
	n := Unique("m")
	patMu.Lock()
	pats[n] = memPat{chunks, cap}
	patMu.Unlock()
	return n
}

type memHalf struct {
	mu       sync.Mutex
	cond     *sync.Cond
	buf      []byte
	total    int
	cap      int
	wclosed  bool // no more data will come
	rclosed  bool // nobody reads any more
	stalled  bool // the reader gets nothing
	failRead error
	chunks   []int
	next     int
	record   bool
	rec      []byte
	rdl, wdl time.Time
}

// MemConn is one end of an in-memory connection.
type MemConn struct {
	in, out *memHalf
	once    sync.Once
}

func newHalf(chunks []int, cap int) *memHalf {
	h := &memHalf{chunks: chunks, cap: cap}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// RecordAll has all connections record from their beginning.
var RecordAll bool

// MemPipe returns the two ends of a connection.
func MemPipe(chunks []int, cap int) (*MemConn, *MemConn) {
	x, y := newHalf(chunks, cap), newHalf(chunks, cap)
	x.record, y.record = RecordAll, RecordAll
	return &MemConn{in: x, out: y}, &MemConn{in: y, out: x}
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *MemConn) Read(p []byte) (int, error) {
	h := c.in
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.rclosed:
			return 0, net.ErrClosed
		case expired(h.rdl):
			return 0, os.ErrDeadlineExceeded
		case h.failRead != nil:
			return 0, h.failRead
		case len(p) == 0:
			return 0, nil
		case h.stalled:
		case len(h.buf) > 0:
			n := len(h.buf)
			if len(h.chunks) > 0 {
				n = min(n, max(1, h.chunks[h.next%len(h.chunks)]))
				h.next++
			}
			n = copy(p, h.buf[:n])
			h.buf = h.buf[n:]
			if len(h.buf) == 0 {
				h.buf = nil
			}
			h.cond.Broadcast()
			return n, nil
		case h.wclosed:
			return 0, io.EOF
		}
		h.cond.Wait()
	}
}

func (c *MemConn) Write(p []byte) (int, error) {
	h := c.out
	h.mu.Lock()
	defer h.mu.Unlock()
	done := 0
	for {
		switch {
		case h.wclosed:
			return done, net.ErrClosed
		case h.rclosed:
			return done, io.ErrClosedPipe
		case expired(h.wdl):
			return done, os.ErrDeadlineExceeded
		}
		n := len(p) - done
		if h.cap > 0 {
			n = min(n, h.cap-len(h.buf))
		}
		if n > 0 || len(p) == done {
			h.buf = append(h.buf, p[done:done+n]...)
			if h.record {
				h.rec = append(h.rec, p[done:done+n]...)
			}
			h.total += n
			done += n
			h.cond.Broadcast()
			if done == len(p) {
				return done, nil
			}
			continue
		}
		h.cond.Wait()
	}
}

func (c *MemConn) Close() error {
	err := net.ErrClosed
	c.once.Do(func() {
		err = nil
		c.in.mu.Lock()
		c.in.rclosed = true
		c.in.cond.Broadcast()
		c.in.mu.Unlock()
		c.out.mu.Lock()
		c.out.wclosed = true
		c.out.cond.Broadcast()
		c.out.mu.Unlock()
	})
	return err
}

// Stall stops, or resumes, handing out data to the reader at this end.
func (c *MemConn) Stall(on bool) {
	c.in.mu.Lock()
	c.in.stalled = on
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// Fail makes reads at this end fail.
func (c *MemConn) Fail(err error) {
	c.in.mu.Lock()
	c.in.failRead = err
	c.in.cond.Broadcast()
	c.in.mu.Unlock()
}

// Break makes reads at the other end fail.
func (c *MemConn) Break(err error) {
	c.out.mu.Lock()
	c.out.failRead = err
	c.out.cond.Broadcast()
	c.out.mu.Unlock()
}

// Record keeps all that arrives at this end for Recorded.
func (c *MemConn) Record() {
	c.in.mu.Lock()
	c.in.record = true
	c.in.mu.Unlock()
}

// Recorded returns all that arrived at this end since Record.
func (c *MemConn) Recorded() []byte {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return append([]byte(nil), c.in.rec...)
}

// Pending returns how many bytes wait for the reader at this end.
func (c *MemConn) Pending() int {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return len(c.in.buf)
}

// PeerClosed reports whether the other end was closed.
func (c *MemConn) PeerClosed() bool {
	c.in.mu.Lock()
	defer c.in.mu.Unlock()
	return c.in.wclosed
}

func (c *MemConn) LocalAddr() net.Addr  { return memAddr("local") }
func (c *MemConn) RemoteAddr() net.Addr { return memAddr("remote") }

func (h *memHalf) deadline(d *time.Time, t time.Time) {
	h.mu.Lock()
	*d = t
	h.cond.Broadcast()
	h.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t)+time.Millisecond, func() {
			h.mu.Lock()
			h.cond.Broadcast()
			h.mu.Unlock()
		})
	}
}

func (c *MemConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *MemConn) SetReadDeadline(t time.Time) error  { c.in.deadline(&c.in.rdl, t); return nil }
func (c *MemConn) SetWriteDeadline(t time.Time) error { c.out.deadline(&c.out.wdl, t); return nil }
