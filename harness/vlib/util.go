package vlib

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	zmq4 "github.com/luxfi/zmq/v4"
	"pgregory.net/rapid"
)

var uniq atomic.Int64

// Unique returns a name not used before in this process.
func Unique(prefix string) string { return fmt.Sprintf("%s%d", prefix, uniq.Add(1)) }

// Fill returns n bytes made from seed.
func Fill(n int, seed uint64) []byte {
	b := make([]byte, n)
	x := seed*2862933555777941757 + 3037000493
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 32)
	}
	return b
}

// Frame draws a frame of up to max bytes.
func (c *C) Frame(max int) []byte {
	k := rapid.IntRange(0, 19).Draw(c.T, "class")
	n := 0
	switch {
	case k < 3:
		n = 0
	case k < 9:
		return rapid.SliceOfN(rapid.Byte(), 1, 10).Draw(c.T, "bytes")
	case k < 14:
		n = rapid.SampledFrom([]int{253, 254, 255, 256, 257, 258}).Draw(c.T, "size")
	case k < 17:
		n = rapid.IntRange(1, 1200).Draw(c.T, "size")
	case k < 18:
		n = rapid.SampledFrom([]int{4095, 4096, 8192, 65535, 65536, 65537}).Draw(c.T, "size")
	default:
		n = rapid.IntRange(1, 200).Draw(c.T, "size")
		if rapid.IntRange(0, 9).Draw(c.T, "big") == 0 {
			n = rapid.IntRange(1<<16, 3<<20).Draw(c.T, "bigsize")
		}
	}
	if n > max {
		n = max
	}
	return Fill(n, rapid.Uint64().Draw(c.T, "fill"))
}

// Frames draws the frames of a message.
func (c *C) Frames(max int) [][]byte {
	n := 1
	switch k := rapid.IntRange(0, 99).Draw(c.T, "nclass"); {
	case k < 30:
	case k < 90:
		n = rapid.IntRange(2, 5).Draw(c.T, "frames")
	case k == 99 && max > 1000:
		// very many, mostly empty
		fs := make([][]byte, rapid.SampledFrom([]int{65, 129, 257, 600, 1100, 3000}).Draw(c.T, "frames"))
		seed := rapid.Uint64().Draw(c.T, "fill")
		for i := range fs {
			fs[i] = Fill(i%7%3, seed+uint64(i))
		}
		return fs
	default:
		n = rapid.IntRange(6, 40).Draw(c.T, "frames")
	}
	fs := make([][]byte, n)
	for i := range fs {
		fs[i] = c.Frame(max)
		if n > 6 && len(fs[i]) > 3000 {
			fs[i] = fs[i][:3000]
		}
	}
	return fs
}

// Chunks draws a pattern of piece sizes for a vmem connection.
func (c *C) Chunks() []int {
	switch rapid.IntRange(0, 3).Draw(c.T, "chunking") {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return rapid.SliceOfN(rapid.IntRange(1, 12), 1, 6).Draw(c.T, "chunks")
	default:
		return rapid.SliceOfN(rapid.IntRange(1, 70000), 1, 6).Draw(c.T, "chunks")
	}
}

// Sizes describes frames by their sizes.
func Sizes(fs [][]byte) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i, f := range fs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i == 12 {
			fmt.Fprintf(&sb, "…%d", len(fs))
			break
		}
		fmt.Fprintf(&sb, "%d", len(f))
		if len(f) > 0 && len(f) <= 6 {
			fmt.Fprintf(&sb, ":%x", f)
		}
	}
	sb.WriteByte(']')
	return sb.String()
}

// Same compares frames.
func Same(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// CloneFrames copies frames.
func CloneFrames(fs [][]byte) [][]byte {
	o := make([][]byte, len(fs))
	for i, f := range fs {
		o[i] = append([]byte{}, f...)
	}
	return o
}

// S turns frames into a string to compare or to key maps with.
func S(fs [][]byte) string {
	var sb strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&sb, "%d:%s,", len(f), f)
	}
	return sb.String()
}

// Clip shortens what goes into a report.
func Clip(v any) string {
	s := fmt.Sprintf("%q", v)
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// Sock has a socket closed when the case is over.
func (c *C) Sock(s zmq4.Socket) zmq4.Socket {
	c.Cleanup(func() {
		done := make(chan struct{})
		go func() { s.Close(); close(done) }()
		select {
		case <-done:
		case <-time.After(Long):
		}
	})
	return s
}

// New makes a socket of the given type.
func (c *C) New(typ zmq4.SocketType, opts ...zmq4.Option) zmq4.Socket {
	return c.Sock(Make(typ, context.Background(), opts...))
}

// Types are all socket types but STREAM, which does not speak ZMTP.
var Types = []zmq4.SocketType{zmq4.Pair, zmq4.Pub, zmq4.Sub, zmq4.Req, zmq4.Rep, zmq4.Dealer, zmq4.Router, zmq4.Pull, zmq4.Push, zmq4.XPub, zmq4.XSub}

// Make makes a socket of the given type.
func Make(typ zmq4.SocketType, ctx context.Context, opts ...zmq4.Option) zmq4.Socket {
	switch typ {
	case zmq4.Pair:
		return zmq4.NewPair(ctx, opts...)
	case zmq4.Pub:
		return zmq4.NewPub(ctx, opts...)
	case zmq4.Sub:
		return zmq4.NewSub(ctx, opts...)
	case zmq4.Req:
		return zmq4.NewReq(ctx, opts...)
	case zmq4.Rep:
		return zmq4.NewRep(ctx, opts...)
	case zmq4.Dealer:
		return zmq4.NewDealer(ctx, opts...)
	case zmq4.Router:
		return zmq4.NewRouter(ctx, opts...)
	case zmq4.Pull:
		return zmq4.NewPull(ctx, opts...)
	case zmq4.Push:
		return zmq4.NewPush(ctx, opts...)
	case zmq4.XPub:
		return zmq4.NewXPub(ctx, opts...)
	case zmq4.XSub:
		return zmq4.NewXSub(ctx, opts...)
	case zmq4.Stream:
		return zmq4.NewStream(ctx, opts...)
	}
	panic("unknown type " + string(typ))
}

// Fresh returns an unused endpoint to listen on.
func (c *C) Fresh(kind string) string {
	switch kind {
	case "tcp":
		return "tcp://127.0.0.1:0"
	case "ipc":
		return "ipc://" + filepath.Join(c.Dir(), Unique("s"))
	case "inproc":
		return "inproc://" + Unique("i")
	case "vmem":
		return "vmem://" + MemName(nil, 0)
	case "vmem-chunked":
		ch := c.Chunks()
		c.D("chunks %v", ch)
		return "vmem://" + MemName(ch, 0)
	}
	panic(kind)
}

// Dialable returns the endpoint to dial, after a socket listened on ep.
func Dialable(s zmq4.Socket, ep string) string {
	if strings.HasPrefix(ep, "tcp://") {
		if a := s.Addr(); a != nil {
			return "tcp://" + a.String()
		}
	}
	return ep
}

// Listen has s listen on a fresh endpoint, which it returns to be dialed.
func (c *C) Listen(s zmq4.Socket, kind string) string {
	ep := c.Fresh(kind)
	if err := s.Listen(ep); err != nil {
		c.Violation("%s could not listen on %s: %v", s.Type(), ep, err)
	}
	return Dialable(s, ep)
}

// Dial has s dial ep.
func (c *C) Dial(s zmq4.Socket, ep string) {
	var err error
	c.Within(fmt.Sprintf("Dial of %s to %s", s.Type(), ep), func() { err = s.Dial(ep) })
	if err != nil {
		c.Violation("%s could not dial %s: %v", s.Type(), ep, err)
	}
}

// Recv receives the next message, which must come within Long.
func (c *C) Recv(s zmq4.Socket) [][]byte {
	m, err := c.RecvErr(s)
	if err != nil {
		c.Violation("Recv on %s: %v", s.Type(), err)
	}
	return m.Frames
}

// RecvErr receives the next message or an error, within Long.
func (c *C) RecvErr(s zmq4.Socket) (m zmq4.Msg, err error) {
	c.Within(fmt.Sprintf("Recv on %s", s.Type()), func() { m, err = Get(s) })
	return
}

// Send sends a message, which must succeed within Long.
func (c *C) Send(s zmq4.Socket, multi bool, frames ...[]byte) {
	if err := c.SendErr(s, multi, frames...); err != nil {
		c.Violation("Send on %s: %v", s.Type(), err)
	}
}

// SendErr sends a message within Long.
func (c *C) SendErr(s zmq4.Socket, multi bool, frames ...[]byte) (err error) {
	c.Within(fmt.Sprintf("Send on %s", s.Type()), func() { err = Put(s, multi, frames) })
	return
}

// Put sends a message, as a plain or as a multipart one. What was given to
// the socket is overwritten once it has been sent.
func Put(s zmq4.Socket, multi bool, frames [][]byte) error {
	m := zmq4.NewMsgFrom(CloneFrames(frames)...)
	var err error
	if multi {
		err = s.SendMulti(m)
	} else {
		err = s.Send(m)
	}
	if err == nil {
		spoil(m.Frames)
	}
	return err
}

var gets atomic.Int64

// Get receives a message. What the socket returned is now and then
// overwritten, as an application may that goes on to use it, and otherwise
// left as it is, to see that it stays so.
func Get(s zmq4.Socket) (zmq4.Msg, error) {
	m, err := s.Recv()
	if err == nil && gets.Add(1)%2 == 0 {
		fs := CloneFrames(m.Frames)
		spoil(m.Frames)
		m.Frames = fs
	}
	return m, err
}

// spoil overwrites frames, and what an append to them would.
func spoil(fs [][]byte) {
	for i, f := range fs {
		f = f[:cap(f)]
		for j := range f {
			f[j] = '~'
		}
		fs[i] = []byte("spoilt")
	}
	fs = fs[:cap(fs)]
	for i := range fs {
		fs[i] = []byte("spoilt")
	}
}

var (
	portMu    sync.Mutex
	portBlock net.Listener // keeps other processes from the same ports
	firstPort int
	nextPort  int
)

// FreePort returns a tcp port that nothing listens on, outside the range the
// system uses for outgoing connections, and not returned lately, nor ever in
// another process of the harness.
func FreePort() int {
	portMu.Lock()
	defer portMu.Unlock()
	const block = 400
	for i := os.Getpid() % 50; portBlock == nil; i = (i + 1) % 50 {
		l, err := net.Listen("unix", fmt.Sprintf("@zmqverif-ports-%d", i))
		if err != nil {
			time.Sleep(time.Millisecond)
			continue
		}
		portBlock, firstPort = l, 10000+i*block
		nextPort = firstPort
	}
	for {
		nextPort++
		if nextPort >= firstPort+block {
			nextPort = firstPort
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", nextPort))
		if err != nil {
			continue
		}
		l.Close()
		l, err = net.Listen("tcp", fmt.Sprintf("0.0.0.0:%d", nextPort))
		if err != nil {
			continue
		}
		l.Close()
		return nextPort
	}
}

// Fixed returns an endpoint that can be listened on again and again.
func (c *C) Fixed(kind string) string {
	if kind == "tcp" {
		return fmt.Sprintf("tcp://127.0.0.1:%d", FreePort())
	}
	return c.Fresh(kind)
}

// ErrTimeout is for waiting that was given up.
var ErrTimeout = errors.New("timeout")

// RecvD receives a message, or gives up after d; the Recv then goes on and its
// result is lost, so that this is for the end of a case.
func RecvD(s zmq4.Socket, d time.Duration) (zmq4.Msg, error) {
	type res struct {
		m   zmq4.Msg
		err error
	}
	ch := make(chan res, 1)
	go func() {
		m, err := Get(s)
		ch <- res{m, err}
	}()
	select {
	case r := <-ch:
		return r.m, r.err
	case <-time.After(d):
		return zmq4.Msg{}, ErrTimeout
	}
}

// Inbox receives from a socket all the time.
type Inbox struct {
	mu   sync.Mutex
	Msgs [][][]byte
	errs []error
	done chan struct{}
}

// NewInbox starts receiving from s, until it is closed. Errors, which Recv
// reports also when a peer disconnects, are kept aside.
func NewInbox(s zmq4.Socket) *Inbox {
	in := &Inbox{done: make(chan struct{})}
	go func() {
		defer close(in.done)
		for n := 0; n < 10000; {
			m, err := Get(s)
			in.mu.Lock()
			if err != nil {
				in.errs = append(in.errs, err)
				in.mu.Unlock()
				if n++; n > 20 {
					time.Sleep(time.Millisecond)
				}
				if errors.Is(err, context.Canceled) || strings.Contains(err.Error(), "closed") {
					if errors.Is(err, zmq4.ErrClosedConn) || errors.Is(err, net.ErrClosed) {
						continue
					}
					return
				}
				continue
			}
			in.Msgs = append(in.Msgs, m.Frames)
			in.mu.Unlock()
		}
	}()
	return in
}

// Len returns how many messages arrived.
func (in *Inbox) Len() int {
	in.mu.Lock()
	defer in.mu.Unlock()
	return len(in.Msgs)
}

// All returns the messages that arrived.
func (in *Inbox) All() [][][]byte {
	in.mu.Lock()
	defer in.mu.Unlock()
	return append([][][]byte(nil), in.Msgs...)
}

var (
	loopMu   sync.Mutex
	loopLock net.Listener
	loopNet  int
	loopNext int
)

// Loopback returns a loopback address not used before, nor in other processes
// of the harness, so that all its ports are free.
func Loopback() string {
	loopMu.Lock()
	defer loopMu.Unlock()
	for i := os.Getpid() % 120; loopLock == nil; i = (i + 1) % 120 {
		l, err := net.Listen("unix", fmt.Sprintf("@zmqverif-loop-%d", i))
		if err != nil {
			time.Sleep(time.Millisecond)
			continue
		}
		loopLock, loopNet = l, 100+i
	}
	loopNext++
	return fmt.Sprintf("127.%d.%d.%d", loopNet, loopNext/250%250, 1+loopNext%250)
}

// Again tells whether to go on after an error of Recv, n of which came before.
// Errors about peers pass, that of a closed socket does not.
func Again(err error, n *int) bool {
	if errors.Is(err, context.Canceled) {
		return false
	}
	if *n++; *n > 20 {
		time.Sleep(time.Millisecond)
	}
	return *n < 10000
}

// Count draws a number of things, now and then a large one.
func (c *C) Count(lo, hi, many int, what string) int {
	if rapid.IntRange(0, 49).Draw(c.T, "many "+what) == 49 {
		return rapid.IntRange(hi, many).Draw(c.T, what)
	}
	return rapid.IntRange(lo, hi).Draw(c.T, what)
}
