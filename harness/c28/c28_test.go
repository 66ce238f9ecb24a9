package c28

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/luxfi/zmq/v4/internal/errgroup"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

type task struct {
	id      int
	release chan error
	started chan struct{}
	runs    atomic.Int32
	ended   bool // released, by the model
}

type world struct {
	c       *vlib.C
	g       *errgroup.Group
	derived context.Context
	cancel  context.CancelFunc
	limit   int
	running atomic.Int32
	peak    atomic.Int32
	tasks   []*task // handed to the group and known to run
	refused []*task // must never run
	pending []*task // handed to Go, which blocks at the limit
	goDone  sync.WaitGroup

	cancelled bool
	unsure    bool    // tasks were released since slots were counted last
	first     error   // the first failure
	maybe     []error // candidates for it, when several fail at once
}

func (w *world) newTask() *task {
	t := &task{id: len(w.tasks) + len(w.refused) + len(w.pending), release: make(chan error, 1), started: make(chan struct{})}
	return t
}

func (w *world) fn(t *task) func() error {
	return func() error {
		n := w.running.Add(1)
		for {
			p := w.peak.Load()
			if n <= p || w.peak.CompareAndSwap(p, n) {
				break
			}
		}
		if t.runs.Add(1) == 1 {
			close(t.started)
		}
		err := <-t.release
		w.running.Add(-1)
		return err
	}
}

func (w *world) active() int {
	n := 0
	for _, t := range w.tasks {
		if !t.ended {
			n++
		}
	}
	return n
}

func (w *world) failed() bool { return w.first != nil || len(w.maybe) > 0 }

func (w *world) awaitStart(t *task) {
	w.c.Must(fmt.Sprintf("task %d started", t.id), func() bool {
		select {
		case <-t.started:
			return true
		default:
			return false
		}
	})
}

func (w *world) check() {
	c := w.c
	if w.limit >= 0 && int(w.peak.Load()) > w.limit {
		c.Violation("%d tasks ran at once, the limit is %d", w.peak.Load(), w.limit)
	}
	for _, t := range w.refused {
		if t.runs.Load() != 0 {
			c.Violation("task %d ran, though refused or after cancellation", t.id)
		}
	}
	for _, t := range w.tasks {
		if t.runs.Load() > 1 {
			c.Violation("task %d ran %d times", t.id, t.runs.Load())
		}
	}
	if w.derived != nil && !w.failed() && !w.cancelled && w.derived.Err() != nil {
		c.Violation("the derived context ended (%v) without failure or cancellation", context.Cause(w.derived))
	}
}

// TestGroup runs drawn histories of one group against a model.
func TestGroup(t *testing.T) {
	vlib.Run(t, 2500, 60000, "groups with or without a context, no limit or one of 1-4; 2-25 steps of Go, TryGo, ending tasks one by one or several at once with or without an error, cancelling the parent, then Wait with tasks still running; non-trivial: tasks failed in a drawn order, or the parent was cancelled with tasks running, or the limit was reached", func(c *vlib.C) {
		w := &world{c: c, limit: -1}
		withCtx := rapid.IntRange(0, 3).Draw(c.T, "context") > 0
		if withCtx {
			parent, cancel := context.WithCancel(context.Background())
			w.cancel = cancel
			c.Cleanup(cancel)
			w.g, w.derived = errgroup.WithContext(parent)
		} else {
			w.g = &errgroup.Group{}
		}
		if rapid.Bool().Draw(c.T, "limited") {
			w.limit = c.Count(1, 4, 20, "limit")
			w.g.SetLimit(w.limit)
		} else if rapid.Bool().Draw(c.T, "unlimit") {
			w.g.SetLimit(-1)
		}
		c.D("context %v limit %d", withCtx, w.limit)
		c.Cleanup(func() {
			for _, l := range [][]*task{w.tasks, w.refused, w.pending} {
				for _, t := range l {
					select {
					case t.release <- nil:
					default:
					}
				}
			}
		})
		end := func(t *task, err error) {
			t.ended = true
			w.unsure = true
			t.release <- err
		}
		fail := func() bool {
			return rapid.IntRange(0, 2).Draw(c.T, "fails") == 0
		}
		// a Go that blocked goes through once there is room
		settle := func() {
			for len(w.pending) > 0 && (w.limit < 0 || w.active() < w.limit) && !w.cancelled {
				t := w.pending[0]
				w.awaitStart(t)
				w.pending = w.pending[1:]
				w.tasks = append(w.tasks, t)
			}
		}
		for n := rapid.IntRange(2, 25).Draw(c.T, "steps"); n > 0; n-- {
			switch op := rapid.SampledFrom([]string{"go", "go", "go", "try", "try", "end", "end", "ends", "cancel"}).Draw(c.T, "op"); op {
			case "go":
				if len(w.pending) > 0 {
					continue
				}
				t := w.newTask()
				if w.cancelled {
					c.D("go after cancel")
					c.Within("Go after cancellation", func() { w.g.Go(w.fn(t)) })
					w.refused = append(w.refused, t)
					break
				}
				if w.limit >= 0 && w.active() >= w.limit {
					c.D("go(blocks)")
					c.Class("limit reached by Go")
					c.Nontrivial()
					w.pending = append(w.pending, t)
					w.goDone.Add(1)
					go func() {
						defer w.goDone.Done()
						w.g.Go(w.fn(t))
					}()
					break
				}
				c.D("go")
				c.Within("Go below the limit", func() { w.g.Go(w.fn(t)) })
				w.tasks = append(w.tasks, t)
				w.awaitStart(t)
			case "try":
				if len(w.pending) > 0 {
					continue
				}
				t := w.newTask()
				switch {
				case w.cancelled:
					c.D("try after cancel")
					w.g.TryGo(w.fn(t))
					w.refused = append(w.refused, t)
				case w.limit >= 0 && w.active() >= w.limit:
					c.D("try(full)")
					c.Class("limit reached by TryGo")
					c.Nontrivial()
					if w.g.TryGo(w.fn(t)) {
						c.Violation("TryGo started a task with %d of %d running", w.active(), w.limit)
					}
					w.refused = append(w.refused, t)
				default:
					c.D("try")
					ok := w.g.TryGo(w.fn(t))
					if !ok && w.limit >= 0 && w.unsure {
						// the slot of a task that just ended may not be free yet
						c.Must("TryGo finds the slot of an ended task", func() bool { ok = w.g.TryGo(w.fn(t)); return ok })
					}
					if !ok {
						c.Violation("TryGo refused with %d of %d running", w.active(), w.limit)
					}
					w.tasks = append(w.tasks, t)
					w.awaitStart(t)
				}
			case "end":
				var open []*task
				for _, t := range w.tasks {
					if !t.ended {
						open = append(open, t)
					}
				}
				if len(open) == 0 {
					continue
				}
				t := rapid.SampledFrom(open).Draw(c.T, "task")
				var err error
				if fail() {
					err = fmt.Errorf("error of task %d", t.id)
				}
				c.D("end %d %v", t.id, err)
				end(t, err)
				switch {
				case err == nil || w.first != nil:
				case w.derived != nil && !w.failed() && !w.cancelled:
					w.first = err
					c.Must("the derived context is cancelled by a failure", func() bool { return w.derived.Err() != nil })
				default:
					// there is no telling which is noticed first
					w.maybe = append(w.maybe, err)
				}
				settle()
			case "ends":
				var errs []error
				k := 0
				for _, t := range w.tasks {
					if !t.ended {
						var err error
						if fail() {
							err = fmt.Errorf("error of task %d", t.id)
							errs = append(errs, err)
						}
						end(t, err)
						k++
					}
				}
				if k == 0 {
					continue
				}
				c.D("end all %d, %d fail", k, len(errs))
				if len(errs) > 0 && w.first == nil {
					had := w.failed()
					w.maybe = append(w.maybe, errs...)
					if len(errs) > 1 {
						c.Class("several failures")
					}
					if w.derived != nil && !had && !w.cancelled {
						c.Must("the derived context is cancelled by a failure", func() bool { return w.derived.Err() != nil })
					}
				}
				settle()
			case "cancel":
				if w.cancelled || !withCtx || len(w.pending) > 0 || rapid.IntRange(0, 2).Draw(c.T, "really") > 0 {
					continue
				}
				c.D("cancel(%d running)", w.active())
				w.cancelled = true
				w.cancel()
				c.Must("the derived context is cancelled with its parent", func() bool { return w.derived.Err() != nil })
				if w.active() > 0 {
					c.Class("cancelled with tasks running")
					c.Nontrivial()
				}
			}
			w.check()
		}
		// Wait
		if len(w.pending) > 0 { // Wait must not race with Go
			for _, t := range w.tasks {
				if !t.ended {
					end(t, nil)
				}
			}
			settle()
			c.Within("Go once there is room", w.goDone.Wait)
		}
		running := w.active()
		c.D("wait(%d running)", running)
		res := make(chan error, 1)
		go func() { res <- w.g.Wait() }()
		var got error
		if running > 0 && !w.cancelled {
			select {
			case err := <-res:
				c.Violation("Wait returned (%v) with %d tasks running", err, running)
			case <-time.After(time.Duration(rapid.IntRange(0, 300).Draw(c.T, "µs")) * time.Microsecond):
			}
			if withCtx && rapid.IntRange(0, 3).Draw(c.T, "cancel in wait") == 0 {
				c.D("cancel during wait")
				c.Class("cancelled during Wait")
				c.Nontrivial()
				w.cancelled = true
				w.cancel()
			} else {
				for _, t := range w.tasks {
					if !t.ended {
						var err error
						if fail() {
							err = fmt.Errorf("error of task %d", t.id)
							if w.first == nil {
								w.maybe = append(w.maybe, err)
							}
						}
						end(t, err)
					}
				}
			}
		}
		c.Within("Wait", func() { got = <-res })
		var allowed []error
		switch {
		case w.first != nil:
			allowed = []error{w.first}
		default:
			allowed = w.maybe
		}
		ok := false
		for _, e := range allowed {
			ok = ok || errors.Is(got, e)
		}
		if w.cancelled && w.first == nil {
			// the context's error, if any task was running
			ok = ok || errors.Is(got, context.Canceled)
			if running == 0 && len(w.maybe) == 0 {
				ok = ok || got == nil
			}
			if len(w.refused) == 0 && running > 0 && len(w.maybe) == 0 && got == nil {
				c.Violation("Wait returned nil though cancelled with %d tasks running", running)
			}
		} else if len(allowed) == 0 {
			ok = got == nil
		}
		if !ok {
			c.Violation("Wait returned %v; possible: %v, cancelled %v", got, allowed, w.cancelled)
		}
		if len(allowed) > 0 {
			c.Class("a task failed")
			c.Nontrivial()
		}
		if w.derived != nil && w.derived.Err() == nil {
			c.Violation("the derived context lives on after Wait")
		}
		for _, t := range w.refused {
			if t.runs.Load() != 0 {
				c.Violation("task %d ran, though refused or after cancellation", t.id)
			}
		}
		for _, t := range w.tasks {
			if t.runs.Load() != 1 {
				c.Violation("task %d ran %d times", t.id, t.runs.Load())
			}
		}
		if w.limit >= 0 && int(w.peak.Load()) > w.limit {
			c.Violation("%d tasks ran at once, the limit is %d", w.peak.Load(), w.limit)
		}
	})
}

// TestStorm has tasks that end by themselves, many at a time.
func TestStorm(t *testing.T) {
	vlib.Run(t, 600, 20000, "10-300 short tasks, most succeeding, started by Go or TryGo under a limit of 1-8; counts of starts, ends and the error compared afterwards; non-trivial: more tasks than the limit and at least one failing", func(c *vlib.C) {
		limit := rapid.IntRange(1, 8).Draw(c.T, "limit")
		n := rapid.IntRange(10, 300).Draw(c.T, "tasks")
		failEvery := rapid.IntRange(0, 50).Draw(c.T, "fail every")
		useTry := rapid.Bool().Draw(c.T, "try")
		pause := rapid.IntRange(0, 20).Draw(c.T, "pause")
		c.D("limit %d, %d tasks, fail every %d, try %v, pause %d", limit, n, failEvery, useTry, pause)
		g, ctx := errgroup.WithContext(context.Background())
		g.SetLimit(limit)
		var running, peak, ran, fails atomic.Int32
		bad := errors.New("bad")
		started := 0
		for i := 0; i < n; i++ {
			fails1 := failEvery > 0 && i%failEvery == failEvery-1
			f := func() error {
				k := running.Add(1)
				for {
					p := peak.Load()
					if k <= p || peak.CompareAndSwap(p, k) {
						break
					}
				}
				ran.Add(1)
				if pause > 0 {
					time.Sleep(time.Duration(pause) * time.Microsecond)
				}
				running.Add(-1)
				if fails1 {
					fails.Add(1)
					return bad
				}
				return nil
			}
			if useTry {
				if g.TryGo(f) {
					started++
				}
			} else {
				g.Go(f)
				started++
			}
		}
		var err error
		c.Within("Wait", func() { err = g.Wait() })
		if int(peak.Load()) > limit {
			c.Violation("%d tasks at once", peak.Load())
		}
		if int(ran.Load()) != started {
			c.Violation("%d tasks reported as started, %d ran", started, ran.Load())
		}
		if running.Load() != 0 {
			c.Violation("Wait returned with %d tasks running", running.Load())
		}
		if (fails.Load() > 0) != (err != nil) || err != nil && !errors.Is(err, bad) {
			c.Violation("%d tasks failed, Wait returned %v", fails.Load(), err)
		}
		if ctx.Err() == nil {
			c.Violation("the derived context lives on after Wait")
		}
		if started > limit && fails.Load() > 0 {
			c.Nontrivial()
		}
	})
}
