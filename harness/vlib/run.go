// Package vlib is what the checks in /verif/harness share: the driver around
// rapid, an independent ZMTP codec and peer, and a controllable transport.
package vlib

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Long bounds operations that must complete: it only ever expires when one hangs.
const Long = 40 * time.Second

// C is one generated case.
type C struct {
	// Deaf says that a socket, which has a short timeout, may have peers that do
	// not read.
	Deaf bool

	*rapid.T
	mu         sync.Mutex
	desc       strings.Builder
	classes    map[string]int
	nontrivial bool
	cleanups   []func()
	dir        string
	failure    string
}

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    []string       `json:"distinct"`
	Skipped     int            `json:"skipped_budget"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Wall        float64        `json:"wall_s"`
}

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func envFloat(name string, def float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil {
		return v
	}
	return def
}

var outDir = os.Getenv("VERIF_OUT")

// Run checks prop over generated cases. The rule says how cases are made and
// what makes one non-trivial.
func Run(t *testing.T, quick, thorough int, rule string, prop func(c *C)) {
	checks := quick
	if Thorough() {
		checks = thorough
	}
	checks = int(float64(checks)*envFloat("VERIF_SCALE", 1) + 0.5)
	if checks < 1 {
		checks = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(checks))
	budget := time.Duration(envFloat("VERIF_BUDGET", 1e6) * float64(time.Second))

	st := &stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}}
	seen := map[string]bool{}
	start := time.Now()
	flush := func() {
		if outDir == "" {
			return
		}
		st.Wall = time.Since(start).Seconds()
		st.Distinct = st.Distinct[:0]
		for k := range seen {
			st.Distinct = append(st.Distinct, k)
		}
		sort.Strings(st.Distinct)
		raw, _ := json.Marshal(st)
		name := filepath.Join(outDir, strings.ReplaceAll(t.Name(), "/", "_")+".json")
		os.WriteFile(name+".tmp", raw, 0o644)
		os.Rename(name+".tmp", name)
	}
	defer flush()
	lastFlush := time.Now()

	var journal *os.File
	if outDir != "" {
		journal, _ = os.Create(filepath.Join(outDir, strings.ReplaceAll(t.Name(), "/", "_")+".journal"))
	}
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		if !failed && time.Since(start) > budget {
			st.Skipped++
			return
		}
		c := &C{T: rt, classes: map[string]int{}}
		if journal != nil {
			journal.Truncate(0)
			journal.Seek(0, 0)
			fmt.Fprintf(journal, "case %d of %s\n", st.Evaluations, t.Name())
			curJournal = journal
		}
		dog := time.AfterFunc(5*Long, func() {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("CASE HUNG in %s: %s\n%s\n--- FAIL: %s\n", t.Name(), c.Described(), buf, t.Name())
			os.Exit(1)
		})
		defer func() {
			for i := len(c.cleanups) - 1; i >= 0; i-- {
				c.cleanups[i]()
			}
			if c.dir != "" {
				os.RemoveAll(c.dir)
			}
			dog.Stop()
			if rt.Failed() && !failed {
				failed = true
				// shrinking cases that hang can take very long
				first := c.failure
				if first == "" {
					first = "a failure\n  case: " + c.Described()
				}
				time.AfterFunc(90*time.Second, func() {
					fmt.Printf("%s\n(not shrunk)\n--- FAIL: %s\n", first, t.Name())
					os.Exit(1)
				})
			}
			st.Evaluations++
			c.mu.Lock()
			defer c.mu.Unlock()
			for k, v := range c.classes {
				st.Classes[k] += v
			}
			if c.nontrivial {
				st.Nontrivial++
				h := fnv.New64a()
				h.Write([]byte(c.desc.String()))
				key := strconv.FormatUint(h.Sum64(), 36)
				if !seen[key] {
					seen[key] = true
					if len(st.Samples) < 4 {
						s := c.desc.String()
						if len(s) > 700 {
							s = s[:700] + "…"
						}
						st.Samples = append(st.Samples, s)
					}
				}
			}
			if time.Since(lastFlush) > time.Second {
				lastFlush = time.Now()
				flush()
			}
		}()
		prop(c)
	})
}

var curJournal *os.File

// D records what the case consists of.
func (c *C) D(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	c.desc.WriteString(s)
	c.desc.WriteString("; ")
	c.mu.Unlock()
	if curJournal != nil {
		if len(s) > 4000 {
			s = s[:4000]
		}
		fmt.Fprintln(curJournal, s)
	}
}

func (c *C) Described() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.desc.String()
}

// Class counts the case in a class.
func (c *C) Class(format string, args ...any) {
	c.mu.Lock()
	c.classes[fmt.Sprintf(format, args...)]++
	c.mu.Unlock()
}

// Nontrivial marks the case as non-trivial by the rule.
func (c *C) Nontrivial() {
	c.mu.Lock()
	c.nontrivial = true
	c.mu.Unlock()
}

// Cleanup has f called when the case is over.
func (c *C) Cleanup(f func()) { c.cleanups = append(c.cleanups, f) }

// Violation ends the case as a violation of the property.
func (c *C) Violation(format string, args ...any) {
	c.Helper()
	d := c.Described()
	if len(d) > 3000 {
		d = d[:3000] + "…"
	}
	c.failure = fmt.Sprintf("VIOLATED: "+format+"\n  case: %s", append(args, d)...)
	c.Fatalf("%s", c.failure)
}

// Within runs f, which must return within Long.
func (c *C) Within(what string, f func()) {
	c.Helper()
	c.WithinD(Long, what, f)
}

// WithinD runs f, which must return within d.
func (c *C) WithinD(d time.Duration, what string, f func()) {
	c.Helper()
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	timer := time.NewTimer(d)
	defer timer.Stop()
	select {
	case <-done:
	case <-timer.C:
		c.Violation("%s did not finish within %v", what, d)
	}
}

// Eventually waits until cond holds.
func Eventually(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		switch {
		case i < 50:
			time.Sleep(200 * time.Microsecond)
		case i < 200:
			time.Sleep(2 * time.Millisecond)
		default:
			time.Sleep(20 * time.Millisecond)
		}
	}
}

// Must wants what has to become true.
func (c *C) Must(what string, cond func() bool) {
	c.Helper()
	if !Eventually(Long, cond) {
		c.Violation("%s: not so after %v", what, Long)
	}
}

// Dir returns a scratch directory of the case, short enough for unix sockets.
func (c *C) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp("", "v")
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}
