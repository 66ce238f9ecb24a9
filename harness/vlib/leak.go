package vlib

import (
	"os"
	"runtime"
	"strings"
)

// Goroutines returns the stacks of goroutines that run code of the module and
// not of the harness.
func Goroutines() (out []string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		s := strings.ReplaceAll(g, "github.com/luxfi/zmq/v4/zzverif", "")
		if strings.Contains(s, "github.com/luxfi/zmq/v4") && !strings.Contains(g, "zzverif/vlib.Run") {
			out = append(out, g)
		}
	}
	return
}

// Descriptors counts the open file descriptors of the process.
func Descriptors() int {
	// those the harness keeps must not count as new
	FreePort()
	Loopback()
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

// NoGoroutines wants all goroutines of the module to be gone.
func (c *C) NoGoroutines(what string) {
	c.Helper()
	if !Eventually(Long/2, func() bool { return len(Goroutines()) == 0 }) {
		gs := Goroutines()
		c.Violation("%s: %d goroutines are left, such as\n%s", what, len(gs), gs[0])
	}
}
