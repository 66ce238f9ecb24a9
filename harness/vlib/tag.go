package vlib

import (
	"bytes"
	"fmt"
	"strconv"

	"pgregory.net/rapid"
)

var tagMark = []byte("\xfe#")

const tagLen = 2 + 7

// Tagged draws a message that can be told from others by n: one of its frames,
// not always the first, begins with a tag.
func (c *C) Tagged(n, max int) [][]byte {
	fs := c.Frames(max)
	for len(fs) > 1 && len(fs) > 12 {
		fs = fs[:len(fs)-1]
	}
	tag := append(append([]byte{}, tagMark...), fmt.Sprintf("%07d", n)...)
	i := rapid.IntRange(0, len(fs)-1).Draw(c.T, "tag at")
	fs[i] = append(tag, fs[i]...)
	return fs
}

// Plain is a tagged message drawn from nothing.
func TaggedPlain(n int) [][]byte {
	return [][]byte{append(append([]byte{}, tagMark...), fmt.Sprintf("%07d", n)...)}
}

// TagOf returns the tag of a message, or -1.
func TagOf(fs [][]byte) int {
	for _, f := range fs {
		if len(f) >= tagLen && bytes.HasPrefix(f, tagMark) {
			if n, err := strconv.Atoi(string(f[2:tagLen])); err == nil {
				return n
			}
		}
	}
	return -1
}

// Broken collects violations found in goroutines of a case.
type Broken struct{ ch chan string }

// NewBroken makes one.
func NewBroken() *Broken { return &Broken{make(chan string, 1000)} }

// Add records a violation.
func (b *Broken) Add(format string, args ...any) {
	select {
	case b.ch <- fmt.Sprintf(format, args...):
	default:
	}
}

// Check ends the case if there was a violation.
func (b *Broken) Check(c *C) {
	c.Helper()
	select {
	case v := <-b.ch:
		c.Violation("%s", v)
	default:
	}
}
