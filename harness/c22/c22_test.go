package c22

import (
	"bytes"
	"strconv"
	"strings"
	"testing"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

func frames(c *vlib.C) [][]byte {
	n := rapid.IntRange(0, 6).Draw(c.T, "frames")
	if rapid.IntRange(0, 15).Draw(c.T, "many") == 0 {
		n = rapid.IntRange(7, 300).Draw(c.T, "nframes")
	}
	fs := make([][]byte, n)
	for i := range fs {
		switch rapid.IntRange(0, 5).Draw(c.T, "kind") {
		case 0: // stays nil
		case 1:
			fs[i] = []byte{}
		case 2:
			fs[i] = []byte(rapid.String().Draw(c.T, "text"))
		case 3:
			fs[i] = []byte(rapid.StringOfN(rapid.SampledFrom([]rune("\"',{} \\nx\x00\n\t`%")), 0, 12, -1).Draw(c.T, "punct"))
		case 4:
			fs[i] = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "bin")
		default:
			fs[i] = vlib.Fill(rapid.IntRange(0, 5000).Draw(c.T, "len"), 7)
		}
	}
	return fs
}

// parse reads the printed form back.
func parse(s string) ([][]byte, bool) {
	const pre, post = "Msg{Frames:{", "}}"
	if !strings.HasPrefix(s, pre) || !strings.HasSuffix(s, post) || len(s) < len(pre)+len(post) {
		return nil, false
	}
	s = s[len(pre) : len(s)-len(post)]
	var out [][]byte
	for first := true; s != ""; first = false {
		if !first {
			if !strings.HasPrefix(s, ", ") {
				return nil, false
			}
			s = s[2:]
		}
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return nil, false
		}
		u, err := strconv.Unquote(q)
		if err != nil {
			return nil, false
		}
		out = append(out, []byte(u))
		s = s[len(q):]
	}
	return out, true
}

// TestValues checks constructors, views, the printed form and copies.
func TestValues(t *testing.T) {
	vlib.Run(t, 20000, 300000, "0-300 frames: nil, empty, text, quoting characters, binary; all constructors; clone followed by mutation of the original's and the clone's frames and frame lists; non-trivial: two or more frames with at least one empty and one non-empty", func(c *vlib.C) {
		fs := frames(c)
		c.D("%s %s", vlib.Sizes(fs), vlib.Clip(fs))
		var all []byte
		empty, full := false, false
		for _, f := range fs {
			all = append(all, f...)
			empty = empty || len(f) == 0
			full = full || len(f) > 0
		}
		if len(fs) > 1 && empty && full {
			c.Nontrivial()
		}
		msgs := map[string]zmq4.Msg{"NewMsgFrom": zmq4.NewMsgFrom(fs...)}
		strs := make([]string, len(fs))
		for i, f := range fs {
			strs[i] = string(f)
		}
		callers := append([]string(nil), strs...)
		msgs["NewMsgFromString"] = zmq4.NewMsgFromString(callers)
		for i := range callers {
			callers[i] = "overwritten"
		}
		if len(fs) == 1 {
			msgs["NewMsg"] = zmq4.NewMsg(fs[0])
			msgs["NewMsgString"] = zmq4.NewMsgString(strs[0])
		}
		typ := zmq4.MsgType(rapid.IntRange(0, 1).Draw(c.T, "type"))
		c.Class("type %d", typ)
		for name, m := range msgs {
			if !vlib.Same(m.Frames, fs) {
				c.Violation("%s made %s of %s", name, vlib.Clip(m.Frames), vlib.Clip(fs))
			}
			if m.Type != zmq4.UsrMsg || m.Err() != nil {
				c.Violation("%s made a message of type %v with error %v", name, m.Type, m.Err())
			}
			if !bytes.Equal(m.Bytes(), all) {
				c.Violation("%s: Bytes() is %s of %s", name, vlib.Clip(m.Bytes()), vlib.Clip(fs))
			}
			got, ok := parse(m.String())
			if !ok || !vlib.Same(got, fs) {
				c.Violation("%s: String() is %s, for %s", name, vlib.Clip(m.String()), vlib.Clip(fs))
			}
			m.Type = typ
			k := m.Clone()
			if !vlib.Same(k.Frames, fs) || k.Type != typ || k.Err() != m.Err() {
				c.Violation("%s: clone is %s type %v, of %s type %v", name, vlib.Clip(k.Frames), k.Type, vlib.Clip(fs), typ)
			}
			// the byte view is the caller's own
			b := m.Bytes()
			for i := range b {
				b[i] ^= 0xff
			}
			b = append(b, 'x')
			if !vlib.Same(m.Frames, fs) || !vlib.Same(k.Frames, fs) {
				c.Violation("%s: changing the byte view changed the message", name)
			}
		}
	})
}

// TestIndependence mutates the original and the clone.
func TestIndependence(t *testing.T) {
	vlib.Run(t, 20000, 300000, "a message and its clone (and the clone's clone), 1-12 mutations of bytes, frames and frame lists (also appends into spare capacity) of either, all compared with models afterwards; non-trivial: a byte of a non-empty frame was changed", func(c *vlib.C) {
		fs := frames(c)
		// frames are cut from one buffer, as the reader of a caller may do
		if rapid.Bool().Draw(c.T, "one buffer") {
			var buf []byte
			for _, f := range fs {
				buf = append(buf, f...)
			}
			off := 0
			for i := range fs {
				n := len(fs[i])
				fs[i] = buf[off : off+n]
				off += n
			}
			c.Class("one buffer")
		}
		model := vlib.CloneFrames(fs)
		orig := zmq4.NewMsgFrom(append(make([][]byte, 0, len(fs)+4), fs...)...)
		orig.Type = zmq4.MsgType(rapid.IntRange(0, 1).Draw(c.T, "type"))
		k1 := orig.Clone()
		k2 := k1.Clone()
		ms := []*zmq4.Msg{&orig, &k1, &k2}
		models := [][][]byte{model, vlib.CloneFrames(model), vlib.CloneFrames(model)}
		which := rapid.IntRange(0, 2).Draw(c.T, "mutated")
		c.D("%s, mutating %d", vlib.Sizes(fs), which)
		m := ms[which]
		for n := rapid.IntRange(1, 12).Draw(c.T, "mutations"); n > 0; n-- {
			if len(m.Frames) == 0 {
				m.Frames = append(m.Frames, []byte("new"))
				continue
			}
			i := rapid.IntRange(0, len(m.Frames)-1).Draw(c.T, "frame")
			switch rapid.IntRange(0, 4).Draw(c.T, "mutation") {
			case 0, 1:
				for j := range m.Frames[i] {
					m.Frames[i][j] ^= 0x55
					c.Nontrivial()
				}
			case 2:
				m.Frames[i] = append(m.Frames[i], "appended"...)
			case 3:
				m.Frames[i] = []byte("replaced")
			case 4:
				m.Frames = append(m.Frames, []byte("more"))
			}
		}
		m.Type ^= 1
		typ := m.Type ^ 1
		for i, x := range ms {
			if i == which {
				continue
			}
			if !vlib.Same(x.Frames, models[i]) || x.Type != typ {
				c.Violation("mutating message %d changed message %d: %s should be %s", which, i, vlib.Clip(x.Frames), vlib.Clip(models[i]))
			}
		}
	})
}
