package c05

import (
	"bytes"
	"encoding/binary"
	"io"
	"strings"
	"testing"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.+"

func name(c *vlib.C, max int) string {
	n := rapid.IntRange(1, 12).Draw(c.T, "name length")
	if rapid.IntRange(0, 5).Draw(c.T, "long name") == 0 {
		n = rapid.SampledFrom([]int{100, 126, 127, 128, 200, 249, 250}).Draw(c.T, "name length")
	}
	var sb strings.Builder
	for sb.Len() < min(n, max) {
		sb.WriteByte(nameChars[rapid.IntRange(0, len(nameChars)-1).Draw(c.T, "ch")])
	}
	return sb.String()
}

func clipped(s string) string { return s[:min(len(s), 70000)] }

func value(c *vlib.C) string {
	n := 0
	switch rapid.IntRange(0, 6).Draw(c.T, "value class") {
	case 0:
	case 1, 2, 3:
		n = rapid.IntRange(1, 30).Draw(c.T, "value length")
	case 4:
		n = rapid.SampledFrom([]int{255, 256, 257, 511, 512, 513, 1000}).Draw(c.T, "value length")
	case 5:
		n = rapid.SampledFrom([]int{65535, 65536, 65537}).Draw(c.T, "value length")
		if rapid.IntRange(0, 299).Draw(c.T, "very long") == 299 {
			n = 1<<24 + 1
		}
	default:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(c.T, "value"))
	}
	return string(vlib.Fill(n, rapid.Uint64().Draw(c.T, "fill")))
}

// appName is the wire name of an application property, in lower case.
func wireName(k string) string {
	if k == "Socket-Type" || k == "Identity" {
		return strings.ToLower(k)
	}
	return "x-" + strings.ToLower(k)
}

func TestRoundTrip(t *testing.T) {
	vlib.Run(t, 20000, 400000, "metadata of 0-8, sometimes up to 60 names (1-250 bytes of the ZMTP alphabet, distinct up to case, system names included) and values of 0 to 64 KiB, rarely 16 MiB, encoded, decoded independently and by the package, also via a handshake command; non-trivial: at least two properties, or a value over 255 bytes", func(c *vlib.C) {
		md := zmq4.Metadata{}
		want := map[string]string{}
		for n := c.Count(0, 8, 60, "n"); n > 0; n-- {
			k := name(c, 250)
			switch rapid.IntRange(0, 7).Draw(c.T, "system") {
			case 0:
				k = "Socket-Type"
			case 1:
				k = "Identity"
			}
			if strings.EqualFold(k, "Identity") || strings.EqualFold(k, "Socket-Type") {
				if k != "Identity" && k != "Socket-Type" {
					continue // an application name that reads like a system one
				}
			}
			w := wireName(k)
			if _, dup := want[w]; dup {
				continue
			}
			md[k] = value(c)
			want[w] = md[k]
			c.D("%q=%d bytes", vlib.Clip(k), len(md[k]))
			if len(md[k]) > 255 {
				c.Nontrivial()
				c.Class("value over 255 bytes")
			}
		}
		if len(md) > 1 {
			c.Nontrivial()
		}
		c.Class("%d properties", len(md))
		raw, err := md.MarshalZMTP()
		if err != nil {
			c.Violation("encoding: %v", err)
		}
		got, err := vlib.ParseMeta(raw)
		if err != nil {
			c.Violation("the encoding is malformed: %v", err)
		}
		same(c, "encoding", got, want)
		// the package decodes its own encoding, and that of others in any order
		var kv []string
		keys := make([]string, 0, len(want))
		for k := range want {
			keys = append(keys, k)
		}
		for _, k := range rapid.Permutation(sorted(keys)).Draw(c.T, "order") {
			kv = append(kv, recase(c, k), want[k])
		}
		for i, in := range [][]byte{raw, vlib.MetaBytes(kv...)} {
			keep := bytes.Clone(in)
			out := zmq4.Metadata{}
			if err := out.UnmarshalZMTP(in); err != nil {
				c.Violation("decoding (%d): %v", i, err)
			}
			if !bytes.Equal(in, keep) {
				c.Violation("decoding changed its input")
			}
			low := map[string]string{}
			for k, v := range out {
				low[strings.ToLower(k)] = v
			}
			if len(low) != len(out) {
				c.Violation("decoding invented names: %q", out)
			}
			same(c, "decoding", low, want)
			for k := range want {
				switch k {
				case "identity":
					if i == 0 && out["Identity"] != want[k] {
						c.Violation("no Identity after decoding: %s", vlib.Clip(out))
					}
				case "socket-type":
					if i == 0 && out["Socket-Type"] != want[k] {
						c.Violation("no Socket-Type after decoding: %s", vlib.Clip(out))
					}
				}
			}
		}
	})
}

func sorted(s []string) []string {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s
}

// recase changes the case of a name at random: it is not significant.
// Names that start words in lower case are what other implementations send.
func recase(c *vlib.C, k string) string {
	if k == "identity" {
		return "Identity"
	}
	if k == "socket-type" {
		return "Socket-Type"
	}
	return "X-" + k[2:]
}

func same(c *vlib.C, what string, got, want map[string]string) {
	if len(got) != len(want) {
		c.Violation("%s: %d properties instead of %d (%s)", what, len(got), len(want), vlib.Clip(got))
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			c.Violation("%s: %q has a value of %d bytes instead of %d (present: %v)", what, vlib.Clip(k), len(g), len(v), ok)
		}
	}
}

func TestRefused(t *testing.T) {
	vlib.Run(t, 10000, 200000, "metadata that cannot be encoded: an empty name, two names equal up to case, or a name that exceeds 255 bytes on the wire, among 0-4 good ones; non-trivial: always", func(c *vlib.C) {
		md := zmq4.Metadata{}
		for n := rapid.IntRange(0, 4).Draw(c.T, "n"); n > 0; n-- {
			md["good"+name(c, 20)] = clipped(value(c))
		}
		c.Nontrivial()
		switch rapid.IntRange(0, 2).Draw(c.T, "fault") {
		case 0:
			md[""] = clipped(value(c))
			c.Class("empty name")
		case 1:
			k := "k" + name(c, 200)
			md[strings.ToLower(k)] = "1"
			md[strings.ToUpper(k)] = "2"
			c.Class("duplicate")
		case 2:
			n := rapid.IntRange(254, 600).Draw(c.T, "length")
			md[strings.Repeat("n", n)] = "v"
			c.Class("overlong name")
		}
		c.D("%s", vlib.Clip(md))
		if raw, err := md.MarshalZMTP(); err == nil {
			c.Violation("encoded as %d bytes", len(raw))
		}
	})
}

// check compares decoding with the independent decoder: what is malformed is
// refused, what is well-formed is decoded fully.
func check(c *vlib.C, raw []byte) {
	want, werr := vlib.ParseMeta(raw)
	out := zmq4.Metadata{}
	keep := bytes.Clone(raw)
	err := out.UnmarshalZMTP(raw)
	if !bytes.Equal(raw, keep) {
		c.Violation("decoding changed its input %x", keep)
	}
	if werr != nil {
		c.Class("malformed")
		if strings.Contains(werr.Error(), "duplicate") || strings.Contains(werr.Error(), "name") && emptyNamesOnly(raw) {
			return // not promised either way
		}
		if err == nil {
			c.Violation("malformed list %s (%v) decoded as %s", vlib.Clip(raw), werr, vlib.Clip(out))
		}
	} else {
		c.Class("well-formed")
		if err != nil {
			c.Violation("well-formed list %s refused: %v", vlib.Clip(raw), err)
		}
	}
	// nothing invented: each decoded value is one of the list
	vals := prefix(raw)
	for k, v := range out {
		if !ascii(k) {
			continue
		}
		if !vals[strings.ToLower(k)+"\x00"+v] {
			c.Violation("%s decoded with an invented %q of %d bytes (want among %s)", vlib.Clip(raw), k, len(v), vlib.Clip(want))
		}
	}
}

func ascii(s string) bool {
	for i := range len(s) {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// prefix lists the complete properties at the start of a list.
func prefix(p []byte) map[string]bool {
	m := map[string]bool{}
	for len(p) > 0 {
		n := int(p[0])
		if len(p) < 1+n+4 {
			return m
		}
		k := string(p[1 : 1+n])
		v := binary.BigEndian.Uint32(p[1+n:])
		p = p[1+n+4:]
		if uint64(v) > uint64(len(p)) {
			return m
		}
		m[strings.ToLower(k)+"\x00"+string(p[:v])] = true
		p = p[v:]
	}
	return m
}

// emptyNamesOnly: the list is complete, apart from properties without a name.
func emptyNamesOnly(p []byte) bool {
	for len(p) > 0 {
		n := int(p[0])
		if len(p) < 1+n+4 {
			return false
		}
		v := binary.BigEndian.Uint32(p[1+n:])
		p = p[1+n+4:]
		if uint64(v) > uint64(len(p)) {
			return false
		}
		p = p[v:]
	}
	return true
}

func TestMalformed(t *testing.T) {
	vlib.Run(t, 60000, 1500000, "property lists truncated, extended, or with a length or byte changed, and random bytes, compared with an independent decoder; non-trivial: the list is not well-formed", func(c *vlib.C) {
		var raw []byte
		if rapid.IntRange(0, 3).Draw(c.T, "random") == 0 {
			raw = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(c.T, "bytes")
		} else {
			var kv []string
			for n := rapid.IntRange(1, 3).Draw(c.T, "n"); n > 0; n-- {
				kv = append(kv, rapid.StringMatching("[A-Z][a-z]{0,9}").Draw(c.T, "name"), string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(c.T, "value")))
			}
			raw = vlib.MetaBytes(kv...)
			switch rapid.IntRange(0, 4).Draw(c.T, "fault") {
			case 0:
				raw = raw[:rapid.IntRange(0, len(raw)).Draw(c.T, "cut")]
			case 1:
				i := rapid.IntRange(0, len(raw)-1).Draw(c.T, "at")
				raw[i] = rapid.Byte().Draw(c.T, "byte")
			case 2:
				raw = append(raw, rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(c.T, "tail")...)
			case 3:
				i := 1 + int(raw[0])
				binary.BigEndian.PutUint32(raw[i:], rapid.Uint32().Draw(c.T, "length"))
			case 4:
				i := 1 + int(raw[0])
				l := binary.BigEndian.Uint32(raw[i:])
				binary.BigEndian.PutUint32(raw[i:], l+uint32(rapid.IntRange(-2, 2).Draw(c.T, "off")))
			}
		}
		c.D("%x", raw)
		if _, err := vlib.ParseMeta(raw); err != nil {
			c.Nontrivial()
		}
		check(c, raw)
	})
}

// TestProperty checks the single property, which reads and writes itself.
func TestProperty(t *testing.T) {
	vlib.Run(t, 20000, 400000, "single properties written to and read from exactly fitting, larger and truncated buffers; non-trivial: a truncated buffer, or a value over 255 bytes", func(c *vlib.C) {
		k := "X" + name(c, 200)
		v := value(c)
		raw := vlib.MetaBytes(k, v)
		cut := len(raw)
		if rapid.Bool().Draw(c.T, "truncate") {
			cut = rapid.IntRange(0, len(raw)-1).Draw(c.T, "cut")
			if len(raw) > 300 && rapid.Bool().Draw(c.T, "in the head") {
				cut = rapid.IntRange(0, 6+len(k)).Draw(c.T, "head cut")
			}
		}
		c.D("%s=%d bytes cut at %d of %d", vlib.Clip(k), len(v), cut, len(raw))
		if cut < len(raw) || len(v) > 255 {
			c.Nontrivial()
		}
		var p zmq4.Property
		n, err := p.Write(raw[:cut:cut])
		if cut < len(raw) {
			if err == nil {
				c.Violation("truncated property decoded as %s", vlib.Clip(p))
			}
			return
		}
		if err != nil || n != len(raw) || !strings.EqualFold(p.K, k) || p.V != v {
			c.Violation("decoded as %s in %d bytes: %v", vlib.Clip(p), n, err)
		}
		buf := make([]byte, len(raw)+rapid.IntRange(0, 5).Draw(c.T, "room"))
		n, err = zmq4.Property{K: k, V: v}.Read(buf)
		if (err != nil && err != io.EOF) || n != len(raw) {
			c.Violation("encoded in %d bytes: %v", n, err)
		}
		m, err := vlib.ParseMeta(buf[:n])
		if err != nil || m[strings.ToLower(k)] != v {
			c.Violation("encoded as %s: %v", vlib.Clip(buf[:n]), err)
		}
	})
}
