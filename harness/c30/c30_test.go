package c30

import (
	"bytes"
	"crypto/ecdh"
	"encoding/hex"
	"strings"
	"sync"
	"testing"

	zmq4 "github.com/luxfi/zmq/v4"
	"github.com/luxfi/zmq/v4/zzverif/vlib"
	"pgregory.net/rapid"
)

var (
	seenMu sync.Mutex
	seen   = map[string]bool{}
)

// TestKeys generates key pairs.
func TestKeys(t *testing.T) {
	vlib.Run(t, 2000, 40000, "1-20 key pairs made by one or several goroutines; every key compared with all keys of the run; a secret of another origin derived too; non-trivial: several goroutines", func(c *vlib.C) {
		g := rapid.IntRange(1, 4).Draw(c.T, "goroutines")
		n := rapid.IntRange(1, 5).Draw(c.T, "pairs")
		foreign := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(c.T, "secret")
		c.D("%d×%d %x", g, n, foreign)
		if g > 1 {
			c.Nontrivial()
		}
		type pair struct {
			pub, sec string
			err      error
		}
		var mu sync.Mutex
		var ps []pair
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n; j++ {
					pub, sec, err := zmq4.NewCurveKeypair()
					mu.Lock()
					ps = append(ps, pair{pub, sec, err})
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for _, p := range ps {
			if p.err != nil {
				c.Violation("NewCurveKeypair: %v", p.err)
			}
			if p.pub == p.sec {
				c.Violation("public and secret key are both %q", p.pub)
			}
			if len(p.pub) == 0 || len(p.sec) == 0 {
				c.Violation("empty key: %q %q", p.pub, p.sec)
			}
			for _, k := range []string{p.pub, p.sec} {
				raw, err := zmq4.Z85decode(k)
				if err != nil || len(raw) != 32 {
					c.Violation("key %q does not decode to 32 bytes: %x, %v", k, raw, err)
				}
				seenMu.Lock()
				dup := seen[k]
				seen[k] = true
				seenMu.Unlock()
				if dup {
					c.Violation("key %q was generated before", k)
				}
			}
			for i := 0; i < 2; i++ {
				d, err := zmq4.AuthCurvePublic(p.sec)
				if err != nil || d != p.pub {
					c.Violation("AuthCurvePublic(%q) = %q, %v; generated with %q", p.sec, d, err, p.pub)
				}
			}
		}
		// CURVE's public key is the X25519 one, whatever the secret
		text := zmq4.Z85encode(foreign)
		want, err := ecdh.X25519().NewPrivateKey(foreign)
		if err != nil {
			t.Fatal(err)
		}
		got, err := zmq4.AuthCurvePublic(text)
		if err != nil {
			c.Violation("AuthCurvePublic(%q): %v", text, err)
		}
		raw, err := zmq4.Z85decode(got)
		if err != nil || !bytes.Equal(raw, want.PublicKey().Bytes()) {
			c.Violation("AuthCurvePublic(%q) = %q, want the encoding of %x", text, got, want.PublicKey().Bytes())
		}
	})
}

// TestBadSecrets wants an error for texts that are no secret key.
func TestBadSecrets(t *testing.T) {
	vlib.Run(t, 3000, 60000, "texts that are no key: wrong length, odd length, other characters; non-trivial: differs from a key by one edit", func(c *vlib.C) {
		_, sec, err := zmq4.NewCurveKeypair()
		if err != nil {
			c.Violation("NewCurveKeypair: %v", err)
		}
		var text string
		switch k := rapid.IntRange(0, 3).Draw(c.T, "kind"); k {
		case 0:
			i := rapid.IntRange(0, len(sec)-1).Draw(c.T, "cut")
			text = sec[:i]
			c.Nontrivial()
			c.D("cut at %d", i)
		case 1:
			extra := rapid.StringOfN(rapid.SampledFrom([]rune("0123456789abcdef")), 1, 8, -1).Draw(c.T, "extra")
			text = sec + extra
			c.Nontrivial()
			c.D("longer by %q", extra)
		case 2:
			i := rapid.IntRange(0, len(sec)-1).Draw(c.T, "at")
			ch := rapid.SampledFrom([]byte("gzGZ -:\x00\xff/@`")).Draw(c.T, "char")
			text = sec[:i] + string(ch) + sec[i+1:]
			c.Nontrivial()
			c.D("%q at %d", ch, i)
		default:
			text = rapid.String().Draw(c.T, "text")
			if raw, err := hex.DecodeString(text); err == nil && len(raw) == 32 {
				return
			}
			c.D("%q", text)
		}
		if got, err := zmq4.AuthCurvePublic(text); err == nil {
			c.Violation("AuthCurvePublic(%q) = %q without an error", text, got)
		}
	})
}

// TestText checks the text encoding.
func TestText(t *testing.T) {
	vlib.Run(t, 20000, 400000, "byte strings of 0-300 bytes round-trip; texts (edited encodings and arbitrary ones) decode only if encoding what came out gives them back, up to letter case; non-trivial: the text is an edited encoding", func(c *vlib.C) {
		data := rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(c.T, "data")
		if rapid.IntRange(0, 49).Draw(c.T, "long") == 49 {
			data = vlib.Fill(rapid.IntRange(300, 200000).Draw(c.T, "size"), 1)
		}
		text := zmq4.Z85encode(data)
		back, err := zmq4.Z85decode(text)
		if err != nil || !bytes.Equal(back, data) {
			c.Violation("%x encodes to %q, which decodes to %x, %v", data, text, back, err)
		}
		var other string
		switch rapid.IntRange(0, 3).Draw(c.T, "kind") {
		case 0:
			if len(text) > 0 {
				other = text[:rapid.IntRange(0, len(text)-1).Draw(c.T, "cut")]
			}
			c.Nontrivial()
		case 1:
			i := rapid.IntRange(0, len(text)).Draw(c.T, "at")
			other = text[:i] + string(rapid.Rune().Draw(c.T, "rune")) + text[i:]
			c.Nontrivial()
		case 2:
			if len(text) > 0 {
				i := rapid.IntRange(0, len(text)-1).Draw(c.T, "at")
				other = text[:i] + string([]byte{rapid.Byte().Draw(c.T, "byte")}) + text[i+1:]
			}
			c.Nontrivial()
		default:
			other = rapid.String().Draw(c.T, "text")
		}
		c.D("%d bytes, %q", len(data), other)
		got, err := zmq4.Z85decode(other)
		if err != nil {
			c.Class("refused")
			return
		}
		c.Class("accepted")
		if !strings.EqualFold(zmq4.Z85encode(got), other) {
			c.Violation("%q was decoded to %x, which encodes to %q", other, got, zmq4.Z85encode(got))
		}
	})
}

// TestStartStop checks the life cycle.
func TestStartStop(t *testing.T) {
	vlib.Run(t, 3000, 60000, "1-30 start and stop calls and no-op settings against a flag; non-trivial: a second start and a start after a stop", func(c *vlib.C) {
		zmq4.AuthStop()
		on, again, second := false, false, false
		for n := rapid.IntRange(1, 30).Draw(c.T, "steps"); n > 0; n-- {
			switch rapid.IntRange(0, 4).Draw(c.T, "op") {
			case 0, 1, 2:
				err := zmq4.AuthStart()
				c.D("start")
				if on != (err != nil) {
					c.Violation("AuthStart: %v, with started=%v", err, on)
				}
				second = second || on
				on = true
			case 3:
				c.D("stop")
				zmq4.AuthStop()
				again = again || on
				on = false
			default:
				c.D("settings")
				zmq4.AuthSetVerbose(true)
				zmq4.AuthAllow("d", "127.0.0.1")
				zmq4.AuthDeny("d", "127.0.0.2")
				zmq4.AuthCurveAdd("d", "k")
				zmq4.AuthCurveRemove("d", "k")
				zmq4.AuthSetMetadataHandler(nil)
			}
		}
		if again && second {
			c.Nontrivial()
		}
		zmq4.AuthStop()
	})
}
