package vlib

import (
	"fmt"
	"io"

	zmq4 "github.com/luxfi/zmq/v4"
)

// Sec is a security mechanism whose handshake is that of NULL.
type Sec struct {
	Kind     zmq4.SecurityType
	Enc, Dec func(b []byte) ([]byte, error) // nil: unchanged
}

func (s *Sec) Type() zmq4.SecurityType { return s.Kind }

func (s *Sec) Handshake(conn *zmq4.Conn, server bool) error {
	raw, err := conn.Meta.MarshalZMTP()
	if err != nil {
		return err
	}
	if err := conn.SendCmd(zmq4.CmdReady, raw); err != nil {
		return err
	}
	cmd, err := conn.RecvCmd()
	if err != nil {
		return err
	}
	if cmd.Name != zmq4.CmdReady {
		return fmt.Errorf("got %q", cmd.Name)
	}
	return conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
}

func through(w io.Writer, f func([]byte) ([]byte, error), b []byte) (int, error) {
	if f != nil {
		var err error
		if b, err = f(b); err != nil {
			return 0, err
		}
	}
	return w.Write(b)
}

func (s *Sec) Encrypt(w io.Writer, b []byte) (int, error) { return through(w, s.Enc, b) }
func (s *Sec) Decrypt(w io.Writer, b []byte) (int, error) { return through(w, s.Dec, b) }
