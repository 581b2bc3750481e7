package h

import (
	"bytes"
	"fmt"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"
)

// Drive runs both handshakes under a drawn schedule: which side is called
// when, and how the streams are cut.
func Drive(t *rapid.T, w *Wire) {
	mode := rapid.IntRange(0, 3).Draw(t, "schedule")
	if mode > 0 {
		r := NewRng(rapid.Uint64().Draw(t, "schedule seed"))
		max := []int{0, 7, 120, 3000}[mode]
		n := []int{0, 900, 400, 60}[mode]
		for i := 0; i < n; i++ {
			w.Collect()
			switch r.IntN(4) {
			case 0:
				w.A.Step()
			case 1:
				w.B.Step()
			case 2:
				w.Deliver(0, 1+r.IntN(max))
			case 3:
				w.Deliver(1, 1+r.IntN(max))
			}
		}
	}
	w.Run()
}

// RunScen runs a scenario's handshake.
func RunScen(t *rapid.T, s *Scen) *Wire {
	cc, sc := s.Configs()
	w := NewWire(cc, sc)
	Drive(t, w)
	return w
}

// Both reports whether both ends completed.
func (w *Wire) Both() bool { return w.A.Done && w.B.Done }

// Status describes both ends.
func (w *Wire) Status() string { return fmt.Sprintf("client %v server %v", w.A, w.B) }

// Agree checks that two completed ends report the same and can talk.
func Agree(w *Wire) error {
	a, b := w.A.C.ConnectionState(), w.B.C.ConnectionState()
	switch {
	case a.CipherSuite.Suite != b.CipherSuite.Suite:
		return fmt.Errorf("suites differ: client %v server %v", a.CipherSuite.Suite, b.CipherSuite.Suite)
	case a.NextProto != b.NextProto:
		return fmt.Errorf("protocols differ: client %q server %q", a.NextProto, b.NextProto)
	case a.UsingPSK != b.UsingPSK:
		return fmt.Errorf("PSK use differs: client %v server %v", a.UsingPSK, b.UsingPSK)
	case a.UsingEarlyData != b.UsingEarlyData:
		return fmt.Errorf("early data use differs: client %v server %v", a.UsingEarlyData, b.UsingEarlyData)
	case a.HandshakeState != mint.StateClientConnected || b.HandshakeState != mint.StateServerConnected:
		return fmt.Errorf("states: client %v server %v", a.HandshakeState, b.HandshakeState)
	}
	for _, l := range []string{"EXPORTER-a", "b"} {
		x, err := w.A.C.ComputeExporter(l, []byte("ctx"), 32)
		if err != nil {
			return err
		}
		y, err := w.B.C.ComputeExporter(l, []byte("ctx"), 32)
		if err != nil {
			return err
		}
		if !bytes.Equal(x, y) {
			return fmt.Errorf("exported keys differ for %q: client %x server %x", l, x, y)
		}
	}
	return nil
}

// Echo sends a message each way and checks what arrives after what was read
// before.
func Echo(w *Wire, c2s, s2c []byte) error {
	w.Flush()
	w.A.ReadAvail(1000)
	w.B.ReadAvail(1000)
	ga, gb := len(w.A.Got), len(w.B.Got)
	if n, err := w.A.C.Write(c2s); err != nil || n != len(c2s) {
		return fmt.Errorf("client Write(%d bytes) = %d, %v", len(c2s), n, err)
	}
	if n, err := w.B.C.Write(s2c); err != nil || n != len(s2c) {
		return fmt.Errorf("server Write(%d bytes) = %d, %v", len(s2c), n, err)
	}
	w.Flush()
	w.A.ReadAvail(777)
	w.B.ReadAvail(777)
	if !bytes.Equal(w.B.Got[gb:], c2s) {
		return fmt.Errorf("server read %s instead of %s (err %v)", Brief(w.B.Got[gb:]), Brief(c2s), w.B.ReadErr)
	}
	if !bytes.Equal(w.A.Got[ga:], s2c) {
		return fmt.Errorf("client read %s instead of %s (err %v)", Brief(w.A.Got[ga:]), Brief(s2c), w.A.ReadErr)
	}
	return nil
}

// Brief prints a byte string shortly.
func Brief(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x...(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}
