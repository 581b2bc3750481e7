// Package c26: no data is accepted or released before the handshake allows
// it.
package c26

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// watch follows one endpoint before its handshake completes.
type watch struct {
	n      *h.Node
	offers bool // a client that offers early data, or a server that may accept it
	early  *watch
	wrote  []byte // early data written
	read   []byte // data read before completion
	count  int
}

// probe makes every call that must not work yet.
func (w *watch) probe(r *h.Rng) error {
	n := w.n
	if n.Done {
		return nil
	}
	w.count++
	sent := len(n.T.Sent)
	cs := n.C.ConnectionState()
	if cs.CipherSuite.Suite != 0 || cs.NextProto != "" || cs.PeerCertificates != nil || cs.VerifiedChains != nil || cs.UsingPSK || cs.UsingEarlyData {
		return fmt.Errorf("before completion ConnectionState shows suite %v protocol %q certificates %d PSK %v early data %v", cs.CipherSuite.Suite, cs.NextProto, len(cs.PeerCertificates), cs.UsingPSK, cs.UsingEarlyData)
	}
	if x := cs.HandshakeState; x == mint.StateClientConnected || x == mint.StateServerConnected {
		return fmt.Errorf("the state is %v before completion", x)
	}
	for _, k := range r.Bytes(1 + r.IntN(4)) {
		switch k % 5 {
		case 0, 1:
			b := r.Bytes(r.IntN(50))
			k, err := n.C.Write(b)
			may := n.Client && w.offers && n.Steps > 0 && !n.Failed
			if err == nil && !may {
				return fmt.Errorf("Write succeeds before completion")
			}
			if !may && k != 0 {
				return fmt.Errorf("Write fails but returns %d", k)
			}
			if err == nil {
				w.wrote = append(w.wrote, b[:k]...)
				sent = len(n.T.Sent)
			}
			if err == nil && !n.C.Writable() {
				return fmt.Errorf("Write works but Writable does not say so")
			}
			if err != nil && n.C.Writable() && n.T.WriteErr == nil {
				return fmt.Errorf("Write fails (%v) but Writable says it works", err)
			}
		case 2:
			buf := make([]byte, 1+r.IntN(60))
			k, err := n.C.Read(buf)
			if err == nil && (n.Client || !w.offers || n.Failed) {
				return fmt.Errorf("Read succeeds before completion with %x", buf[:k])
			}
			if err != nil && k != 0 {
				return fmt.Errorf("Read returns %d, %v before completion", k, err)
			}
			if n.Failed && err == mint.AlertWouldBlock {
				return fmt.Errorf("Read reports %v after the handshake failed", err)
			}
			w.read = append(w.read, buf[:k]...)
			if w.early == nil && len(w.read) > 0 {
				return fmt.Errorf("Read before completion returns %x", w.read)
			}
			if w.early != nil && !bytes.HasPrefix(w.early.wrote, w.read) {
				return fmt.Errorf("Read before completion returns %x, early data is %x", w.read, w.early.wrote)
			}
		case 3:
			if x, err := n.C.ComputeExporter("label", []byte("context"), 16); err == nil || x != nil {
				return fmt.Errorf("ComputeExporter before completion returns %x, %v", x, err)
			}
		case 4:
			if err := n.C.SendKeyUpdate(r.IntN(2) == 0); err == nil {
				return fmt.Errorf("SendKeyUpdate succeeds before completion")
			}
		}
	}
	if len(n.T.Sent) != sent {
		return fmt.Errorf("a call before completion sent %x", n.T.Sent[sent:])
	}
	if n.Failed {
		if a := n.C.Handshake(); a != n.Alert {
			return fmt.Errorf("the handshake failed with %v, but now it reports %v", n.Alert, a)
		}
		if len(n.T.Sent) != sent {
			return fmt.Errorf("a failed handshake sent %x", n.T.Sent[sent:])
		}
	}
	return nil
}

// TestPair: calls at every step of handshakes that succeed or fail.
func TestPair(t *testing.T) {
	h.Check(t, 1200, 24000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Tickets: true, Compatible: rapid.IntRange(0, 3).Draw(t, "compatible") > 0})
		o := s.Predict()
		cc, sc := s.Configs()
		w := h.NewWire(cc, sc)
		w.A.NoClose, w.B.NoClose = true, true
		r := h.NewRng(rapid.Uint64().Draw(t, "schedule seed"))
		a := &watch{n: w.A, offers: s.PSK != nil && s.EarlyC}
		b := &watch{n: w.B, offers: s.EarlyS, early: a}
		fault := rapid.IntRange(0, 4).Draw(t, "fault")
		var log []string
		ctx := func() string {
			return fmt.Sprintf("fault %d: %s; %s\n%v", fault, w.Status(), strings.Join(log, " "), s)
		}
		k := rapid.IntRange(0, 9).Draw(t, "fault position")
		side := rapid.IntRange(0, 1).Draw(t, "fault side")
		hit := false
		switch fault {
		case 1: // damage on the wire
			i := 0
			w.Filter = func(dir int, x []byte) [][]byte {
				if i++; i == k+1 && len(x) > 0 {
					x = append([]byte{}, x...)
					x[r.IntN(len(x))] ^= byte(1 + r.IntN(255))
					hit = true
					log = append(log, "damaged")
				}
				return [][]byte{x}
			}
		case 2: // a write fails
			i := 0
			n := []*h.Node{w.A, w.B}[side]
			n.T.WriteErr = func() error {
				if i++; i > k {
					hit = true
					return errors.New("broken pipe")
				}
				return nil
			}
		}
		max := []int{30, 400, 5000}[r.IntN(3)]
		step := func() {
			w.Collect()
			for _, x := range []*watch{a, b} {
				if r.IntN(2) == 0 {
					if err := x.probe(r); err != nil {
						t.Fatalf("client=%v: %v: %s", x.n.Client, err, ctx())
					}
				}
			}
			switch r.IntN(6) {
			case 0, 1:
				w.A.Step()
			case 2, 3:
				w.B.Step()
			case 4:
				w.Deliver(0, 1+r.IntN(max))
			case 5:
				w.Deliver(1, 1+r.IntN(max))
			}
		}
		for i := 0; i < 60 && !w.Both(); i++ {
			if fault == 3 && i == 6*k {
				[]*h.Node{w.A, w.B}[side].T.EndIn()
				hit = true
			}
			step()
		}
		for i := 0; i < 3; i++ {
			w.Run()
			for _, x := range []*watch{a, b} {
				if err := x.probe(r); err != nil {
					t.Fatalf("client=%v: %v: %s", x.n.Client, err, ctx())
				}
			}
			if !w.A.Done && !w.B.Done {
				// Whatever still comes.
				w.A.T.Push(r.Bytes(30))
				w.B.T.Push(r.Bytes(30))
			}
		}
		if !hit && o.OK != w.Both() {
			t.Fatalf("completed=%v, expected %v (%s): %s", w.Both(), o.OK, o.Why, ctx())
		}
		if w.Both() && fault != 3 && fault != 2 && !hit {
			w.Filter = nil
			w.A.ReadAvail(100)
			w.B.ReadAvail(100)
			if err := h.Agree(w); err != nil {
				t.Fatalf("%v: %s", err, ctx())
			}
			got := append(append([]byte{}, b.read...), w.B.Got...)
			var want []byte
			if o.Early {
				want = a.wrote
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("the server read %x of the early data %x (accepted: %v): %s", got, a.wrote, o.Early, ctx())
			}
			if err := h.Echo(w, []byte("from the client"), []byte("from the server")); err != nil {
				t.Fatalf("%v: %s", err, ctx())
			}
		}
		h.Label("pair fault=%d hit=%v both=%v early=%v", fault, hit, w.Both(), len(a.wrote) > 0)
		h.Case(a.count+b.count > 2, "%d %d %d %v", fault, k, side, s)
	})
}

// TestLate: the peer's flight is wrong at some point, and data follows under
// the right keys.
func TestLate(t *testing.T) {
	h.Check(t, 900, 18000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoEarly: true})
		s.Insecure = false
		if !s.Predict().OK {
			t.Skip("needs an insecure client")
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		cc, sc := s.Configs()
		var l *h.Link
		var b *ref.Base
		start := func() {}
		if isClient {
			p := h.RefServer(s, r)
			p.Cfg.NoChecks = true
			b, l = &p.Base, &h.Link{N: h.NewNode(cc, true), P: p}
		} else {
			p := h.RefClient(s, r)
			b, l, start = &p.Base, &h.Link{N: h.NewNode(sc, false), P: p}, p.Start
		}
		l.N.NoClose = true
		b.Coalesce = !s.DTLS && r.IntN(2) == 0
		kinds := []byte{ref.HFinished, ref.HCertVerify}
		kind := kinds[rapid.IntRange(0, 1).Draw(t, "message")]
		hit := false
		b.Hook = func(m *ref.OutMsg) {
			if m.Kind == kind && !hit {
				hit = true
				x := append([]byte{}, m.Raw...)
				x[len(x)-1-r.IntN(8)] ^= byte(1 + r.IntN(255))
				m.Set(x)
				if r.IntN(2) == 0 {
					m.Absorb = [][]byte{m.Raw}
				}
			}
		}
		w := &watch{n: l.N}
		start()
		for i := 0; i < 30; i++ {
			if err := w.probe(r); err != nil {
				t.Fatalf("%v (client=%v peer %v)\n%v", err, isClient, b.Err, s)
			}
			l.N.Step()
			l.Move()
		}
		l.Run()
		if hit && l.N.Done {
			t.Fatalf("completed after a wrong message %d (client=%v)\n%v", kind, isClient, s)
		}
		if !hit && !l.N.Done {
			t.Fatalf("handshake: %v %v\n%v", l.N, b.Err, s)
		}
		if hit {
			if b.Done {
				b.SendApp([]byte("data after the failure"))
			}
			l.Move()
			for i := 0; i < 5; i++ {
				if err := w.probe(r); err != nil {
					t.Fatalf("%v (client=%v peer %v)\n%v", err, isClient, b.Err, s)
				}
			}
			if !l.N.Failed {
				t.Fatalf("the failure is not reported: %v\n%v", l.N, s)
			}
		}
		h.Label("late client=%v message=%d hit=%v", isClient, kind, hit)
		h.Case(hit, "%v %d %v", isClient, kind, s)
	})
}
