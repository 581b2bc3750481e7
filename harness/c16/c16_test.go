// Package c16: early data is delivered only when accepted, and then exactly.
package c16

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// drawPSK draws a scenario with a key that the client offers.
func drawPSK(t *rapid.T) *h.Scen {
	s := h.DrawScen(t, h.ScenOpts{Compatible: true, PSKOnly: true, NoDTLS: true, Tickets: true})
	s.EarlyC = rapid.IntRange(0, 5).Draw(t, "client early") > 0
	s.EarlyS = rapid.IntRange(0, 3).Draw(t, "server early") > 0
	s.PSK.ServerHas = rapid.IntRange(0, 4).Draw(t, "server has the key") > 0
	if o := s.Predict(); !o.OK {
		s.PSK.ServerHas = true
		if o := s.Predict(); !o.OK {
			panic("HARNESS-ERROR " + o.Why)
		}
	}
	return s
}

var sizes = []int{0, 1, 2, 100, 1000, 16383, 16384, 16385, 40000, 70000}

// judge compares what the server read with what was written.
func judge(a, b mint.ConnectionState, want bool, early, late, got []byte) error {
	if a.UsingEarlyData != want || b.UsingEarlyData != want {
		return fmt.Errorf("early data used: client %v server %v, expected %v", a.UsingEarlyData, b.UsingEarlyData, want)
	}
	exp := late
	if want {
		exp = append(append([]byte{}, early...), late...)
	}
	if !bytes.Equal(got, exp) {
		i := 0
		for i < len(got) && i < len(exp) && got[i] == exp[i] {
			i++
		}
		return fmt.Errorf("the server read %d bytes (%s), expected %d (%s), first difference at %d", len(got), h.Brief(got), len(exp), h.Brief(exp), i)
	}
	return nil
}

// TestPair: both ends non-blocking, any timing.
func TestPair(t *testing.T) {
	h.Check(t, 1200, 24000, func(t *rapid.T) {
		s := drawPSK(t)
		o := s.Predict()
		cc, sc := s.Configs()
		w := h.NewWire(cc, sc)
		r := h.NewRng(rapid.Uint64().Draw(t, "schedule seed"))
		var early, late, got []byte
		var log []string
		ctx := func() string { return fmt.Sprintf("%s; %s\n%v", w.Status(), strings.Join(log, " "), s) }
		write := func() {
			n := sizes[r.IntN(len(sizes))]
			if r.IntN(2) == 0 {
				n = r.IntN(200)
			}
			b := r.Bytes(n)
			was := w.A.Done
			k, err := w.A.C.Write(b)
			if err != nil {
				if was || k != 0 {
					t.Fatalf("Write = %d, %v: %s", k, err, ctx())
				}
				return
			}
			if k != n {
				t.Fatalf("Write(%d) = %d: %s", n, k, ctx())
			}
			log = append(log, fmt.Sprintf("write(%d,%v)", n, was))
			if was {
				late = append(late, b...)
			} else {
				early = append(early, b...)
			}
		}
		read := func() {
			buf := make([]byte, 1+r.IntN([]int{4, 500, 30000}[r.IntN(3)]))
			k, err := w.B.C.Read(buf)
			if err != nil && k != 0 {
				t.Fatalf("Read = %d, %v: %s", k, err, ctx())
			}
			got = append(got, buf[:k]...)
			if k > 0 && !o.Early && len(late) == 0 {
				t.Fatalf("early data was delivered although it is not accepted: %s", ctx())
			}
		}
		max := []int{30, 400, 5000, 100000}[r.IntN(4)]
		w.A.Step()
		if o.EarlySnt && !w.A.C.Writable() {
			t.Fatalf("a client that offers early data cannot write: %s", ctx())
		}
		if o.EarlySnt && rapid.Bool().Draw(t, "write at once") {
			write()
		}
		for i := 0; i < 200 && !w.Both(); i++ {
			w.Collect()
			switch r.IntN(10) {
			case 0, 1:
				w.A.Step()
			case 2, 3:
				w.B.Step()
			case 4, 5:
				w.Deliver(0, 1+r.IntN(max))
			case 6:
				w.Deliver(1, 1+r.IntN(max))
			case 7, 8:
				read()
			case 9:
				if len(early)+len(late) < 200000 {
					write()
				}
			}
		}
		w.Run()
		if !w.Both() {
			t.Fatalf("the handshake fails: %s", ctx())
		}
		for i := r.IntN(4); i >= 0; i-- {
			write()
			if r.IntN(2) == 0 {
				w.Flush()
			}
			read()
		}
		w.Flush()
		w.B.ReadAvail(1000)
		got = append(got, w.B.Got...)
		if err := judge(w.A.C.ConnectionState(), w.B.C.ConnectionState(), o.Early, early, late, got); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		if err := h.Agree(w); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		w.B.Got = nil
		if err := h.Echo(w, []byte("to the server"), []byte("to the client")); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		h.Label("pair sent=%v accepted=%v early=%v", o.EarlySnt, o.Early, len(early) > 0)
		h.Case(len(early) > 0, "%d %d %v", len(early), len(late), s)
	})
}

// TestBlocking: blocking ends in goroutines of their own.
func TestBlocking(t *testing.T) {
	h.Check(t, 250, 5000, func(rt *rapid.T) {
		s := drawPSK(rt)
		s.Blocking = true
		o := s.Predict()
		sizes := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 100, 16384, 16385, 40000}), 0, 4).Draw(rt, "early writes")
		n2 := rapid.IntRange(1, 20000).Draw(rt, "later write")
		r := h.NewRng(rapid.Uint64().Draw(rt, "data seed"))
		readSize := rapid.SampledFrom([]int{3, 500, 40000}).Draw(rt, "read size")
		var early, late, got []byte
		var fail string
		var ca, cb mint.ConnectionState
		h.Bubble(t, func() {
			cc, sc := s.Configs()
			a, b := h.NewPair(false, true)
			a.Block, b.Block = true, true
			c, d := mint.NewConn(a, cc, true), mint.NewConn(b, sc, false)
			var errs [2]string
			go func() {
				if x := c.HandshakeSetup(); x != mint.AlertNoAlert {
					errs[0] = "setup: " + x.String()
					return
				}
				for _, n := range sizes {
					p := r.Bytes(n)
					k, err := c.Write(p)
					if (err == nil) != o.EarlySnt || err == nil && k != n {
						errs[0] = fmt.Sprintf("early Write(%d) = %d, %v", n, k, err)
						return
					}
					if err == nil {
						early = append(early, p...)
					}
				}
				if x := c.Handshake(); x != mint.AlertNoAlert {
					errs[0] = "handshake: " + x.String()
					a.Close()
					return
				}
				late = r.Bytes(n2)
				if k, err := c.Write(late); err != nil || k != n2 {
					errs[0] = fmt.Sprintf("Write(%d) = %d, %v", n2, k, err)
				}
				ca = c.ConnectionState()
				c.Close()
			}()
			go func() {
				x := d.Handshake()
				for i := 0; i < 3 && x == mint.AlertStatelessRetry; i++ {
					x = d.Handshake()
				}
				if x != mint.AlertNoAlert {
					errs[1] = "handshake: " + x.String()
					b.Close()
					return
				}
				cb = d.ConnectionState()
				buf := make([]byte, readSize)
				for {
					k, err := d.Read(buf)
					got = append(got, buf[:k]...)
					if err != nil {
						break
					}
				}
			}()
			synctest.Wait()
			a.EndIn()
			b.EndIn()
			synctest.Wait()
			if errs[0] != "" || errs[1] != "" {
				fail = fmt.Sprintf("client %s server %s", errs[0], errs[1])
			}
		})
		if fail != "" {
			rt.Fatalf("%s\n%v", fail, s)
		}
		if err := judge(ca, cb, o.Early, early, late, got); err != nil {
			rt.Fatalf("%v\n%v", err, s)
		}
		h.Label("blocking sent=%v accepted=%v early=%v", o.EarlySnt, o.Early, len(early) > 0)
		h.Case(len(early) > 0, "%d %d %v", len(early), len(late), s)
	})
}

// TestClient: an independent client with several identities.
func TestClient(t *testing.T) {
	h.Check(t, 700, 14000, func(t *rapid.T) {
		s := drawPSK(t)
		s.EarlyC = true
		s.PSK.ServerHas = true
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		_, sc := s.Configs()
		c := h.RefClient(s, r)
		n := rapid.IntRange(1, 3).Draw(t, "identities")
		first := -1
		psks := make([]*ref.PSK, n)
		sc.PSKs = &mint.PSKMapCache{}
		for i := range psks {
			psks[i] = &ref.PSK{ID: append(r.Bytes(4), byte(i)), Key: r.Bytes(32), Suite: uint16(s.PSK.Suite)}
			if rapid.Bool().Draw(t, "known") {
				sc.PSKs.Put(hex.EncodeToString(psks[i].ID), mint.PreSharedKey{CipherSuite: s.PSK.Suite, Identity: psks[i].ID, Key: psks[i].Key})
				if first < 0 {
					first = i
				}
			}
		}
		if first < 0 && (!s.Predict().OK || len(s.Certs) == 0) {
			first = -1
		}
		c.Cfg.PSKs = psks
		var early []byte
		for i := rapid.IntRange(0, 5).Draw(t, "early records"); i > 0; i-- {
			b := r.Bytes(sizes[:7][r.IntN(7)])
			early = append(early, b...)
			c.Cfg.EarlyData = append(c.Cfg.EarlyData, b)
		}
		c.Pad = rapid.SampledFrom([]int{0, 0, 1, 100}).Draw(t, "padding")
		if c.Pad > 0 { // leave room
			for i, b := range c.Cfg.EarlyData {
				if len(b) > 16000 {
					c.Cfg.EarlyData[i] = b[:16000]
				}
			}
			early = bytes.Join(c.Cfg.EarlyData, nil)
		}
		l := &h.Link{N: h.NewNode(sc, false), P: c}
		if r.IntN(2) == 0 {
			m := []int{20, 700, 20000}[r.IntN(3)]
			l.Split = func(x []byte) (o [][]byte) {
				for len(x) > 0 {
					k := min(len(x), 1+r.IntN(m))
					o = append(o, x[:k])
					x = x[k:]
				}
				return
			}
		}
		c.Start()
		var got []byte
		buf := make([]byte, 1+r.IntN(2000))
		for i := 0; i < 40; i++ {
			if r.IntN(2) == 0 {
				l.N.Step()
			}
			if r.IntN(2) == 0 {
				l.Move()
			}
			if r.IntN(3) == 0 && !l.N.Done {
				k, _ := l.N.C.Read(buf)
				got = append(got, buf[:k]...)
			}
		}
		l.Run()
		ctx := fmt.Sprintf("identities %d, first known %d, %d early bytes in %d records, padding %d: server %v, client done=%v early=%v %v\n%v", n, first, len(early), len(c.Cfg.EarlyData), c.Pad, l.N, c.Done, c.EarlyOK, c.Err, s)
		o := s.Predict()
		s2 := *s
		p := *s.PSK
		p.ServerHas = first >= 0
		s2.PSK = &p
		o = s2.Predict()
		if !o.OK {
			t.Skip("no certificate to fall back to")
		}
		if !l.N.Done || !c.Done {
			t.Fatalf("the handshake fails: %s", ctx)
		}
		late := r.Bytes(r.IntN(3000))
		c.SendApp(late)
		l.Move()
		l.N.ReadAvail(500)
		got = append(got, l.N.Got...)
		cs := l.N.C.ConnectionState()
		want := first == 0 && s.EarlyS && !o.HRR
		if err := judge(mint.ConnectionState{UsingEarlyData: c.EarlyOK}, cs, want, early, late, got); err != nil {
			t.Fatalf("%v: %s", err, ctx)
		}
		h.Label("client first=%d allow=%v retry=%v used=%v", first, s.EarlyS, o.HRR, want)
		h.Case(len(early) > 0, "%d %d %d %d %v", n, first, len(early), c.Pad, s)
	})
}

// TestServer: an independent server accepts or rejects.
func TestServer(t *testing.T) {
	h.Check(t, 700, 14000, func(t *rapid.T) {
		s := drawPSK(t)
		s.EarlyC = true
		o := s.Predict()
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		cc, _ := s.Configs()
		srv := h.RefServer(s, r)
		srv.Coalesce = r.IntN(2) == 0
		l := &h.Link{N: h.NewNode(cc, true), P: srv}
		l.N.Step()
		var early, late []byte
		for i := 0; i < 60 && !l.N.Done; i++ {
			switch r.IntN(4) {
			case 0:
				l.N.Step()
			case 1:
				l.Move()
			case 2:
				if len(early) > 100000 {
					continue
				}
				b := r.Bytes(sizes[r.IntN(len(sizes))])
				k, err := l.N.C.Write(b)
				if err == nil && k != len(b) || err != nil && k != 0 {
					t.Fatalf("Write = %d, %v\n%v", k, err, s)
				}
				if err == nil && !l.N.Done {
					early = append(early, b...)
				} else if err == nil {
					late = append(late, b...)
				}
			}
		}
		l.Run()
		ctx := fmt.Sprintf("%d early bytes: client %v server done=%v early=%v %v\n%v", len(early), l.N, srv.Done, srv.EarlyOK, srv.Err, s)
		if !l.N.Done || !srv.Done {
			t.Fatalf("the handshake fails: %s", ctx)
		}
		b := r.Bytes(1 + r.IntN(20000))
		if k, err := l.N.C.Write(b); k != len(b) || err != nil {
			t.Fatalf("Write = %d, %v: %s", k, err, ctx)
		}
		late = append(late, b...)
		l.Move()
		if srv.EarlyOK != o.Early || l.N.C.ConnectionState().UsingEarlyData != o.Early {
			t.Fatalf("early data used: client %v server %v, expected %v: %s", l.N.C.ConnectionState().UsingEarlyData, srv.EarlyOK, o.Early, ctx)
		}
		if want := early; o.Early && !bytes.Equal(srv.EarlyRx, want) || !o.Early && len(srv.EarlyRx) > 0 {
			t.Fatalf("the server got %d early bytes (%s), %d were written (%s): %s", len(srv.EarlyRx), h.Brief(srv.EarlyRx), len(early), h.Brief(early), ctx)
		}
		if !bytes.Equal(srv.App, late) {
			t.Fatalf("the server got %s after the early data, not %s (%v): %s", h.Brief(srv.App), h.Brief(late), srv.Err, ctx)
		}
		h.Label("server accepted=%v retry=%v", o.Early, o.HRR)
		h.Case(len(early) > 0, "%d %d %v", len(early), len(late), s)
	})
}
