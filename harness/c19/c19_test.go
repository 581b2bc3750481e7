// Package c19: keys and secrets follow the TLS 1.3 key schedule.
package c19

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"fmt"
	"strings"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

type side interface {
	SendApp([]byte)
	SendKeyUpdate(bool)
	Exporter(string, []byte, int) []byte
}

func exporters(t *rapid.T, n *h.Node, p side, hl int) error {
	for i := 0; i < 3; i++ {
		label := rapid.SampledFrom([]string{"EXPORTER-test", "", "a b c", strings.Repeat("l", 200), strings.Repeat("l", 249), strings.Repeat("l", 250), strings.Repeat("l", 257), "\x00\xff"}).Draw(t, "label")
		ctx := rapid.SampledFrom([][]byte{nil, {0}, []byte("context"), bytes.Repeat([]byte{9}, 300)}).Draw(t, "context")
		k := rapid.SampledFrom([]int{1, 12, 16, 32, 33, 48, 64, 65, 255, 1000}).Draw(t, "length")
		got, err := n.C.ComputeExporter(label, ctx, k)
		if len(label) > 249 { // a HkdfLabel cannot hold it
			if err == nil {
				return fmt.Errorf("exporter(label of %d bytes) = %x", len(label), got)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("exporter(%q, %d bytes, %d): %v", label, len(ctx), k, err)
		}
		if want := p.Exporter(label, ctx, k); !bytes.Equal(got, want) {
			return fmt.Errorf("exporter(%q, %x, %d) = %x, want %x", label, ctx, k, got, want)
		}
	}
	return nil
}

// life drives a connected pair through data, key updates and exporters.
func life(t *rapid.T, l *h.Link, base *ref.Base, what string) {
	n := l.N
	fail := func(f string, a ...any) {
		t.Fatalf("%s: %s (peer error %v, read error %v)", what, fmt.Sprintf(f, a...), base.Err, n.ReadErr)
	}
	if err := exporters(t, n, base, 0); err != nil {
		fail("%v", err)
	}
	sent, rcvd := 0, 0
	for i := rapid.IntRange(0, 6).Draw(t, "steps"); i >= 0; i-- {
		k := rapid.IntRange(0, 3).Draw(t, "step")
		if i == 0 {
			k = 0
		}
		switch k {
		case 0, 1:
			m := bytes.Repeat([]byte{byte(i + 1)}, 20)
			a, b := len(n.Got), len(base.App)
			base.SendApp(m)
			if c, err := n.C.Write(m); err != nil || c != len(m) {
				fail("Write = %d, %v", c, err)
			}
			for l.Move() {
				n.ReadAvail(100)
			}
			n.ReadAvail(100)
			l.Move()
			if !bytes.Equal(n.Got[a:], m) || !bytes.Equal(base.App[b:], m) {
				fail("after %d/%d key updates data do not arrive under the expected keys: got %d and %d bytes", sent, rcvd, len(n.Got)-a, len(base.App)-b)
			}
		case 2:
			rcvd++
			base.SendKeyUpdate(rapid.Bool().Draw(t, "request"))
			l.Move()
			n.ReadAvail(100)
			l.Move()
		case 3:
			sent++
			if err := n.C.SendKeyUpdate(rapid.Bool().Draw(t, "request")); err != nil {
				fail("SendKeyUpdate: %v", err)
			}
			for l.Move() {
				n.ReadAvail(100)
			}
		}
		if base.Err != nil {
			fail("the peer cannot follow")
		}
	}
	if err := exporters(t, n, base, 0); err != nil {
		fail("after the key updates %v", err)
	}
	h.Label("key updates %v/%v", sent > 0, rcvd > 0)
}

func earlyBytes(t *rapid.T) []byte {
	return rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "early data")
}

// TestClient: the library's client against the reference server.
func TestClient(t *testing.T) {
	h.Check(t, 700, 9000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, Slow: rapid.IntRange(0, 60).Draw(t, "slow") == 60})
		o := s.Predict()
		cc, _ := s.Configs()
		rng := h.NewRng(rapid.Uint64().Draw(t, "server seed"))
		srv := h.RefServer(s, rng)
		n := h.NewNode(cc, true)
		l := &h.Link{N: n, P: srv}
		var early []byte
		if o.EarlySnt && rapid.Bool().Draw(t, "write early") {
			n.Step()
			if n.C.Writable() {
				early = earlyBytes(t)
				if _, err := n.C.Write(early); err != nil {
					t.Fatalf("early write: %v", err)
				}
			}
		}
		l.Run()
		what := fmt.Sprintf("client of %v", s)
		if !n.Done || !srv.Done {
			t.Fatalf("the server's keys are not those of %s: %v, server %v (messages %v)", what, n, srv.Err, srv.Msgs)
		}
		if srv.EarlyOK && !bytes.Equal(srv.EarlyRx, early) {
			t.Fatalf("early data under other keys: got %x want %x: %s", srv.EarlyRx, early, what)
		}
		n.ReadAvail(100)
		h.Label("client dtls=%v psk=%v dh=%v hrr=%v early=%v cauth=%v", s.DTLS, o.PSK, o.DH, o.HRR, srv.EarlyOK, o.Asked)
		h.Case(true, "%s", what)
		life(t, l, &srv.Base, what)
		// Tickets: the client's next hello carries a binder under the key derived
		// from each of its tickets; the last one counts.
		if rapid.IntRange(0, 1).Draw(t, "resume") == 0 {
			return
		}
		var p *ref.PSK
		for i := rapid.IntRange(1, 3).Draw(t, "tickets"); i > 0; i-- {
			nonce := rng.Bytes(rapid.SampledFrom([]int{0, 1, 8, 255}).Draw(t, "nonce"))
			p = srv.SendTicket(rng.Bytes(1+rng.IntN(60)), nonce, uint32(rng.IntN(1<<31)), 3600, nil)
			l.Move()
			n.ReadAvail(100)
		}
		if n.ReadErr != nil {
			t.Fatalf("ticket: %v: %s", n.ReadErr, what)
		}
		s2 := *s
		s2.PSK = nil
		srv2 := h.RefServer(&s2, rng)
		srv2.Cfg.Suites = []uint16{p.Suite, 0x1301, 0x1302}
		srv2.Cfg.Cookie = nil
		if rapid.Bool().Draw(t, "retry") {
			srv2.Cfg.Cookie = []byte("cookie")
		}
		srv2.Cfg.PSK = func(id []byte) *ref.PSK {
			if bytes.Equal(id, p.ID) {
				return p
			}
			return nil
		}
		if len(s.CModes) == 1 {
			srv2.Cfg.NoDHE = s.CModes[0] == mint.PSKModeKE
		} else {
			srv2.Cfg.NoDHE = rapid.Bool().Draw(t, "psk_ke")
		}
		srv2.Cfg.Groups = []uint16{23, 24, 25, 29, 256, 257, 258, 259, 260}
		n2 := h.NewNode(cc, true)
		l2 := &h.Link{N: n2, P: srv2}
		l2.Run()
		if !n2.Done || !srv2.Done || srv2.UsedPSK == nil {
			t.Fatalf("resumption: %v, server %v (done %v PSK %v): %s", n2, srv2.Err, srv2.Done, srv2.UsedPSK != nil, what)
		}
		h.Label("client resumed")
		life(t, l2, &srv2.Base, "resumed "+what)
	})
}

// TestServer: the library's server against the reference client.
func TestServer(t *testing.T) {
	h.Check(t, 700, 9000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, Tickets: true, Slow: rapid.IntRange(0, 60).Draw(t, "slow") == 60})
		if len(s.SGroups) == 0 {
			s.SGroups = append([]mint.NamedGroup{}, h.CheapGroups...)
		}
		if len(s.CGroups) == 0 {
			s.CGroups = []mint.NamedGroup{mint.P256, mint.X25519}
			for _, g := range s.SGroups[:1] {
				s.CGroups = append(s.CGroups, g)
			}
			if s.SGroups[0] == mint.P256 || s.SGroups[0] == mint.X25519 {
				s.CGroups = s.CGroups[:2]
			}
		}
		o := s.Predict()
		_, sc := s.Configs()
		rng := h.NewRng(rapid.Uint64().Draw(t, "client seed"))
		c := h.RefClient(s, rng)
		var early []byte
		if o.EarlySnt {
			early = earlyBytes(t)
			c.Cfg.EarlyData = [][]byte{early[:len(early)/2], early[len(early)/2:]}
			if len(early) < 2 {
				c.Cfg.EarlyData = [][]byte{early}
			}
		}
		c.Start()
		n := h.NewNode(sc, false)
		l := &h.Link{N: n, P: c}
		l.Run()
		what := fmt.Sprintf("server of %v", s)
		if !n.Done || !c.Done || n.Failed {
			t.Fatalf("the client's keys are not those of %s: %v, client %v (messages %v)", what, n, c.Err, c.Msgs)
		}
		n.ReadAvail(100)
		want := []byte(nil)
		if c.EarlyOK {
			want = early
		}
		if !bytes.Equal(n.Got, want) {
			t.Fatalf("early data: got %x want %x: %s", n.Got, want, what)
		}
		h.Label("server dtls=%v psk=%v dh=%v hrr=%v early=%v cauth=%v", s.DTLS, o.PSK, o.DH, o.HRR, c.EarlyOK, o.Asked)
		h.Case(true, "%s", what)
		life(t, l, &c.Base, what)
		if !s.Tickets {
			return
		}
		if len(c.Tickets) == 0 {
			t.Fatalf("no ticket arrived: %s", what)
		}
		p := c.Tickets[rapid.IntRange(0, len(c.Tickets)-1).Draw(t, "which ticket")]
		if p.Suite != c.S.ID {
			t.Fatalf("ticket suite")
		}
		// Resume, perhaps with another identity first and with a retry.
		c2 := h.RefClient(s, rng)
		c2.Cfg.PSKs = []*ref.PSK{p}
		c2.Cfg.Suites = []uint16{p.Suite}
		c2.Cfg.Early = false
		c2.Cfg.ALPN = nil
		if rapid.Bool().Draw(t, "unknown identity first") {
			c2.Cfg.PSKs = []*ref.PSK{{ID: []byte("unknown"), Key: []byte("k"), Suite: p.Suite}, p}
		}
		c2.Start()
		n2 := h.NewNode(sc, false)
		l2 := &h.Link{N: n2, P: c2}
		l2.Run()
		if !n2.Done || !c2.Done || c2.UsedPSK != p {
			t.Fatalf("resumption: %v, client %v (done %v PSK %v): %s", n2, c2.Err, c2.Done, c2.UsedPSK != nil, what)
		}
		h.Label("server resumed")
		n2.ReadAvail(100)
		life(t, l2, &c2.Base, "resumed "+what)
	})
}

// TestFunctions compares the public key derivation functions with their
// definitions.
func TestFunctions(t *testing.T) {
	h.Check(t, 3000, 60000, func(t *rapid.T) {
		hash := rapid.SampledFrom([]crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}).Draw(t, "hash")
		size := []int{0, 1, 31, 32, 33, 48, 64, 65, 127, 128, 129, 255, 256, 1000}
		a := h.Data(t, "a", 1200, size...)
		b := h.Data(t, "b", 1200, size...)
		k := rapid.OneOf(rapid.SampledFrom(append(size, hash.Size()*255, hash.Size()*255-1)), rapid.IntRange(0, 2000)).Draw(t, "length")
		ka, kb := append([]byte{}, a...), append([]byte{}, b...)
		// RFC 5869 2.2: an absent salt is HashLen zeros, which HMAC pads the same way.
		m := hmac.New(hash.New, a)
		if len(a) == 0 {
			m = hmac.New(hash.New, make([]byte, hash.Size()))
		}
		m.Write(b)
		if got := mint.HkdfExtract(hash, a, b); !bytes.Equal(got, m.Sum(nil)) {
			t.Fatalf("HkdfExtract(%v, %x, %x) = %x, want %x", hash, a, b, got, m.Sum(nil))
		}
		if got, want := mint.HkdfExtract(hash, nil, b), ref.Extract(hash, nil, b); !bytes.Equal(got, want) {
			t.Fatalf("HkdfExtract(%v, nil, %x) = %x, want %x", hash, b, got, want)
		}
		if got, want := mint.HkdfExpand(hash, a, b, k), expand(hash, a, b, k); !bytes.Equal(got, want) {
			t.Fatalf("HkdfExpand(%v, %x, %x, %d) = %s, want %s", hash, a, b, k, h.Brief(got), h.Brief(want))
		}
		label := string(h.Data(t, "label", 249, 0, 1, 9, 200, 248, 249))
		ctx := h.Data(t, "context", 255, 0, 1, 32, 48, 254, 255)
		kc := append([]byte{}, ctx...)
		info := ref.Cat(ref.U16(k), ref.V8([]byte("tls13 "+label)), ref.V8(ctx))
		if got, want := mint.HkdfExpandLabel(hash, a, label, ctx, k), expand(hash, a, info, k); !bytes.Equal(got, want) {
			t.Fatalf("HkdfExpandLabel(%v, %x, %q, %x, %d) = %s, want %s", hash, a, label, ctx, k, h.Brief(got), h.Brief(want))
		}
		if !bytes.Equal(a, ka) || !bytes.Equal(b, kb) || !bytes.Equal(ctx, kc) {
			t.Fatalf("arguments were changed")
		}
		h.Label("functions %v", hash)
		h.Case(len(a)+len(b) > 0 && k > 0, "%v %d %d %d %d %x", hash, len(a), len(b), k, len(label), ctx)
	})
}

// expand is RFC 5869 2.3.
func expand(hash crypto.Hash, prk, info []byte, n int) []byte {
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		m := hmac.New(hash.New, prk)
		m.Write(t)
		m.Write(info)
		m.Write([]byte{i})
		t = m.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}
