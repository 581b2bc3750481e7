// Package c29: application extensions are exchanged intact.
package c29

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// used are the types that TLS 1.3 gives a meaning.
var used = map[uint16]bool{0: true, 10: true, 13: true, 16: true, 40: true, 41: true, 42: true, 43: true, 44: true, 45: true, 46: true, 47: true, 48: true, 49: true, 50: true, 51: true}

const (
	ch  = mint.HandshakeTypeClientHello
	hrr = mint.HandshakeTypeHelloRetryRequest
	sh  = mint.HandshakeTypeServerHello
	ee  = mint.HandshakeTypeEncryptedExtensions
)

var carriers = []mint.HandshakeType{ch, hrr, sh, ee}

// drawExts draws extensions of different types, size bytes at most together.
func drawExts(t *rapid.T, label string, size int) []ref.Ext {
	n := rapid.IntRange(0, 4).Draw(t, label+" extensions")
	var xs []ref.Ext
	seen := map[uint16]bool{}
	for i := 0; i < n; i++ {
		ty := rapid.SampledFrom([]uint16{1, 5, 17, 19, 52, 255, 256, 0x0a0a, 13172, 0x1600, 0x2a00, 0x2900, 0x0029 + 256, 0xff01, 0xffff, 0xffce}).Draw(t, label+" type")
		if rapid.Bool().Draw(t, label+" any type") {
			ty = uint16(rapid.IntRange(0, 65535).Draw(t, label+" type"))
		}
		if used[ty] || seen[ty] {
			continue
		}
		seen[ty] = true
		m := 200
		if rapid.IntRange(0, 19).Draw(t, label+" big") == 0 {
			m = size
		}
		if m > size {
			m = size
		}
		d := h.Data(t, label+" data", m, 0, 1, 255, 256, m)
		size -= len(d) + 4
		if size < 0 {
			break
		}
		xs = append(xs, ref.Ext{Type: ty, Data: d})
	}
	return xs
}

type body struct {
	ty   mint.ExtensionType
	data []byte
}

func (b *body) Type() mint.ExtensionType { return b.ty }
func (b *body) Marshal() ([]byte, error) { return b.data, nil }
func (b *body) Unmarshal(d []byte) (int, error) {
	b.data = append([]byte{}, d...)
	return len(d), nil
}

// call is one call of a handler.
type call struct {
	send bool
	mt   mint.HandshakeType
	list []ref.Ext
}

func (c call) String() string {
	s := "receive"
	if c.send {
		s = "send"
	}
	return fmt.Sprintf("%s %d %s", s, c.mt, show(c.list))
}

func show(xs []ref.Ext) string {
	s := ""
	for _, x := range xs {
		s += fmt.Sprintf(" %d:%s", x.Type, h.Brief(x.Data))
	}
	return "[" + s + "]"
}

// app is an application's handler.
type app struct {
	plan   map[mint.HandshakeType][]ref.Ext
	peer   map[mint.HandshakeType][]ref.Ext // what the other side adds
	calls  []call
	failAt int // the call that fails (-1: none)
	fired  bool
	bad    error
}

var errApp = errors.New("the application objects")

func list(el mint.ExtensionList) (o []ref.Ext) {
	for _, x := range el {
		o = append(o, ref.Ext{Type: uint16(x.ExtensionType), Data: append([]byte{}, x.ExtensionData...)})
	}
	return
}

func (a *app) note(send bool, mt mint.HandshakeType, el *mint.ExtensionList) error {
	a.calls = append(a.calls, call{send, mt, list(*el)})
	if len(a.calls)-1 == a.failAt {
		a.fired = true
		return errApp
	}
	return nil
}

func (a *app) Send(mt mint.HandshakeType, el *mint.ExtensionList) error {
	for _, x := range a.plan[mt] {
		if err := el.Add(&body{mint.ExtensionType(x.Type), x.Data}); err != nil {
			a.bad = fmt.Errorf("Add: %v", err)
		}
	}
	return a.note(true, mt, el)
}

func (a *app) Receive(mt mint.HandshakeType, el *mint.ExtensionList) error {
	for _, x := range a.peer[mt] {
		b := &body{ty: mint.ExtensionType(x.Type)}
		ok, err := el.Find(b)
		if !ok || err != nil || !bytes.Equal(b.data, x.Data) {
			a.bad = fmt.Errorf("extension %d of message %d: found %v (%v) with %s instead of %s", x.Type, mt, ok, err, h.Brief(b.data), h.Brief(x.Data))
		}
	}
	return a.note(false, mt, el)
}

// foreign drops what TLS itself defines.
func foreign(xs []ref.Ext) (o []ref.Ext) {
	for _, x := range xs {
		if !used[x.Type] {
			o = append(o, x)
		}
	}
	return
}

func same(a, b []ref.Ext) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Type != b[i].Type || !bytes.Equal(a[i].Data, b[i].Data) {
			return false
		}
	}
	return true
}

// without drops what the library adds after the handler ran.
func without(xs []ref.Ext, ty ...uint16) (o []ref.Ext) {
	for _, x := range xs {
		drop := false
		for _, t := range ty {
			drop = drop || x.Type == t
		}
		if !drop {
			o = append(o, x)
		}
	}
	return
}

// order checks the sequence of a complete handshake's calls.
func order(calls []call, client bool, retry bool) error {
	var want []call
	if client {
		want = append(want, call{send: true, mt: ch})
		if retry {
			want = append(want, call{mt: hrr}, call{send: true, mt: ch})
		}
		want = append(want, call{mt: sh}, call{mt: ee})
	} else {
		want = append(want, call{mt: ch})
		if retry {
			want = append(want, call{send: true, mt: hrr}, call{mt: ch})
		}
		want = append(want, call{send: true, mt: sh}, call{send: true, mt: ee})
	}
	i := 0
	for _, c := range calls {
		// A server may ask for the same retry request again to hash it.
		if !client && c.send && c.mt == hrr && retry && i > 1 {
			continue
		}
		if i >= len(want) || c.send != want[i].send || c.mt != want[i].mt {
			return fmt.Errorf("call %d of the handler is %v", i, c)
		}
		i++
	}
	if i != len(want) {
		return fmt.Errorf("the handler was called %d times instead of %d", i, len(want))
	}
	return nil
}

// transfer checks that what one handler received is what the other sent.
func transfer(from, to *app) error {
	for _, mt := range carriers {
		var s, r []call
		for _, c := range from.calls {
			if c.send && c.mt == mt {
				s = append(s, c)
			}
		}
		for _, c := range to.calls {
			if !c.send && c.mt == mt {
				r = append(r, c)
			}
		}
		if len(r) > len(s) {
			return fmt.Errorf("message %d: received %d times but sent %d times", mt, len(r), len(s))
		}
		for i := range r {
			got, want := r[i].list, s[i].list
			if mt == ch {
				got = without(got, ref.XPSK, ref.XEarlyData)
			}
			if !same(got, want) {
				return fmt.Errorf("message %d: received %s instead of %s", mt, show(got), show(want))
			}
		}
	}
	return nil
}

// plans draws what both sides add.
func plans(t *rapid.T) (c, s map[mint.HandshakeType][]ref.Ext) {
	// A ClientHello that has PSK binders and shares has to stay below 2^16
	// bytes of extensions.
	c = map[mint.HandshakeType][]ref.Ext{ch: drawExts(t, "client hello", 55000)}
	s = map[mint.HandshakeType][]ref.Ext{hrr: drawExts(t, "retry", 60000), sh: drawExts(t, "server hello", 60000), ee: drawExts(t, "encrypted", 60000)}
	return
}

func count(m map[mint.HandshakeType][]ref.Ext) (n, bytes int) {
	for _, xs := range m {
		for _, x := range xs {
			n++
			bytes += len(x.Data)
		}
	}
	return
}

type setup struct {
	s    *h.Scen
	o    h.Outcome
	w    *h.Wire
	c, v *app // nil: none
}

func drawSetup(t *rapid.T, so h.ScenOpts) *setup {
	x := &setup{s: h.DrawScen(t, so)}
	x.o = x.s.Predict()
	cc, sc := x.s.Configs()
	cp, sp := plans(t)
	which := rapid.IntRange(0, 3).Draw(t, "handlers")
	if which == 1 {
		// Without a handler, the client knows what a retry request may have.
		delete(sp, hrr)
	}
	if which != 1 {
		x.c = &app{plan: cp, failAt: -1}
		cc.ExtensionHandler = x.c
	}
	if which != 2 {
		x.v = &app{plan: sp, failAt: -1}
		sc.ExtensionHandler = x.v
	}
	if x.c != nil && x.v != nil {
		x.c.peer, x.v.peer = sp, cp
	}
	x.w = h.NewWire(cc, sc)
	return x
}

// check judges the handlers' calls.
func (x *setup) check(full bool) error {
	for i, a := range []*app{x.c, x.v} {
		if a == nil {
			continue
		}
		if a.bad != nil {
			return a.bad
		}
		if full {
			if err := order(a.calls, i == 0, x.o.HRR); err != nil {
				return fmt.Errorf("client=%v: %v", i == 0, err)
			}
		}
		// Without a handler on the other side nothing unknown arrives.
		if x.c == nil || x.v == nil {
			for _, c := range a.calls {
				if f := foreign(c.list); !c.send && len(f) > 0 {
					return fmt.Errorf("received %s that nobody sent", show(f))
				}
			}
		}
	}
	if x.c != nil && x.v != nil {
		if err := transfer(x.c, x.v); err != nil {
			return fmt.Errorf("client to server: %v", err)
		}
		// The retry request that the server hashes is not sent.
		if err := transfer(x.v, x.c); err != nil {
			return fmt.Errorf("server to client: %v", err)
		}
	}
	return nil
}

func (x *setup) counts() (n, bytes int) {
	for _, a := range []*app{x.c, x.v} {
		if a != nil {
			k, b := count(a.plan)
			n += k
			bytes += b
		}
	}
	return
}

// TestPair: two library ends.
func TestPair(t *testing.T) {
	h.Check(t, 250, 5000, func(t *rapid.T) {
		x := drawSetup(t, h.ScenOpts{Tickets: true})
		h.Drive(t, x.w)
		n, b := x.counts()
		h.Case(n > 0, "pair %v handlers=%v/%v extensions=%d bytes=%d", x.s, x.c != nil, x.v != nil, n, b)
		h.Label("pair ok=%v dtls=%v retry=%v psk=%v", x.o.OK, x.s.DTLS, x.o.HRR, x.o.PSK)
		if x.w.Both() != x.o.OK {
			t.Fatalf("with handlers: %s; without: ok=%v %s (%v)", x.w.Status(), x.o.OK, x.o.Why, x.s)
		}
		if err := x.check(x.o.OK); err != nil {
			t.Fatalf("%v (%v)", err, x.s)
		}
		if !x.o.OK {
			return
		}
		if err := h.Agree(x.w); err != nil {
			t.Fatalf("%v (%v)", err, x.s)
		}
		st := x.w.B.C.ConnectionState()
		if st.CipherSuite.Suite != x.o.Suite || st.NextProto != x.o.ALPN || st.UsingPSK != x.o.PSK || st.UsingEarlyData != x.o.Early {
			t.Fatalf("negotiated %v %q psk=%v early=%v instead of %v %q psk=%v early=%v", st.CipherSuite.Suite, st.NextProto, st.UsingPSK, st.UsingEarlyData, x.o.Suite, x.o.ALPN, x.o.PSK, x.o.Early)
		}
		if err := h.Echo(x.w, []byte("to the server"), []byte("to the client")); err != nil {
			t.Fatalf("%v (%v)", err, x.s)
		}
	})
}

// TestObject: a handler fails at some call.
func TestObject(t *testing.T) {
	h.Check(t, 250, 5000, func(t *rapid.T) {
		x := drawSetup(t, h.ScenOpts{Compatible: true})
		side := x.c
		node := x.w.A
		if x.c == nil || (x.v != nil && rapid.Bool().Draw(t, "server objects")) {
			side, node = x.v, x.w.B
		}
		side.failAt = rapid.IntRange(0, 5).Draw(t, "failing call")
		x.w.A.NoClose, x.w.B.NoClose = true, true
		h.Drive(t, x.w)
		if !side.fired {
			h.Case(false, "")
			return
		}
		c := side.calls[side.failAt]
		h.Case(true, "object client=%v at %d: %v %v", node.Client, side.failAt, c.mt, x.s)
		h.Label("objects client=%v send=%v message=%d", node.Client, c.send, c.mt)
		if !node.Failed || node.Done {
			t.Fatalf("the handler objected to message %d (send %v), but the end goes on: %s (%v)", c.mt, c.send, x.w.Status(), x.s)
		}
		if x.w.A.Done || x.w.B.Done {
			t.Fatalf("a handshake completed although a handler objected to message %d: %s (%v)", c.mt, x.w.Status(), x.s)
		}
		if node.Alert == mint.AlertCloseNotify {
			t.Fatalf("the objection is reported as %v", node.Alert)
		}
		if err := x.check(false); err != nil {
			t.Fatalf("%v (%v)", err, x.s)
		}
		// It stays that way.
		if node.Client && c.send && c.mt == ch && side.failAt == 0 {
			return // nothing was sent: the application may start again
		}
		for i := 0; i < 6; i++ {
			x.w.Flush()
			node.C.Handshake()
			if node.Connected() {
				t.Fatalf("the handshake completed after the handler objected to message %d (%v)", c.mt, x.s)
			}
		}
	})
}

func plus(xs []ref.Ext) func([]ref.Ext) []ref.Ext {
	return func(l []ref.Ext) []ref.Ext { return append(append([]ref.Ext{}, l...), xs...) }
}

func shuffle(t *rapid.T, label string, xs []ref.Ext) func([]ref.Ext) []ref.Ext {
	r := h.NewRng(rapid.Uint64().Draw(t, label+" order"))
	return func(l []ref.Ext) []ref.Ext {
		o := append(append([]ref.Ext{}, l...), xs...)
		for i := len(o) - 1; i > 0; i-- {
			j := r.IntN(i + 1)
			o[i], o[j] = o[j], o[i]
		}
		return o
	}
}

// TestStranger: an independent peer adds extensions to every message that
// carries some, and reads what the library's handler adds.
func TestStranger(t *testing.T) {
	h.Check(t, 200, 4000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true})
		o := s.Predict()
		client := rapid.Bool().Draw(t, "library is the client")
		has := rapid.IntRange(0, 2).Draw(t, "handler") > 0
		cc, sc := s.Configs()
		rng := h.NewRng(rapid.Uint64().Draw(t, "peer seed") ^ 0x29)
		cp, sp := plans(t)
		a := &app{failAt: -1}
		cert := drawExts(t, "certificate", 2000)
		req := drawExts(t, "request", 2000)
		tick := drawExts(t, "ticket", 2000)
		var l *h.Link
		var b *ref.Base
		var seen func(mt mint.HandshakeType) ([]ref.Ext, bool)
		if client {
			a.plan, a.peer = cp, sp
			if !has {
				delete(sp, hrr)
			} else {
				cc.ExtensionHandler = a
			}
			p := h.RefServer(s, rng)
			p.Cfg.SHExts, p.Cfg.EEExts = shuffle(t, "sh", sp[sh]), shuffle(t, "ee", sp[ee])
			p.Cfg.HRRExts = shuffle(t, "hrr", sp[hrr])
			p.Cfg.CRExts = shuffle(t, "cr", req)
			p.Cfg.CertExts = cert
			l, b = &h.Link{N: h.NewNode(cc, true), P: p}, &p.Base
			seen = func(mt mint.HandshakeType) ([]ref.Ext, bool) {
				if p.CH == nil {
					return nil, false
				}
				return p.CH.Exts, mt == ch
			}
		} else {
			a.plan, a.peer = sp, cp
			if has {
				sc.ExtensionHandler = a
			}
			p := h.RefClient(s, rng)
			p.Cfg.ExtsHook = plus(cp[ch])
			p.Cfg.CertExts = cert
			l, b = &h.Link{N: h.NewNode(sc, false), P: p}, &p.Base
			seen = func(mt mint.HandshakeType) ([]ref.Ext, bool) {
				if mt == sh && p.SH != nil {
					return p.SH.Exts, true
				}
				return p.EE, mt == ee
			}
			p.Start()
		}
		n1, b1 := count(cp)
		n2, b2 := count(sp)
		h.Case(n1+n2 > 0, "stranger client=%v handler=%v %v extensions=%d bytes=%d cert=%d request=%d", client, has, s, n1+n2, b1+b2, len(cert), len(req))
		h.Label("stranger client=%v handler=%v dtls=%v retry=%v", client, has, s.DTLS, o.HRR)
		l.Run()
		if !l.N.Done || !b.Done {
			t.Fatalf("library client=%v: %v; peer done=%v err=%v (%v)", client, l.N, b.Done, b.Err, s)
		}
		if a.bad != nil {
			t.Fatalf("library client=%v: %v (%v)", client, a.bad, s)
		}
		if has {
			if err := order(a.calls, client, o.HRR); err != nil {
				t.Fatalf("library client=%v: %v (%v)", client, err, s)
			}
			for _, c := range a.calls {
				f := foreign(c.list)
				want := a.plan[c.mt]
				if !c.send {
					want = a.peer[c.mt]
				}
				// The peer may have put them in another order.
				if len(f) != len(want) {
					t.Fatalf("library client=%v: %v instead of %s (%v)", client, c, show(want), s)
				}
			}
		}
		for _, mt := range carriers {
			got, ok := seen(mt)
			if !ok {
				continue
			}
			var want []ref.Ext
			if has {
				want = a.plan[mt]
			}
			if !same(foreign(got), want) {
				t.Fatalf("library client=%v: message %d carries %s instead of %s (%v)", client, mt, show(foreign(got)), show(want), s)
			}
		}
		// A ticket may have extensions as well.
		if client && !s.DTLS {
			id := []byte{9, 9, 9}
			p := b.SendTicket(id, []byte{1}, 7, 1000, tick)
			b.SendApp([]byte("after the ticket"))
			l.Move()
			l.N.ReadAvail(100)
			if string(l.N.Got) != "after the ticket" {
				t.Fatalf("after a ticket with extensions %s the client read %q, %v", show(tick), l.N.Got, l.N.ReadErr)
			}
			if k, ok := cc.PSKs.Get(s.Name); !ok || !bytes.Equal(k.Identity, id) || !bytes.Equal(k.Key, p.Key) {
				t.Fatalf("a ticket with extensions %s was not stored", show(tick))
			}
		}
	})
}
