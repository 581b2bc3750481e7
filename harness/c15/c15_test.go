// Package c15: tickets resume exactly the session they came from.
package c15

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// ticket is the model's view of what a client keeps under a server name.
type ticket struct {
	server  int
	suite   mint.CipherSuite
	proto   string
	delay   time.Duration // between sending and receipt
	unknown bool          // identity altered
	wrong   bool          // key altered
	id      []byte
}

// step is one connection of a chain.
type step struct {
	Name    string
	Server  int
	Elapsed time.Duration
	Ticket  time.Duration // delay of the ticket; negative: never read
	Hello   time.Duration // delay of the first hello
	Tamper  int           // 1 unknown identity, 2 wrong key, 3 the server forgets
	Early   bool
}

var hosts = []string{"a.example", "b.example", "example.com", "www.a.example"}

func drawBase(t *rapid.T) *h.Scen {
	s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoPSK: true})
	s.Tickets = true
	for i := range s.Certs {
		s.Certs[i].Names = hosts
		s.Certs[i].CA = "A"
	}
	if rapid.Bool().Draw(t, "modes set") {
		s.CModes = h.Subset(t, "modes", []mint.PSKKeyExchangeMode{mint.PSKModeKE, mint.PSKModeDHEKE}, 1)
	}
	if !s.DTLS {
		s.EarlyC = rapid.Bool().Draw(t, "earlyc")
		s.EarlyS = rapid.Bool().Draw(t, "earlys")
	}
	return s
}

// view is the scenario of one connection: what the client holds is a
// pre-shared key.
func view(s *h.Scen, name string, srv int, tk *ticket, forgot bool) *h.Scen {
	v := *s
	v.Name = name
	v.PSK = nil
	if tk != nil {
		v.PSK = &h.PSKSpec{ID: tk.id, Key: []byte{1}, Suite: tk.suite, NextProto: tk.proto, ServerHas: tk.server == srv && !tk.unknown && !forgot}
		v.PSK.WrongKey = v.PSK.ServerHas && tk.wrong
	}
	return &v
}

func hash(c mint.CipherSuite) int {
	if s := ref.SuiteByID(uint16(c)); s != nil {
		return int(s.Hash)
	}
	return -1
}

func drawStep(t *rapid.T, dtls bool, i int) step {
	st := step{Name: hosts[0], Ticket: 0}
	if rapid.IntRange(0, 4).Draw(t, "other name") == 4 {
		st.Name = hosts[rapid.IntRange(1, 2).Draw(t, "name")]
	}
	if rapid.IntRange(0, 4).Draw(t, "other server") == 4 {
		st.Server = 1
	}
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	st.Elapsed = ms(rapid.SampledFrom([]int{0, 1, 1000, 4999, 60000, 3600000, 20000000}).Draw(t, "elapsed"))
	if !dtls {
		st.Ticket = ms(rapid.SampledFrom([]int{0, 0, 0, 1, 1500, 2200, 7000, 3600000, -1, 6000000}).Draw(t, "ticket delay"))
		st.Hello = ms(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1500, 2200, 5600, 100000}).Draw(t, "hello delay"))
	} else if rapid.IntRange(0, 7).Draw(t, "unread") == 7 {
		st.Ticket = -1
	}
	st.Tamper = rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, 3}).Draw(t, "tamper")
	st.Early = rapid.Bool().Draw(t, "early")
	return st
}

// TestChain: sequences of connections between a client application and
// servers, with time passing.
func TestChain(t *testing.T) {
	h.Check(t, 700, 20000, func(rt *rapid.T) {
		s := drawBase(rt)
		ticketLen := rapid.SampledFrom([]int{0, 8, 16, 32, 255, 256, 1000}).Draw(rt, "ticket length")
		n := rapid.IntRange(2, 7).Draw(rt, "connections")
		steps := make([]step, n)
		for i := range steps {
			steps[i] = drawStep(rt, s.DTLS, i)
		}
		shared := rapid.IntRange(0, 3).Draw(rt, "servers share the store") == 3
		var fail string
		resumed, labels := 0, []string{}
		h.Bubble(t, func() { fail = chain(s, steps, ticketLen, shared, &resumed, &labels) })
		if fail != "" {
			rt.Fatalf("%s\nsteps %+v shared=%v ticket length %d\n%v", fail, steps, shared, ticketLen, s)
		}
		for _, l := range labels {
			h.Label("%s", l)
		}
		h.Case(resumed > 0, "%v %v %v", steps, ticketLen, s)
	})
}

func chain(s *h.Scen, steps []step, ticketLen int, shared bool, resumed *int, labels *[]string) string {
	ccache := &mint.PSKMapCache{}
	scache := []*mint.PSKMapCache{{}, {}}
	if shared {
		scache[1] = scache[0]
	}
	cc0, sc0 := s.Configs()
	model := map[string]*ticket{}
	exports := map[string]int{}
	for i, st := range steps {
		srv := st.Server
		if shared {
			srv = 0
		}
		time.Sleep(st.Elapsed)
		tk := model[st.Name]
		forgot := false
		if tk != nil {
			switch st.Tamper {
			case 1:
				p, _ := ccache.Get(st.Name)
				p.Identity = append([]byte("x"), p.Identity...)
				ccache.Put(st.Name, p)
				tk.unknown, tk.id = true, p.Identity
			case 2:
				p, _ := ccache.Get(st.Name)
				p.Key = append([]byte{}, p.Key...)
				p.Key[i%len(p.Key)] ^= 0x10
				ccache.Put(st.Name, p)
				tk.wrong = true
			case 3:
				delete(*scache[srv], hex.EncodeToString(tk.id))
				forgot = true
			}
			if _, ok := (*scache[srv])[hex.EncodeToString(tk.id)]; !ok {
				forgot = true
			}
		}
		v := view(s, st.Name, srv, tk, forgot)
		o := v.Predict()
		cc, sc := cc0.Clone(), sc0.Clone()
		cc.ServerName, cc.PSKs = st.Name, ccache
		sc.PSKs, sc.TicketLen = scache[srv], ticketLen
		w := h.NewWire(cc, sc)
		ctx := func() string { return fmt.Sprintf("connection %d: %s", i, w.Status()) }

		w.A.Step()
		var early []byte
		if st.Early && w.A.C.Writable() {
			early = []byte(fmt.Sprintf("early data %d", i))
			if k, err := w.A.C.Write(early); err != nil || k != len(early) {
				return fmt.Sprintf("%s: early Write = %d, %v", ctx(), k, err)
			}
		}
		w.Collect()
		chs := h.HelloMsgs(w.Log[0], s.DTLS, 1)
		if len(chs) != 1 {
			return fmt.Sprintf("%s: %d hellos", ctx(), len(chs))
		}
		ch, err := ref.ParseCH(chs[0], s.DTLS)
		if err != nil {
			return fmt.Sprintf("%s: bad hello: %v", ctx(), err)
		}
		switch {
		case tk == nil && len(ch.IDs) > 0:
			return fmt.Sprintf("%s: the client offers a ticket for %s although it has none for that name", ctx(), st.Name)
		case tk != nil && len(v.Predict().Why) == 0 && (len(ch.IDs) != 1 || !bytes.Equal(ch.IDs[0], tk.id)):
			return fmt.Sprintf("%s: the client does not offer the last ticket for %s: %x, not %x", ctx(), st.Name, ch.IDs, tk.id)
		}
		time.Sleep(st.Hello)
		delta := st.Hello
		if tk != nil {
			delta += tk.delay
		}
		w.Run()
		both := w.Both()
		a, b := w.A.C.ConnectionState(), w.B.C.ConnectionState()
		usesTicket := v.PSK != nil && v.PSK.ServerHas
		late := usesTicket && delta > 5500*time.Millisecond
		if usesTicket && !late && delta > 4500*time.Millisecond {
			return "HARNESS-ERROR unclear delay"
		}
		if o.HRR && st.Hello > 0 {
			// The hello that counts is the second.
			late = usesTicket && tk.delay > 5500*time.Millisecond
			if !late && usesTicket && delta > 5500*time.Millisecond {
				o.OK = both // either
			}
		}
		*labels = append(*labels, fmt.Sprintf("ticket=%v known=%v late=%v psk=%v wrong=%v", tk != nil, usesTicket, late, o.PSK, v.PSK != nil && v.PSK.WrongKey))
		if late {
			if w.A.Done && a.UsingPSK || w.B.Done && b.UsingPSK {
				return fmt.Sprintf("%s: a ticket is honoured %v off its age", ctx(), delta)
			}
			if both {
				if err := h.Agree(w); err != nil {
					return fmt.Sprintf("%s: %v", ctx(), err)
				}
			}
			if both || w.A.Done != w.B.Done {
				// Anything but agreement is a failure; one-sided completion
				// cannot happen without a client Finished.
				if !both && w.B.Done {
					return fmt.Sprintf("%s: only the server completes", ctx())
				}
			}
			if !both {
				continue
			}
		} else if o.OK != both {
			return fmt.Sprintf("%s: completes=%v, expected %v (%s), age off by %v", ctx(), both, o.OK, o.Why, delta)
		}
		if !both {
			if w.B.Done {
				return fmt.Sprintf("%s: only the server completes", ctx())
			}
			continue
		}
		if !late {
			if a.UsingPSK != o.PSK || b.UsingPSK != o.PSK {
				return fmt.Sprintf("%s: PSK use client %v server %v, expected %v", ctx(), a.UsingPSK, b.UsingPSK, o.PSK)
			}
			if a.CipherSuite.Suite != o.Suite || a.NextProto != o.ALPN {
				return fmt.Sprintf("%s: negotiated %v %q, expected %v %q", ctx(), a.CipherSuite.Suite, a.NextProto, o.Suite, o.ALPN)
			}
			wantEarly := o.Early && st.Early
			if len(early) > 0 != (o.EarlySnt && st.Early) {
				return fmt.Sprintf("%s: wrote %d early bytes, offering expected: %v", ctx(), len(early), o.EarlySnt)
			}
			w.B.ReadAvail(100)
			if wantEarly != (len(w.B.Got) > 0) || wantEarly && !bytes.Equal(w.B.Got, early) {
				return fmt.Sprintf("%s: early data read %q, written %q, expected acceptance %v", ctx(), w.B.Got, early, o.Early)
			}
		}
		if err := h.Agree(w); err != nil {
			return fmt.Sprintf("%s: %v", ctx(), err)
		}
		if a.UsingPSK {
			*resumed++
			if hash(a.CipherSuite.Suite) != hash(tk.suite) {
				return fmt.Sprintf("%s: resumed with %v a session of %v", ctx(), a.CipherSuite.Suite, tk.suite)
			}
			if len(a.PeerCertificates) > 0 || len(b.PeerCertificates) > 0 {
				return fmt.Sprintf("%s: certificates in a resumed handshake", ctx())
			}
		} else if len(a.PeerCertificates) == 0 {
			return fmt.Sprintf("%s: no certificate in a full handshake", ctx())
		}
		x, err := w.A.C.ComputeExporter("fresh", nil, 32)
		if err != nil {
			return fmt.Sprintf("%s: %v", ctx(), err)
		}
		if j, ok := exports[string(x)]; ok {
			return fmt.Sprintf("%s: the same secrets as connection %d", ctx(), j)
		}
		exports[string(x)] = i

		// The ticket.
		if st.Ticket >= 0 {
			time.Sleep(st.Ticket)
			w.Flush()
			w.A.ReadAvail(100)
			p, ok := ccache.Get(st.Name)
			if !ok {
				return fmt.Sprintf("%s: no ticket stored for %s (%v)", ctx(), st.Name, w.A.ReadErr)
			}
			if tk != nil && bytes.Equal(p.Identity, tk.id) {
				return fmt.Sprintf("%s: no new ticket stored", ctx())
			}
			q, ok := scache[srv].Get(hex.EncodeToString(p.Identity))
			if !ok || !bytes.Equal(p.Key, q.Key) {
				return fmt.Sprintf("%s: the ticket of the client is not the server's", ctx())
			}
			if p.CipherSuite != q.CipherSuite || p.CipherSuite != a.CipherSuite.Suite || p.NextProto != q.NextProto || p.NextProto != a.NextProto || p.TicketAgeAdd != q.TicketAgeAdd || !p.IsResumption || !q.IsResumption {
				return fmt.Sprintf("%s: stored as %+v and %+v", ctx(), p, q)
			}
			for _, k := range []mint.PreSharedKey{p, q} {
				if d, now := k.ExpiresAt.Sub(k.ReceivedAt)-86400*time.Second, time.Now(); d < -time.Second || d > time.Second || k.ReceivedAt.After(now) || now.Sub(k.ReceivedAt) > st.Ticket+time.Minute {
					return fmt.Sprintf("%s: a ticket for 86400 s, stored as received at %v, expiring at %v, at %v", ctx(), k.ReceivedAt, k.ExpiresAt, now)
				}
			}
			if tl := ticketLen; tl != 0 && len(p.Identity) != tl {
				return fmt.Sprintf("%s: ticket of %d bytes, %d configured", ctx(), len(p.Identity), tl)
			}
			model[st.Name] = &ticket{server: srv, suite: a.CipherSuite.Suite, proto: a.NextProto, delay: st.Ticket, id: p.Identity}
			if err := h.Echo(w, []byte("to the server"), []byte("to the client")); err != nil {
				return fmt.Sprintf("%s: %v", ctx(), err)
			}
		}
	}
	return ""
}

// TestDrift: the configurations change between the ticket and its use; what
// completes still agrees.
func TestDrift(t *testing.T) {
	h.Check(t, 700, 14000, func(t *rapid.T) {
		s := drawBase(t)
		cc, sc := s.Configs()
		w := h.NewWire(cc, sc)
		w.Run()
		if !w.Both() {
			t.Fatalf("the first handshake fails: %s\n%v", w.Status(), s)
		}
		w.Flush()
		w.A.ReadAvail(100)
		orig := w.A.C.ConnectionState()
		p, ok := cc.PSKs.Get(s.Name)
		if !ok {
			t.Fatalf("no ticket stored: %v\n%v", w.A.ReadErr, s)
		}
		s2 := drawBase(t)
		s2.Name, s2.DTLS = s.Name, s.DTLS
		keep := rapid.IntRange(0, 3).Draw(t, "kept settings")
		if keep&1 > 0 {
			s2.CSuites, s2.CGroups, s2.CSchemes, s2.CALPN, s2.CModes = s.CSuites, s.CGroups, s.CSchemes, s.CALPN, s.CModes
		}
		if keep&2 > 0 {
			s2.SSuites, s2.SGroups, s2.SSchemes, s2.SALPN = s.SSuites, s.SGroups, s.SSchemes, s.SALPN
		}
		s2.EarlyC = s2.EarlyC && !s.DTLS
		s2.EarlyS = s2.EarlyS && !s.DTLS
		cc2, sc2 := s2.Configs()
		cc2.PSKs, sc2.PSKs = cc.PSKs, sc.PSKs
		w2 := h.NewWire(cc2, sc2)
		w2.Run()
		ctx := fmt.Sprintf("%s\nfirst %v\nsecond %v", w2.Status(), s, s2)
		if w2.B.Done && !w2.A.Done {
			t.Fatalf("only the server completes: %s", ctx)
		}
		a := w2.A.C.ConnectionState()
		if w2.Both() {
			if err := h.Agree(w2); err != nil {
				t.Fatalf("%v: %s", err, ctx)
			}
			if a.UsingPSK && hash(a.CipherSuite.Suite) != hash(p.CipherSuite) || p.CipherSuite != orig.CipherSuite.Suite {
				t.Fatalf("resumed with %v a session of %v: %s", a.CipherSuite.Suite, orig.CipherSuite.Suite, ctx)
			}
			has := func(x string, l []string) bool {
				return strings.Contains("\x00"+strings.Join(l, "\x00")+"\x00", "\x00"+x+"\x00")
			}
			if a.NextProto != "" && (!has(a.NextProto, s2.CALPN) || !has(a.NextProto, s2.SALPN)) {
				t.Fatalf("protocol %q was not offered by both: %s", a.NextProto, ctx)
			}
			if a.UsingPSK != (len(a.PeerCertificates) == 0) {
				t.Fatalf("PSK %v with %d certificates: %s", a.UsingPSK, len(a.PeerCertificates), ctx)
			}
			if err := h.Echo(w2, []byte("to the server"), []byte("to the client")); err != nil {
				t.Fatalf("%v: %s", err, ctx)
			}
		}
		h.Label("drift both=%v psk=%v", w2.Both(), a.UsingPSK)
		h.Case(w2.Both(), "%v %v", s, s2)
	})
}

// TestRefServer: an independent server issues tickets of any form.
func TestRefServer(t *testing.T) {
	h.Check(t, 700, 14000, func(rt *rapid.T) {
		s := drawBase(rt)
		s.EarlyC, s.EarlyS = false, false
		n := rapid.IntRange(1, 4).Draw(rt, "tickets")
		r := h.NewRng(rapid.Uint64().Draw(rt, "peer seed"))
		elapsed := time.Duration(rapid.SampledFrom([]int64{0, 1, 999, 1000, 123456, 86399000, 3 << 20, 6e8}).Draw(rt, "elapsed ms")) * time.Millisecond
		accept := rapid.Bool().Draw(rt, "the server accepts")
		hrr := !s.DTLS && rapid.IntRange(0, 3).Draw(rt, "retry") == 3
		if s.Cookie == h.CookieHandlerOff {
			s.Cookie = h.CookieNone
		}
		if hrr {
			s.Cookie = h.CookieAuto
		}
		var fail string
		h.Bubble(t, func() { fail = refServer(s, n, r, elapsed, accept) })
		if fail != "" {
			rt.Fatalf("%s\ntickets %d elapsed %v accept %v\n%v", fail, n, elapsed, accept, s)
		}
		h.Label("ref server accepts=%v retry=%v", accept, s.Cookie != 0)
		h.Case(accept, "%d %v %v %v", n, elapsed, accept, s)
	})
}

func refServer(s *h.Scen, n int, r *h.Rng, elapsed time.Duration, accept bool) string {
	cc, _ := s.Configs()
	srv := h.RefServer(s, r)
	l := &h.Link{N: h.NewNode(cc, true), P: srv}
	l.Run()
	if !l.N.Done || !srv.Done {
		return fmt.Sprintf("the first handshake fails: %v %v", l.N, srv.Err)
	}
	var last *ref.PSK
	for i := 0; i < n; i++ {
		var exts []ref.Ext
		if r.IntN(2) == 0 {
			exts = append(exts, ref.Ext{Type: 42, Data: ref.U32(uint32(r.IntN(1 << 30)))})
		}
		if r.IntN(3) == 0 {
			exts = append(exts, ref.Ext{Type: uint16(0x4000 + r.IntN(100)), Data: r.Bytes(r.IntN(30))})
		}
		idLen := 1 + r.IntN([]int{1, 40, 600}[r.IntN(3)])
		last = srv.SendTicket(r.Bytes(idLen), r.Bytes(r.IntN([]int{1, 8, 256}[r.IntN(3)])), uint32(r.IntN(1<<32)), 604800, exts)
		l.Move()
		l.N.ReadAvail(50)
		if i+1 < n {
			time.Sleep(time.Duration(r.IntN(3000)) * time.Millisecond)
		}
	}
	if e := l.N.ReadErr; e != nil {
		return fmt.Sprintf("reading the tickets: %v", e)
	}
	if n > 0 && cc.PSKs.Size() != 1 {
		return fmt.Sprintf("%d entries in the client's cache", cc.PSKs.Size())
	}
	time.Sleep(elapsed)
	v := *s
	v.PSK = &h.PSKSpec{ID: last.ID, Key: last.Key, Suite: mint.CipherSuite(last.Suite), NextProto: l.N.C.ConnectionState().NextProto, ServerHas: accept}
	o := v.Predict()
	srv2 := h.RefServer(&v, r)
	if accept {
		srv2.Cfg.PSK = func(id []byte) *ref.PSK {
			if bytes.Equal(id, last.ID) {
				return last
			}
			return nil
		}
	}
	l2 := &h.Link{N: h.NewNode(cc, true), P: srv2}
	l2.Run()
	ctx := fmt.Sprintf("client %v server done=%v psk=%v err=%v", l2.N, srv2.Done, srv2.UsedPSK, srv2.Err)
	if srv2.CH == nil || len(srv2.CH.IDs) != 1 || !bytes.Equal(srv2.CH.IDs[0], last.ID) {
		return "the last ticket is not offered: " + ctx
	}
	want := uint32(elapsed/time.Millisecond) + last.AgeAdd
	if d := srv2.CH.Ages[0] - want; d > 1 && d != 1<<32-1 {
		return fmt.Sprintf("obfuscated age %d, expected %d: %s", srv2.CH.Ages[0], want, ctx)
	}
	if o.OK != (l2.N.Done && srv2.Done) {
		return fmt.Sprintf("completes, expected %v (%s): %s", o.OK, o.Why, ctx)
	}
	if !o.OK {
		return ""
	}
	a := l2.N.C.ConnectionState()
	if a.UsingPSK != o.PSK || (srv2.UsedPSK != nil) != o.PSK {
		return fmt.Sprintf("PSK use %v, expected %v: %s", a.UsingPSK, o.PSK, ctx)
	}
	if a.UsingPSK && len(a.PeerCertificates) > 0 {
		return "certificates in a resumed handshake: " + ctx
	}
	if uint16(a.CipherSuite.Suite) != srv2.S.ID {
		return fmt.Sprintf("suites %v and %x: %s", a.CipherSuite.Suite, srv2.S.ID, ctx)
	}
	x, err := l2.N.C.ComputeExporter("e", nil, 32)
	if y := srv2.Exporter("e", nil, 32); err != nil || !bytes.Equal(x, y) {
		return "the secrets differ: " + ctx
	}
	srv2.SendApp([]byte("hello"))
	l2.Move()
	l2.N.ReadAvail(10)
	if string(l2.N.Got) != "hello" {
		return fmt.Sprintf("read %q: %s", l2.N.Got, ctx)
	}
	return ""
}

// TestRefClient: an independent client resumes with the library's tickets,
// honestly or not.
func TestRefClient(t *testing.T) {
	h.Check(t, 800, 16000, func(rt *rapid.T) {
		s := drawBase(rt)
		s.EarlyC, s.EarlyS = false, false
		if s.Cookie == h.CookieHandlerOff {
			s.Cookie = h.CookieNone
		}
		r := h.NewRng(rapid.Uint64().Draw(rt, "peer seed"))
		elapsed := time.Duration(rapid.SampledFrom([]int64{0, 1, 5000, 123456, 86399000}).Draw(rt, "elapsed ms")) * time.Millisecond
		off := rapid.SampledFrom([]int64{0, 0, 0, 4500, -4500, 5500, -5500, 1 << 31, 20000, -20000}).Draw(rt, "age off")
		how := rapid.IntRange(0, 6).Draw(rt, "how")
		ticketLen := rapid.SampledFrom([]int{0, 8, 255, 1000}).Draw(rt, "ticket length")
		var fail string
		var lab string
		h.Bubble(t, func() { fail, lab = refClient(s, r, elapsed, off, how, ticketLen) })
		if fail != "" {
			rt.Fatalf("%s\nelapsed %v off %d how %d ticket length %d\n%v", fail, elapsed, off, how, ticketLen, s)
		}
		h.Label("ref client %s", lab)
		h.Case(lab != "", "%v %d %d %v", elapsed, off, how, s)
	})
}

func refClient(s *h.Scen, r *h.Rng, elapsed time.Duration, off int64, how, ticketLen int) (string, string) {
	_, sc := s.Configs()
	sc.TicketLen = ticketLen
	c := h.RefClient(s, r)
	l := &h.Link{N: h.NewNode(sc, false), P: c}
	c.Start()
	l.Run()
	l.Move()
	if !l.N.Done || !c.Done {
		return fmt.Sprintf("the first handshake fails: %v %v", l.N, c.Err), ""
	}
	if len(c.Tickets) != 1 || sc.PSKs.Size() != 1 {
		return fmt.Sprintf("%d tickets sent, %d stored", len(c.Tickets), sc.PSKs.Size()), ""
	}
	tk := *c.Tickets[0]
	if tk.Lifetime != sc.TicketLifetime {
		return fmt.Sprintf("ticket lifetime %d, configured %d", tk.Lifetime, sc.TicketLifetime), ""
	}
	time.Sleep(elapsed)
	tk.Age = uint32(int64(elapsed/time.Millisecond) + off)
	v := *s
	v.PSK = &h.PSKSpec{ID: tk.ID, Key: tk.Key, Suite: mint.CipherSuite(tk.Suite), NextProto: l.N.C.ConnectionState().NextProto, ServerHas: true}
	// The age a server sees wraps below zero.
	plausible := off >= -5000 && off <= 5000 && int64(elapsed/time.Millisecond)+off >= 0
	unjudged := off < 0 && int64(elapsed/time.Millisecond)+off < 0
	lab := fmt.Sprintf("how=%d plausible=%v", how, plausible)
	good := plausible
	switch how {
	case 1: // key altered
		tk.Key = append([]byte{}, tk.Key...)
		tk.Key[r.IntN(len(tk.Key))] ^= 1 << r.IntN(8)
		good = false
		v.PSK.WrongKey = true
	case 2: // identity altered
		id := append([]byte{}, tk.ID...)
		id[r.IntN(len(id))] ^= 1 << r.IntN(8)
		tk.ID = id
		v.PSK.ServerHas = false
		plausible, unjudged = true, false
	case 3: // identity cut or extended
		if r.IntN(2) == 0 {
			tk.ID = tk.ID[:len(tk.ID)-1]
		} else {
			tk.ID = append(append([]byte{}, tk.ID...), byte(r.IntN(256)))
		}
		v.PSK.ServerHas = false
		plausible, unjudged = true, false
	case 4: // a server that did not issue it
		sc.PSKs = &mint.PSKMapCache{}
		v.PSK.ServerHas = false
		plausible, unjudged = true, false
	case 5: // offered as an external key
		tk.Resumption = false
		good = false
		v.PSK.WrongKey = true
	case 6: // forged by name: the identity in hexadecimal, and so on
		tk.ID = []byte(hex.EncodeToString(tk.ID))
		v.PSK.ServerHas = false
		plausible, unjudged = true, false
	}
	o := v.Predict()
	c2 := h.RefClient(s, r)
	if v.PSK != nil {
		var n []uint16
		for _, x := range c2.Cfg.Suites {
			if hash(mint.CipherSuite(x)) == hash(mint.CipherSuite(tk.Suite)) {
				n = append(n, x)
			}
		}
		c2.Cfg.Suites = n
	}
	c2.Cfg.PSKs = []*ref.PSK{&tk}
	l2 := &h.Link{N: h.NewNode(sc, false), P: c2}
	c2.Start()
	l2.Run()
	both := l2.N.Done && c2.Done
	ctx := fmt.Sprintf("server %v client done=%v psk=%v err=%v", l2.N, c2.Done, c2.UsedPSK != nil, c2.Err)
	b := l2.N.C.ConnectionState()
	if l2.N.Done && b.UsingPSK && (!good && !unjudged || !v.PSK.ServerHas) {
		return "the server honours the ticket: " + ctx, ""
	}
	if unjudged {
		return "", "unjudged"
	}
	if !plausible {
		if both && b.UsingPSK {
			return "the server honours the ticket: " + ctx, ""
		}
		return "", lab
	}
	if both != o.OK {
		return fmt.Sprintf("completes=%v, expected %v (%s): %s", both, o.OK, o.Why, ctx), ""
	}
	if !both {
		if l2.N.Done {
			return "only the server completes: " + ctx, ""
		}
		return "", lab
	}
	if b.UsingPSK != o.PSK || (c2.UsedPSK != nil) != o.PSK {
		return fmt.Sprintf("PSK use %v, expected %v: %s", b.UsingPSK, o.PSK, ctx), ""
	}
	x, err := l2.N.C.ComputeExporter("e", nil, 32)
	if y := c2.Exporter("e", nil, 32); err != nil || !bytes.Equal(x, y) {
		return "the secrets differ: " + ctx, ""
	}
	c2.SendApp([]byte("hello"))
	l2.Move()
	l2.N.ReadAvail(10)
	if string(l2.N.Got) != "hello" {
		return fmt.Sprintf("read %q: %s", l2.N.Got, ctx), ""
	}
	return "", lab
}
