// Package c17: required cookies.
package c17

import (
	"bytes"
	"errors"
	"fmt"
	"testing"
	"testing/synctest"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

func drawScen(t *rapid.T, early bool) *h.Scen {
	s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoEarly: !early, Tickets: true})
	if s.Cookie == h.CookieNone || s.Cookie == h.CookieHandlerOff {
		s.Cookie = h.CookieAuto
		if rapid.Bool().Draw(t, "cookie handler") {
			s.Cookie = h.CookieHandlerOn
			s.AppCookie = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "application cookie")
		}
	}
	if o := s.Predict(); !o.OK || !o.HRR {
		panic("HARNESS-ERROR " + o.Why)
	}
	return s
}

// app returns the scenario's cookie handler.
func app(c *mint.Config) *h.CookieApp {
	if c.CookieHandler == nil {
		return nil
	}
	return c.CookieHandler.(*h.CookieApp)
}

// second makes the configuration of another stateless server.
func second(sc *mint.Config, s *h.Scen) *mint.Config {
	d := sc.Clone()
	if a := app(sc); a != nil {
		d.CookieHandler = &h.CookieApp{Out: a.Out}
	}
	return d
}

// judgeApp checks what the application was asked.
func judgeApp(s *h.Scen, first, last *mint.Config) error {
	a, b := app(first), app(last)
	if a == nil {
		return nil
	}
	if a.Generated != 1 || b.Validated != 1 {
		return fmt.Errorf("the handler generated %d cookies and validated %d", a.Generated, b.Validated)
	}
	if first != last && (a.Validated != 0 || b.Generated != 0) {
		return fmt.Errorf("the first server validated %d times, the second generated %d times", a.Validated, b.Generated)
	}
	if !bytes.Equal(b.Seen, s.AppCookie) {
		return fmt.Errorf("the handler got %x back for %x", b.Seen, s.AppCookie)
	}
	return nil
}

// TestHonest: the library's client completes after exactly one retry, with
// the same server or another one that shares the protector.
func TestHonest(t *testing.T) {
	h.Check(t, 1200, 24000, func(t *rapid.T) {
		stateless := rapid.Bool().Draw(t, "stateless")
		s := drawScen(t, !stateless)
		o := s.Predict()
		cc, sc := s.Configs()
		last := sc
		w := h.NewWire(cc, sc)
		ctx := func() string { return fmt.Sprintf("stateless=%v %s\n%v", stateless, w.Status(), s) }
		if stateless {
			w.A.Step()
			w.Flush()
			a := w.B.C.Handshake()
			if a == mint.AlertNoAlert {
				a = w.B.C.Handshake()
			}
			if a != mint.AlertStatelessRetry {
				t.Fatalf("the server's Handshake returns %v: %s", a, ctx())
			}
			w.Flush()
			w.A.StepAll()
			first := w.B
			last = second(sc, s)
			w.Collect()
			w.B = h.NewNode(last, false)
			if w.Collect(); len(w.Q[0]) == 0 {
				t.Fatalf("the client does not answer the retry: %s", ctx())
			}
			w.Run()
			w.B.Retries += first.Retries + 1
		} else {
			h.Drive(t, w)
		}
		if !w.Both() {
			t.Fatalf("an honest client does not complete: %s", ctx())
		}
		if w.B.Retries != 1 {
			t.Fatalf("%d retries: %s", w.B.Retries, ctx())
		}
		if n, sh := h.ServerHellos(w.Log[1], s.DTLS); n != 1 || sh == nil {
			t.Fatalf("%d retry requests on the wire: %s", n, ctx())
		}
		hellos := h.HelloMsgs(w.Log[0], s.DTLS, 1)
		if len(hellos) != 2 {
			t.Fatalf("%d client hellos on the wire: %s", len(hellos), ctx())
		}
		ch1, err1 := ref.ParseCH(hellos[0], s.DTLS)
		ch2, err2 := ref.ParseCH(hellos[1], s.DTLS)
		if err1 != nil || err2 != nil {
			t.Fatalf("client hellos: %v, %v: %s", err1, err2, ctx())
		}
		if err := ref.SameHello(ch1, ch2); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		if err := judgeApp(s, sc, last); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		a := w.A.C.ConnectionState()
		if a.CipherSuite.Suite != o.Suite || a.UsingPSK != o.PSK || a.NextProto != o.ALPN {
			t.Fatalf("negotiated %v %v %q, expected %v %v %q: %s", a.CipherSuite.Suite, a.UsingPSK, a.NextProto, o.Suite, o.PSK, o.ALPN, ctx())
		}
		if err := h.Agree(w); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		if err := h.Echo(w, []byte("to the server"), []byte("to the client")); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		h.Label("honest stateless=%v dtls=%v psk=%v handler=%v", stateless, s.DTLS, o.PSK, app(sc) != nil)
		h.Case(true, "%v %v", stateless, s)
	})
}

// TestBlocking: the same with blocking ends.
func TestBlocking(t *testing.T) {
	h.Check(t, 250, 4000, func(rt *rapid.T) {
		s := drawScen(rt, true)
		s.Blocking = true
		var fail string
		h.Bubble(t, func() {
			cc, sc := s.Configs()
			a, b := h.NewPair(s.DTLS, true)
			a.Block, b.Block = true, true
			c, d := mint.NewConn(a, cc, true), mint.NewConn(b, sc, false)
			var x, y mint.Alert
			x, y = 255, 255
			go func() {
				if x = c.Handshake(); x != mint.AlertNoAlert {
					a.Close()
				}
			}()
			go func() {
				for i := 0; i < 5; i++ {
					if y = d.Handshake(); y != mint.AlertStatelessRetry {
						break
					}
				}
				if y != mint.AlertNoAlert {
					b.Close()
				}
			}()
			synctest.Wait()
			retries, _ := h.ServerHellos(b.Sent, s.DTLS)
			if x != mint.AlertNoAlert || y != mint.AlertNoAlert || retries != 1 {
				fail = fmt.Sprintf("client %v server %v after %d retries", x, y, retries)
			} else if err := judgeApp(s, sc, sc); err != nil {
				fail = err.Error()
			} else if err := h.Agree(&h.Wire{A: &h.Node{C: c}, B: &h.Node{C: d}}); err != nil {
				fail = err.Error()
			}
			a.Close()
			b.Close()
			a.EndIn()
			b.EndIn()
			synctest.Wait()
		})
		if fail != "" {
			rt.Fatalf("%s\n%v", fail, s)
		}
		h.Label("blocking dtls=%v", s.DTLS)
		h.Case(true, "%v", s)
	})
}

// protector is a transparent cookie protector that can fail.
type protector struct{ newErr, decErr error }

func (p protector) NewToken(b []byte) ([]byte, error)    { return append([]byte("x"), b...), p.newErr }
func (p protector) DecodeToken(b []byte) ([]byte, error) { return b[min(1, len(b)):], p.decErr }

// exchange runs an independent client against up to two servers: the first
// answers the first hello with a retry, the second (nil: the first again)
// gets what follows.
func exchange(c *ref.Client, sc, last *mint.Config) (n1, n2 *h.Node) {
	n1 = h.NewNode(sc, false)
	l := &h.Link{N: n1, P: c}
	c.Start()
	l.Move()
	for i := 0; i < 3 && n1.Retries == 0 && !n1.Failed; i++ {
		n1.Step()
	}
	n2 = n1
	if n1.Failed || n1.Retries == 0 {
		return
	}
	for _, b := range n1.T.TakeOut() {
		c.Feed(b)
	}
	if last != nil {
		n2 = h.NewNode(last, false)
		l = &h.Link{N: n2, P: c}
	}
	l.Run()
	return
}

// TestBad: cookies that are not this server's for this client.
func TestBad(t *testing.T) {
	h.Check(t, 2200, 45000, func(t *rapid.T) {
		s := drawScen(t, false)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		stateless := rapid.Bool().Draw(t, "stateless")
		_, sc := s.Configs()
		how := rapid.IntRange(0, 12).Draw(t, "how")
		var last *mint.Config
		if stateless {
			last = second(sc, s)
		}
		c := h.RefClient(s, r)
		if rapid.Bool().Draw(t, "session id") {
			c.Cfg.SessionID = r.Bytes(32)
		}
		// A cookie from another exchange, with the same or another server.
		other := func(sc *mint.Config, sameClient bool) []byte {
			d := h.RefClient(s, r)
			if sameClient {
				d.Cfg.SessionID = c.Cfg.SessionID
			}
			d.Cfg.Stop = true
			var got []byte
			d.Cfg.ExtsHook = func(xs []ref.Ext) []ref.Ext {
				if d.HRRs > 0 {
					got = d.Cookie
				}
				return xs
			}
			e := sc.Clone()
			if a := app(sc); a != nil {
				e.CookieHandler = &h.CookieApp{Out: a.Out}
			}
			exchange(d, e, nil)
			if len(got) == 0 {
				panic(fmt.Sprintf("HARNESS-ERROR no cookie: %v", d.Err))
			}
			return got
		}
		alter := func(ck []byte) []byte { return ck }
		first := false // send it in the first hello
		good := false
		switch how {
		case 0: // honest
			good = true
		case 1:
			alter = func(ck []byte) []byte { return nil }
		case 2:
			alter = func(ck []byte) []byte {
				d := append([]byte{}, ck...)
				d[r.IntN(len(d))] ^= 1 << r.IntN(8)
				return d
			}
		case 3:
			alter = func(ck []byte) []byte { return ck[:r.IntN(len(ck)-1)+1] }
		case 4:
			alter = func(ck []byte) []byte { return append(append([]byte{}, ck...), r.Bytes(1+r.IntN(20))...) }
		case 5:
			alter = func(ck []byte) []byte { return r.Bytes(1 + r.IntN(200)) }
		case 6: // foreign: another server
			_, sc2 := s.Configs()
			ck := other(sc2, true)
			alter = func([]byte) []byte { return ck }
		case 7: // transplanted: for another hello
			ck := other(sc, true)
			alter = func([]byte) []byte { return ck }
		case 8: // the application refuses
			if app(sc) == nil {
				good = true
				break
			}
			app(sc).Reject = true
			if last != nil {
				app(last).Reject = true
			}
		case 9: // garbage in the first hello
			first = true
			alter = func([]byte) []byte { return r.Bytes(1 + r.IntN(200)) }
		case 10: // somebody's cookie in the first hello
			first = true
			ck := other(sc, true)
			alter = func([]byte) []byte { return ck }
		case 11: // pieces exchanged with another cookie
			ck := other(sc, true)
			alter = func(own []byte) []byte {
				d := append([]byte{}, own...)
				k := 1 + r.IntN(len(d)-1)
				copy(d[k:], ck[min(k, len(ck)):])
				return d
			}
		case 12: // a server with an equal configuration but its own protector gets the second hello
			if last == nil {
				last = second(sc, s)
			}
			p, _ := mint.NewDefaultCookieProtector()
			last.CookieProtector = p
		}
		var sent []byte
		c.Cfg.ExtsHook = func(xs []ref.Ext) []ref.Ext {
			if c.HRRs == 0 && !first || c.HRRs > 0 && first {
				return xs
			}
			xs = ref.DropExt(xs, ref.XCookie)
			if sent = alter(c.Cookie); sent != nil {
				xs = append(xs, ref.Ext{Type: ref.XCookie, Data: ref.V16(sent)})
			}
			if !first && bytes.Equal(sent, c.Cookie) {
				good = how != 8 && how != 12 || app(sc) == nil && how == 8
			}
			return xs
		}
		n1, n2 := exchange(c, sc, last)
		ctx := fmt.Sprintf("how=%d stateless=%v cookie %d of %d bytes: servers %v %v client done=%v err=%v\n%v", how, last != nil, len(sent), len(c.Cookie), n1, n2, c.Done, c.Err, s)
		if good {
			if !n2.Done || !c.Done {
				t.Fatalf("an honest client does not complete: %s", ctx)
			}
			if err := judgeApp(s, sc, def(last, sc)); err != nil {
				t.Fatalf("%v: %s", err, ctx)
			}
			x, err := n2.C.ComputeExporter("e", nil, 32)
			if err != nil || !bytes.Equal(x, c.Exporter("e", nil, 32)) {
				t.Fatalf("the secrets differ: %s", ctx)
			}
		} else if n1.Done || n2.Done {
			t.Fatalf("a server that requires a cookie completes without its own: %s", ctx)
		} else if how == 8 {
			if app(def(last, sc)).Validated != 1 {
				t.Fatalf("the handler was not asked: %s", ctx)
			}
			if _, sh := h.ServerHellos(n2.T.Sent, s.DTLS); sh != nil {
				t.Fatalf("a ServerHello although the handler refused: %s", ctx)
			}
		}
		if !good && how != 7 && how != 10 && how != 1 {
			// Nothing but the client's own hello and cookie gets an answer.
			if _, sh := h.ServerHellos(append(append([][]byte{}, n1.T.Sent...), n2.T.Sent...), s.DTLS); sh != nil {
				t.Fatalf("a ServerHello for a bad cookie: %s", ctx)
			}
		}
		h.Label("bad how=%d good=%v stateless=%v dtls=%v", how, good, last != nil, s.DTLS)
		h.Case(!good, "%d %v %x %v", how, stateless, sent, s)
	})
}

func def(a, b *mint.Config) *mint.Config {
	if a != nil {
		return a
	}
	return b
}

// TestCustom: protectors of the application's making, including ones that
// fail and ones that let the client choose the content.
func TestCustom(t *testing.T) {
	h.Check(t, 1000, 20000, func(t *rapid.T) {
		s := drawScen(t, false)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		_, sc := s.Configs()
		p := protector{}
		how := rapid.IntRange(0, 4).Draw(t, "how")
		c := h.RefClient(s, r)
		first := false
		var alter func([]byte) []byte
		good := how == 0
		last := sc.Clone()
		stateless := rapid.Bool().Draw(t, "stateless")
		q := p
		switch how {
		case 1:
			p.newErr = errors.New("no token")
		case 2:
			q.decErr = errors.New("bad token")
			stateless = true
		case 3:
			first = rapid.Bool().Draw(t, "in the first hello")
			alter = func(b []byte) []byte { return r.Bytes(1 + r.IntN(80)) }
		case 4:
			// The content cut or extended or another suite named.
			k := r.IntN(3)
			alter = func(b []byte) []byte {
				d := append([]byte{}, b...)
				switch k {
				case 0:
					return d[:1+r.IntN(len(d)-1)]
				case 1:
					return append(d, byte(r.IntN(256)))
				}
				d[1+r.IntN(2)] ^= 1 << r.IntN(8)
				return d
			}
		}
		sc.CookieProtector = p
		last.CookieProtector = q
		if a := app(sc); a != nil {
			last.CookieHandler = &h.CookieApp{Out: a.Out}
		}
		if !stateless {
			last = nil
		}
		if alter != nil {
			c.Cfg.ExtsHook = func(xs []ref.Ext) []ref.Ext {
				if (c.HRRs > 0) == first {
					return xs
				}
				xs = ref.DropExt(xs, ref.XCookie)
				return append(xs, ref.Ext{Type: ref.XCookie, Data: ref.V16(alter(c.Cookie))})
			}
		}
		n1, n2 := exchange(c, sc, last)
		ctx := fmt.Sprintf("how=%d stateless=%v: servers %v %v client done=%v err=%v\n%v", how, stateless, n1, n2, c.Done, c.Err, s)
		if good != (n2.Done && c.Done) || !good && n1.Done {
			t.Fatalf("completes: %s", ctx)
		}
		h.Label("custom how=%d stateless=%v", how, stateless)
		h.Case(!good, "%d %v %v %v", how, stateless, first, s)
	})
}

// TestClientEchoes: the library's client echoes any cookie of an independent
// server, of any size.
func TestClientEchoes(t *testing.T) {
	h.Check(t, 800, 16000, func(t *rapid.T) {
		s := drawScen(t, false)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		cc, _ := s.Configs()
		srv := h.RefServer(s, r)
		max := rapid.SampledFrom([]int{1, 40, 300, 3000, 12000}).Draw(t, "largest cookie")
		srv.Cfg.Cookie = r.Bytes(1 + r.IntN(max))
		srv.Coalesce = r.IntN(2) == 0
		if s.DTLS {
			srv.MaxFrag = 1000
		}
		l := &h.Link{N: h.NewNode(cc, true), P: srv}
		if r.IntN(2) == 0 {
			m := []int{3, 700}[r.IntN(2)]
			l.Split = func(x []byte) (o [][]byte) {
				for len(x) > 0 {
					k := min(len(x), 1+r.IntN(m))
					o = append(o, x[:k])
					x = x[k:]
				}
				return
			}
		}
		l.Run()
		ctx := fmt.Sprintf("cookie of %d bytes: client %v server done=%v err=%v\n%v", len(srv.Cfg.Cookie), l.N, srv.Done, srv.Err, s)
		if !l.N.Done || !srv.Done {
			t.Fatalf("the handshake fails: %s", ctx)
		}
		if !bytes.Equal(srv.CH.Cookie, srv.Cfg.Cookie) {
			t.Fatalf("the cookie is not echoed: %s", ctx)
		}
		x, err := l.N.C.ComputeExporter("e", nil, 32)
		if err != nil || !bytes.Equal(x, srv.Exporter("e", nil, 32)) {
			t.Fatalf("the secrets differ: %s", ctx)
		}
		h.Label("client echoes dtls=%v large=%v", s.DTLS, len(srv.Cfg.Cookie) > 1000)
		h.Case(len(srv.Cfg.Cookie) > 1, "%d %v", len(srv.Cfg.Cookie), s)
	})
}

// TestProtector: the default protector by itself.
func TestProtector(t *testing.T) {
	h.Check(t, 3000, 60000, func(t *rapid.T) {
		p, err := mint.NewDefaultCookieProtector()
		if err != nil {
			t.Fatal(err)
		}
		q, _ := mint.NewDefaultCookieProtector()
		data := rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "data")
		a, err := p.NewToken(data)
		if err != nil {
			t.Fatal(err)
		}
		b, _ := p.NewToken(data)
		if bytes.Equal(a, b) {
			t.Fatal("two tokens for the same data are equal")
		}
		if len(data) >= 8 && bytes.Contains(a, data) {
			t.Fatal("the token shows its content")
		}
		for _, k := range [][]byte{a, b} {
			if d, err := p.DecodeToken(k); err != nil || !bytes.Equal(d, data) {
				t.Fatalf("DecodeToken = %x, %v for a token of %x", d, err, data)
			}
			if d, err := q.DecodeToken(k); err == nil {
				t.Fatalf("another protector accepts a token: %x", d)
			}
		}
		m := h.Mutate(t, a)
		if bytes.Equal(m, a) {
			t.Skip("not altered")
		}
		orig := append([]byte{}, m...)
		if d, err := p.DecodeToken(m); err == nil {
			t.Fatalf("an altered token is accepted as %x: %x instead of %x", d, m, a)
		}
		if !bytes.Equal(m, orig) {
			t.Fatal("DecodeToken changes its argument")
		}
		h.Case(true, "%x", m)
	})
}
