// Package c08: no peer input can crash or wedge an endpoint.
package c08

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// mutate damages a byte string (like h.Mutate, driven by r).
func mutate(r *h.Rng, in []byte) []byte {
	out := append([]byte{}, in...)
	for k := 1 + r.IntN(2); k > 0; k-- {
		if len(out) == 0 {
			return append(out, r.Bytes(1+r.IntN(4))...)
		}
		n := len(out)
		if n > 64 && r.IntN(3) > 0 {
			n = 64
		}
		p := r.IntN(n)
		switch r.IntN(8) {
		case 0:
			out = out[:p]
		case 1:
			out[p] = []byte{0, 1, 2, 3, 4, 0x20, 0x7f, 0x80, 0xfe, 0xff}[r.IntN(10)]
		case 2:
			out[p] += []byte{1, 255, 2, 254}[r.IntN(4)]
		case 3:
			out = append(out[:p:p], append(r.Bytes(1+r.IntN(4)), out[p:]...)...)
		case 4:
			q := min(len(out), p+1+r.IntN(4))
			out = append(out[:p:p], out[q:]...)
		case 5:
			out = append(out, r.Bytes(1+r.IntN(40))...)
		case 6:
			for q := p; q < min(len(out), p+2+r.IntN(3)); q++ {
				out[q] = 0xff
			}
		case 7:
			q := r.IntN(len(out))
			out = append(out[:p:p], out[q:]...)
		}
	}
	return out
}

// extsAt finds the extension block of a message body, if it has one.
func extsAt(kind byte, body []byte, dtls bool) int {
	r := &ref.R{B: body}
	switch kind {
	case ref.HClientHello:
		r.N(34)
		r.V8()
		if dtls {
			r.V8()
		}
		r.V16()
		r.V8()
	case ref.HServerHello:
		r.N(34)
		r.V8()
		r.N(3)
	case ref.HEE:
	case ref.HCertReq:
		r.V8()
	case ref.HNST:
		r.N(8)
		r.V8()
		r.V16()
	default:
		return -1
	}
	p := len(body) - len(r.B)
	if r.Exts(); r.Done() != nil {
		return -1
	}
	return p
}

var knownExts = []uint16{0, 5, 10, 13, 16, 35, 40, 41, 42, 43, 44, 45, 50, 51, 0xff01, 0x1234}

// editExts damages one extension but keeps the block well formed.
func editExts(r *h.Rng, body []byte, p int) []byte {
	xs := (&ref.R{B: body[p:]}).Exts()
	switch k := r.IntN(6); {
	case k < 3 && len(xs) > 0:
		i := r.IntN(len(xs))
		xs[i].Data = mutate(r, xs[i].Data)
	case k == 3 && len(xs) > 0:
		i := r.IntN(len(xs))
		xs = append(xs[:i], append([]ref.Ext{xs[i]}, xs[i:]...)...)
	case k == 4 && len(xs) > 0:
		i := r.IntN(len(xs))
		xs[i].Type = knownExts[r.IntN(len(knownExts))]
	default:
		n := r.IntN(12)
		d := r.Bytes(n)
		if n > 2 && r.IntN(2) == 0 { // a consistent vector
			d = ref.V16(d[2:])
		}
		x := ref.Ext{Type: knownExts[r.IntN(len(knownExts))], Data: d}
		i := r.IntN(len(xs) + 1)
		xs = append(xs[:i:i], append([]ref.Ext{x}, xs[i:]...)...)
	}
	return append(append([]byte{}, body[:p]...), ref.Exts(xs)...)
}

// attacker holds what a run does to the bytes.
type attacker struct {
	r    *h.Rng
	b    *ref.Base
	deep int // chance in 16 that a message is damaged before protection
	raw  int // chance in 16 that a transport write is damaged
	junk int // chance in 16 that a record is injected before a message
	n    int
	log  []string
}

func (a *attacker) note(f string, x ...any) {
	a.n++
	if len(a.log) < 20 {
		a.log = append(a.log, fmt.Sprintf(f, x...))
	}
}

func (a *attacker) hook(m *ref.OutMsg) {
	r, e := a.r, a.b
	if r.IntN(16) < a.junk {
		a.inject()
	}
	if r.IntN(16) >= a.deep {
		return
	}
	body := append([]byte{}, e.Body(m.Raw)...)
	hl := len(m.Raw) - len(body)
	switch k := r.IntN(8); {
	case k < 3:
		p := extsAt(m.Kind, body, e.DTLS)
		if p >= 0 {
			a.note("exts(%d)", m.Kind)
			body = editExts(r, body, p)
			break
		}
		fallthrough
	case k < 6:
		a.note("body(%d)", m.Kind)
		body = mutate(r, body)
	case k == 6: // header
		a.note("header(%d)", m.Kind)
		raw := append([]byte{}, m.Raw...)
		raw[r.IntN(hl)] = byte(r.IntN(256))
		m.Set(raw)
		return
	case k == 7:
		a.note("random(%d)", m.Kind)
		body = r.Bytes(r.IntN(100))
	}
	if e.DTLS {
		e.SendSeq--
	}
	raw := e.Frame(m.Kind, body)
	m.Set(raw)
	if r.IntN(2) == 0 { // only on the wire
		m.Absorb = [][]byte{m.Raw}
	}
}

// inject sends a record of the attacker's own under the current keys.
func (a *attacker) inject() {
	r, e := a.r, a.b
	typ := []byte{20, 21, 21, 22, 22, 22, 23, 24, 25, 25, 26, 0, 255}[r.IntN(13)]
	var p []byte
	switch r.IntN(4) {
	case 0:
		p = r.Bytes(r.IntN(4))
	case 1:
		p = r.Bytes(r.IntN(40))
	case 2: // shaped like what it claims to be
		switch typ {
		case 21:
			p = []byte{byte(r.IntN(4)), byte(r.IntN(256))}
		case 25:
			p = ref.V16(r.Bytes(8 * r.IntN(4)))
			if r.IntN(2) == 0 {
				p = r.Bytes(8 * r.IntN(4))
			}
		default:
			t := []byte{0, 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254, 99}[r.IntN(13)]
			b := r.Bytes(r.IntN(60))
			p = ref.Msg(t, b)
			if e.DTLS {
				off, n, tot := 0, len(b), len(b)
				seq := int(e.SendSeq)
				if r.IntN(2) == 0 {
					seq = r.IntN(4)
				}
				switch r.IntN(6) {
				case 0:
					off = r.IntN(1 << 24)
				case 1:
					n = r.IntN(1 << 24)
				case 2:
					tot = r.IntN(1 << 24)
				case 3:
					off, tot = r.IntN(50), r.IntN(100)
				case 4:
					tot = 0xffffff
				}
				p = ref.Cat([]byte{t}, ref.U24(tot), ref.U16(seq), ref.U24(off), ref.U24(n), b)
			} else if r.IntN(4) == 0 {
				copy(p[1:], ref.U24([]int{0, 1, 0xffffff, 0x8000, 1 << 14}[r.IntN(5)]))
			}
		}
	case 3:
		p = make([]byte, []int{0, 1, 16384, 16385, 16640, 20000}[r.IntN(6)])
	}
	a.note("inject(%d,%d)", typ, len(p))
	w := e.W
	if r.IntN(5) == 0 {
		w = nil
	}
	e.Flush()
	if e.DTLS {
		if len(p) < 16000 {
			e.RawOut(ref.SealDTLS(w, &e.ClearSeq, typ, p, 0xfefd))
		}
		return
	}
	if w != nil && r.IntN(4) == 0 {
		e.RawOut(ref.SealInnerTLS(w, append(append([]byte{}, p...), make([]byte, r.IntN(3))...)))
		return
	}
	e.RawOut(ref.SealTLS(w, typ, p, 0, 0x0303))
}

// wire damages transport bytes.
func (a *attacker) wire(b []byte) [][]byte {
	r := a.r
	if r.IntN(16) >= a.raw {
		return [][]byte{b}
	}
	a.note("raw")
	switch r.IntN(5) {
	case 0:
		return [][]byte{b, b}
	case 1:
		return [][]byte{r.Bytes(1 + r.IntN(30)), b}
	case 2:
		return nil
	default:
		return [][]byte{mutate(r, b)}
	}
}

// finish ends the transport and checks that every call returns, and with an
// error where nothing can come any more.
func finish(n *h.Node, r *h.Rng, dtls bool) error {
	n.T.EndIn()
	n.StepAll()
	for i := 0; dtls && i < 2000 && !n.Done && !n.Failed; i++ {
		n.StepAll() // a datagram that is skipped also makes it return
	}
	if !n.Done && !n.Failed {
		return fmt.Errorf("the transport ended, but Handshake reports %v in state %v", n.C.Handshake(), n.C.GetHsState())
	}
	buf := make([]byte, 1+r.IntN(3000))
	var err error
	for i := 0; i < 50 && err == nil; i++ {
		_, err = n.C.Read(buf)
	}
	if n.Done {
		for i := 0; i < 2000 && (err == nil || err == mint.AlertWouldBlock); i++ {
			_, err = n.C.Read(buf)
		}
		if err == nil || err == mint.AlertWouldBlock {
			return fmt.Errorf("the transport ended, but Read reports %v", err)
		}
	}
	n.C.Write([]byte("x"))
	n.C.SendKeyUpdate(r.IntN(2) == 0)
	n.C.ComputeExporter("x", nil, 10)
	n.C.ConnectionState()
	n.C.GetHsState()
	n.C.Writable()
	if dtls {
		n.C.GetDTLSTimeout()
	}
	n.C.Handshake()
	n.C.Close()
	n.C.Read(buf)
	n.C.Write([]byte("x"))
	n.C.Handshake()
	return nil
}

// TestPeer: a peer that deviates anywhere, in the clear and under protection.
func TestPeer(t *testing.T) {
	h.Check(t, 3000, 60000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoCookie: !isClient || rapid.Bool().Draw(t, "cookies"), Tickets: true})
		if len(s.SGroups) == 0 || len(s.CGroups) == 0 {
			s.SGroups = []mint.NamedGroup{mint.X25519}
			s.CGroups = s.SGroups
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		a := &attacker{r: r,
			deep: rapid.SampledFrom([]int{0, 1, 3, 8, 8}).Draw(t, "deep"),
			raw:  rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "raw"),
			junk: rapid.SampledFrom([]int{0, 0, 0, 2, 6}).Draw(t, "junk"),
		}
		cc, sc := s.Configs()
		var l *h.Link
		post := func() {}
		if isClient {
			srv := h.RefServer(s, r)
			srv.Cfg.NoChecks = true
			a.b = &srv.Base
			l = &h.Link{N: h.NewNode(cc, true), P: srv}
		} else {
			c := h.RefClient(s, r)
			if c.Cfg.Early {
				c.Cfg.EarlyData = [][]byte{[]byte("early"), r.Bytes(r.IntN(2000))}
			}
			a.b = &c.Base
			l = &h.Link{N: h.NewNode(sc, false), P: c}
			post = c.Start
		}
		a.b.Hook = a.hook
		a.b.Coalesce = !s.DTLS && r.IntN(3) == 0
		if s.DTLS && r.IntN(3) == 0 {
			a.b.MaxFrag = 1 + r.IntN(60)
		}
		l.ToN = a.wire
		if r.IntN(4) == 0 {
			l.Split = func(x []byte) (o [][]byte) {
				for len(x) > 0 {
					k := min(len(x), 1+r.IntN(200))
					o = append(o, x[:k])
					x = x[k:]
				}
				return
			}
		}
		var res string
		err := h.Guard(func() {
			post()
			l.Run()
			l.N.NoClose = true
			if l.N.Done {
				a.junk += 2
				for i := r.IntN(8); i > 0; i-- {
					switch r.IntN(6) {
					case 0, 1:
						a.inject()
					case 2:
						a.b.SendApp(r.Bytes(r.IntN(100)))
					case 3:
						if isClient && !s.DTLS {
							raw := a.b.Frame(4, mutate(r, ref.Cat(ref.U32(1000), ref.U32(0), ref.V8(r.Bytes(4)), ref.V16(r.Bytes(8)), ref.Exts([]ref.Ext{{Type: 42, Data: []byte{0, 0, 1, 0}}}))))
							a.note("ticket")
							a.b.SendHS(raw)
						}
					case 4:
						if !s.DTLS {
							a.b.SendKeyUpdate(r.IntN(2) == 0)
						}
					case 5:
						l.N.C.Write(r.Bytes(r.IntN(50)))
					}
					l.Move()
					l.N.ReadErr = nil
					l.N.ReadAvail(1 + r.IntN(300))
				}
			}
			l.Move()
			res = l.N.String()
			if e := finish(l.N, r, s.DTLS); e != nil {
				panic(e)
			}
		})
		if err != nil {
			t.Fatalf("%v\nclient=%v damage: %s\n%v", err, isClient, strings.Join(a.log, " "), s)
		}
		h.Label("client=%v dtls=%v hs=%v", isClient, s.DTLS, strings.Contains(res, "done=true"))
		h.Case(a.n > 0, "client=%v %s %v", isClient, strings.Join(a.log, " "), s)
	})
}

// TestRaw: bytes and datagrams that come from nowhere.
func TestRaw(t *testing.T) {
	h.Check(t, 1500, 30000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		dtls := rapid.Bool().Draw(t, "dtls")
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoDTLS: !dtls, DTLSOnly: dtls})
		cc, sc := s.Configs()
		cfg := sc
		if isClient {
			cfg = cc
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		n := h.NewNode(cfg, isClient)
		n.StepAll()
		var log []string
		err := h.Guard(func() {
			for i := 1 + r.IntN(8); i > 0; i-- {
				var b []byte
				switch r.IntN(5) {
				case 0:
					b = r.Bytes(r.IntN(60))
				case 1, 2, 3: // a record
					typ := []byte{20, 21, 22, 22, 22, 22, 23, 25, 26}[r.IntN(9)]
					p := r.Bytes(r.IntN(50))
					if typ == 22 && r.IntN(4) > 0 {
						body := r.Bytes(r.IntN(100))
						p = ref.Msg([]byte{1, 2, 1, 2, 4, 8, 20, 24}[r.IntN(8)], body)
						if dtls {
							p = ref.Cat(p[:4], ref.U16(r.IntN(3)), ref.U24(0), ref.U24(len(body)), body)
						}
						if r.IntN(3) == 0 {
							p = mutate(r, p)
						}
					}
					if dtls {
						seq := make([]byte, 8)
						seq[7] = byte(i)
						if r.IntN(4) == 0 {
							seq = r.Bytes(8)
						}
						b = ref.Cat([]byte{typ, 0xfe, 0xfd}, seq, ref.V16(p))
					} else {
						b = ref.Cat([]byte{typ, 3, byte(r.IntN(5))}, ref.V16(p))
					}
					if r.IntN(6) == 0 {
						b = mutate(r, b)
					}
				case 4: // a hello of this kind of endpoint
					if isClient {
						b = ref.SealTLS(nil, 22, ref.Msg(2, ref.Cat(ref.U16(0x0303), r.Bytes(32), ref.V8(nil), ref.U16(0x1301), []byte{0}, ref.Exts([]ref.Ext{{Type: 43, Data: []byte{3, 4}}, {Type: knownExts[r.IntN(len(knownExts))], Data: r.Bytes(r.IntN(80))}}))), 0, 0x0303)
					} else {
						c := ref.NewClient(ref.ClientCfg{ServerName: "x", Suites: []uint16{0x1301}, Groups: []uint16{29}, SigAlgs: []uint16{0x0403}, Extra: []ref.Ext{{Type: knownExts[r.IntN(len(knownExts))], Data: r.Bytes(r.IntN(20))}}}, r, dtls)
						c.Start()
						b = mutate(r, c.Take()[0])
					}
				}
				log = append(log, fmt.Sprintf("%d", len(b)))
				n.T.Push(b)
				n.StepAll()
				if r.IntN(3) == 0 {
					n.C.Read(make([]byte, 10))
				}
				if n.Failed {
					break
				}
			}
			if e := finish(n, r, dtls); e != nil {
				panic(e)
			}
		})
		if err != nil {
			t.Fatalf("%v\nclient=%v pieces %s\n%v", err, isClient, strings.Join(log, " "), s)
		}
		h.Label("raw client=%v dtls=%v", isClient, dtls)
		h.Case(true, "client=%v dtls=%v %s %x", isClient, dtls, strings.Join(log, " "), r.Bytes(4))
	})
}

// TestCut: in blocking mode the transport ends or fails after any number of
// bytes: every call returns.
func TestCut(t *testing.T) {
	h.Check(t, 300, 6000, func(rt *rapid.T) {
		s := h.DrawScen(rt, h.ScenOpts{Compatible: true, NoDTLS: true, Tickets: true})
		s.Blocking = true
		cut := rapid.IntRange(0, 4000).Draw(rt, "bytes before the end")
		dir := rapid.IntRange(0, 1).Draw(rt, "direction")
		fail := rapid.Bool().Draw(rt, "error")
		var state [2]string
		h.Bubble(t, func() {
			cc, sc := s.Configs()
			a, b := h.NewPair(false, false)
			a.Block, b.Block = true, true
			ends := [2]*h.End{a, b}
			conns := [2]*mint.Conn{mint.NewConn(a, cc, true), mint.NewConn(b, sc, false)}
			done := make(chan int, 2)
			for i := 0; i < 2; i++ {
				go func() {
					c := conns[i]
					state[i] = c.Handshake().String()
					for c.GetHsState() != mint.StateClientConnected && c.GetHsState() != mint.StateServerConnected {
						// A server that asked for a retry goes on.
						x := c.Handshake()
						state[i] = x.String()
						if x != mint.AlertNoAlert && x != mint.AlertStatelessRetry && x != mint.AlertWouldBlock {
							break
						}
					}
					c.Write([]byte("hello"))
					buf := make([]byte, 100)
					for k := 0; k < 20; k++ {
						if _, err := c.Read(buf); err != nil {
							break
						}
					}
					c.Close()
					done <- i
				}()
			}
			left := cut
			ended := false
			for k := 0; k < 2; {
				synctest.Wait()
				for d := 0; d < 2; d++ {
					for _, w := range ends[d].TakeOut() {
						if d == dir {
							if len(w) > left {
								w = w[:left]
							}
							left -= len(w)
						}
						if len(w) > 0 {
							ends[1-d].Push(w)
						}
					}
				}
				if left == 0 && !ended {
					ended = true
					if fail {
						ends[1-dir].ReadErr = fmt.Errorf("connection reset")
					}
					ends[1-dir].EndIn()
				}
				for d := 0; d < 2; d++ {
					if ends[d].Closed() {
						ends[1-d].EndIn()
					}
				}
				synctest.Wait()
				select {
				case <-done:
					k++
					continue
				default:
				}
				if len(ends[0].Queued())+len(ends[1].Queued()) == 0 { // nothing moves
					if !ended {
						ended = true
						ends[1-dir].EndIn()
						continue
					}
					if k == 0 { // both wait for each other's data: end the rest
						ends[0].EndIn()
						ends[1].EndIn()
						k0 := 0
						synctest.Wait()
						for len(done) > 0 {
							<-done
							k0++
						}
						k += k0
						if k < 2 {
							rt.Fatalf("a call does not return although the transport ended: %v\n%v", state, s)
						}
						continue
					}
					ends[0].EndIn()
					ends[1].EndIn()
					synctest.Wait()
					if len(done) == 0 {
						rt.Fatalf("a call does not return although the transport ended: %v\n%v", state, s)
					}
				}
			}
		})
		h.Label("cut %v/%v", state[0], state[1])
		h.Case(true, "%d %d %v %v", cut, dir, fail, s)
	})
}
