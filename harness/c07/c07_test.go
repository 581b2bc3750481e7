// Package c07: only a legal handshake message sequence reaches the connected
// state.
package c07

import (
	"fmt"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

const (
	none = iota
	drop
	dup
	insert
	swap
	wrongKeys
	tamper  // on the wire only
	retype  // another message type with the same body
	prefix  // a key change inside the next message
	trail   // bytes after the body within the message
	shorten // a body cut short
	data    // application data in between
	nDev
)

var devNames = []string{"none", "drop", "dup", "insert", "swap", "wrong keys", "tamper", "retype", "prefix", "trail", "shorten", "data"}

// dev applies one deviation to what a reference endpoint sends.
type dev struct {
	b      *ref.Base
	what   int
	at     int
	r      *h.Rng
	absorb bool // the sender's transcript has what was sent

	i        int
	kinds    []byte
	hit      string
	kind     byte
	held     []byte
	heldT    byte
	pre      []byte
	hits     bool
	legal    bool
	asked    bool // a CertificateRequest has been sent
	extraFin bool // a second Finished follows the first
}

func (d *dev) frame(t byte, body []byte) []byte { return d.b.Frame(t, body) }

// unframe takes back the sequence number of a message just framed.
func (d *dev) unframe() {
	if d.b.DTLS {
		d.b.SendSeq--
	}
}

func (d *dev) foreign(cur byte) (byte, []byte) {
	e := d.b
	// Every type the library knows, and some it does not.
	ts := []byte{1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 0, 3, 21, 67, 99, 254, 255}
	t := ts[d.r.IntN(len(ts))]
	var body []byte
	switch t {
	case 4:
		body = ref.Cat(ref.U32(1000), ref.U32(0), ref.V8(d.r.Bytes(4)), ref.V16(d.r.Bytes(8)), ref.Exts(nil))
	case 8:
		body = ref.Exts(nil)
	case 11:
		body = ref.EncCert(nil, nil)
	case 13:
		body = ref.Cat(ref.V8(nil), ref.Exts([]ref.Ext{{Type: ref.XSigAlgs, Data: ref.V16(ref.U16s([]uint16{0x0403}))}}))
	case 15:
		body = ref.Cat(ref.U16(0x0403), ref.V16(d.r.Bytes(70)))
	case 20:
		n := 32
		if e.S != nil {
			n = e.S.Hash.Size()
		}
		body = make([]byte, n)
		base := e.SHTS
		if e.IsClient {
			base = e.CHTS
		}
		if base != nil && d.r.IntN(2) == 0 {
			body = e.S.Finished(base, e.TH())
		}
	case 24:
		body = []byte{byte(d.r.IntN(2))}
	case 0, 5:
	default:
		body = d.r.Bytes(d.r.IntN(30))
	}
	return t, body
}

func (d *dev) hook(m *ref.OutMsg) {
	e := d.b
	i := d.i
	d.i++
	d.kinds = append(d.kinds, m.Kind)
	body := append([]byte{}, e.Body(m.Raw)...)
	set := func(raws ...[]byte) {
		m.Wire = raws
		if d.absorb {
			m.Absorb = raws
		}
	}
	mark := func(f string, a ...any) {
		d.hits = true
		d.kind = m.Kind
		d.hit = fmt.Sprintf("%s at %d (%d): ", devNames[d.what], i, m.Kind) + fmt.Sprintf(f, a...)
	}
	if d.pre != nil { // the rest of a message begun under the old keys
		p := d.pre
		d.pre = nil
		if !e.DTLS {
			e.Flush()
			e.Record(ref.RecHandshake, m.Raw[len(p):])
		} else {
			raw := ref.DTLSFrag(m.Raw, 1, len(body)-1)
			e.RawOut(ref.SealDTLS(e.W, &e.ClearSeq, ref.RecHandshake, raw, 0xfefd))
		}
		m.Wire = nil
		return
	}
	if d.held != nil {
		d.unframe()
		a, b := d.frame(m.Kind, body), []byte(nil)
		b = d.frame(d.heldT, d.held)
		d.held = nil
		set(a, b)
		mark("after %d", d.heldT)
		return
	}
	if i != d.at {
		if m.Kind == ref.HCertReq {
			d.asked = true
		}
		return
	}
	switch d.what {
	case drop:
		d.unframe()
		set()
		mark("")
		d.legal = m.Kind == ref.HCertReq
	case dup:
		set(m.Raw, d.frame(m.Kind, body))
		mark("")
	case insert:
		t, b := d.foreign(m.Kind)
		d.unframe()
		set(d.frame(t, b), d.frame(m.Kind, body))
		mark("message %d", t)
		d.extraFin = t == ref.HFinished && m.Kind == ref.HFinished
		d.legal = !e.IsClient && t == ref.HCertReq && m.Kind == ref.HCert && !d.asked
	case swap:
		d.unframe()
		d.held, d.heldT = body, m.Kind
		set()
	case wrongKeys:
		if i == 0 || (m.Kind == ref.HServerHello && !e.IsClient) || m.Kind == ref.HClientHello || e.W == nil {
			return
		}
		old := e.W
		var ks []*ref.Keys
		ks = append(ks, nil, ref.NewKeys(e.S, e.CHTS, 2), ref.NewKeys(e.S, e.SHTS, 2), ref.NewKeys(e.S, d.r.Bytes(e.S.Hash.Size()), old.Epoch))
		if e.CETS != nil {
			ks = append(ks, ref.NewKeys(e.S, e.CETS, 1))
		}
		if e.CATS != nil {
			ks = append(ks, ref.NewKeys(e.S, e.CATS, 3), ref.NewKeys(e.S, e.SATS, 3))
		}
		j := d.r.IntN(len(ks))
		k := ks[j]
		if k != nil && string(k.Secret) == string(old.Secret) {
			k = nil
		}
		e.Flush()
		e.W = k
		e.SendHS(m.Raw)
		e.Flush()
		e.W = old
		m.Wire = nil
		mark("keys %d", j)
	case tamper:
		if len(body) == 0 {
			return
		}
		b := append([]byte{}, m.Raw...)
		b[len(b)-1-d.r.IntN(len(body))] ^= byte(1 << d.r.IntN(8))
		m.Wire = [][]byte{b}
		mark("")
	case retype:
		t, _ := d.foreign(m.Kind)
		if t == m.Kind {
			return
		}
		d.unframe()
		set(d.frame(t, body))
		mark("as %d", t)
		// A CertificateRequest's place is optional, and the peer's reaction to
		// it is its own, but a request cannot be disguised as something else.
	case trail:
		d.unframe()
		set(d.frame(m.Kind, append(append([]byte{}, body...), d.r.Bytes(1+d.r.IntN(3))...)))
		mark("")
	case shorten:
		if len(body) == 0 {
			return
		}
		d.unframe()
		set(d.frame(m.Kind, body[:len(body)-1-d.r.IntN(len(body))]))
		mark("")
		// A ClientHello may end before its extensions, but not one of ours.
	case prefix:
		if e.IsClient || m.Kind != ref.HServerHello || m.HRR {
			return
		}
		if e.DTLS {
			// EncryptedExtensions without extensions is 00 00.
			f := ref.DTLSFrag(ref.Cat([]byte{ref.HEE}, ref.U24(2), ref.U16(int(e.SendSeq)), ref.U24(0), ref.U24(2), []byte{0, 0}), 0, 1)
			e.SendHS(m.Raw)
			e.RawOut(ref.SealDTLS(e.W, &e.ClearSeq, ref.RecHandshake, f, 0xfefd))
			d.pre = f
		} else {
			d.pre = []byte{ref.HEE, 0, 0}[:1+d.r.IntN(3)]
			e.Flush()
			e.Record(ref.RecHandshake, ref.Cat(m.Raw, d.pre))
		}
		m.Wire = nil
		mark("%d bytes", len(d.pre))
	case data:
		if e.DTLS {
			return
		}
		e.Flush()
		typ, b := byte(ref.RecAppData), d.r.Bytes(1+d.r.IntN(20))
		switch d.r.IntN(4) {
		case 0: // a type of record that does not exist, or not in TLS
			if typ = []byte{0, 19, 24, 25, 26, 27, 99, 255}[d.r.IntN(8)]; typ == 0 {
				clear(b) // zero is padding: the last other byte would be the type
			}
		case 1: // a change_cipher_spec that is not one
			typ = 20
			b = [][]byte{{0}, {2}, {1, 1}, {1, 0}}[d.r.IntN(4)]
		}
		e.Record(typ, b)
		mark("record type %d", typ)
		d.legal = e.W != nil && e.W.Epoch == 1 && typ == ref.RecAppData // more early data
	}
}

// TestHandshake: one deviation anywhere in an otherwise correct handshake.
func TestHandshake(t *testing.T) {
	h.Check(t, 4000, 60000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		what := rapid.IntRange(none, nDev-1).Draw(t, "deviation")
		o := h.ScenOpts{Compatible: true, NoCookie: !isClient}
		flavour := rapid.IntRange(0, 3).Draw(t, "flavour")
		switch flavour {
		case 2:
			o.PSKOnly, o.NoDTLS = true, true
		case 3:
			o.NoPSK, o.NoAuth = true, true
		}
		s := h.DrawScen(t, o)
		switch flavour {
		case 2: // early data, accepted by the server
			s.EarlyC, s.EarlyS, s.PSK.ServerHas, s.Cookie = true, true, true, h.CookieNone
			if !s.Predict().OK {
				s.EarlyC = false
				s.PSK.ServerHas = false
			}
		case 3: // client authentication
			s.ClientAuth = true
			s.ClientCerts = []h.CertSpec{{Key: "p256-0", Names: []string{"client"}, CA: "A"}}
			s.SSchemes = []mint.SignatureScheme{mint.ECDSA_P256_SHA256}
		}
		if len(s.SGroups) == 0 || len(s.CGroups) == 0 {
			s.SGroups = []mint.NamedGroup{mint.X25519}
			s.CGroups = s.SGroups
		}
		if what == prefix {
			s.CALPN, s.SALPN = nil, nil
			s.EarlyC = false
		}
		cc, sc := s.Configs()
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		d := &dev{what: what, r: r, at: rapid.IntRange(0, 6).Draw(t, "message"), absorb: rapid.IntRange(0, 3).Draw(t, "consistent") > 0}
		if what == prefix {
			d.at &= 1
		}
		var l *h.Link
		var start func()
		early := []byte(nil)
		if isClient {
			srv := h.RefServer(s, r)
			d.b = &srv.Base
			l = &h.Link{N: h.NewNode(cc, true), P: srv}
			start = func() {}
		} else {
			c := h.RefClient(s, r)
			if c.Cfg.Early {
				early = []byte("early")
				c.Cfg.EarlyData = [][]byte{early}
			}
			d.b = &c.Base
			l = &h.Link{N: h.NewNode(sc, false), P: c}
			start = c.Start
		}
		d.b.Hook = d.hook
		d.b.Coalesce = !s.DTLS && r.IntN(4) == 0 && what != prefix
		if r.IntN(4) == 0 && what != prefix {
			d.b.MaxFrag = 1 + r.IntN(80)
		}
		start()
		l.Run()
		d.b.Flush()
		l.Run()
		n := l.N
		ctx := fmt.Sprintf("client=%v %s consistent=%v: %v (peer %v, done %v, sent %v)\n%v", isClient, d.hit, d.absorb, n, d.b.Err, d.b.Done, d.kinds, s)
		if !d.hits {
			if d.held != nil {
				// The last message was withheld.
				if n.Done {
					t.Fatalf("completed without the last message: %s", ctx)
				}
			} else if !n.Done {
				t.Fatalf("did not complete with a correct peer: %s", ctx)
			}
			h.Label("no deviation")
			h.Case(false, "")
			return
		}
		h.Label("client=%v %s %d done=%v", isClient, devNames[what], d.kind, n.Done)
		h.Case(true, "client=%v dtls=%v %s %v", isClient, s.DTLS, d.hit, d.absorb)
		if d.legal || !n.Done {
			return
		}
		if c, ok := l.P.(*ref.Client); ok && c.Cfg.Early && !c.EarlyOK && what == dup && d.kind == ref.HClientHello {
			return // the server may discard what follows the hello until it decrypts
		}
		// What follows a valid Finished comes after the handshake: then no
		// data may be read any more.
		if d.kind == ref.HFinished && (what == dup || d.extraFin) {
			if s.DTLS {
				return // a record under retired keys: what a retransmission looks like
			}
			d.b.SendApp([]byte("after"))
			l.Run()
			n.ReadAvail(100)
			if len(n.Got) > len(early) || n.ReadErr == nil {
				t.Fatalf("data was read after a repeated Finished (%q, %v): %s", n.Got, n.ReadErr, ctx)
			}
			return
		}
		t.Fatalf("completed: %s", ctx)
	})
}

// TestPost: messages that have no place after the handshake.
func TestPost(t *testing.T) {
	h.Check(t, 1500, 20000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		s := &h.Scen{Name: "example.com", DTLS: rapid.IntRange(0, 3).Draw(t, "dtls") == 3, CGroups: []mint.NamedGroup{mint.X25519}, SGroups: []mint.NamedGroup{mint.X25519},
			CSuites: []mint.CipherSuite{rapid.SampledFrom(h.AllSuites).Draw(t, "suite")},
			Certs:   []h.CertSpec{{Key: "p256-0", Names: []string{"example.com"}, CA: "A"}}}
		cc, sc := s.Configs()
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		var b *ref.Base
		var l *h.Link
		if isClient {
			srv := h.RefServer(s, r)
			b, l = &srv.Base, &h.Link{N: h.NewNode(cc, true), P: srv}
		} else {
			c := h.RefClient(s, r)
			c.Start()
			b, l = &c.Base, &h.Link{N: h.NewNode(sc, false), P: c}
		}
		l.Run()
		n := l.N
		if !n.Done || b.Err != nil {
			t.Fatalf("handshake: %v %v", n, b.Err)
		}
		b.SendApp([]byte("before"))
		typ := byte(rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 8, 11, 13, 15, 20, 21, 24, 67, 99, 254, 255}).Draw(t, "type"))
		var body []byte
		legal, parts := false, 1
		switch typ {
		case 4:
			body = ref.Cat(ref.U32(1000), ref.U32(0), ref.V8(r.Bytes(4)), ref.V16(r.Bytes(8)), ref.Exts(nil))
			if isClient {
				switch rapid.IntRange(0, 3).Draw(t, "ticket") {
				case 0:
					legal = true
				case 1:
					body = body[:rapid.IntRange(0, len(body)-1).Draw(t, "cut")]
				case 2:
					body = append(body, 0)
				case 3:
					body = ref.Cat(ref.U32(1000), ref.U32(0), ref.V8(r.Bytes(4)), ref.V16(nil), ref.Exts(nil)) // no ticket
				}
			}
		case 24:
			body = rapid.SampledFrom([][]byte{{0}, {1}, {2}, {255}, {}, {0, 0}, {1, 0}}).Draw(t, "key update")
			legal = len(body) == 1 && body[0] < 2
		case 13:
			body = ref.Cat(ref.V8(nil), ref.Exts([]ref.Ext{{Type: ref.XSigAlgs, Data: ref.V16(ref.U16s([]uint16{0x0403}))}}))
		case 20:
			if isClient {
				body = b.S.Finished(b.SATS, b.TH())
			} else {
				body = b.S.Finished(b.CATS, b.TH())
			}
		default:
			body = r.Bytes(rapid.IntRange(0, 40).Draw(t, "length"))
		}
		raw := b.Frame(typ, body)
		how := 0
		if !s.DTLS {
			how = rapid.IntRange(0, 3).Draw(t, "how")
		}
		switch {
		case how == 1 && len(raw) > 1 && !(typ == 24 && legal) && !(typ == 4 && legal):
			// in two records with data in between
			k := rapid.IntRange(1, len(raw)-1).Draw(t, "split")
			b.Record(ref.RecHandshake, raw[:k])
			b.SendApp([]byte("between"))
			b.Record(ref.RecHandshake, raw[k:])
			parts = 2
		case how == 2:
			b.SendHS(ref.Cat(raw, []byte{24})) // the beginning of a further message
			legal = false
		case how == 3:
			// a length beyond what is there, and data where the rest should be
			raw = append([]byte{}, raw...)
			switch rapid.IntRange(0, 2).Draw(t, "longer") {
			case 0:
				raw[1] += byte(rapid.IntRange(1, 255).Draw(t, "megabytes"))
			case 1:
				raw[2] += byte(rapid.IntRange(1, 100).Draw(t, "blocks"))
			case 2:
				raw[3] += byte(rapid.IntRange(1, 100).Draw(t, "bytes"))
			}
			b.SendHS(raw)
			legal = false
		default:
			b.SendHS(raw)
		}
		if typ == 24 && how != 2 && (legal || rapid.Bool().Draw(t, "roll keys")) {
			b.RollW()
		}
		b.SendApp([]byte("after"))
		l.Move()
		for i := 0; i < 3; i++ {
			n.ReadErr = nil
			n.ReadAvail(100)
			l.Move()
		}
		ctx := fmt.Sprintf("client=%v dtls=%v type %d body %x how %d: read %q, error %v, peer %v", isClient, s.DTLS, typ, body, how, n.Got, n.ReadErr, b.Err)
		if legal && !s.DTLS {
			if string(n.Got) != "beforeafter" || n.ReadErr != nil {
				t.Fatalf("legal message disturbed the stream: %s", ctx)
			}
		}
		if !legal {
			if string(n.Got) != "before" {
				t.Fatalf("data was delivered after an illegal message: %s", ctx)
			}
		}
		h.Label("post client=%v type=%d legal=%v how=%d", isClient, typ, legal, how)
		h.Case(!legal, "client=%v dtls=%v type=%d %x how=%d parts=%d", isClient, s.DTLS, typ, body, how, parts)
	})
}

// TestRetries: more than one retry request, and retries of something else.
func TestRetries(t *testing.T) {
	h.Check(t, 200, 4000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoCookie: true, NoEarly: true})
		if len(s.SGroups) == 0 || len(s.CGroups) == 0 {
			s.SGroups = []mint.NamedGroup{mint.X25519}
			s.CGroups = s.SGroups
		}
		cc, _ := s.Configs()
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		srv := h.RefServer(s, r)
		srv.Cfg.Cookie = r.Bytes(1 + r.IntN(40))
		srv.Cfg.NoChecks = true
		k := rapid.IntRange(0, 2).Draw(t, "further retry requests")
		n := 0
		srv.Hook = func(m *ref.OutMsg) {
			if m.Kind != ref.HServerHello || m.HRR {
				return
			}
			// ServerHello: send further requests first.
			if srv.DTLS {
				srv.SendSeq--
			}
			body := srv.Body(m.Raw)
			var raws [][]byte
			for ; n < k; n++ {
				raws = append(raws, srv.Frame(ref.HServerHello, ref.EncSH(&ref.SH{Version: 0x0303, Random: ref.HRRRandom, SessionID: srv.CH.SessionID, Suite: srv.S.ID,
					Exts: []ref.Ext{{Type: ref.XVersions, Data: []byte{3, 4}}, {Type: ref.XCookie, Data: ref.V16(r.Bytes(5))}}})))
			}
			m.Set(append(raws, srv.Frame(ref.HServerHello, body))...)
		}
		l := &h.Link{N: h.NewNode(cc, true), P: srv}
		l.Run()
		if l.N.Done != (k == 0) {
			t.Fatalf("%d further retry requests: %v (peer %v)\n%v", k, l.N, srv.Err, s)
		}
		if k > 0 && len(h.HelloMsgs(l.Log[0], s.DTLS, 1)) > 2 {
			t.Fatalf("%d hellos sent", len(h.HelloMsgs(l.Log[0], s.DTLS, 1)))
		}
		h.Case(k > 0, "%d %v", k, s)
	})
}
