// Package c02: negotiation outcome is the one the two configurations determine.
package c02

import (
	"bytes"
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"slices"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

func sameChain(a []*x509.Certificate, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i].Raw, b[i]) {
			return false
		}
	}
	return true
}

// TestPair runs both ends of the library against the model.
func TestPair(t *testing.T) {
	h.Check(t, 700, 12000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Slow: rapid.IntRange(0, 80).Draw(t, "slow") == 80, Tickets: true, Compatible: rapid.Bool().Draw(t, "compatible")})
		o := s.Predict()
		w := h.RunScen(t, s)
		bad := func(f string, a ...any) {
			t.Fatalf("%s\npredicted %+v\n%s\n%v", fmt.Sprintf(f, a...), o, w.Status(), s)
		}
		h.Label("dtls=%v ok=%v %s", s.DTLS, o.OK, o.Why)
		h.Case(true, "%v", s)
		if !o.OK {
			if w.A.Done || w.B.Done {
				bad("an end completed though the configurations are incompatible")
			}
			if !s.DTLS && !(w.A.Failed && w.B.Failed) {
				bad("the handshake did not fail on both sides")
			}
			if !w.A.Failed && !w.B.Failed {
				bad("the handshake did not fail")
			}
			return
		}
		if !w.Both() {
			bad("compatible configurations do not complete")
		}
		hrrs, sh := h.ServerHellos(w.Log[1], s.DTLS)
		if sh == nil {
			bad("no ServerHello seen")
		}
		if (hrrs == 1) != o.HRR || hrrs > 1 {
			bad("%d retry requests", hrrs)
		}
		if mint.NamedGroup(h.SHGroup(sh)) != o.Group {
			bad("group %v on the wire", h.SHGroup(sh))
		}
		if _, psk := ref.FindExt(sh.Exts, ref.XPSK); psk != o.PSK {
			bad("PSK in ServerHello: %v", psk)
		}
		if sh.Suite != uint16(o.Suite) {
			bad("suite %04x on the wire", sh.Suite)
		}
		a, b := w.A.C.ConnectionState(), w.B.C.ConnectionState()
		for who, x := range map[string]mint.ConnectionState{"client": a, "server": b} {
			if x.CipherSuite.Suite != o.Suite {
				bad("%s reports suite %v", who, x.CipherSuite.Suite)
			}
			if x.UsingPSK != o.PSK {
				bad("%s reports PSK %v", who, x.UsingPSK)
			}
			if x.NextProto != o.ALPN {
				bad("%s reports protocol %q", who, x.NextProto)
			}
			if x.UsingEarlyData != o.Early {
				bad("%s reports early data %v", who, x.UsingEarlyData)
			}
		}
		if o.PSK {
			if len(a.PeerCertificates) > 0 || len(b.PeerCertificates) > 0 {
				bad("peer certificates under PSK")
			}
			return
		}
		id := s.Certs[o.Cert].Ident()
		if !sameChain(a.PeerCertificates, id.Chain) {
			bad("client reports %d peer certificates, not the chain of certificate %d", len(a.PeerCertificates), o.Cert)
		}
		if !s.Insecure && len(a.VerifiedChains) == 0 {
			bad("client reports no verified chain")
		}
		if o.CCert < 0 {
			if len(b.PeerCertificates) != 0 {
				bad("server reports client certificates")
			}
		} else if !sameChain(b.PeerCertificates, s.ClientCerts[o.CCert].Ident().Chain) {
			bad("server reports %d client certificates, not the chain of certificate %d", len(b.PeerCertificates), o.CCert)
		}
	})
}

func in16(v uint16, l []uint16) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

var grease = []uint16{0x0a0a, 0x1a1a, 0x1301, 0x1302, 0x1303, 0x1304, 0x1305, 0x00ff, 0xfafa, 0x0017, 0x0018, 0x0019, 0x001d, 0x001e, 0x0100, 0x0804, 0x0403}

func mix(t *rapid.T, l string, xs []uint16) []uint16 {
	out := append([]uint16{}, xs...)
	for i := rapid.IntRange(0, 3).Draw(t, l+" unknown"); i > 0; i-- {
		g := rapid.SampledFrom(grease).Draw(t, l+" value")
		if !in16(g, out) {
			p := rapid.IntRange(0, len(out)).Draw(t, l+" at")
			out = append(out[:p:p], append([]uint16{g}, out[p:]...)...)
		}
	}
	return out
}

// TestServer runs the server against hellos the library's client never sends.
func TestServer(t *testing.T) {
	h.Check(t, 700, 12000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{NoPSK: true, NoAuth: true, NoEarly: true, NoDTLS: rapid.IntRange(0, 2).Draw(t, "tls") > 0})
		_, sc := s.Configs()
		rng := h.NewRng(rapid.Uint64().Draw(t, "client seed"))
		def := func(x []uint16, d ...uint16) []uint16 {
			if len(x) == 0 {
				return d
			}
			return x
		}
		ssu := def(h.U16Suites(s.SSuites), 0x1301, 0x1302)
		sgr := def(h.U16Groups(s.SGroups), 23, 24, 256, 29)
		cfg := ref.ClientCfg{ServerName: s.Name, Modes: rapid.SampledFrom([][]byte{{1}, {0}, {0, 1}, {1, 0}, {}, {7, 1}, {9}}).Draw(t, "modes")}
		cfg.Suites = mix(t, "suites", def(h.U16Suites(s.CSuites), 0x1301, 0x1302))
		groups := def(h.U16Groups(s.CGroups), 23, 29)
		cfg.ShareGroups = append([]uint16{}, groups...)
		if rapid.IntRange(0, 2).Draw(t, "share subset") == 0 {
			cfg.ShareGroups = h.Subset(t, "shares", groups, 0)
			if cfg.ShareGroups == nil {
				cfg.ShareGroups = []uint16{}
			}
		}
		cfg.Groups = mix(t, "groups", groups)
		if rapid.IntRange(0, 1).Draw(t, "grease share") == 1 && len(cfg.Groups) > 0 {
			g := cfg.Groups[rapid.IntRange(0, len(cfg.Groups)-1).Draw(t, "grease at")]
			if ref.ShareLen(g) == 0 {
				cfg.Shares = func(ss []ref.Share) []ref.Share {
					return append([]ref.Share{{Group: g, Data: []byte{0}}}, ss...)
				}
			}
		}
		schemes := def(h.U16Schemes(s.CSchemes), 0x0804, 0x0403, 0x0503, 0x0603)
		cfg.SigAlgs = mix(t, "schemes", schemes)
		cfg.ALPN = s.CALPN
		cfg.Versions = rapid.SampledFrom([][]uint16{{0x0304}, {0x0304, 0x0303}, {0x0303, 0x0304}, {0x7a7a, 0x0304, 0x0302}, {0x0303}, {}, {0x0305}}).Draw(t, "versions")
		cfg.SessionID = rng.Bytes(rapid.SampledFrom([]int{0, 32}).Draw(t, "session id"))
		cfg.NoSNI = rapid.IntRange(0, 14).Draw(t, "sni") == 14
		missing := 0
		if rapid.IntRange(0, 14).Draw(t, "missing") == 14 {
			missing = rapid.SampledFrom([]int{ref.XGroups, ref.XSigAlgs}).Draw(t, "missing extension")
			cfg.ExtsHook = func(xs []ref.Ext) []ref.Ext { return ref.DropExt(xs, uint16(missing)) }
		}
		var psks []*ref.PSK
		var hash uint16
		if rapid.IntRange(0, 2).Draw(t, "psks") == 2 {
			hash = rapid.SampledFrom([]uint16{0x1301, 0x1302}).Draw(t, "psk suite")
			for i := rapid.IntRange(1, 4).Draw(t, "psk n"); i > 0; i-- {
				psks = append(psks, &ref.PSK{ID: append([]byte{byte(i)}, rng.Bytes(1+rng.IntN(8))...), Key: rng.Bytes(1 + rng.IntN(48)), Suite: hash})
			}
			cfg.PSKs = psks
			if !in16(hash, cfg.Suites) {
				cfg.Suites = append(cfg.Suites, hash)
			}
			if !in16(hash, ssu) {
				sc.CipherSuites = append(sc.CipherSuites, mint.CipherSuite(hash))
				ssu = append(ssu, hash)
			}
			if len(cfg.Modes) == 0 {
				cfg.Modes = []byte{1}
			}
		}
		have := -1
		proto := rapid.SampledFrom([]string{"", "h2", "x"}).Draw(t, "psk proto")
		for i, p := range psks {
			if rapid.Bool().Draw(t, "server has") {
				if have < 0 {
					have = i
				}
				sc.PSKs.Put(hex.EncodeToString(p.ID), mint.PreSharedKey{CipherSuite: mint.CipherSuite(p.Suite), Identity: p.ID, Key: p.Key, NextProto: proto})
			}
		}
		early := have >= 0 && !s.DTLS && rapid.Bool().Draw(t, "early")
		sc.AllowEarlyData = rapid.Bool().Draw(t, "allow early")
		if early {
			cfg.Early = true
			if rapid.Bool().Draw(t, "with data") {
				cfg.EarlyData = [][]byte{[]byte("early"), []byte("data")}
			}
		}
		if s.DTLS {
			for i, v := range cfg.Versions {
				if v != 0x0304 {
					cfg.Versions[i] = v // DTLS 1.3 drafts use the TLS code points here
				}
			}
		}

		// Model
		ok, why := true, ""
		fail := func(w string) {
			if ok {
				ok, why = false, w
			}
		}
		if !in16(0x0304, cfg.Versions) {
			fail("version")
		}
		var group uint16
		for _, g := range cfg.ShareGroups {
			if in16(g, sgr) {
				group = g
				break
			}
		}
		kePSK := false
		dhePSK := false
		for _, m := range cfg.Modes {
			kePSK = kePSK || m == 0
			dhePSK = dhePSK || m == 1
		}
		if !kePSK && !dhePSK && have >= 0 {
			have = -1
			t.Skip("PSK without a known mode")
		}
		psk := have >= 0 && (kePSK || (dhePSK && group != 0))
		if have >= 0 && !psk && group != 0 {
			t.Skip("PSK dropped for its mode: suite choice not specified")
		}
		dh := group != 0 && (!psk || dhePSK)
		var suite uint16
		for _, c := range cfg.Suites {
			if (psk && c == hash) || (!psk && in16(c, ssu) && ref.SuiteByID(c) != nil) {
				suite = c
				break
			}
		}
		if suite == 0 {
			fail("suite")
		}
		if !dh && !psk {
			fail("no key exchange")
		}
		hrr := s.Cookie == h.CookieAuto || s.Cookie == h.CookieHandlerOn
		cert, scheme := -1, uint16(0)
		if !psk {
			if cfg.NoSNI {
				fail("no server name")
			}
			if missing != 0 {
				fail("missing extension")
			}
		pick:
			for i, c := range s.Certs {
				match := false
				for _, n := range c.Names {
					match = match || n == s.Name
				}
				if !match {
					continue
				}
				for _, a := range cfg.SigAlgs {
					if ref.SchemeFits(a, h.Key(c.Key).Public()) {
						cert, scheme = i, a
						break pick
					}
				}
			}
			if cert < 0 {
				fail("certificate")
			}
		}
		alpn := ""
		for _, p := range cfg.ALPN {
			for _, q := range s.SALPN {
				if p == q && alpn == "" && (!psk || p == proto) {
					alpn = p
				}
			}
		}
		useEarly := psk && have == 0 && early && sc.AllowEarlyData && !hrr

		n := h.NewNode(sc, false)
		c := ref.NewClient(cfg, rng, s.DTLS)
		c.Start()
		l := &h.Link{N: n, P: c}
		l.Run()
		desc := fmt.Sprintf("%v client={suites %04x groups %v shares %v schemes %04x modes %v versions %04x psks %d have %d early %v/%v:%v nosni %v missing %d}", s, cfg.Suites, cfg.Groups, cfg.ShareGroups, cfg.SigAlgs, cfg.Modes, cfg.Versions, len(psks), have, early, len(cfg.EarlyData), sc.AllowEarlyData, cfg.NoSNI, missing)
		bad := func(f string, a ...any) {
			t.Fatalf("%s\npredicted ok=%v (%s) suite %04x group %d psk %v cert %d scheme %04x alpn %q early %v hrr %v\nserver %v client done=%v err=%v\n%s", fmt.Sprintf(f, a...), ok, why, suite, group, psk, cert, scheme, alpn, useEarly, hrr, n, c.Done, c.Err, desc)
		}
		h.Label("server ok=%v %s psk=%v dtls=%v", ok, why, psk, s.DTLS)
		h.Case(true, "%s", desc)
		if !ok {
			if n.Done || c.Done {
				bad("completed")
			}
			if !n.Failed {
				bad("the server did not fail")
			}
			if _, sh := h.ServerHellos(n.T.Sent, s.DTLS); sh != nil && why == "no key exchange" {
				bad("the server sent a ServerHello")
			}
			return
		}
		if !n.Done || !c.Done {
			bad("did not complete")
		}
		cs := n.C.ConnectionState()
		if !dh {
			group = 0
		}
		switch {
		case uint16(cs.CipherSuite.Suite) != suite || c.SH.Suite != suite:
			bad("suite %v, on the wire %04x", cs.CipherSuite.Suite, c.SH.Suite)
		case c.Group != group:
			bad("group %d", c.Group)
		case (c.UsedPSK != nil) != psk || cs.UsingPSK != psk:
			bad("PSK %v / %v", c.UsedPSK != nil, cs.UsingPSK)
		case psk && c.UsedPSK != psks[have]:
			bad("another PSK than the first it has")
		case cs.NextProto != alpn || c.ALPN != alpn:
			bad("protocol %q / %q", cs.NextProto, c.ALPN)
		case cs.UsingEarlyData != useEarly || c.EarlyOK != useEarly:
			bad("early data %v / %v", cs.UsingEarlyData, c.EarlyOK)
		case (c.HRRs == 1) != hrr:
			bad("%d retry requests", c.HRRs)
		case !psk && c.CVScheme != scheme:
			bad("scheme %04x", c.CVScheme)
		case !psk && !bytes.Equal(bytes.Join(c.CertDERs, nil), bytes.Join(s.Certs[cert].Ident().Chain, nil)):
			bad("another certificate")
		}
	})
}

// TestClient runs the client against servers that choose what it did not offer.
func TestClient(t *testing.T) {
	h.Check(t, 700, 12000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoCookie: true, NoAuth: true, NoEarly: true})
		s.Insecure = rapid.Bool().Draw(t, "insecure too")
		cc, _ := s.Configs()
		rng := h.NewRng(rapid.Uint64().Draw(t, "server seed"))
		o := s.Predict()
		def := func(x []uint16, d ...uint16) []uint16 {
			if len(x) == 0 {
				return d
			}
			return x
		}
		csu := def(h.U16Suites(s.CSuites), 0x1301, 0x1302)
		cgr := def(h.U16Groups(s.CGroups), 23, 24, 256, 29)
		csch := def(h.U16Schemes(s.CSchemes), 0x0804, 0x0805, 0x0806, 0x0403, 0x0503, 0x0603)
		cfg := ref.ServerCfg{Suites: []uint16{0x1301, 0x1302}, Groups: []uint16{29, 23, 24, 25, 256}, NoChecks: true, ALPN: s.SALPN}
		if rapid.Bool().Draw(t, "server order") {
			cfg.Suites = []uint16{0x1302, 0x1301}
			cfg.Groups = []uint16{25, 24, 256, 23, 29}
		}
		if o.PSK {
			cfg.PSK = func(id []byte) *ref.PSK {
				if bytes.Equal(id, s.PSK.ID) {
					return &ref.PSK{ID: id, Key: s.PSK.Key, Suite: uint16(s.PSK.Suite)}
				}
				return nil
			}
			cfg.NoDHE = !o.DH
		} else {
			cfg.Ident = s.Certs[o.Cert].Ident()
		}
		legal := true
		what := "honest"
		kind := rapid.IntRange(0, 11).Draw(t, "deviation")
		if kind == 9 && rapid.Bool().Draw(t, "session ID") {
			kind = 12
		}
		swap := func(xs []ref.Ext, typ uint16, d []byte) []ref.Ext {
			return append(ref.DropExt(xs, typ), ref.Ext{Type: typ, Data: d})
		}
		switch kind {
		case 1: // a suite the client did not offer, same hash family or not
			v := rapid.SampledFrom([]uint16{0x1301, 0x1302, 0x1303, 0x1304, 0x1305, 0, 0xc02b}).Draw(t, "suite")
			off := csu
			if s.PSK != nil {
				off = nil
				for _, c := range csu {
					if ref.SuiteByID(c).Hash == ref.SuiteByID(uint16(s.PSK.Suite)).Hash {
						off = append(off, c)
					}
				}
			}
			if in16(v, off) {
				break
			}
			legal, what = false, fmt.Sprintf("suite %04x", v)
			if ref.SuiteByID(v) != nil {
				cfg.Force = v // and really use it
			}
			cfg.SHHook = func(sh *ref.SH) { sh.Suite = v }
		case 2: // a group the client did not offer
			if !o.DH {
				break
			}
			g := rapid.SampledFrom([]uint16{23, 24, 25, 29, 256}).Draw(t, "group")
			if in16(g, cgr) {
				break
			}
			k, _ := ref.GenKey(g, rng)
			legal, what = false, fmt.Sprintf("group %d", g)
			cfg.SHExts = func(xs []ref.Ext) []ref.Ext {
				return swap(xs, ref.XKeyShare, ref.Cat(ref.U16(int(g)), ref.V16(k.Pub)))
			}
		case 3: // a version the client did not offer
			v := rapid.SampledFrom([]int{0x0303, 0x0302, 0x0305, 0, 0x7f1c, 0xfefc}).Draw(t, "version")
			legal, what = false, fmt.Sprintf("version %04x", v)
			cfg.SHExts = func(xs []ref.Ext) []ref.Ext { return swap(xs, ref.XVersions, ref.U16(v)) }
		case 4:
			legal, what = false, "no version"
			cfg.SHExts = func(xs []ref.Ext) []ref.Ext { return ref.DropExt(xs, ref.XVersions) }
		case 5: // a protocol the client did not offer
			p := rapid.SampledFrom([]string{"h2", "http/1.1", "zz", "spdy/3"}).Draw(t, "proto")
			for _, q := range s.CALPN {
				if p == q {
					p = ""
				}
			}
			if p == "" {
				break
			}
			legal, what = false, "protocol "+p
			cfg.EEExts = func(xs []ref.Ext) []ref.Ext {
				return swap(xs, ref.XALPN, ref.V16(ref.V8([]byte(p))))
			}
		case 6:
			legal, what = false, "early data"
			cfg.EEExts = func(xs []ref.Ext) []ref.Ext { return swap(xs, ref.XEarlyData, nil) }
		case 7: // a PSK index the client did not offer
			i := rapid.SampledFrom([]int{0, 1, 2, 65535}).Draw(t, "index")
			if s.PSK != nil && i == 0 {
				break
			}
			legal, what = false, fmt.Sprintf("PSK index %d", i)
			cfg.SHExts = func(xs []ref.Ext) []ref.Ext { return swap(xs, ref.XPSK, ref.U16(i)) }
		case 8: // a scheme the client did not offer
			if o.PSK {
				break
			}
			for _, a := range h.AllSchemes {
				if ref.SchemeFits(uint16(a), cfg.Ident.Key.Public()) && !in16(uint16(a), csch) {
					cfg.Scheme = uint16(a)
					legal, what = false, fmt.Sprintf("scheme %04x", cfg.Scheme)
				}
			}
		case 9: // compression
			legal, what = false, "compression"
			v := rapid.IntRange(1, 255).Draw(t, "method")
			cfg.SHHook = func(sh *ref.SH) { sh.Compression = v }
		case 12:
			legal, what = false, "session ID"
			id := rng.Bytes(rapid.SampledFrom([]int{1, 31, 32}).Draw(t, "session ID length"))
			cfg.SHHook = func(sh *ref.SH) { sh.SessionID = id }
		case 10: // no key exchange at all
			if o.PSK {
				break
			}
			legal, what = false, "no key share"
			cfg.NeverDHE = true
		case 11: // PSK without key share though only DHE was offered, or with one though only plain was
			if !o.PSK || len(s.CModes) != 1 {
				break
			}
			if s.CModes[0] == mint.PSKModeDHEKE {
				cfg.NoDHE = true
				legal, what = false, "psk_ke"
			} else if s.CModes[0] == mint.PSKModeKE && slices.ContainsFunc(cgr, func(g uint16) bool { return in16(g, cfg.Groups) }) {
				cfg.NoDHE = false
				legal, what = false, "psk_dhe_ke"
			}
		}
		srv := ref.NewServer(cfg, rng, s.DTLS)
		n := h.NewNode(cc, true)
		l := &h.Link{N: n, P: srv}
		l.Run()
		desc := fmt.Sprintf("%s against %v", what, s)
		h.Label("client %d legal=%v dtls=%v", kind, legal, s.DTLS)
		h.Case(!legal || kind == 0, "%s", desc)
		if legal {
			if !n.Done || !srv.Done {
				t.Fatalf("did not complete: %v server done=%v err=%v\n%s", n, srv.Done, srv.Err, desc)
			}
			cs := n.C.ConnectionState()
			if uint16(cs.CipherSuite.Suite) != srv.S.ID || cs.NextProto != srv.ALPN || cs.UsingPSK != (srv.UsedPSK != nil) || cs.UsingEarlyData {
				t.Fatalf("client reports %v %q psk=%v early=%v, server chose %04x %q psk=%v\n%s", cs.CipherSuite.Suite, cs.NextProto, cs.UsingPSK, cs.UsingEarlyData, srv.S.ID, srv.ALPN, srv.UsedPSK != nil, desc)
			}
			return
		}
		if n.Done {
			t.Fatalf("the client completed with a server that chose %s", desc)
		}
		if srv.Done {
			t.Fatalf("the client sent a valid Finished to a server that chose %s", desc)
		}
	})
}

// TestHuge: certificate chains up to the greatest the protocol can carry.
func TestHuge(t *testing.T) {
	h.Check(t, 40, 1500, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, Tickets: true})
		o := s.Predict()
		cc, sc := s.Configs()
		sizes := []int{0, 65000, 66000, 131000, 140000, 600000}
		if !s.DTLS && rapid.IntRange(0, 7).Draw(t, "greatest") == 7 {
			sizes = append(sizes, 1<<24-70000, 1<<24-5000)
		}
		long := func(cs []*mint.Certificate, size int) {
			for _, c := range cs {
				for n := 0; ; {
					last := c.Chain[len(c.Chain)-1]
					if n += len(last.Raw) + 5; n > size {
						break
					}
					c.Chain = append(c.Chain, last)
				}
			}
		}
		srv := rapid.SampledFrom(sizes).Draw(t, "server chain")
		cli := rapid.SampledFrom(sizes).Draw(t, "client chain")
		if max(srv, cli) > 1<<23 {
			srv, cli = max(srv, cli), 0
			cc.InsecureSkipVerify = true // or the verifier takes long
		}
		long(sc.Certificates, srv)
		long(cc.Certificates, cli)
		w := h.NewWire(cc, sc)
		w.Run()
		ctx := func() string { return fmt.Sprintf("chains of %d and %d: %s\n%v", srv, cli, w.Status(), s) }
		h.Case(srv+cli > 0, "huge %d %d %v", srv, cli, s)
		if !o.OK {
			t.Fatalf("drew incompatible configurations (%s): %s", o.Why, ctx())
		}
		if !w.Both() {
			t.Fatalf("compatible configurations do not complete: %s", ctx())
		}
		if err := h.Agree(w); err != nil {
			t.Fatalf("%v: %s", err, ctx())
		}
		a, b := w.A.C.ConnectionState(), w.B.C.ConnectionState()
		if o.PSK {
			return
		}
		if c := sc.Certificates[o.Cert].Chain; !slices.EqualFunc(a.PeerCertificates, c, (*x509.Certificate).Equal) {
			t.Fatalf("the client reports %d certificates of %d: %s", len(a.PeerCertificates), len(c), ctx())
		}
		if o.CCert >= 0 {
			if c := cc.Certificates[o.CCert].Chain; !slices.EqualFunc(b.PeerCertificates, c, (*x509.Certificate).Equal) {
				t.Fatalf("the server reports %d certificates of %d: %s", len(b.PeerCertificates), len(c), ctx())
			}
		}
	})
}
