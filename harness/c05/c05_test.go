// Package c05: a client only completes with an authenticated server.
package c05

import (
	"bytes"
	"crypto/x509"
	"errors"
	"fmt"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// name is the server's name, parent the domain it is in.
var name, parent = "srv.example", "example"

// byIP: the server is known by an address, and has only addresses in its
// certificate.
var byIP bool

func drawName(t *rapid.T) {
	name = rapid.SampledFrom([]string{"srv.example", "www.srv.example", "a.b.srv.example", "x.y", "192.0.2.77", "2001:db8::77"}).Draw(t, "server name")
	byIP = net.ParseIP(name) != nil
	parent = name[strings.Index(name, ".")+1:]
}

// What the judgement of a server depends on.
const (
	good     = iota // authentic and trusted
	unproven        // no proof of possession: never acceptable
	unlisted        // proven, but the chain is not acceptable: only without verification
)

type kind struct {
	name  string
	class int
	// set changes the server; o describes its certificate.
	set func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng)
}

func sign(scheme uint16, id *ref.Ident, in []byte, r *h.Rng) ([]byte, error) {
	sig, err := ref.Sign(scheme, id.Key, in, r)
	return ref.Cat(ref.U16(int(scheme)), ref.V16(sig)), err
}

// scheme picks a scheme the key of an identity fits.
func scheme(id *ref.Ident) uint16 {
	for _, a := range h.AllSchemes {
		if ref.SchemeFits(uint16(a), id.Key.Public()) {
			return uint16(a)
		}
	}
	panic("HARNESS-ERROR no scheme")
}

var otherKey = map[string]string{"p256": "p256-1", "p384": "p384-0", "p521": "p521-0", "rsa": "rsa1"}

func other(k string) string {
	for p, o := range otherKey {
		if len(k) >= len(p) && k[:len(p)] == p {
			if o == k {
				return map[string]string{"p256-1": "p256-0", "p384-0": "p384-1", "p521-0": "p521-1", "rsa1": "rsa0"}[k]
			}
			return o
		}
	}
	panic(k)
}

var kinds = []kind{
	{"honest", good, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {}},
	{"honest with extra certificates", good, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		x := h.Cert(h.CertOpts{Key: "p256-1", Names: []string{"other"}, CA: "B"}).Chain
		c.Chain = func(ch [][]byte) [][]byte { return append(append([][]byte{}, ch...), x...) }
	}},
	{"honest, wildcard name", good, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		if byIP {
			o.Names = []string{"unrelated.test", "192.0.2.3", name}
			return
		}
		o.Names = []string{"unrelated.test", rapid.SampledFrom([]string{"*." + parent, strings.ToUpper(name[:1]) + name[1:], strings.ToUpper(name)}).Draw(t, "wild")}
	}},
	{"signature of another key", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		id := h.Cert(h.CertOpts{Key: other(o.Key), Names: []string{name}})
		s := scheme(id)
		c.CVHook = func(th []byte) ([]byte, error) { return sign(s, id, ref.SigInput(ref.CtxServer, th), r) }
	}},
	{"signature in the client's context", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) { c.SigCtx = ref.CtxClient }},
	{"signature in a foreign context", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		c.SigCtx = rapid.SampledFrom([]string{"TLS 1.3, server certificateverify", "TLS 1.3, server CertificateVerif", "TLS 1.2, server CertificateVerify", " "}).Draw(t, "ctx")
	}},
	{"signature over another transcript", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		oo := *o
		k := r.IntN(4)
		c.CVHook = func(th []byte) ([]byte, error) {
			id := h.Cert(oo)
			x := append([]byte{}, th...)
			switch k {
			case 0:
				x[r.IntN(len(x))] ^= 1
			case 1:
				x = make([]byte, len(x))
			case 2:
				x = r.Bytes(len(x))
			case 3:
				x = nil
			}
			return sign(scheme(id), id, ref.SigInput(ref.CtxServer, x), r)
		}
	}},
	{"damaged signature", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		oo := *o
		k := r.IntN(4)
		c.CVHook = func(th []byte) ([]byte, error) {
			id := h.Cert(oo)
			s := scheme(id)
			sig, err := ref.Sign(s, id.Key, ref.SigInput(ref.CtxServer, th), r)
			switch k {
			case 0:
				sig[len(sig)-1-r.IntN(8)] ^= byte(1 + r.IntN(255))
			case 1:
				sig = nil
			case 2:
				sig = make([]byte, len(sig))
			case 3:
				sig = r.Bytes(len(sig))
			}
			return ref.Cat(ref.U16(int(s)), ref.V16(sig)), err
		}
	}},
	{"wrong scheme label", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		oo := *o
		c.CVHook = func(th []byte) ([]byte, error) {
			id := h.Cert(oo)
			b, err := sign(scheme(id), id, ref.SigInput(ref.CtxServer, th), r)
			s := uint16(h.AllSchemes[r.IntN(len(h.AllSchemes))])
			for s == scheme(id) {
				s = uint16(h.AllSchemes[r.IntN(len(h.AllSchemes))])
			}
			copy(b, ref.U16(int(s)))
			return b, err
		}
	}},
	{"unknown scheme", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		oo := *o
		c.CVHook = func(th []byte) ([]byte, error) {
			id := h.Cert(oo)
			b, err := sign(scheme(id), id, ref.SigInput(ref.CtxServer, th), r)
			copy(b, ref.U16([]int{0, 1, 0x0101, 0x0203, 0x0807, 0xffff, 0x0420}[r.IntN(7)]))
			return b, err
		}
	}},
	{"no CertificateVerify", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		c.Script = []byte{ref.HServerHello, ref.HEE, ref.HCert, ref.HFinished}
	}},
	{"no Certificate", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		c.Script = []byte{ref.HServerHello, ref.HEE, ref.HCertVerify, ref.HFinished}
	}},
	{"neither Certificate nor CertificateVerify", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		c.Script = []byte{ref.HServerHello, ref.HEE, ref.HFinished}
	}},
	{"certificate request instead of a certificate", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		c.Script = []byte{ref.HServerHello, ref.HEE, ref.HCertReq, ref.HFinished}
	}},
	{"empty chain", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		c.Chain = func([][]byte) [][]byte { return nil }
	}},
	{"another leaf in front", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		x := h.Cert(h.CertOpts{Key: other(o.Key), Names: []string{name}}).Chain
		c.Chain = func(ch [][]byte) [][]byte { return append(append([][]byte{}, x...), ch...) }
	}},
	{"pre-shared key that was not offered", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		i := r.IntN(3)
		c.SHExts = func(xs []ref.Ext) []ref.Ext { return append(xs, ref.Ext{Type: ref.XPSK, Data: ref.U16(i)}) }
		if r.IntN(2) == 0 {
			c.Script = []byte{ref.HServerHello, ref.HEE, ref.HFinished}
		}
	}},
	{"wrong Finished", unproven, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		k := r.IntN(5)
		c.FinHook = func(b []byte) []byte {
			b = append([]byte{}, b...)
			switch k {
			case 0:
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			case 1:
				b = make([]byte, len(b))
			case 2:
				b = b[:r.IntN(len(b))]
			case 3:
				b = append(b, 0)
			case 4:
				b[len(b)-1] ^= 1
			}
			return b
		}
	}},
	{"untrusted root", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) { o.CA = "B" }},
	{"self-signed", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) { o.CA = "self"; o.Inter = false }},
	{"other name", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		if byIP {
			o.Names = rapid.SampledFrom([][]string{{"192.0.2.78"}, {"2001:db8::78"}, {"192.0.2.76", "2001:db8::7"}, {"srv.example"}, {"::"}, {"::1", "127.0.0.1"}, nil}).Draw(t, "wrong address")
			o.CN = name
			return
		}
		o.Names = []string{rapid.SampledFrom([]string{
			"w." + parent, parent, "*." + name, "www." + name, "*." + parent + ".test", name + ".test", "a" + name, name + "x", strings.Replace(name, ".", "-", 1), "*" + name[1:] + "x", "*.com", "example.com", ""}).Draw(t, "wrong name")}
		if o.Names[0] == "" {
			o.Names = nil
			o.CN = name // a common name is no proof of a name
		}
	}},
	{"expired", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		o.After = now.Unix() - 1 - int64(r.IntN(3))*86400
	}},
	{"not yet valid", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		o.Before = now.Unix() + 1 + int64(r.IntN(3))*86400
	}},
	{"valid just now", good, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		o.Before, o.After = now.Unix()-1, now.Unix()+1
	}},
	{"missing intermediate", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		o.Inter = true
		k := r.IntN(1 << 16)
		c.Chain = func(ch [][]byte) [][]byte {
			ch = append([][]byte{}, ch...)
			k := 1 + k%(len(ch)-1)
			return append(ch[:k], ch[k+1:]...)
		}
	}},
	{"intermediates in another order", good, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		o.Inter, o.Deep = true, true
		c.Chain = func(ch [][]byte) [][]byte { return [][]byte{ch[0], ch[2], ch[1]} }
	}},
	{"intermediate that is no CA", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) { o.Inter, o.NotCA = true, true }},
	{"certificate for clients", unlisted, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		o.EKU = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	}},
	{"certificate for servers", good, func(t *rapid.T, o *h.CertOpts, c *ref.ServerCfg, r *h.Rng) {
		o.EKU = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	}},
}

// now is the client's configured time, far from the real one.
var now = time.Date(2031, 5, 6, 7, 8, 9, 0, time.UTC)

// TestCertificate: servers with certificates, honest or not.
func TestCertificate(t *testing.T) {
	h.Check(t, 1200, 20000, func(t *rapid.T) {
		drawName(t)
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		if rapid.IntRange(0, 3).Draw(t, "honest") == 3 {
			k = kinds[0]
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		insecure := rapid.IntRange(0, 3).Draw(t, "insecure") == 3
		cb := rapid.IntRange(0, 3).Draw(t, "callback") // 0: none, 1-2: accepts, 3: rejects
		o := h.CertOpts{Key: rapid.SampledFrom([]string{"rsa0", "p256-0", "p384-0", "p521-0"}).Draw(t, "key"), Names: []string{"alt.test", name}, CA: "A", Inter: rapid.Bool().Draw(t, "intermediate"), Deep: rapid.Bool().Draw(t, "two")}
		scfg := ref.ServerCfg{Suites: []uint16{rapid.SampledFrom([]uint16{0x1301, 0x1302}).Draw(t, "suite")}, Groups: []uint16{29, 23}}
		if rapid.IntRange(0, 3).Draw(t, "auth") == 3 {
			scfg.RequestCert = []uint16{0x0403, 0x0804}
		}
		if rapid.IntRange(0, 4).Draw(t, "retry") == 4 {
			scfg.Cookie = r.Bytes(20)
		}
		k.set(t, &o, &scfg, r)
		id := h.Cert(o)
		scfg.Ident = id
		chain := id.Chain
		if scfg.Chain != nil {
			chain = scfg.Chain(chain)
		}
		cfg := &mint.Config{ServerName: name, RootCAs: h.Roots("A"), InsecureSkipVerify: insecure, NonBlocking: true, UseDTLS: dtls,
			SignatureSchemes: h.AllSchemes, Time: func() time.Time { return now }}
		var calls int
		var raws [][]byte
		var vchains [][]*x509.Certificate
		if cb > 0 {
			cfg.VerifyPeerCertificate = func(raw [][]byte, chains [][]*x509.Certificate) error {
				calls++
				raws, vchains = raw, chains
				if cb == 3 {
					return errors.New("rejected")
				}
				return nil
			}
		}
		srv := ref.NewServer(scfg, r, dtls)
		srv.Coalesce = !dtls && r.IntN(3) == 0
		l := &h.Link{N: h.NewNode(cfg, true), P: srv}
		l.Run()
		want := k.class == good || (k.class == unlisted && insecure)
		ctx := fmt.Sprintf("kind %q name %s cert %+v insecure=%v callback=%d dtls=%v: %v (peer %v)", k.name, name, o, insecure, cb, dtls, l.N, srv.Err)
		if l.N.Done && !(want && cb != 3) {
			t.Fatalf("client completed: %s", ctx)
		}
		if !l.N.Done && want && cb != 3 {
			t.Fatalf("client did not complete with an authentic server: %s", ctx)
		}
		if cb > 0 && want {
			if calls != 1 || len(raws) != len(chain) {
				t.Fatalf("callback called %d times with %d certificates: %s", calls, len(raws), ctx)
			}
			for i := range raws {
				if !bytes.Equal(raws[i], chain[i]) {
					t.Fatalf("callback got a wrong certificate %d: %s", i, ctx)
				}
			}
			if (len(vchains) > 0) != !insecure {
				t.Fatalf("callback got %d verified chains: %s", len(vchains), ctx)
			}
		}
		if cb > 0 && !want && k.class == unlisted && calls != 0 {
			t.Fatalf("callback called although verification failed: %s", ctx)
		}
		cs := l.N.C.ConnectionState()
		if l.N.Done {
			if cs.UsingPSK {
				t.Fatalf("PSK use reported: %s", ctx)
			}
			if len(cs.PeerCertificates) != len(chain) {
				t.Fatalf("%d peer certificates reported of %d: %s", len(cs.PeerCertificates), len(chain), ctx)
			}
			for i, c := range cs.PeerCertificates {
				if !bytes.Equal(c.Raw, chain[i]) {
					t.Fatalf("peer certificate %d differs: %s", i, ctx)
				}
			}
			if (len(cs.VerifiedChains) > 0) != !insecure {
				t.Fatalf("%d verified chains: %s", len(cs.VerifiedChains), ctx)
			}
			for _, ch := range cs.VerifiedChains {
				if len(ch) < 2 || !bytes.Equal(ch[0].Raw, chain[0]) {
					t.Fatalf("verified chain does not start with the server's certificate: %s", ctx)
				}
				for i := 0; i+1 < len(ch); i++ {
					if err := ch[i].CheckSignatureFrom(ch[i+1]); err != nil {
						t.Fatalf("verified chain is not a chain: %v: %s", err, ctx)
					}
				}
				pool := h.Roots("A")
				if _, err := ch[len(ch)-1].Verify(x509.VerifyOptions{Roots: pool, CurrentTime: now, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageAny}}); err != nil {
					t.Fatalf("verified chain does not end in a root: %s", ctx)
				}
			}
		} else if l.N.Failed && len(cs.PeerCertificates) != 0 {
			t.Fatalf("peer certificates reported after failure: %s", ctx)
		}
		h.Label("cert %s insecure=%v done=%v", k.name, insecure, l.N.Done)
		h.Case(true, "%s %s %v %v %d %v %v", k.name, name, o, insecure, cb, dtls, scfg.Suites)
	})
}

// TestPSK: servers that claim a pre-shared key.
func TestPSK(t *testing.T) {
	h.Check(t, 500, 8000, func(t *rapid.T) {
		drawName(t)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		suite := rapid.SampledFrom(h.AllSuites).Draw(t, "suite")
		p := mint.PreSharedKey{CipherSuite: suite, IsResumption: rapid.Bool().Draw(t, "resumption"), Identity: r.Bytes(1 + r.IntN(20)), Key: r.Bytes(1 + r.IntN(48))}
		if p.IsResumption {
			p.ReceivedAt = time.Now()
			p.ExpiresAt = time.Now().Add(time.Hour)
		}
		what := rapid.SampledFrom([]string{"knows", "knows", "guesses", "zero key", "empty key", "prefix", "index", "declines untrusted", "declines honest", "other name", "knows, wrong type"}).Draw(t, "what")
		known := &ref.PSK{ID: p.Identity, Key: p.Key, Suite: uint16(suite), Resumption: p.IsResumption}
		scfg := ref.ServerCfg{Suites: []uint16{uint16(suite)}, Groups: []uint16{29}, NoChecks: true, NoDHE: rapid.Bool().Draw(t, "no dhe"),
			Ident: h.Cert(h.CertOpts{Key: "p256-0", Names: []string{name}, CA: "B"})}
		guess := *known
		want, wantPSK := false, false
		index := 0
		psk := func() *ref.PSK { return known }
		switch what {
		case "knows":
			want, wantPSK = true, true
		case "guesses":
			guess.Key = r.Bytes(1 + r.IntN(48))
			psk = func() *ref.PSK { return &guess }
		case "zero key":
			guess.Key = make([]byte, ref.SuiteByID(uint16(suite)).Hash.Size())
			psk = func() *ref.PSK { return &guess }
		case "empty key":
			guess.Key = []byte{}
			psk = func() *ref.PSK { return &guess }
		case "prefix":
			guess.Key = append(append([]byte{}, p.Key...), 1)
			psk = func() *ref.PSK { return &guess }
		case "index":
			index = 1 + r.IntN(3)
		case "declines untrusted":
			psk = nil
		case "declines honest":
			psk = nil
			scfg.Ident = h.Cert(h.CertOpts{Key: "p256-0", Names: []string{name}, CA: "A"})
			want = true
		case "other name", "knows, wrong type":
		}
		cfg := &mint.Config{ServerName: name, RootCAs: h.Roots("A"), NonBlocking: true, UseDTLS: dtls, PSKs: &mint.PSKMapCache{}, Time: func() time.Time { return now }}
		switch what {
		case "other name":
			cfg.PSKs.Put("other.example", p) // not offered to this server
		default:
			cfg.PSKs.Put(name, p)
		}
		srv := ref.NewServer(scfg, r, dtls)
		srv.Hold = true
		l := &h.Link{N: h.NewNode(cfg, true), P: srv}
		l.Run()
		if srv.Err != nil || srv.CH == nil {
			t.Fatalf("no hello: %v", srv.Err)
		}
		offered := len(srv.CH.IDs) > 0
		if offered != (what != "other name") {
			t.Fatalf("%s: %d identities offered", what, len(srv.CH.IDs))
		}
		if psk != nil {
			srv.UsedPSK = psk()
			srv.PSKKey = srv.UsedPSK.Key
			srv.PSKIndex = index
		}
		if what == "knows, wrong type" {
			// Proves knowledge all the same: the key schedule does not depend on the type.
			want, wantPSK = true, true
		}
		if err := srv.Flight(); err != nil {
			t.Fatalf("HARNESS-ERROR flight: %v", err)
		}
		l.Run()
		ctx := fmt.Sprintf("%s dtls=%v nodhe=%v: %v (peer %v)", what, dtls, scfg.NoDHE, l.N, srv.Err)
		if l.N.Done != want {
			t.Fatalf("completed=%v: %s", l.N.Done, ctx)
		}
		if cs := l.N.C.ConnectionState(); want && (cs.UsingPSK != wantPSK || (len(cs.PeerCertificates) > 0) == wantPSK) {
			t.Fatalf("PSK use %v, %d certificates: %s", cs.UsingPSK, len(cs.PeerCertificates), ctx)
		}
		h.Label("psk %s done=%v", what, l.N.Done)
		h.Case(true, "%s %v %v %x %x", what, dtls, scfg.NoDHE, p.Identity, p.Key)
	})
}
