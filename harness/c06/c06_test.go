// Package c06: a server never attributes to a client a certificate it did not
// prove.
package c06

import (
	"bytes"
	"crypto/x509"
	"errors"
	"fmt"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

type kind struct {
	name string
	ok   bool // acceptable behaviour
	cert bool // the client proves a certificate
	set  func(c *ref.ClientCfg, ca *h.CertOpts, r *h.Rng)
}

var others = map[string]string{"rsa0": "rsa1", "p256-0": "p256-1", "p384-0": "p384-1", "p521-0": "p521-1"}

func mod(k int, b []byte, r *h.Rng) []byte {
	b = append([]byte{}, b...)
	switch k {
	case 0:
		b[len(b)-1-r.IntN(8)] ^= byte(1 + r.IntN(255))
	case 1:
		b = nil
	case 2:
		b = make([]byte, len(b))
	case 3:
		b = r.Bytes(len(b))
	case 4:
		b = append(b, 0)
	}
	return b
}

var kinds = []kind{
	{"honest", true, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {}},
	{"honest, no certificate", true, false, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) { c.Ident = nil }},
	{"honest, expired certificate", true, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) { o.After = 1000000000 }},
	{"honest, self-signed certificate", true, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) { o.CA, o.Inter = "self", false }},
	{"signature of another key", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		k := h.Key(others[o.Key])
		c.CVHook = func(th []byte) ([]byte, error) {
			sig, err := ref.Sign(c.IdentScheme, k, ref.SigInput(ref.CtxClient, th), r)
			return ref.Cat(ref.U16(int(c.IdentScheme)), ref.V16(sig)), err
		}
	}},
	{"signature in the server's context", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) { c.SigCtx = ref.CtxServer }},
	{"signature in a foreign context", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		c.SigCtx = []string{"TLS 1.3, client certificateVerify", "TLS 1.3, client CertificateVerif", "x"}[r.IntN(3)]
	}},
	{"signature over another transcript", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		k := r.IntN(4)
		key := h.Key(o.Key)
		c.CVHook = func(th []byte) ([]byte, error) {
			x := append([]byte{}, th...)
			switch k {
			case 0:
				x[r.IntN(len(x))] ^= 1
			case 1:
				x = make([]byte, len(x))
			case 2:
				x = r.Bytes(len(x))
			case 3:
				x = nil
			}
			sig, err := ref.Sign(c.IdentScheme, key, ref.SigInput(ref.CtxClient, x), r)
			return ref.Cat(ref.U16(int(c.IdentScheme)), ref.V16(sig)), err
		}
	}},
	{"damaged signature", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		k := r.IntN(4)
		key := h.Key(o.Key)
		c.CVHook = func(th []byte) ([]byte, error) {
			sig, err := ref.Sign(c.IdentScheme, key, ref.SigInput(ref.CtxClient, th), r)
			return ref.Cat(ref.U16(int(c.IdentScheme)), ref.V16(mod(k, sig, r))), err
		}
	}},
	{"wrong scheme label", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		key := h.Key(o.Key)
		c.CVHook = func(th []byte) ([]byte, error) {
			sig, err := ref.Sign(c.IdentScheme, key, ref.SigInput(ref.CtxClient, th), r)
			a := uint16(h.AllSchemes[r.IntN(len(h.AllSchemes))])
			for a == c.IdentScheme {
				a = uint16([]int{0, 0x0203, 0x0807, 0xffff, 0x0401, 0x0805}[r.IntN(6)])
			}
			return ref.Cat(ref.U16(int(a)), ref.V16(sig)), err
		}
	}},
	{"certificate without signature", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		c.Script = []byte{ref.HCert, ref.HFinished}
	}},
	{"signature before the certificate", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		c.Script = []byte{ref.HCertVerify, ref.HCert, ref.HFinished}
	}},
	{"no certificate message", false, false, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		c.Ident = nil
		c.Script = []byte{ref.HFinished}
	}},
	{"no certificate but a signature", false, false, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		key := h.Key(o.Key)
		c.Ident = nil
		c.Script = []byte{ref.HCert, ref.HCertVerify, ref.HFinished}
		c.CVHook = func(th []byte) ([]byte, error) {
			sig, err := ref.Sign(c.IdentScheme, key, ref.SigInput(ref.CtxClient, th), r)
			return ref.Cat(ref.U16(int(c.IdentScheme)), ref.V16(sig)), err
		}
	}},
	{"signature without certificate", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		c.Script = []byte{ref.HCertVerify, ref.HFinished}
	}},
	{"two certificates", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		c.Script = []byte{ref.HCert, ref.HCert, ref.HCertVerify, ref.HFinished}
	}},
	{"another certificate after the signature", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		c.Script = []byte{ref.HCert, ref.HCertVerify, ref.HCert, ref.HFinished}
	}},
	{"wrong Finished", false, true, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		k := r.IntN(5)
		c.FinHook = func(b []byte) []byte { return mod(k, b, r) }
	}},
	{"wrong Finished without certificate", false, false, func(c *ref.ClientCfg, o *h.CertOpts, r *h.Rng) {
		k := r.IntN(5)
		c.Ident = nil
		c.FinHook = func(b []byte) []byte { return mod(k, b, r) }
	}},
	{"another leaf in front", false, true, nil},
}

// TestClient: an independent client answers the request, honestly or not.
func TestClient(t *testing.T) {
	h.Check(t, 1200, 20000, func(t *rapid.T) {
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		if rapid.IntRange(0, 3).Draw(t, "honest") == 3 {
			k = kinds[rapid.IntRange(0, 1).Draw(t, "which")]
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		ask := rapid.IntRange(0, 9).Draw(t, "asked") > 0
		cb := rapid.IntRange(0, 3).Draw(t, "callback")
		psk := rapid.IntRange(0, 9).Draw(t, "psk") == 9
		o := h.CertOpts{Key: rapid.SampledFrom([]string{"rsa0", "p256-0", "p384-0", "p521-0"}).Draw(t, "key"), Names: []string{"client"}, CA: rapid.SampledFrom([]string{"A", "B"}).Draw(t, "ca"), Inter: rapid.Bool().Draw(t, "intermediate")}
		var fit []uint16
		for _, a := range h.AllSchemes {
			if ref.SchemeFits(uint16(a), h.Key(o.Key).Public()) {
				fit = append(fit, uint16(a))
			}
		}
		scheme := rapid.SampledFrom(fit).Draw(t, "scheme")
		schemes := []mint.SignatureScheme{mint.SignatureScheme(scheme), mint.ECDSA_P256_SHA256, mint.RSA_PSS_SHA256}
		unasked := ask && k.name == "honest" && rapid.IntRange(0, 5).Draw(t, "scheme not asked for") == 5
		if unasked {
			schemes = nil
			for _, a := range h.AllSchemes {
				if uint16(a) != scheme {
					schemes = append(schemes, a)
				}
			}
		}
		ccfg := ref.ClientCfg{ServerName: "srv", Suites: []uint16{rapid.SampledFrom([]uint16{0x1301, 0x1302}).Draw(t, "suite")}, Groups: []uint16{29},
			SigAlgs: []uint16{0x0403, 0x0804}, IdentScheme: scheme}
		ccfg.Ident = &ref.Ident{} // replaced below unless the kind removes it
		if k.set != nil {
			k.set(&ccfg, &o, r)
		}
		id := h.Cert(o)
		sent := id.Chain
		if ccfg.Ident != nil {
			ccfg.Ident = id
			if k.name == "another leaf in front" {
				x := h.Cert(h.CertOpts{Key: others[o.Key], Names: []string{"client"}}).Chain
				i2 := *id
				i2.Chain = append(append([][]byte{}, x...), id.Chain...)
				ccfg.Ident = &i2
				sent = i2.Chain
			}
		} else {
			sent = nil
		}
		cfg := &mint.Config{Certificates: []*mint.Certificate{h.Mint(h.Cert(h.CertOpts{Key: "p256-2", Names: []string{"srv"}}))}, RequireClientAuth: ask,
			NonBlocking: true, UseDTLS: dtls, SignatureSchemes: schemes, PSKs: &mint.PSKMapCache{}}
		if psk {
			p := &ref.PSK{ID: []byte{1, 2, 3}, Key: r.Bytes(32), Suite: ccfg.Suites[0]}
			ccfg.PSKs = []*ref.PSK{p}
			ccfg.Modes = []byte{1}
			cfg.PSKs.Put("010203", mint.PreSharedKey{CipherSuite: mint.CipherSuite(p.Suite), Identity: p.ID, Key: p.Key})
			if ccfg.Script == nil && rapid.Bool().Draw(t, "certificate all the same") && ccfg.Ident != nil {
				ccfg.Script = []byte{ref.HCert, ref.HCertVerify, ref.HFinished}
			}
		}
		var calls int
		var raws [][]byte
		if cb > 0 {
			cfg.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
				calls++
				raws = raw
				if cb == 3 {
					return errors.New("rejected")
				}
				return nil
			}
		}
		c := ref.NewClient(ccfg, r, dtls)
		c.Coalesce = !dtls && r.IntN(3) == 0
		// The reference client sends certificate messages when asked, or by script.
		l := &h.Link{N: h.NewNode(cfg, false), P: c}
		c.Start()
		l.Run()
		c.Flush()
		l.Run()
		asked := ask && !psk
		certSent := sent != nil && (asked && ccfg.Script == nil || bytes.IndexByte(ccfg.Script, ref.HCert) >= 0)
		want := k.ok && !unasked && (asked || ccfg.Script == nil)
		if k.name == "no certificate message" && !asked { // that is right when nothing was asked
			want = true
		}
		if !asked && ccfg.Script == nil && ccfg.FinHook == nil {
			want = true // nothing of the deviation is sent
		}
		if asked && certSent && cb == 3 {
			want = false
		}
		ctx := fmt.Sprintf("kind %q key %s scheme %04x asked=%v psk=%v callback=%d dtls=%v sent %d certificates: %v (peer %v)", k.name, o.Key, scheme, ask, psk, cb, dtls, len(sent), l.N, c.Err)
		if l.N.Done != want {
			t.Fatalf("completed=%v: %s", l.N.Done, ctx)
		}
		cs := l.N.C.ConnectionState()
		if !l.N.Done {
			if len(cs.PeerCertificates) != 0 {
				t.Fatalf("certificates reported without completion: %s", ctx)
			}
		} else {
			var exp [][]byte
			if certSent {
				exp = sent
			}
			if len(cs.PeerCertificates) != len(exp) {
				t.Fatalf("%d peer certificates reported, %d sent: %s", len(cs.PeerCertificates), len(exp), ctx)
			}
			for i := range exp {
				if !bytes.Equal(cs.PeerCertificates[i].Raw, exp[i]) {
					t.Fatalf("peer certificate %d differs: %s", i, ctx)
				}
			}
			if cb > 0 && certSent {
				if calls != 1 || len(raws) != len(exp) {
					t.Fatalf("callback called %d times, with %d certificates: %s", calls, len(raws), ctx)
				}
				for i := range exp {
					if !bytes.Equal(raws[i], exp[i]) {
						t.Fatalf("callback got another certificate %d: %s", i, ctx)
					}
				}
			}
			if cs.UsingPSK != psk {
				t.Fatalf("PSK use %v: %s", cs.UsingPSK, ctx)
			}
		}
		h.Label("%s asked=%v done=%v", k.name, asked, l.N.Done)
		h.Case(asked, "%s %v %04x %v %d %v", k.name, o, scheme, psk, cb, dtls)
	})
}

// TestReplay: the certificate messages of one connection are useless in
// another.
func TestReplay(t *testing.T) {
	h.Check(t, 150, 3000, func(t *rapid.T) {
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		id := h.Cert(h.CertOpts{Key: rapid.SampledFrom([]string{"rsa0", "p256-0", "p384-0"}).Draw(t, "key"), Names: []string{"client"}})
		scheme := uint16(0)
		for _, a := range h.AllSchemes {
			if scheme == 0 && ref.SchemeFits(uint16(a), id.Key.Public()) {
				scheme = uint16(a)
			}
		}
		scfg := func() *mint.Config {
			return &mint.Config{Certificates: []*mint.Certificate{h.Mint(h.Cert(h.CertOpts{Key: "p256-2", Names: []string{"srv"}}))}, RequireClientAuth: true, NonBlocking: true, SignatureSchemes: h.AllSchemes}
		}
		var cv []byte
		run := func(hook func([]byte) ([]byte, error)) *h.Link {
			c := ref.NewClient(ref.ClientCfg{ServerName: "srv", Suites: []uint16{0x1301}, Groups: []uint16{29}, SigAlgs: []uint16{0x0403}, Ident: id, IdentScheme: scheme, CVHook: hook}, r, false)
			l := &h.Link{N: h.NewNode(scfg(), false), P: c}
			c.Start()
			l.Run()
			return l
		}
		if l := run(func(th []byte) ([]byte, error) {
			sig, err := ref.Sign(scheme, id.Key, ref.SigInput(ref.CtxClient, th), r)
			cv = ref.Cat(ref.U16(int(scheme)), ref.V16(sig))
			return cv, err
		}); !l.N.Done || len(l.N.C.ConnectionState().PeerCertificates) == 0 {
			t.Fatalf("first connection: %v", l.N)
		}
		if l := run(func([]byte) ([]byte, error) { return cv, nil }); l.N.Done {
			t.Fatalf("a replayed signature was accepted")
		}
		h.Case(true, "%s %04x %x", id.Name, scheme, cv[:8])
	})
}
