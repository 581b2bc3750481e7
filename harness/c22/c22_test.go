// Package c22: handshake signatures verify exactly for the key, scheme and transcript.
package c22

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"fmt"
	"math/big"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

var keys = []string{"rsa0", "rsa1", "p256-0", "p256-1", "p384-0", "p384-1", "p521-0", "p521-1", "rsa1024", "rsa1025", "rsa1032"}

func ident(key string, names ...string) *ref.Ident {
	return h.Cert(h.CertOpts{Key: key, Names: names, CA: "A"})
}

func fits(key string) (yes, no []uint16) {
	for _, a := range append(h.U16Schemes(h.AllSchemes), 0x0807, 0x0808, 0x0809, 0x0201, 0x0203, 0x0000, 0x0a0a) {
		if ref.SchemeFits(a, h.Key(key).Public()) {
			yes = append(yes, a)
		} else {
			no = append(no, a)
		}
	}
	return
}

func schemes(as []uint16) (o []mint.SignatureScheme) {
	for _, a := range as {
		o = append(o, mint.SignatureScheme(a))
	}
	return
}

// TestSign: what the library signs verifies elsewhere, and it selects a
// certificate and scheme exactly when a pair that fits exists.
func TestSign(t *testing.T) {
	h.Check(t, 700, 12000, func(t *rapid.T) {
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		all := append(h.U16Schemes(h.AllSchemes), 0x0807, 0x0808, 0x0809, 0x0201, 0x0203, 0x0a0a)
		offer := h.Subset(t, "schemes", all, 1)
		if rapid.Bool().Draw(t, "few") {
			offer = offer[:1]
		}
		name := rapid.SampledFrom([]string{"a.example", "b.example", "A.example", "sub.a.example"}).Draw(t, "name")
		type cs struct {
			key   string
			names []string
		}
		var certs []cs
		var mc []*mint.Certificate
		pair := false
		isClient := rapid.IntRange(0, 2).Draw(t, "signer") == 2
		for i := rapid.IntRange(1, 4).Draw(t, "certificates"); i > 0; i-- {
			c := cs{key: rapid.SampledFrom(append([]string{"p224", "ed25519"}, keys...)).Draw(t, "key")}
			c.names = h.Subset(t, "names", []string{"a.example", "b.example", "c.example"}, 1)
			certs = append(certs, c)
			mc = append(mc, h.Mint(ident(c.key, c.names...)))
			named := isClient
			for _, n := range c.names {
				named = named || n == name
			}
			for _, a := range offer {
				pair = pair || (named && ref.SchemeFits(a, h.Key(c.key).Public()))
			}
		}
		desc := fmt.Sprintf("client=%v dtls=%v name %s schemes %04x certificates %v", isClient, dtls, name, offer, certs)
		h.Label("sign client=%v pair=%v", isClient, pair)
		h.Case(true, "%s", desc)
		if isClient {
			srv := ref.NewServer(ref.ServerCfg{Suites: []uint16{0x1301}, Groups: []uint16{29}, Ident: ident("p256-0", "s.example"), RequestCert: offer}, r, dtls)
			n := h.NewNode(&mint.Config{ServerName: "s.example", Groups: []mint.NamedGroup{mint.X25519}, RootCAs: h.Roots("A"), Certificates: mc, NonBlocking: true, UseDTLS: dtls}, true)
			l := &h.Link{N: n, P: srv}
			l.Run()
			if !n.Done || !srv.Done {
				t.Fatalf("%v, server %v: %s", n, srv.Err, desc)
			}
			if (len(srv.ClientDER) > 0) != pair {
				t.Fatalf("certificate sent: %v, a pair exists: %v: %s", len(srv.ClientDER) > 0, pair, desc)
			}
			return
		}
		c := ref.NewClient(ref.ClientCfg{ServerName: name, Suites: []uint16{0x1301}, Groups: []uint16{29}, SigAlgs: offer}, r, dtls)
		c.Start()
		n := h.NewNode(&mint.Config{Groups: []mint.NamedGroup{mint.X25519}, Certificates: mc, NonBlocking: true, UseDTLS: dtls}, false)
		l := &h.Link{N: n, P: c}
		l.Run()
		if c.Err != nil {
			t.Fatalf("client: %v: %s", c.Err, desc)
		}
		if (n.Done && c.Done) != pair || n.Done != c.Done {
			t.Fatalf("a pair exists: %v; %v: %s", pair, n, desc)
		}
	})
}

// TestVerify: the library accepts exactly the signatures that are right.
func TestVerify(t *testing.T) {
	h.Check(t, 1200, 20000, func(t *rapid.T) {
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		key := rapid.SampledFrom(keys).Draw(t, "key")
		yes, _ := fits(key)
		scheme := rapid.SampledFrom(yes).Draw(t, "scheme")
		signer := h.Key(key)
		_, isRSA := signer.(*rsa.PrivateKey)
		toServer := rapid.Bool().Draw(t, "to server")
		ctx, other := ref.CtxServer, ref.CtxClient
		if toServer {
			ctx, other = other, ctx
		}
		what, legal := "honest", true
		kind := rapid.IntRange(0, 15).Draw(t, "kind")
		cv := func(th []byte) ([]byte, error) {
			label := scheme
			input := ref.SigInput(ctx, th)
			key2, sch := crypto.Signer(signer), scheme
			var edit func([]byte) []byte
			bad := func(s string) { what, legal = s, false }
			switch kind {
			case 1, 2:
				bad("one bit flipped")
				p := r.IntN(1 << 20)
				edit = func(s []byte) []byte { s[(p>>3)%len(s)] ^= 1 << (p & 7); return s }
			case 3:
				bad("length")
				switch rapid.IntRange(0, 5).Draw(t, "length kind") {
				case 0:
					edit = func(s []byte) []byte { return s[:len(s)-1] }
				case 1:
					edit = func(s []byte) []byte { return append(s, 0) }
				case 2:
					edit = func(s []byte) []byte { return append([]byte{0}, s...) }
				case 3:
					edit = func(s []byte) []byte { return nil }
				case 4:
					edit = func(s []byte) []byte { return append(s, s...) }
				case 5:
					edit = func(s []byte) []byte { return s[1:] }
				}
			case 4:
				bad("another key")
				for _, k := range keys {
					if k != key && ref.SchemeFits(scheme, h.Key(k).Public()) {
						key2 = h.Key(k)
					}
				}
				if key2 == crypto.Signer(signer) {
					return nil, fmt.Errorf("no other key")
				}
			case 5, 6: // another scheme than the one named
				var alt []uint16
				for _, a := range yes {
					if a != scheme {
						alt = append(alt, a)
					}
				}
				if len(alt) > 0 {
					bad("made with another scheme")
					sch = rapid.SampledFrom(alt).Draw(t, "made with")
				}
			case 7: // the scheme named does not fit the key
				_, no := fits(key)
				bad("named scheme does not fit the key")
				label = rapid.SampledFrom(no).Draw(t, "named")
				if hh := ref.SchemeHash(label); hh != 0 && rapid.Bool().Draw(t, "with its hash") {
					// as that scheme would be, but for the key
					d := hh.New()
					d.Write(input)
					var opts crypto.SignerOpts = hh
					if label&0xff00 == 0x0800 {
						opts = &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto, Hash: hh}
					}
					if sig, err := signer.Sign(rand.Reader, d.Sum(nil), opts); err == nil {
						return ref.Cat(ref.U16(int(label)), ref.V16(sig)), nil
					}
				}
			case 8:
				bad("another transcript")
				x := append([]byte{}, th...)
				switch rapid.IntRange(0, 3).Draw(t, "transcript") {
				case 0:
					x[r.IntN(len(x))] ^= 1
				case 1:
					x = x[:len(x)-1]
				case 2:
					x = append(x, 0)
				case 3:
					x = nil
				}
				input = ref.SigInput(ctx, x)
			case 9:
				bad("another context")
				switch rapid.IntRange(0, 4).Draw(t, "context") {
				case 0:
					input = ref.SigInput(other, th)
				case 1:
					input = input[1:]
				case 2:
					input = ref.Cat([]byte(ctx), []byte{0}, th)
				case 3:
					input = ref.Cat(input[:64], []byte(ctx), th)
				case 4:
					input = th
				}
			case 10: // salt of another length
				if !isRSA || sch&0xff00 != 0x0800 {
					break
				}
				bad("salt length")
				hh := ref.SchemeHash(sch)
				d := hh.New()
				d.Write(input)
				salt := rapid.SampledFrom([]int{1, 8, hh.Size() - 1, 20}).Draw(t, "salt")
				sig, err := rsa.SignPSS(rand.Reader, signer.(*rsa.PrivateKey), hh, d.Sum(nil), &rsa.PSSOptions{SaltLength: salt})
				return ref.Cat(ref.U16(int(label)), ref.V16(sig)), err
			case 11: // ECDSA values out of range
				if isRSA {
					break
				}
				bad("r or s out of range")
				edit = func(s []byte) []byte {
					var v struct{ R, S *big.Int }
					if rest, err := asn1.Unmarshal(s, &v); err != nil || len(rest) > 0 {
						panic("HARNESS-ERROR signature")
					}
					n := signer.Public().(*ecdsa.PublicKey).Params().N
					switch rapid.IntRange(0, 5).Draw(t, "value") {
					case 0:
						v.R = new(big.Int)
					case 1:
						v.S = new(big.Int)
					case 2:
						v.R = new(big.Int).Add(v.R, n)
					case 3:
						v.S = new(big.Int).Add(v.S, n)
					case 4:
						v.R, v.S = new(big.Int), new(big.Int)
					case 5:
						v.S = new(big.Int).Neg(v.S)
					}
					b, err := asn1.Marshal(v)
					if err != nil {
						panic(err)
					}
					return b
				}
			case 15: // broken hash, though the configuration names it
				if !isRSA {
					break
				}
				bad("made with SHA-1")
				label, sch = ref.PKCS1SHA1, ref.PKCS1SHA1
			case 12:
				bad("not a signature")
				n := rapid.SampledFrom([]int{0, 1, 8, 64, 70, 128, 256, 257}).Draw(t, "random length")
				return ref.Cat(ref.U16(int(label)), ref.V16(r.Bytes(n))), nil
			case 13: // message shape
				bad("trailing byte in CertificateVerify")
				sig, err := ref.Sign(sch, key2, input, rand.Reader)
				return append(ref.Cat(ref.U16(int(label)), ref.V16(sig)), 0), err
			}
			sig, err := ref.Sign(sch, key2, input, rand.Reader)
			if err != nil {
				return nil, err
			}
			if edit != nil {
				sig = edit(sig)
			}
			return ref.Cat(ref.U16(int(label)), ref.V16(sig)), nil
		}
		all := schemes(append(h.U16Schemes(h.AllSchemes), 0x0807, 0x0809, ref.PKCS1SHA1))
		if toServer {
			sc := &mint.Config{Groups: []mint.NamedGroup{mint.X25519}, Certificates: []*mint.Certificate{h.Mint(ident("p256-2", "s.example"))}, RequireClientAuth: true, SignatureSchemes: all, NonBlocking: true, UseDTLS: dtls}
			c := ref.NewClient(ref.ClientCfg{ServerName: "s.example", Suites: []uint16{0x1301}, Groups: []uint16{29}, SigAlgs: []uint16{ref.ECP256}, Ident: ident(key, "client"), CVHook: cv}, r, dtls)
			c.Start()
			n := h.NewNode(sc, false)
			l := &h.Link{N: n, P: c}
			l.Run()
			h.Label("to server %s", what)
			h.Case(true, "to server %s %s %04x %d", what, key, scheme, r.IntN(1<<30))
			if n.Done != legal {
				t.Fatalf("server completed=%v with a client signature by %s under %04x, %s: %v, client %v", n.Done, key, scheme, what, n, c.Err)
			}
			return
		}
		cc := &mint.Config{ServerName: "s.example", Groups: []mint.NamedGroup{mint.X25519}, RootCAs: h.Roots("A"), SignatureSchemes: all, NonBlocking: true, UseDTLS: dtls, InsecureSkipVerify: rapid.IntRange(0, 3).Draw(t, "insecure") == 3}
		srv := ref.NewServer(ref.ServerCfg{Suites: []uint16{0x1301}, Groups: []uint16{29}, Ident: ident(key, "s.example"), CVHook: cv}, r, dtls)
		n := h.NewNode(cc, true)
		l := &h.Link{N: n, P: srv}
		l.Run()
		h.Label("to client %s", what)
		h.Case(true, "to client %s %s %04x %d", what, key, scheme, r.IntN(1<<30))
		if n.Done != legal || srv.Done != legal {
			t.Fatalf("client completed=%v with a server signature by %s under %04x, %s: %v, server %v", n.Done, key, scheme, what, n, srv.Err)
		}
	})
}

// TestForeign: keys of kinds that no scheme of the library is for prove
// nothing, whatever scheme is named.
func TestForeign(t *testing.T) {
	h.Check(t, 250, 4000, func(t *rapid.T) {
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		key := rapid.SampledFrom([]string{"p224", "ed25519"}).Draw(t, "key")
		yes, no := fits(key)
		label := rapid.SampledFrom(append(append(no, yes...), 0x0301, 0x0303, 0x0808, 0xfefe)).Draw(t, "named")
		toServer := rapid.Bool().Draw(t, "to server")
		any := rapid.Bool().Draw(t, "all schemes")
		ctx := ref.CtxServer
		if toServer {
			ctx = ref.CtxClient
		}
		hash := rapid.SampledFrom([]crypto.Hash{crypto.SHA1, crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512}).Draw(t, "hash")
		cv := func(th []byte) ([]byte, error) {
			in := ref.SigInput(ctx, th)
			if key == "ed25519" {
				hash = 0
			} else {
				d := hash.New()
				d.Write(in)
				in = d.Sum(nil)
			}
			sig, err := h.Key(key).Sign(rand.Reader, in, hash)
			return ref.Cat(ref.U16(int(label)), ref.V16(sig)), err
		}
		var as []mint.SignatureScheme
		if any {
			as = schemes(append(append([]uint16{}, no...), append(yes, label)...))
		}
		h.Label("foreign %s to server=%v %04x", key, toServer, label)
		h.Case(true, "foreign %s %v %04x %v %v %v %d", key, toServer, label, hash, any, dtls, r.IntN(1<<30))
		var n *h.Node
		var p h.Peer
		if toServer {
			sc := &mint.Config{Groups: []mint.NamedGroup{mint.X25519}, Certificates: []*mint.Certificate{h.Mint(ident("p256-2", "s.example"))}, RequireClientAuth: true, SignatureSchemes: as, NonBlocking: true, UseDTLS: dtls}
			c := ref.NewClient(ref.ClientCfg{ServerName: "s.example", Suites: []uint16{0x1301}, Groups: []uint16{29}, SigAlgs: []uint16{ref.ECP256}, Ident: ident(key, "client"), CVHook: cv}, r, dtls)
			c.Start()
			n, p = h.NewNode(sc, false), c
		} else {
			cc := &mint.Config{ServerName: "s.example", Groups: []mint.NamedGroup{mint.X25519}, RootCAs: h.Roots("A"), SignatureSchemes: as, NonBlocking: true, UseDTLS: dtls, InsecureSkipVerify: rapid.Bool().Draw(t, "insecure")}
			n, p = h.NewNode(cc, true), ref.NewServer(ref.ServerCfg{Suites: []uint16{0x1301}, Groups: []uint16{29}, Ident: ident(key, "s.example"), CVHook: cv}, r, dtls)
		}
		(&h.Link{N: n, P: p}).Run()
		if n.Done || !n.Failed {
			t.Fatalf("completed=%v failed=%v with a signature by a key of kind %s under %04x: %v", n.Done, n.Failed, key, label, n)
		}
	})
}

// TestSelfSigned: the keys and certificates the library makes itself are usable.
func TestSelfSigned(t *testing.T) {
	h.Check(t, 25, 200, func(t *rapid.T) {
		as := []mint.SignatureScheme{mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.ECDSA_P521_SHA512}
		if rapid.IntRange(0, 3).Draw(t, "rsa") == 3 {
			as = h.AllSchemes
		}
		a := rapid.SampledFrom(as).Draw(t, "scheme")
		name := rapid.SampledFrom([]string{"a.example", "localhost", "x"}).Draw(t, "name")
		k, c, err := mint.MakeNewSelfSignedCert(name, a)
		if err != nil && a&0xff00 == 0x0800 {
			t.Skip("the library makes no PSS certificates")
		}
		if err != nil {
			t.Fatalf("%v: %v", a, err)
		}
		if err := c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature); err != nil {
			t.Fatalf("%v: self-signature: %v", a, err)
		}
		if err := c.VerifyHostname(name); err != nil {
			t.Fatalf("%v: %v", a, err)
		}
		if !ref.SchemeFits(uint16(a), k.Public()) || !ref.SchemeFits(uint16(a), c.PublicKey) {
			t.Fatalf("%v: the key does not fit the scheme", a)
		}
		h.Label("self signed %v", a)
		h.Case(true, "self signed %v %s %x", a, name, c.SerialNumber)
		r := h.NewRng(1)
		cl := ref.NewClient(ref.ClientCfg{ServerName: name, Suites: []uint16{0x1301}, Groups: []uint16{29}, SigAlgs: []uint16{uint16(a)}}, r, false)
		cl.Start()
		n := h.NewNode(&mint.Config{Groups: []mint.NamedGroup{mint.X25519}, Certificates: []*mint.Certificate{{Chain: certs(c), PrivateKey: k}}, NonBlocking: true}, false)
		l := &h.Link{N: n, P: cl}
		l.Run()
		if !n.Done || !cl.Done {
			t.Fatalf("%v: %v, client %v", a, n, cl.Err)
		}
	})
}

func certs(c ...*x509.Certificate) []*x509.Certificate { return c }
