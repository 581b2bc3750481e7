package h

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"fmt"
	"math/big"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/bifurcation/mint"

	"verif/ref"
)

// KeyNames lists leaf key types.
var KeyNames = []string{"rsa0", "p256-0", "p384-0", "p521-0"}

var keyCache sync.Map

// Key returns a fixed key by name ("rsa0".."rsa2", "p256-0", ...).
func Key(name string) crypto.Signer {
	if k, ok := keyCache.Load(name); ok {
		return k.(crypto.Signer)
	}
	switch name {
	case "ed25519", "p224": // kinds that no scheme of the library is for
		var k crypto.Signer = ed25519.NewKeyFromSeed(bytes.Repeat([]byte{0x5d}, ed25519.SeedSize))
		if name == "p224" {
			c := elliptic.P224()
			e := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: c}, D: new(big.Int).SetBytes(bytes.Repeat([]byte{0x42}, 27))}
			e.X, e.Y = c.ScalarBaseMult(e.D.Bytes())
			k = e
		}
		keyCache.Store(name, k)
		return k
	}
	b, err := base64.StdEncoding.DecodeString(keyData[name])
	if err != nil {
		panic(err)
	}
	k, err := x509.ParsePKCS8PrivateKey(b)
	if err != nil {
		panic(name + ": " + err.Error())
	}
	keyCache.Store(name, k)
	return k.(crypto.Signer)
}

// CertOpts describes a leaf.
type CertOpts struct {
	Key    string   // leaf key name
	Names  []string // DNS names
	CA     string   // "A" (trusted by RootsA), "B" (another), "self"
	Inter  bool     // through an intermediate
	Deep   bool     // and that through another one
	Before int64    // unix seconds, 0: 1990
	After  int64    // unix seconds, 0: 2090
	CN     string
	Tag    string // distinguishes certificates otherwise equal
	NotCA  bool   // intermediate lacks the CA bit
	EKU    []x509.ExtKeyUsage
}

var (
	start1990 = time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC)
	end2090   = time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
	certMu    sync.Mutex
	certCache = map[string]*ref.Ident{}
	caCache   = map[string]*x509.Certificate{}
)

func caKey(name string) crypto.Signer {
	switch name {
	case "A":
		return Key("p256-2")
	case "B":
		return Key("p384-2")
	case "IA":
		return Key("p384-1")
	case "IB":
		return Key("p521-2")
	case "IIA":
		return Key("p521-1")
	case "IIB":
		return Key("p256-1")
	}
	panic(name)
}

func mk(tmpl, parent *x509.Certificate, pub crypto.PublicKey, signer crypto.Signer) *x509.Certificate {
	der, err := x509.CreateCertificate(NewRng(7), tmpl, parent, pub, signer)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	return c
}

func ca(name string) *x509.Certificate {
	if c := caCache[name]; c != nil {
		return c
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(int64(len(name)*100) + int64(name[len(name)-1])), Subject: pkix.Name{CommonName: "CA " + name},
		NotBefore: start1990, NotAfter: end2090, IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageCertSign,
	}
	k := caKey(name)
	var c *x509.Certificate
	if strings.HasPrefix(name, "I") {
		t.IsCA = true
		c = mk(t, ca(name[1:]), k.Public(), caKey(name[1:]))
	} else {
		c = mk(t, t, k.Public(), k)
	}
	caCache[name] = c
	return c
}

// Roots is a pool holding the named CA.
func Roots(names ...string) *x509.CertPool {
	certMu.Lock()
	defer certMu.Unlock()
	p := x509.NewCertPool()
	for _, n := range names {
		p.AddCert(ca(n))
	}
	return p
}

// Cert builds (and caches) an identity.
func Cert(o CertOpts) *ref.Ident {
	certMu.Lock()
	defer certMu.Unlock()
	id := fmt.Sprintf("%+v", o)
	if c := certCache[id]; c != nil {
		return c
	}
	k := Key(o.Key)
	t := &x509.Certificate{
		SerialNumber: big.NewInt(int64(1000 + len(certCache))), Subject: pkix.Name{CommonName: "leaf " + o.CN + o.Tag},
		NotBefore: start1990, NotAfter: end2090, DNSNames: o.Names,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: o.EKU,
		BasicConstraintsValid: true,
	}
	for _, n := range o.Names {
		if ip := net.ParseIP(n); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		}
	}
	if o.Before != 0 {
		t.NotBefore = time.Unix(o.Before, 0)
	}
	if o.After != 0 {
		t.NotAfter = time.Unix(o.After, 0)
	}
	var chain [][]byte
	var leaf *x509.Certificate
	switch {
	case o.CA == "self":
		leaf = mk(t, t, k.Public(), k)
		chain = [][]byte{leaf.Raw}
	default:
		n := o.CA
		if n == "" {
			n = "A"
		}
		if o.Inter {
			n = "I" + n
			if o.Deep {
				n = "I" + n
			}
		}
		parent := ca(n)
		if o.Inter && o.NotCA {
			tt := &x509.Certificate{SerialNumber: big.NewInt(77), Subject: parent.Subject, NotBefore: start1990, NotAfter: end2090,
				BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature}
			parent = mk(tt, ca(n[1:]), caKey(n).Public(), caKey(n[1:]))
		}
		leaf = mk(t, parent, k.Public(), caKey(n))
		chain = [][]byte{leaf.Raw}
		if o.Inter {
			chain = append(chain, parent.Raw)
			if o.Deep {
				chain = append(chain, ca(n[1:]).Raw)
			}
		}
	}
	r := &ref.Ident{Name: o.Key, Chain: chain, Leaf: leaf, Key: k}
	certCache[id] = r
	return r
}

// Mint converts an identity.
func Mint(id *ref.Ident) *mint.Certificate {
	var cs []*x509.Certificate
	for _, d := range id.Chain {
		c, err := x509.ParseCertificate(d)
		if err != nil {
			panic(err)
		}
		cs = append(cs, c)
	}
	return &mint.Certificate{Chain: cs, PrivateKey: id.Key}
}

// IsRSA reports whether the identity has an RSA key.
func IsRSA(id *ref.Ident) bool { _, ok := id.Key.(*rsa.PrivateKey); return ok }

// AllSchemes lists the schemes the library can sign with, except SHA-1.
var AllSchemes = []mint.SignatureScheme{
	mint.RSA_PSS_SHA256, mint.RSA_PSS_SHA384, mint.RSA_PSS_SHA512,
	mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.ECDSA_P521_SHA512,
	mint.RSA_PKCS1_SHA256, mint.RSA_PKCS1_SHA384, mint.RSA_PKCS1_SHA512,
}

// Groups the library implements.
var AllGroups = []mint.NamedGroup{mint.X25519, mint.P256, mint.P384, mint.P521, mint.FFDHE2048, mint.FFDHE3072, mint.FFDHE4096, mint.FFDHE6144, mint.FFDHE8192}

// CheapGroups leaves out the slow ones.
var CheapGroups = []mint.NamedGroup{mint.X25519, mint.P256, mint.P384, mint.P521, mint.FFDHE2048}

// Suites the library implements.
var AllSuites = []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384}

func U16Groups(gs []mint.NamedGroup) []uint16 {
	var o []uint16
	for _, g := range gs {
		o = append(o, uint16(g))
	}
	return o
}
func U16Suites(gs []mint.CipherSuite) []uint16 {
	var o []uint16
	for _, g := range gs {
		o = append(o, uint16(g))
	}
	return o
}
func U16Schemes(gs []mint.SignatureScheme) []uint16 {
	var o []uint16
	for _, g := range gs {
		o = append(o, uint16(g))
	}
	return o
}
