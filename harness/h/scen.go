package h

import (
	"encoding/hex"
	"fmt"
	"sync"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/ref"
)

// CertSpec says which certificate a side has.
type CertSpec struct {
	Key   string
	Names []string
	Inter bool
	Deep  bool
	CA    string
}

func (c CertSpec) Ident() *ref.Ident {
	return Cert(CertOpts{Key: c.Key, Names: c.Names, CA: c.CA, Inter: c.Inter, Deep: c.Deep})
}

// PSKSpec is an external pre-shared key the client holds.
type PSKSpec struct {
	ID, Key    []byte
	Suite      mint.CipherSuite
	NextProto  string
	ServerHas  bool
	WrongKey   bool // the server has another key under this identity
	Resumption bool // marked as coming from a ticket
}

// Cookie modes
const (
	CookieNone = iota
	CookieAuto
	CookieHandlerOn  // an application handler that asks for a cookie
	CookieHandlerOff // an application handler that does not
)

// Scen is a pair of configurations.
type Scen struct {
	DTLS               bool
	Blocking           bool
	CSuites, SSuites   []mint.CipherSuite
	CGroups, SGroups   []mint.NamedGroup
	CSchemes, SSchemes []mint.SignatureScheme
	CALPN, SALPN       []string
	CModes             []mint.PSKKeyExchangeMode
	PSK                *PSKSpec
	EarlyC, EarlyS     bool
	Cookie             int
	AppCookie          []byte
	Name               string
	Certs              []CertSpec
	Insecure           bool
	ClientAuth         bool
	ClientCerts        []CertSpec
	Tickets            bool
}

func (s *Scen) String() string {
	p := "-"
	if s.PSK != nil {
		p = fmt.Sprintf("%d/%d:%v:%q has=%v wrong=%v res=%v", len(s.PSK.ID), len(s.PSK.Key), s.PSK.Suite, s.PSK.NextProto, s.PSK.ServerHas, s.PSK.WrongKey, s.PSK.Resumption)
	}
	return fmt.Sprintf("dtls=%v suites=%v/%v groups=%v/%v schemes=%v/%v alpn=%q/%q modes=%v psk=%s early=%v/%v cookie=%d:%d name=%s certs=%v insecure=%v auth=%v:%v tickets=%v",
		s.DTLS, s.CSuites, s.SSuites, s.CGroups, s.SGroups, s.CSchemes, s.SSchemes, s.CALPN, s.SALPN, s.CModes, p, s.EarlyC, s.EarlyS, s.Cookie, len(s.AppCookie), s.Name, s.Certs, s.Insecure, s.ClientAuth, s.ClientCerts, s.Tickets)
}

// CookieApp is the application's cookie handler of the scenarios.
type CookieApp struct {
	Out       []byte // what Generate returns (nil: no retry)
	Generated int
	Validated int
	Seen      []byte
	Reject    bool
	mu        sync.Mutex
}

func (c *CookieApp) Generate(*mint.Conn) ([]byte, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Generated++
	return c.Out, nil
}
func (c *CookieApp) Validate(_ *mint.Conn, b []byte) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Validated++
	c.Seen = append([]byte{}, b...)
	return !c.Reject && string(b) == string(c.Out)
}

func certs(cs []CertSpec) []*mint.Certificate {
	var o []*mint.Certificate
	for _, c := range cs {
		o = append(o, Mint(c.Ident()))
	}
	return o
}

// Configs builds fresh configurations.
func (s *Scen) Configs() (cc, sc *mint.Config) {
	cc = &mint.Config{
		ServerName: s.Name, CipherSuites: cp(s.CSuites), Groups: cp(s.CGroups), SignatureSchemes: cp(s.CSchemes),
		NextProtos: cp(s.CALPN), PSKModes: cp(s.CModes), AllowEarlyData: s.EarlyC, Certificates: certs(s.ClientCerts),
		RootCAs: Roots("A"), InsecureSkipVerify: s.Insecure, NonBlocking: !s.Blocking, UseDTLS: s.DTLS, PSKs: &mint.PSKMapCache{},
	}
	sc = &mint.Config{
		CipherSuites: cp(s.SSuites), Groups: cp(s.SGroups), SignatureSchemes: cp(s.SSchemes), NextProtos: cp(s.SALPN),
		AllowEarlyData: s.EarlyS, Certificates: certs(s.Certs), RequireClientAuth: s.ClientAuth, SendSessionTickets: s.Tickets,
		NonBlocking: !s.Blocking, UseDTLS: s.DTLS, PSKs: &mint.PSKMapCache{}, RequireCookie: s.Cookie != CookieNone,
	}
	if s.Tickets {
		sc.TicketLifetime = 86400
		sc.EarlyDataLifetime = 0
		if s.EarlyS {
			sc.EarlyDataLifetime = 86400
		}
	}
	if s.Cookie != CookieNone {
		p, err := mint.NewDefaultCookieProtector()
		if err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
		sc.CookieProtector = p
		switch s.Cookie {
		case CookieHandlerOn:
			o := s.AppCookie
			if o == nil {
				o = []byte{}
			}
			sc.CookieHandler = &CookieApp{Out: o}
		case CookieHandlerOff:
			sc.CookieHandler = &CookieApp{}
		}
	}
	if s.PSK != nil {
		p := s.MintPSK()
		cc.PSKs.Put(s.Name, p)
		if s.PSK.ServerHas {
			if s.PSK.WrongKey {
				p.Key = append([]byte{0x55}, p.Key...)
			}
			sc.PSKs.Put(hex.EncodeToString(s.PSK.ID), p)
		}
	}
	return
}

// MintPSK is the scenario's key as the library stores it.
func (s *Scen) MintPSK() mint.PreSharedKey {
	return mint.PreSharedKey{CipherSuite: s.PSK.Suite, IsResumption: false, Identity: s.PSK.ID, Key: s.PSK.Key, NextProto: s.PSK.NextProto}
}

func cp[T any](x []T) []T { return append([]T(nil), x...) }

// Outcome is what a pair of configurations determines.
type Outcome struct {
	OK       bool
	Why      string
	Suite    mint.CipherSuite
	DH       bool
	Group    mint.NamedGroup
	PSK      bool
	ALPN     string
	Cert     int
	Scheme   mint.SignatureScheme
	Early    bool
	EarlySnt bool // the first hello offers early data
	HRR      bool
	CCert    int // client certificate sent, -1 none
	CScheme  mint.SignatureScheme
	Asked    bool // client authentication requested
}

func hashOf(c mint.CipherSuite) int {
	if s := ref.SuiteByID(uint16(c)); s != nil {
		return int(s.Hash)
	}
	return 0
}

func in[T comparable](x T, xs []T) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

var (
	defSuites  = []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384}
	defGroups  = []mint.NamedGroup{mint.P256, mint.P384, mint.FFDHE2048, mint.X25519}
	defSchemes = []mint.SignatureScheme{mint.RSA_PSS_SHA256, mint.RSA_PSS_SHA384, mint.RSA_PSS_SHA512, mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.ECDSA_P521_SHA512}
	defModes   = []mint.PSKKeyExchangeMode{mint.PSKModeKE, mint.PSKModeDHEKE}
)

func def[T any](x, d []T) []T {
	if len(x) == 0 {
		return d
	}
	return x
}

func pickCert(cs []CertSpec, name *string, schemes []mint.SignatureScheme) (int, mint.SignatureScheme) {
	for i, c := range cs {
		if name != nil && !in(*name, c.Names) {
			continue
		}
		for _, a := range schemes {
			if ref.SchemeFits(uint16(a), Key(c.Key).Public()) {
				return i, a
			}
		}
	}
	return -1, 0
}

// Predict is the reference model of negotiation.
func (s *Scen) Predict() Outcome {
	o := Outcome{CCert: -1, Cert: -1}
	fail := func(f string, a ...any) Outcome { o.OK = false; o.Why = fmt.Sprintf(f, a...); return o }
	cs, ss := def(s.CSuites, defSuites), def(s.SSuites, defSuites)
	cg, sg := def(s.CGroups, defGroups), def(s.SGroups, defGroups)
	cSch, sSch := def(s.CSchemes, defSchemes), def(s.SSchemes, defSchemes)
	modes := def(s.CModes, defModes)
	if s.PSK != nil {
		var n []mint.CipherSuite
		for _, c := range cs {
			if hashOf(c) == hashOf(s.PSK.Suite) {
				n = append(n, c)
			}
		}
		cs = n
		if len(cs) == 0 {
			return fail("no suite for the PSK")
		}
	}
	canDH := false
	for _, g := range cg {
		if in(g, sg) {
			canDH, o.Group = true, g
			break
		}
	}
	canPSK := false
	if s.PSK != nil && s.PSK.ServerHas {
		if s.PSK.WrongKey {
			return fail("binder")
		}
		canPSK = true
	}
	o.PSK = canPSK && (in(mint.PSKModeKE, modes) || canDH)
	o.DH = canDH && (!o.PSK || in(mint.PSKModeDHEKE, modes))
	found := false
	for _, c := range cs {
		if (canPSK && c == s.PSK.Suite) || (!canPSK && in(c, ss)) {
			o.Suite, found = c, true
			break
		}
	}
	if !found {
		return fail("no common suite")
	}
	o.HRR = s.Cookie == CookieAuto || s.Cookie == CookieHandlerOn
	o.EarlySnt = s.PSK != nil && s.EarlyC
	if !o.DH {
		o.Group = 0
	}
	if !o.DH && !o.PSK {
		return fail("no key exchange")
	}
	if !o.PSK {
		o.Cert, o.Scheme = pickCert(s.Certs, &s.Name, cSch)
		if o.Cert < 0 {
			return fail("no certificate")
		}
	}
	o.Early = o.PSK && o.EarlySnt && s.EarlyS && !o.HRR
	if o.PSK {
		if s.PSK.NextProto != "" && in(s.PSK.NextProto, s.CALPN) && in(s.PSK.NextProto, s.SALPN) {
			o.ALPN = s.PSK.NextProto
		}
	} else {
		for _, p := range s.CALPN {
			if in(p, s.SALPN) {
				o.ALPN = p
				break
			}
		}
	}
	if !o.PSK && !s.Insecure && s.Certs[o.Cert].CA == "B" {
		return fail("untrusted")
	}
	if !o.PSK && s.ClientAuth {
		o.Asked = true
		o.CCert, o.CScheme = pickCert(s.ClientCerts, nil, sSch)
	}
	o.OK = true
	return o
}

// Subset draws an ordered subset.
func Subset[T any](t *rapid.T, label string, xs []T, min int) []T {
	p := rapid.Permutation(xs).Draw(t, label)
	n := rapid.IntRange(min, len(p)).Draw(t, label+" n")
	return append([]T(nil), p[:n]...)
}

// ScenOpts narrows what DrawScen generates.
type ScenOpts struct {
	NoDTLS, DTLSOnly bool
	NoPSK, PSKOnly   bool
	NoCookie         bool
	NoEarly          bool
	NoAuth           bool
	Compatible       bool // completes
	Slow             bool // all groups
	Tickets          bool
}

var names = []string{"a.example", "b.example", "example.com", "www.a.example"}

// DrawScen draws a pair of configurations.
func DrawScen(t *rapid.T, o ScenOpts) *Scen {
	s := drawScen(t, o)
	if o.Compatible {
		repair(t, s)
		if p := s.Predict(); !p.OK {
			panic("HARNESS-ERROR scenario not compatible: " + p.Why + " " + s.String())
		}
	}
	return s
}

// repair makes the two sides overlap.
func repair(t *rapid.T, s *Scen) {
	if s.PSK != nil {
		s.PSK.WrongKey = false
		if len(s.CSuites) > 0 && !in(s.PSK.Suite, s.CSuites) {
			s.CSuites = append(s.CSuites, s.PSK.Suite)
		}
		if len(s.SSuites) > 0 && !in(s.PSK.Suite, s.SSuites) {
			s.SSuites = append(s.SSuites, s.PSK.Suite)
		}
	}
	if cs, ss := def(s.CSuites, defSuites), def(s.SSuites, defSuites); !inter(cs, ss) {
		s.SSuites = append(s.SSuites, cs[0])
	}
	if cg, sg := def(s.CGroups, defGroups), def(s.SGroups, defGroups); !inter(cg, sg) {
		s.SGroups = append(s.SGroups, cg[rapid.IntRange(0, len(cg)-1).Draw(t, "common group")])
	}
	for i := range s.Certs {
		if s.Certs[i].CA == "B" {
			s.Certs[i].CA = "A"
		}
	}
	if i, _ := pickCert(s.Certs, &s.Name, def(s.CSchemes, defSchemes)); i < 0 {
		k := rapid.SampledFrom(KeyNames).Draw(t, "fitting key")
		s.Certs = append(s.Certs, CertSpec{Key: k, Names: []string{s.Name}, CA: "A"})
		if j, _ := pickCert(s.Certs, &s.Name, def(s.CSchemes, defSchemes)); j < 0 {
			for _, a := range defSchemes {
				if ref.SchemeFits(uint16(a), Key(k).Public()) {
					s.CSchemes = append(s.CSchemes, a)
					break
				}
			}
		}
	}
}

func inter[T comparable](a, b []T) bool {
	for _, x := range a {
		if in(x, b) {
			return true
		}
	}
	return false
}

func drawScen(t *rapid.T, o ScenOpts) *Scen {
	s := &Scen{}
	one := func(n int, l string) bool { return rapid.IntRange(0, n-1).Draw(t, l) == n-1 }
	s.DTLS = o.DTLSOnly || (!o.NoDTLS && one(3, "dtls"))
	some := func(l string) bool { return rapid.IntRange(0, 2).Draw(t, l) > 0 }
	if some("suites set") {
		s.CSuites = Subset(t, "csuites", AllSuites, 1)
		s.SSuites = Subset(t, "ssuites", AllSuites, 1)
	}
	gs := CheapGroups
	if o.Slow {
		gs = AllGroups
	}
	if rapid.IntRange(0, 9).Draw(t, "groups set") > 0 {
		max := 3
		s.CGroups = Subset(t, "cgroups", gs, 1)
		if len(s.CGroups) > max {
			s.CGroups = s.CGroups[:max]
		}
		s.SGroups = Subset(t, "sgroups", gs, 1)
	}
	if some("schemes set") {
		s.CSchemes = Subset(t, "cschemes", AllSchemes, 1)
		s.SSchemes = Subset(t, "sschemes", AllSchemes, 1)
	}
	protos := []string{"h2", "http/1.1", "x", "longer-protocol-name"}
	if some("alpn set") {
		s.CALPN = Subset(t, "calpn", protos, 0)
		s.SALPN = Subset(t, "salpn", protos, 0)
	}
	s.Name = rapid.SampledFrom(names).Draw(t, "name")
	for i := rapid.IntRange(1, 3).Draw(t, "ncerts"); i > 0; i-- {
		c := CertSpec{Key: rapid.SampledFrom(KeyNames).Draw(t, "key"), CA: "A", Inter: one(3, "inter")}
		c.Deep = c.Inter && one(2, "deep")
		c.Names = Subset(t, "cert names", names, 1)
		if one(8, "untrusted") {
			c.CA = "B"
		}
		s.Certs = append(s.Certs, c)
	}
	s.Insecure = one(6, "insecure")
	if !o.NoPSK && (o.PSKOnly || one(3, "psk")) {
		p := &PSKSpec{ID: rapid.SliceOfN(rapid.Byte(), 1, 12).Draw(t, "psk id"), Key: rapid.SliceOfN(rapid.Byte(), 1, 48).Draw(t, "psk key")}
		p.Suite = rapid.SampledFrom(AllSuites).Draw(t, "psk suite")
		p.ServerHas = o.PSKOnly || !one(5, "server lacks psk")
		p.WrongKey = p.ServerHas && one(8, "wrong psk")
		if some("psk alpn") {
			p.NextProto = rapid.SampledFrom(protos).Draw(t, "psk proto")
		}
		if one(2, "modes set") {
			s.CModes = Subset(t, "modes", defModes, 1)
		}
		s.PSK = p
		if !o.NoEarly && !s.DTLS {
			s.EarlyC = one(2, "earlyc")
			s.EarlyS = one(2, "earlys")
		}
		// The suite of a PSK has to be one the server's configuration allows.
		if len(s.SSuites) > 0 && !in(p.Suite, s.SSuites) {
			s.SSuites = append(s.SSuites, p.Suite)
		}
	}
	if !o.NoCookie && one(4, "cookie") {
		s.Cookie = rapid.IntRange(CookieAuto, CookieHandlerOff).Draw(t, "cookie mode")
		if s.Cookie == CookieHandlerOn {
			s.AppCookie = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "app cookie")
		}
	}
	if !o.NoAuth && one(3, "auth") {
		s.ClientAuth = true
		for i := rapid.IntRange(0, 2).Draw(t, "client certs"); i > 0; i-- {
			s.ClientCerts = append(s.ClientCerts, CertSpec{Key: rapid.SampledFrom(KeyNames).Draw(t, "ckey"), CA: "A", Names: []string{"client"}, Inter: one(3, "cinter"), Deep: one(2, "cdeep")})
		}
	}
	s.Tickets = o.Tickets && one(2, "tickets")
	return s
}
