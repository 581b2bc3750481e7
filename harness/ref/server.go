package ref

import (
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"slices"
	"sort"
)

// ServerCfg directs a reference server.
type ServerCfg struct {
	Suites      []uint16
	Groups      []uint16
	Ident       *Ident
	Scheme      uint16 // 0: first offered scheme that fits the key
	ALPN        []string
	PSK         func(id []byte) *PSK
	NoDHE       bool // with a PSK, use psk_ke
	NeverDHE    bool // no key share even without a PSK
	AcceptEarly bool
	RequestCert []uint16
	Cookie      []byte // send a HelloRetryRequest with this cookie
	HRRSuite    uint16
	HRRExts     func([]Ext) []Ext

	SHExts   func([]Ext) []Ext
	SHHook   func(*SH)
	EEExts   func([]Ext) []Ext
	CRExts   func([]Ext) []Ext
	CertExts []Ext
	Chain    func([][]byte) [][]byte
	CVHook   func(th []byte) ([]byte, error)
	SigCtx   string
	FinHook  func([]byte) []byte
	Share    func(g uint16, pub []byte) []byte
	Key      func(g uint16, peer []byte) (*KeyPair, error) // choose the key
	ECDHE    func([]byte) []byte                           // replace the secret the server uses
	Script   []byte                                        // flight including ServerHello
	NoChecks bool                                          // do not insist on a conforming client hello
	Force    uint16                                        // use this suite whatever is offered
}

// Server is a reference server.
type Server struct {
	Base
	Cfg ServerCfg

	CH        *CH
	CHRaw     []byte
	CH1       []byte
	HRRRaw    []byte
	CH1Parsed *CH
	Group     uint16
	UsedPSK   *PSK
	PSKIndex  int
	ALPN      string
	EarlyOK   bool
	Scheme    uint16
	ClientDER [][]byte
	CVScheme  uint16
	ecdhe     []byte
	state     byte
	HSKeysR   *Keys
	Hold      bool // build nothing on ClientHello (test drives the flight)
}

func NewServer(cfg ServerCfg, r io.Reader, dtls bool) *Server {
	s := &Server{Cfg: cfg}
	s.DTLS = dtls
	s.Rand = r
	s.onMsg = s.handle
	s.state = HClientHello
	return s
}

func (s *Server) handle(raw, body []byte) error {
	t := raw[0]
	if s.Done {
		return s.postHandshake(raw, body)
	}
	switch {
	case s.state == HClientHello && t == HClientHello:
		return s.hello(raw, body)
	case s.state == HEOED && t == HEOED:
		if len(body) != 0 {
			return errors.New("ref: EndOfEarlyData not empty")
		}
		s.TS = append(s.TS, raw...)
		s.EarlyPhase = false
		s.setR(s.HSKeysR)
		if len(s.hs) > 0 {
			return errors.New("ref: data after EndOfEarlyData under early keys")
		}
		s.state = HFinished
		if s.wantCert() {
			s.state = HCert
		}
	case s.state == HCert && t == HCert:
		_, ders, err := ParseCert(body)
		if err != nil {
			return err
		}
		s.ClientDER = ders
		s.TS = append(s.TS, raw...)
		s.state = HCertVerify
		if len(ders) == 0 {
			s.state = HFinished
		}
	case s.state == HCertVerify && t == HCertVerify:
		r := &R{B: body}
		s.CVScheme = uint16(r.U16())
		sig := r.V16()
		if err := r.Done(); err != nil {
			return err
		}
		leaf, err := x509.ParseCertificate(s.ClientDER[0])
		if err != nil {
			return err
		}
		if !has16(s.Cfg.RequestCert, s.CVScheme) {
			return fmt.Errorf("ref: client signed with unrequested scheme %04x", s.CVScheme)
		}
		if err := Verify(s.CVScheme, leaf.PublicKey, SigInput(CtxClient, s.TH()), sig); err != nil {
			return err
		}
		s.TS = append(s.TS, raw...)
		s.state = HFinished
	case s.state == HFinished && t == HFinished:
		if err := checkFin(s.S, s.CHTS, s.TH(), body); err != nil {
			return err
		}
		s.TS = append(s.TS, raw...)
		if len(s.hs) > 0 {
			return errors.New("ref: data after client Finished under handshake keys")
		}
		s.ComputeRes()
		s.setR(NewKeys(s.S, s.CATS, 3))
		s.Done = true
	default:
		return fmt.Errorf("ref: server got message %d in state %d", t, s.state)
	}
	return nil
}

func (s *Server) wantCert() bool { return s.Cfg.RequestCert != nil && s.UsedPSK == nil }

func (s *Server) hello(raw, body []byte) error {
	ch, err := ParseCH(body, s.DTLS)
	if err != nil {
		return err
	}
	if !s.Cfg.NoChecks {
		if err := s.checkHello(ch); err != nil {
			return err
		}
	}
	s.CH, s.CHRaw = ch, raw
	if s.Cfg.Cookie != nil && s.HRRRaw == nil {
		id := s.Cfg.HRRSuite
		if id == 0 {
			id = s.pickSuite(ch, nil)
		}
		if s.S = SuiteByID(id); s.S == nil {
			return errors.New("ref: no suite")
		}
		s.CH1, s.CH1Parsed = raw, ch
		xs := []Ext{{XVersions, U16(0x0304)}, {XCookie, V16(s.Cfg.Cookie)}}
		if s.Cfg.HRRExts != nil {
			xs = s.Cfg.HRRExts(xs)
		}
		s.HRRRaw = s.Frame(HServerHello, EncSH(&SH{Version: 0x0303, Random: HRRRandom, SessionID: ch.SessionID, Suite: id, Exts: xs}))
		s.TS = messageHash(s.S, raw)
		s.EmitRaw(HServerHello, s.HRRRaw, true)
		s.SkipApp = ch.EarlyData
		return nil
	}
	if s.HRRRaw != nil && !equal(ch.Cookie, s.Cfg.Cookie) {
		return errors.New("ref: cookie not echoed")
	}
	if s.HRRRaw != nil && !s.Cfg.NoChecks {
		if err := SameHello(s.CH1Parsed, ch); err != nil {
			return err
		}
	}
	// PSK
	for i, id := range ch.IDs {
		if s.Cfg.PSK == nil || len(ch.Modes) == 0 {
			break
		}
		p := s.Cfg.PSK(id)
		if p == nil {
			continue
		}
		ps := SuiteByID(p.Suite)
		tls := Msg(HClientHello, body)
		ctx := tls[:len(tls)-ch.BindersLen]
		if s.HRRRaw != nil {
			ctx = Cat(messageHash(ps, s.CH1), s.HRRRaw, ctx)
		}
		if i >= len(ch.Binders) || !equal(ps.Binder(p.Key, p.Resumption, ps.Sum(ctx)), ch.Binders[i]) {
			return errors.New("ref: binder does not verify")
		}
		s.UsedPSK, s.PSKIndex, s.PSKKey = p, i, p.Key
		break
	}
	id := s.pickSuite(ch, s.UsedPSK)
	if s.HRRRaw != nil {
		id = s.S.ID
	}
	if s.S = SuiteByID(id); s.S == nil {
		return errors.New("ref: no common suite")
	}
	s.SkipApp = false
	s.TS = append(s.TS, raw...)
	if s.Hold {
		return nil
	}
	return s.Flight()
}

// SameHello tells whether the second hello differs from the first only in what
// a retry request with nothing but a cookie allows (RFC 8446, 4.1.2).
func SameHello(a, b *CH) error {
	if a.Version != b.Version || !equal(a.Random, b.Random) || !equal(a.SessionID, b.SessionID) || !equal(a.Compression, b.Compression) {
		return errors.New("ref: second ClientHello has another version, random, session id or compression")
	}
	if !slices.Equal(a.Suites, b.Suites) {
		return errors.New("ref: second ClientHello offers other suites")
	}
	rest := func(c *CH) (o []Ext) {
		for _, x := range c.Exts {
			switch x.Type {
			case XCookie, XEarlyData, XPSK, 21:
			default:
				o = append(o, x)
			}
		}
		sort.SliceStable(o, func(i, j int) bool { return o[i].Type < o[j].Type })
		return
	}
	x, y := rest(a), rest(b)
	if len(x) != len(y) {
		return errors.New("ref: second ClientHello has other extensions")
	}
	for i := range x {
		if x[i].Type != y[i].Type || !equal(x[i].Data, y[i].Data) {
			return fmt.Errorf("ref: second ClientHello has another extension %d", x[i].Type)
		}
	}
	return nil
}

func (s *Server) checkHello(ch *CH) error {
	want := uint16(0x0303)
	if s.DTLS {
		want = 0xfefd
	}
	switch {
	case ch.Version != want:
		return fmt.Errorf("ref: hello legacy version %04x", ch.Version)
	case len(ch.Compression) != 1 || ch.Compression[0] != 0:
		return errors.New("ref: hello compression")
	case !has16(ch.Versions, 0x0304):
		return errors.New("ref: hello without TLS 1.3")
	}
	seen := map[uint16]bool{}
	for i, x := range ch.Exts {
		if seen[x.Type] {
			return fmt.Errorf("ref: duplicate extension %d", x.Type)
		}
		seen[x.Type] = true
		if x.Type == XPSK && i != len(ch.Exts)-1 {
			return errors.New("ref: pre_shared_key not last")
		}
	}
	for _, sh := range ch.Shares {
		if !has16(ch.Groups, sh.Group) {
			return errors.New("ref: share for group not listed")
		}
		if !ValidShare(sh.Group, sh.Data) {
			return fmt.Errorf("ref: invalid share for group %d", sh.Group)
		}
	}
	if seen[XPSK] && !seen[XPSKModes] {
		return errors.New("ref: PSK without modes")
	}
	if seen[XEarlyData] && !seen[XPSK] {
		return errors.New("ref: early data without PSK")
	}
	if len(ch.IDs) != len(ch.Binders) {
		return errors.New("ref: identities and binders differ in number")
	}
	return nil
}

func (s *Server) pickSuite(ch *CH, p *PSK) uint16 {
	if s.Cfg.Force != 0 {
		return s.Cfg.Force
	}
	for _, id := range s.Cfg.Suites {
		if has16(ch.Suites, id) && (p == nil || SuiteByID(p.Suite).Hash == SuiteByID(id).Hash) {
			return id
		}
	}
	return 0
}

// Flight sends ServerHello .. Finished.
func (s *Server) Flight() error {
	ch := s.CH
	dhe := (s.UsedPSK == nil || !s.Cfg.NoDHE) && !s.Cfg.NeverDHE
	var share []byte
	if dhe {
		for _, g := range s.Cfg.Groups {
			for _, sh := range ch.Shares {
				if sh.Group == g && s.Group == 0 {
					k, err := GenKey(g, s.Rand)
					if s.Cfg.Key != nil {
						k, err = s.Cfg.Key(g, sh.Data)
					}
					if err != nil {
						return err
					}
					if s.ecdhe, err = k.Shared(sh.Data); err != nil {
						return err
					}
					s.Group, share = g, k.Pub
				}
			}
		}
		if s.Group == 0 {
			return errors.New("ref: no common group")
		}
		if s.Cfg.Share != nil {
			share = s.Cfg.Share(s.Group, share)
		}
		if s.Cfg.ECDHE != nil {
			s.ecdhe = s.Cfg.ECDHE(s.ecdhe)
		}
	}
	for _, p := range ch.ALPN {
		if hasS(s.Cfg.ALPN, p) {
			s.ALPN = p
			break
		}
	}
	s.EarlyOK = s.Cfg.AcceptEarly && ch.EarlyData && s.UsedPSK != nil && s.PSKIndex == 0 && s.HRRRaw == nil
	if s.EarlyOK {
		s.S = SuiteByID(s.UsedPSK.Suite)
		early := Extract(s.S.Hash, nil, s.PSKKey)
		s.CETS = s.S.Derive(early, "c e traffic", s.S.Sum(s.CHRaw))
	}
	script := s.Cfg.Script
	if script == nil {
		script = []byte{HServerHello, HEE}
		if s.UsedPSK == nil {
			if s.wantCert() {
				script = append(script, HCertReq)
			}
			script = append(script, HCert, HCertVerify)
		}
		script = append(script, HFinished)
	}
	for _, k := range script {
		if err := s.emitStep(k, share); err != nil {
			return err
		}
	}
	if s.CHTS == nil {
		return nil
	}
	s.HSKeysR = NewKeys(s.S, s.CHTS, 2)
	switch {
	case s.EarlyOK:
		s.EarlyPhase = true
		s.setR(NewKeys(s.S, s.CETS, 1))
		s.state = HEOED
	default:
		s.setR(s.HSKeysR)
		s.SkipBad = ch.EarlyData
		s.state = HFinished
		if s.wantCert() {
			s.state = HCert
		}
	}
	return nil
}

func (s *Server) emitStep(k byte, share []byte) error {
	ch := s.CH
	switch k {
	case HServerHello:
		xs := []Ext{{XVersions, U16(0x0304)}}
		if share != nil {
			xs = append(xs, Ext{XKeyShare, EncShares([]Share{{s.Group, share}})[2:]})
		}
		if s.UsedPSK != nil {
			xs = append(xs, Ext{XPSK, U16(s.PSKIndex)})
		}
		if s.Cfg.SHExts != nil {
			xs = s.Cfg.SHExts(xs)
		}
		sh := &SH{Version: 0x0303, Random: rnd(s.Rand, 32), SessionID: ch.SessionID, Suite: s.S.ID, Exts: xs}
		if s.Cfg.SHHook != nil {
			s.Cfg.SHHook(sh)
		}
		s.Emit(HServerHello, EncSH(sh))
		s.ComputeHS(s.ecdhe)
		s.setW(NewKeys(s.S, s.SHTS, 2))
	case HEE:
		var xs []Ext
		if s.ALPN != "" {
			xs = append(xs, Ext{XALPN, V16(V8([]byte(s.ALPN)))})
		}
		if s.EarlyOK {
			xs = append(xs, Ext{XEarlyData, nil})
		}
		if s.Cfg.EEExts != nil {
			xs = s.Cfg.EEExts(xs)
		}
		s.Emit(HEE, Exts(xs))
	case HCertReq:
		algs := s.Cfg.RequestCert
		if algs == nil {
			algs = []uint16{ECP256, PSS256}
		}
		xs := []Ext{{XSigAlgs, V16(U16s(algs))}}
		if s.Cfg.CRExts != nil {
			xs = s.Cfg.CRExts(xs)
		}
		s.Emit(HCertReq, Cat(V8(nil), Exts(xs)))
	case HCert:
		var chain [][]byte
		if s.Cfg.Ident != nil {
			chain = s.Cfg.Ident.Chain
		}
		if s.Cfg.Chain != nil {
			chain = s.Cfg.Chain(chain)
		}
		s.Emit(HCert, EncCertX(nil, chain, s.Cfg.CertExts))
	case HCertVerify:
		th := s.TH()
		if s.Cfg.CVHook != nil {
			b, err := s.Cfg.CVHook(th)
			if err != nil {
				return err
			}
			s.Emit(HCertVerify, b)
			break
		}
		scheme := s.Cfg.Scheme
		if scheme == 0 {
			for _, a := range ch.SigAlgs {
				if SchemeFits(a, s.Cfg.Ident.Key.Public()) {
					scheme = a
					break
				}
			}
		}
		if scheme == 0 {
			return errors.New("ref: no usable scheme")
		}
		s.Scheme = scheme
		ctx := s.Cfg.SigCtx
		if ctx == "" {
			ctx = CtxServer
		}
		sig, err := Sign(scheme, s.Cfg.Ident.Key, SigInput(ctx, th), s.Rand)
		if err != nil {
			return err
		}
		s.Emit(HCertVerify, Cat(U16(int(scheme)), V16(sig)))
	case HFinished:
		base := s.SHTS
		if base == nil {
			base = make([]byte, s.S.Hash.Size())
		}
		fin := s.S.Finished(base, s.TH())
		if s.Cfg.FinHook != nil {
			fin = s.Cfg.FinHook(fin)
		}
		s.Emit(HFinished, fin)
		if s.Master != nil {
			s.ComputeApp()
			s.setW(NewKeys(s.S, s.SATS, 3))
		}
	default:
		s.Emit(k, []byte{0})
	}
	return nil
}
