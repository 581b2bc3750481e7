package ref

import (
	"crypto/x509"
	"errors"
	"fmt"
	"io"
)

// ClientCfg describes the hello of a reference client.
type ClientCfg struct {
	ServerName  string
	NoSNI       bool
	Suites      []uint16
	Groups      []uint16
	ShareGroups []uint16 // nil: one share for each of Groups
	SigAlgs     []uint16
	ALPN        []string
	Modes       []byte
	Versions    []uint16
	SessionID   []byte
	PSKs        []*PSK
	Early       bool
	EarlyData   [][]byte
	Extra       []Ext
	CertExts    []Ext
	Ident       *Ident // client certificate
	IdentScheme uint16
	SigCtx      string
	LegacyVer   uint16
	Compression []byte

	// Hooks
	Shares     func([]Share) []Share
	ExtsHook   func([]Ext) []Ext               // before the PSK extension is added
	BinderHook func(binders [][]byte)          // alter binders in place
	BinderLen  func(i, n int) int              // cut or extend the i-th binder, of n bytes, to this
	BinderCtx  func(ctx, hello []byte) []byte  // what to compute the binders over
	CHHook     func(body []byte) []byte        // alter the encoded body (after binders)
	Script     []byte                          // second flight message types, nil for default
	CVHook     func(th []byte) ([]byte, error) // produce CertificateVerify body
	FinHook    func(fin []byte) []byte
	Stop       bool // do not send the second flight
}

// Client is a reference client.
type Client struct {
	Base
	Cfg  ClientCfg
	Keys map[uint16]*KeyPair

	CHRaw    []byte
	CH1      []byte
	HRRRaw   []byte
	Cookie   []byte
	SH       *SH
	EE       []Ext
	Group    uint16
	UsedPSK  *PSK
	ALPN     string
	EarlyOK  bool
	CertReq  []byte
	CRExts   []Ext
	CertDERs [][]byte
	CVScheme uint16
	HRRs     int
	state    byte
	FinTS    []byte
}

func NewClient(cfg ClientCfg, r io.Reader, dtls bool) *Client {
	c := &Client{Cfg: cfg}
	c.IsClient = true
	c.DTLS = dtls
	c.Rand = r
	c.Keys = map[uint16]*KeyPair{}
	c.onMsg = c.handle
	return c
}

// Hello builds the ClientHello in transcript form.
func (c *Client) Hello() []byte {
	cfg := &c.Cfg
	var xs []Ext
	vs := cfg.Versions
	if vs == nil {
		vs = []uint16{0x0304}
	}
	if len(vs) > 0 {
		xs = append(xs, Ext{XVersions, V8(U16s(vs))})
	}
	if !cfg.NoSNI {
		xs = append(xs, Ext{XServerName, V16(Cat(U8(0), V16([]byte(cfg.ServerName))))})
	}
	sg := cfg.ShareGroups
	if sg == nil {
		sg = cfg.Groups
	}
	var shares []Share
	for _, g := range sg {
		k := c.Keys[g]
		if k == nil {
			var err error
			if k, err = GenKey(g, c.Rand); err != nil {
				panic(err)
			}
			c.Keys[g] = k
		}
		shares = append(shares, Share{g, k.Pub})
	}
	if cfg.Shares != nil {
		shares = cfg.Shares(shares)
	}
	xs = append(xs, Ext{XKeyShare, EncShares(shares)})
	if len(cfg.Groups) > 0 {
		xs = append(xs, Ext{XGroups, V16(U16s(cfg.Groups))})
	}
	if len(cfg.SigAlgs) > 0 {
		xs = append(xs, Ext{XSigAlgs, V16(U16s(cfg.SigAlgs))})
	}
	if len(cfg.ALPN) > 0 {
		var l []byte
		for _, p := range cfg.ALPN {
			l = append(l, V8([]byte(p))...)
		}
		xs = append(xs, Ext{XALPN, V16(l)})
	}
	if len(cfg.Modes) > 0 {
		xs = append(xs, Ext{XPSKModes, V8(cfg.Modes)})
	}
	if c.Cookie != nil {
		xs = append(xs, Ext{XCookie, V16(c.Cookie)})
	}
	if cfg.Early && c.HRRs == 0 {
		xs = append(xs, Ext{XEarlyData, nil})
	}
	xs = append(xs, cfg.Extra...)
	if cfg.ExtsHook != nil {
		xs = cfg.ExtsHook(xs)
	}
	bindersLen := 0
	var binderLens []int
	if len(cfg.PSKs) > 0 {
		var ids, bs []byte
		for i, p := range cfg.PSKs {
			ids = append(ids, V16(p.ID)...)
			ids = append(ids, U32(p.Age+p.AgeAdd)...)
			n := SuiteByID(p.Suite).Hash.Size()
			if cfg.BinderLen != nil {
				n = cfg.BinderLen(i, n)
			}
			bs = append(bs, V8(make([]byte, n))...)
			binderLens = append(binderLens, n)
		}
		bindersLen = 2 + len(bs)
		xs = append(xs, Ext{XPSK, Cat(V16(ids), V16(bs))})
	}
	ver := cfg.LegacyVer
	if ver == 0 {
		ver = 0x0303
		if c.DTLS {
			ver = 0xfefd
		}
	}
	comp := cfg.Compression
	if comp == nil {
		comp = []byte{0}
	}
	body := Cat(U16(int(ver)), rnd(c.Rand, 32), V8(cfg.SessionID))
	if c.DTLS {
		body = append(body, 0)
	}
	body = Cat(body, V16(U16s(cfg.Suites)), V8(comp), Exts(xs))
	raw := c.Frame(HClientHello, body)
	if bindersLen > 0 {
		// The library hashes a TLS-style header in DTLS too, so the binder
		// transcript always uses the four-byte header.
		tls := Msg(HClientHello, body)
		trunc := tls[:len(tls)-bindersLen]
		var binders [][]byte
		for _, p := range cfg.PSKs {
			s := SuiteByID(p.Suite)
			ctx := trunc
			if c.HRRRaw != nil {
				ctx = Cat(messageHash(s, c.CH1), c.HRRRaw, trunc)
			}
			if cfg.BinderCtx != nil {
				ctx = cfg.BinderCtx(ctx, trunc)
			}
			binders = append(binders, s.Binder(p.Key, p.Resumption, s.Sum(ctx)))
		}
		if cfg.BinderHook != nil {
			cfg.BinderHook(binders)
		}
		var bs []byte
		for i, b := range binders {
			n := binderLens[i]
			if n > len(b) {
				b = append(b[:len(b):len(b)], make([]byte, n-len(b))...)
			}
			bs = append(bs, V8(b[:n])...)
		}
		copy(raw[len(raw)-bindersLen:], V16(bs))
	}
	if cfg.CHHook != nil {
		b := cfg.CHHook(append([]byte{}, c.Body(raw)...))
		if c.DTLS {
			c.SendSeq--
		}
		raw = c.Frame(HClientHello, b)
	}
	return raw
}

// Start sends the first hello (and early data).
func (c *Client) Start() {
	c.Version = 0x0301
	if c.DTLS {
		c.Version = 0xfeff
	}
	c.CHRaw = c.Hello()
	c.EmitRaw(HClientHello, c.CHRaw, false)
	c.Version = 0
	c.state = HServerHello
	if c.Cfg.Early && len(c.Cfg.PSKs) > 0 && c.HRRs == 0 {
		p := c.Cfg.PSKs[0]
		s := SuiteByID(p.Suite)
		early := Extract(s.Hash, nil, p.Key)
		c.CETS = s.Derive(early, "c e traffic", s.Sum(c.CHRaw))
		c.setW(NewKeys(s, c.CETS, 1))
		for _, d := range c.Cfg.EarlyData {
			c.Record(RecAppData, d)
		}
	}
}

func (c *Client) handle(raw, body []byte) error {
	t := raw[0]
	if c.Done {
		return c.postHandshake(raw, body)
	}
	switch {
	case c.state == HServerHello && t == HServerHello:
		sh, err := ParseSH(body)
		if err != nil {
			return err
		}
		if c.S = SuiteByID(sh.Suite); c.S == nil || !has16(c.Cfg.Suites, sh.Suite) {
			return fmt.Errorf("ref: server chose suite %04x", sh.Suite)
		}
		if sh.Version != 0x0303 {
			return fmt.Errorf("ref: ServerHello legacy version %04x", sh.Version)
		}
		if v, _ := FindExt(sh.Exts, XVersions); string(v) != "\x03\x04" {
			return errors.New("ref: ServerHello without TLS 1.3 supported_versions")
		}
		if string(sh.SessionID) != string(c.Cfg.SessionID) {
			return errors.New("ref: session id not echoed")
		}
		if sh.Compression != 0 {
			return errors.New("ref: compression")
		}
		if sh.IsHRR() {
			c.HRRs++
			if c.HRRs > 1 {
				return errors.New("ref: second HelloRetryRequest")
			}
			ck, ok := FindExt(sh.Exts, XCookie)
			if ok {
				r := &R{B: ck}
				c.Cookie = r.V16()
				if err := r.Done(); err != nil {
					return err
				}
			}
			if ks, ok := FindExt(sh.Exts, XKeyShare); ok && len(ks) == 2 {
				c.Cfg.ShareGroups = []uint16{uint16(ks[0])<<8 | uint16(ks[1])}
			}
			c.CH1 = c.CHRaw
			c.HRRRaw = raw
			c.TS = Cat(messageHash(c.S, c.CHRaw), raw)
			c.W = nil
			c.CHRaw = c.Hello()
			c.EmitRaw(HClientHello, c.CHRaw, false)
			return nil
		}
		c.SH = sh
		if ps, ok := FindExt(sh.Exts, XPSK); ok {
			if len(ps) != 2 || int(ps[0])<<8|int(ps[1]) >= len(c.Cfg.PSKs) {
				return errors.New("ref: bad selected identity")
			}
			c.UsedPSK = c.Cfg.PSKs[int(ps[0])<<8|int(ps[1])]
			if SuiteByID(c.UsedPSK.Suite).Hash != c.S.Hash {
				return errors.New("ref: PSK hash does not match suite")
			}
			c.PSKKey = c.UsedPSK.Key
		}
		var ecdhe []byte
		if ks, ok := FindExt(sh.Exts, XKeyShare); ok {
			r := &R{B: ks}
			c.Group = uint16(r.U16())
			pub := r.V16()
			if err := r.Done(); err != nil {
				return err
			}
			k := c.Keys[c.Group]
			if k == nil {
				return fmt.Errorf("ref: server chose group %d not offered", c.Group)
			}
			if ecdhe, err = k.Shared(pub); err != nil {
				return err
			}
		} else if c.UsedPSK == nil {
			return errors.New("ref: neither PSK nor key share")
		}
		c.TS = append(c.TS, raw...)
		c.ComputeHS(ecdhe)
		c.setR(NewKeys(c.S, c.SHTS, 2))
		if len(c.hs) > 0 {
			return errors.New("ref: data after ServerHello in the clear")
		}
		c.state = HEE
	case c.state == HEE && t == HEE:
		r := &R{B: body}
		c.EE = r.Exts()
		if err := r.Done(); err != nil {
			return err
		}
		if a, ok := FindExt(c.EE, XALPN); ok {
			l := &R{B: a}
			q := &R{B: l.V16()}
			c.ALPN = string(q.V8())
			if l.Done() != nil || q.Done() != nil {
				return errors.New("ref: bad ALPN in EE")
			}
			if !hasS(c.Cfg.ALPN, c.ALPN) {
				return errors.New("ref: unsolicited ALPN")
			}
		}
		if _, ok := FindExt(c.EE, XEarlyData); ok {
			if !c.Cfg.Early || c.UsedPSK != c.Cfg.PSKs[0] || c.HRRs > 0 {
				return errors.New("ref: early data accepted wrongly")
			}
			c.EarlyOK = true
		}
		c.TS = append(c.TS, raw...)
		if c.UsedPSK != nil {
			c.state = HFinished
		} else {
			c.state = HCert
		}
	case c.state == HCert && t == HCertReq && c.CertReq == nil:
		r := &R{B: body}
		ctx := r.V8()
		c.CRExts = r.Exts()
		if err := r.Done(); err != nil {
			return err
		}
		if len(ctx) != 0 {
			return errors.New("ref: certificate_request_context not empty")
		}
		c.CertReq = body
		c.TS = append(c.TS, raw...)
	case c.state == HCert && t == HCert:
		_, ders, err := ParseCert(body)
		if err != nil {
			return err
		}
		if len(ders) == 0 {
			return errors.New("ref: empty server certificate list")
		}
		c.CertDERs = ders
		c.TS = append(c.TS, raw...)
		c.state = HCertVerify
	case c.state == HCertVerify && t == HCertVerify:
		r := &R{B: body}
		c.CVScheme = uint16(r.U16())
		sig := r.V16()
		if err := r.Done(); err != nil {
			return err
		}
		leaf, err := x509.ParseCertificate(c.CertDERs[0])
		if err != nil {
			return err
		}
		if !has16(c.Cfg.SigAlgs, c.CVScheme) {
			return fmt.Errorf("ref: server signed with unoffered scheme %04x", c.CVScheme)
		}
		if err := Verify(c.CVScheme, leaf.PublicKey, SigInput(CtxServer, c.TH()), sig); err != nil {
			return err
		}
		c.TS = append(c.TS, raw...)
		c.state = HFinished
	case c.state == HFinished && t == HFinished:
		if err := checkFin(c.S, c.SHTS, c.TH(), body); err != nil {
			return err
		}
		c.TS = append(c.TS, raw...)
		if len(c.hs) > 0 {
			return errors.New("ref: data after Finished under handshake keys")
		}
		c.ComputeApp()
		c.FinTS = append([]byte{}, c.TS...)
		c.setR(NewKeys(c.S, c.SATS, 3))
		if c.Cfg.Stop {
			return nil
		}
		c.SecondFlight()
	default:
		return fmt.Errorf("ref: client got message %d in state %d", t, c.state)
	}
	return nil
}

// SecondFlight sends EOED, certificate messages and Finished (or the script).
func (c *Client) SecondFlight() {
	script := c.Cfg.Script
	if script == nil {
		if c.EarlyOK {
			script = append(script, HEOED)
		}
		if c.CertReq != nil {
			script = append(script, HCert)
			if c.Cfg.Ident != nil {
				script = append(script, HCertVerify)
			}
		}
		script = append(script, HFinished)
	}
	early := c.W != nil && c.W.Epoch == 1
	if !(early && c.EarlyOK) {
		c.setW(NewKeys(c.S, c.CHTS, 2))
		early = false
	}
	for _, k := range script {
		switch k {
		case HEOED:
			c.Emit(HEOED, nil)
			if early {
				c.setW(NewKeys(c.S, c.CHTS, 2))
				early = false
			}
		case HCert:
			var ch [][]byte
			if c.Cfg.Ident != nil {
				ch = c.Cfg.Ident.Chain
			}
			c.Emit(HCert, EncCertX(nil, ch, c.Cfg.CertExts))
		case HCertVerify:
			if c.Cfg.CVHook != nil {
				b, err := c.Cfg.CVHook(c.TH())
				if err != nil {
					panic(err)
				}
				c.Emit(HCertVerify, b)
				continue
			}
			ctx := c.Cfg.SigCtx
			if ctx == "" {
				ctx = CtxClient
			}
			sig, err := Sign(c.Cfg.IdentScheme, c.Cfg.Ident.Key, SigInput(ctx, c.TH()), c.Rand)
			if err != nil {
				panic(err)
			}
			c.Emit(HCertVerify, Cat(U16(int(c.Cfg.IdentScheme)), V16(sig)))
		case HFinished:
			fin := c.S.Finished(c.CHTS, c.TH())
			if c.Cfg.FinHook != nil {
				fin = c.Cfg.FinHook(fin)
			}
			c.Emit(HFinished, fin)
		default:
			c.Emit(k, []byte{0})
		}
	}
	c.ComputeRes()
	c.setW(NewKeys(c.S, c.CATS, 3))
	c.Done = true
}

func has16(l []uint16, v uint16) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func hasS(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}
