package ref

import (
	"encoding/binary"
	"errors"
)

// Handshake message types
const (
	HClientHello  = 1
	HServerHello  = 2
	HNST          = 4
	HEOED         = 5
	HEE           = 8
	HCert         = 11
	HCertReq      = 13
	HCertVerify   = 15
	HFinished     = 20
	HKeyUpdate    = 24
	HMessageHash  = 254
	HelloRequest  = 0
	HCertStatus   = 22
	HServerKeyEx  = 12
	HNextProto    = 67
	HServerHelloD = 14
)

// Extension types
const (
	XServerName   = 0
	XGroups       = 10
	XSigAlgs      = 13
	XALPN         = 16
	XPSK          = 41
	XEarlyData    = 42
	XVersions     = 43
	XCookie       = 44
	XPSKModes     = 45
	XCertAuth     = 47
	XSigAlgsCert  = 50
	XKeyShare     = 51
	XTicketEDInfo = 46
)

var HRRRandom = []byte{
	0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91,
	0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C,
}

func U8(v int) []byte  { return []byte{byte(v)} }
func U16(v int) []byte { return []byte{byte(v >> 8), byte(v)} }
func U24(v int) []byte { return []byte{byte(v >> 16), byte(v >> 8), byte(v)} }
func U32(v uint32) []byte {
	return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}
func U16s(vs []uint16) []byte {
	var b []byte
	for _, v := range vs {
		b = append(b, byte(v>>8), byte(v))
	}
	return b
}
func Cat(bs ...[]byte) []byte {
	out := []byte{}
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}
func V8(b []byte) []byte  { return Cat(U8(len(b)), b) }
func V16(b []byte) []byte { return Cat(U16(len(b)), b) }
func V24(b []byte) []byte { return Cat(U24(len(b)), b) }

type Ext struct {
	Type uint16
	Data []byte
}

func Exts(xs []Ext) []byte {
	var b []byte
	for _, x := range xs {
		b = append(b, U16(int(x.Type))...)
		b = append(b, V16(x.Data)...)
	}
	return V16(b)
}

func FindExt(xs []Ext, t uint16) ([]byte, bool) {
	for _, x := range xs {
		if x.Type == t {
			return x.Data, true
		}
	}
	return nil, false
}

func DropExt(xs []Ext, t uint16) []Ext {
	var out []Ext
	for _, x := range xs {
		if x.Type != t {
			out = append(out, x)
		}
	}
	return out
}

// Msg frames a handshake message (TLS form).
func Msg(t byte, body []byte) []byte { return Cat([]byte{t}, V24(body)) }

// R is a bounds-checked reader; Err is sticky.
type R struct {
	B   []byte
	Err error
}

var errShort = errors.New("ref: short input")

func (r *R) N(n int) []byte {
	if r.Err != nil || n > len(r.B) {
		r.Err = errShort
		return nil
	}
	out := r.B[:n]
	r.B = r.B[n:]
	return out
}
func (r *R) U8() int {
	if b := r.N(1); b != nil {
		return int(b[0])
	}
	return 0
}
func (r *R) U16() int {
	if b := r.N(2); b != nil {
		return int(binary.BigEndian.Uint16(b))
	}
	return 0
}
func (r *R) U24() int {
	if b := r.N(3); b != nil {
		return int(b[0])<<16 | int(b[1])<<8 | int(b[2])
	}
	return 0
}
func (r *R) U32() uint32 {
	if b := r.N(4); b != nil {
		return binary.BigEndian.Uint32(b)
	}
	return 0
}
func (r *R) V8() []byte  { return r.N(r.U8()) }
func (r *R) V16() []byte { return r.N(r.U16()) }
func (r *R) V24() []byte { return r.N(r.U24()) }
func (r *R) U16s(b []byte) []uint16 {
	if len(b)%2 != 0 {
		r.Err = errShort
		return nil
	}
	var out []uint16
	for i := 0; i < len(b); i += 2 {
		out = append(out, binary.BigEndian.Uint16(b[i:]))
	}
	return out
}
func (r *R) Exts() []Ext {
	q := R{B: r.V16()}
	var out []Ext
	for len(q.B) > 0 && q.Err == nil {
		t := q.U16()
		d := q.V16()
		out = append(out, Ext{uint16(t), append([]byte{}, d...)})
	}
	if q.Err != nil {
		r.Err = q.Err
	}
	return out
}
func (r *R) Done() error {
	if r.Err != nil {
		return r.Err
	}
	if len(r.B) != 0 {
		return errors.New("ref: trailing data")
	}
	return nil
}

// Share is a KeyShareEntry.
type Share struct {
	Group uint16
	Data  []byte
}

func EncShares(ss []Share) []byte {
	var b []byte
	for _, s := range ss {
		b = append(b, U16(int(s.Group))...)
		b = append(b, V16(s.Data)...)
	}
	return V16(b)
}

// CH is a parsed ClientHello.
type CH struct {
	Version     uint16
	Random      []byte
	SessionID   []byte
	DTLSCookie  []byte
	Suites      []uint16
	Compression []byte
	Exts        []Ext

	ServerName string
	Groups     []uint16
	SigAlgs    []uint16
	ALPN       []string
	Versions   []uint16
	Shares     []Share
	Modes      []byte
	Cookie     []byte
	EarlyData  bool
	IDs        [][]byte
	Ages       []uint32
	Binders    [][]byte
	BindersLen int // length of the encoded binders list incl. its length field
}

func ParseCH(body []byte, dtls bool) (*CH, error) {
	r := &R{B: body}
	c := &CH{}
	c.Version = uint16(r.U16())
	c.Random = r.N(32)
	c.SessionID = r.V8()
	if dtls {
		c.DTLSCookie = r.V8()
	}
	c.Suites = r.U16s(r.V16())
	c.Compression = r.V8()
	c.Exts = r.Exts()
	if err := r.Done(); err != nil {
		return nil, err
	}
	for _, x := range c.Exts {
		q := &R{B: x.Data}
		switch x.Type {
		case XServerName:
			l := &R{B: q.V16()}
			l.U8()
			c.ServerName = string(l.V16())
			if l.Err != nil {
				return nil, l.Err
			}
		case XGroups:
			c.Groups = q.U16s(q.V16())
		case XSigAlgs:
			c.SigAlgs = q.U16s(q.V16())
		case XALPN:
			l := &R{B: q.V16()}
			for len(l.B) > 0 && l.Err == nil {
				c.ALPN = append(c.ALPN, string(l.V8()))
			}
			if l.Err != nil {
				return nil, l.Err
			}
		case XVersions:
			c.Versions = q.U16s(q.V8())
		case XKeyShare:
			l := &R{B: q.V16()}
			for len(l.B) > 0 && l.Err == nil {
				g := l.U16()
				c.Shares = append(c.Shares, Share{uint16(g), append([]byte{}, l.V16()...)})
			}
			if l.Err != nil {
				return nil, l.Err
			}
		case XPSKModes:
			c.Modes = q.V8()
		case XCookie:
			c.Cookie = q.V16()
		case XEarlyData:
			c.EarlyData = true
		case XPSK:
			ids := &R{B: q.V16()}
			for len(ids.B) > 0 && ids.Err == nil {
				c.IDs = append(c.IDs, ids.V16())
				c.Ages = append(c.Ages, ids.U32())
			}
			if ids.Err != nil {
				return nil, ids.Err
			}
			c.BindersLen = len(q.B)
			bs := &R{B: q.V16()}
			for len(bs.B) > 0 && bs.Err == nil {
				c.Binders = append(c.Binders, bs.V8())
			}
			if bs.Err != nil {
				return nil, bs.Err
			}
		default:
			continue
		}
		if err := q.Done(); err != nil {
			return nil, err
		}
	}
	return c, nil
}

// SH is a parsed ServerHello.
type SH struct {
	Version     uint16
	Random      []byte
	SessionID   []byte
	Suite       uint16
	Compression int
	Exts        []Ext
}

func (s *SH) IsHRR() bool { return equal(s.Random, HRRRandom) }

func ParseSH(body []byte) (*SH, error) {
	r := &R{B: body}
	s := &SH{}
	s.Version = uint16(r.U16())
	s.Random = r.N(32)
	s.SessionID = r.V8()
	s.Suite = uint16(r.U16())
	s.Compression = r.U8()
	s.Exts = r.Exts()
	return s, r.Done()
}

func EncSH(s *SH) []byte {
	return Cat(U16(int(s.Version)), s.Random, V8(s.SessionID), U16(int(s.Suite)), U8(s.Compression), Exts(s.Exts))
}

// ParseCert returns request context, DER certificates.
func ParseCert(body []byte) (ctx []byte, ders [][]byte, err error) {
	r := &R{B: body}
	ctx = r.V8()
	l := &R{B: r.V24()}
	for len(l.B) > 0 && l.Err == nil {
		ders = append(ders, l.V24())
		l.V16()
	}
	if l.Err != nil {
		return nil, nil, l.Err
	}
	return ctx, ders, r.Done()
}

func EncCert(ctx []byte, ders [][]byte) []byte { return EncCertX(ctx, ders, nil) }

// EncCertX adds extensions to every entry.
func EncCertX(ctx []byte, ders [][]byte, xs []Ext) []byte {
	var l []byte
	for _, d := range ders {
		l = append(l, V24(d)...)
		l = append(l, Exts(xs)...)
	}
	return Cat(V8(ctx), V24(l))
}
