// Package c10: handshake messages and extensions encode and decode faithfully.
package c10

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"reflect"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

type body interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) (int, error)
}

type verdict int

const (
	reject verdict = iota
	accept
	unclear
)

// A codec couples a library type with a reference for its encoding.
type codec struct {
	name  string
	gen   func(*rapid.T) (val body, want []byte) // want nil: not a legal value
	fresh func() body
	parse func(r *ref.R) verdict // consumes what the value occupies
	loose bool                   // accepted input need not re-encode to itself
}

func opaque(t *rapid.T, label string, lo, hi int) []byte {
	b := h.Data(t, label, hi, lo, lo+1, hi, 32, 33)
	for len(b) < lo {
		b = append(b, 0xa5)
	}
	return b
}

// maybe returns b, or now and then a value outside [lo,hi].
func sized(t *rapid.T, label string, lo, hi int) ([]byte, bool) {
	if rapid.IntRange(0, 19).Draw(t, label+" illegal") == 0 {
		if lo > 0 && (rapid.Bool().Draw(t, label+" short") || hi >= 65535) {
			return make([]byte, rapid.IntRange(0, lo-1).Draw(t, label+" n")), false
		}
		if hi < 65535 {
			return make([]byte, hi+rapid.IntRange(1, 3).Draw(t, label+" n")), false
		}
	}
	if hi > 300 && rapid.IntRange(0, 30).Draw(t, label+" huge") != 0 {
		hi = 300
	}
	return opaque(t, label, lo, hi), true
}

func u16s(t *rapid.T, label string, lo, hi int) []uint16 {
	n := rapid.IntRange(lo, hi).Draw(t, label+" n")
	o := make([]uint16, n)
	for i := range o {
		o[i] = uint16(rapid.SampledFrom([]int{0, 1, 23, 24, 25, 29, 30, 256, 0x0304, 0x0303, 0x1301, 0x1302, 0x0403, 0x0804, 0x0a0a, 0xffff}).Draw(t, label))
		if rapid.IntRange(0, 3).Draw(t, label+" any") == 0 {
			o[i] = uint16(rapid.IntRange(0, 65535).Draw(t, label))
		}
	}
	return o
}

func genExts(t *rapid.T) (mint.ExtensionList, []byte) {
	n := rapid.IntRange(0, 5).Draw(t, "extensions")
	el := mint.ExtensionList{}
	var xs []ref.Ext
	for i := 0; i < n; i++ {
		ty := u16s(t, "type", 1, 1)[0]
		d := opaque(t, "ext", 0, 60)
		el = append(el, mint.Extension{ExtensionType: mint.ExtensionType(ty), ExtensionData: d})
		xs = append(xs, ref.Ext{Type: ty, Data: d})
	}
	return el, ref.Exts(xs)
}

func pExts(r *ref.R) bool { r.Exts(); return r.Err == nil }

func v(ok bool) verdict {
	if ok {
		return accept
	}
	return reject
}

var idents = []h.CertOpts{
	{Key: "p256-0", Names: []string{"a.test"}}, {Key: "rsa0", Names: []string{"a.test"}, Inter: true}, {Key: "p521-0", Names: []string{"b.test"}, CA: "self"},
}

var groupLen = map[uint16]int{29: 32, 23: 65, 24: 97, 25: 133, 256: 256, 257: 384, 258: 512, 259: 768, 260: 1024}

func genShare(t *rapid.T) (mint.KeyShareEntry, []byte, bool) {
	g := rapid.SampledFrom([]uint16{29, 23, 24, 25, 256, 257, 258, 259, 260}).Draw(t, "group")
	n := groupLen[g]
	ok := true
	if rapid.IntRange(0, 19).Draw(t, "bad share") == 0 {
		ok = false
		if rapid.Bool().Draw(t, "one off") {
			n += rapid.SampledFrom([]int{-1, 1}).Draw(t, "off")
		} else {
			n = 0
		}
	}
	d := h.NewRng(rapid.Uint64().Draw(t, "share")).Bytes(n)
	return mint.KeyShareEntry{Group: mint.NamedGroup(g), KeyExchange: d}, ref.Cat(ref.U16(int(g)), ref.V16(d)), ok
}

// pShare follows RFC 8446: shares of groups the receiver does not know have
// any length.
func pShare(r *ref.R, client bool) verdict {
	g := uint16(r.U16())
	d := r.V16()
	if r.Err != nil || len(d) == 0 {
		return reject
	}
	n, known := groupLen[g]
	if known {
		return v(len(d) == n)
	}
	if client {
		return accept
	}
	return unclear
}

func illegal(ok bool, b []byte) []byte {
	if !ok {
		return nil
	}
	if b == nil {
		b = []byte{}
	}
	return b
}

var messages = []codec{
	{name: "ClientHello", fresh: func() body { return &mint.ClientHelloBody{} },
		gen: func(t *rapid.T) (body, []byte) { return genCH(t, 0x0303) },
		parse: func(r *ref.R) verdict {
			return pCH(r, false)
		}},
	{name: "ClientHello(DTLS)", fresh: func() body { return &mint.ClientHelloBody{LegacyVersion: 0xfefd} },
		gen: func(t *rapid.T) (body, []byte) { return genCH(t, 0xfefd) },
		parse: func(r *ref.R) verdict {
			return pCH(r, true)
		}},
	{name: "ServerHello", fresh: func() body { return &mint.ServerHelloBody{} },
		gen: func(t *rapid.T) (body, []byte) {
			sh := &mint.ServerHelloBody{Version: u16s(t, "version", 1, 1)[0], CipherSuite: mint.CipherSuite(u16s(t, "suite", 1, 1)[0]),
				LegacyCompressionMethod: rapid.Byte().Draw(t, "compression")}
			copy(sh.Random[:], h.NewRng(rapid.Uint64().Draw(t, "random")).Bytes(32))
			var ok bool
			sh.LegacySessionID, ok = sized(t, "sid", 0, 32)
			el, xs := genExts(t)
			sh.Extensions = el
			return sh, illegal(ok, ref.Cat(ref.U16(int(sh.Version)), sh.Random[:], ref.V8(sh.LegacySessionID), ref.U16(int(sh.CipherSuite)), []byte{sh.LegacyCompressionMethod}, xs))
		},
		parse: func(r *ref.R) verdict {
			r.N(34)
			sid := r.V8()
			r.N(3)
			return v(pExts(r) && len(sid) <= 32)
		}},
	{name: "EncryptedExtensions", fresh: func() body { return &mint.EncryptedExtensionsBody{} },
		gen: func(t *rapid.T) (body, []byte) {
			el, xs := genExts(t)
			return &mint.EncryptedExtensionsBody{Extensions: el}, xs
		},
		parse: func(r *ref.R) verdict { return v(pExts(r)) }},
	{name: "Certificate", fresh: func() body { return &mint.CertificateBody{} },
		gen: func(t *rapid.T) (body, []byte) {
			c := &mint.CertificateBody{}
			var ok bool
			c.CertificateRequestContext, ok = sized(t, "context", 0, 255)
			var list []byte
			for i := rapid.IntRange(0, 3).Draw(t, "entries"); i > 0; i-- {
				id := h.Cert(rapid.SampledFrom(idents).Draw(t, "cert"))
				el, xs := genExts(t)
				c.CertificateList = append(c.CertificateList, mint.CertificateEntry{CertData: id.Leaf, Extensions: el})
				list = append(list, ref.Cat(ref.V24(id.Leaf.Raw), xs)...)
			}
			return c, illegal(ok, ref.Cat(ref.V8(c.CertificateRequestContext), ref.V24(list)))
		},
		parse: func(r *ref.R) verdict {
			r.V8()
			l := &ref.R{B: r.V24()}
			if r.Err != nil {
				return reject
			}
			for len(l.B) > 0 {
				d := l.V24()
				if !pExts(l) || len(d) == 0 {
					return reject
				}
				if _, err := x509.ParseCertificate(d); err != nil {
					return reject
				}
			}
			return accept
		}},
	{name: "CertificateVerify", fresh: func() body { return &mint.CertificateVerifyBody{} },
		gen: func(t *rapid.T) (body, []byte) {
			sig, ok := sized(t, "sig", 0, 65535)
			c := &mint.CertificateVerifyBody{Algorithm: mint.SignatureScheme(u16s(t, "alg", 1, 1)[0]), Signature: sig}
			return c, illegal(ok, ref.Cat(ref.U16(int(c.Algorithm)), ref.V16(sig)))
		},
		parse: func(r *ref.R) verdict { r.U16(); r.V16(); return v(r.Err == nil) }},
	{name: "CertificateRequest", fresh: func() body { return &mint.CertificateRequestBody{} },
		gen: func(t *rapid.T) (body, []byte) {
			c, ok := sized(t, "context", 0, 255)
			el, xs := genExts(t)
			return &mint.CertificateRequestBody{CertificateRequestContext: c, Extensions: el}, illegal(ok, ref.Cat(ref.V8(c), xs))
		},
		parse: func(r *ref.R) verdict { r.V8(); return v(pExts(r)) }},
	{name: "NewSessionTicket", fresh: func() body { return &mint.NewSessionTicketBody{} },
		gen: func(t *rapid.T) (body, []byte) {
			n := &mint.NewSessionTicketBody{TicketLifetime: rapid.Uint32().Draw(t, "lifetime"), TicketAgeAdd: rapid.Uint32().Draw(t, "add")}
			var ok1, ok2 bool
			n.TicketNonce, ok1 = sized(t, "nonce", 0, 255)
			n.Ticket, ok2 = sized(t, "ticket", 1, 65535)
			el, xs := genExts(t)
			n.Extensions = el
			return n, illegal(ok1 && ok2, ref.Cat(ref.U32(n.TicketLifetime), ref.U32(n.TicketAgeAdd), ref.V8(n.TicketNonce), ref.V16(n.Ticket), xs))
		},
		parse: func(r *ref.R) verdict {
			r.N(8)
			r.V8()
			tk := r.V16()
			return v(pExts(r) && len(tk) > 0)
		}},
	{name: "Finished", fresh: func() body { return &mint.FinishedBody{VerifyDataLen: 32} },
		gen: func(t *rapid.T) (body, []byte) {
			n := rapid.IntRange(0, 10).Draw(t, "len")
			d := h.Data(t, "data", 64, 32, 32, 32, 32, 31, 33, 0)
			_ = n
			return &mint.FinishedBody{VerifyDataLen: 32, VerifyData: d}, illegal(len(d) == 32, d)
		},
		parse: func(r *ref.R) verdict { r.N(32); return v(r.Err == nil) }},
	{name: "KeyUpdate", fresh: func() body { return &mint.KeyUpdateBody{} },
		gen: func(t *rapid.T) (body, []byte) {
			b := byte(rapid.IntRange(0, 1).Draw(t, "request"))
			return &mint.KeyUpdateBody{KeyUpdateRequest: mint.KeyUpdateRequest(b)}, []byte{b}
		},
		parse: func(r *ref.R) verdict {
			b := r.U8()
			if r.Err == nil && b > 1 {
				return unclear
			}
			return v(r.Err == nil)
		}},
	{name: "EndOfEarlyData", fresh: func() body { return &mint.EndOfEarlyDataBody{} },
		gen:   func(t *rapid.T) (body, []byte) { return &mint.EndOfEarlyDataBody{}, []byte{} },
		parse: func(r *ref.R) verdict { return accept }},
}

func genCH(t *rapid.T, ver uint16) (body, []byte) {
	ch := &mint.ClientHelloBody{LegacyVersion: ver}
	copy(ch.Random[:], h.NewRng(rapid.Uint64().Draw(t, "random")).Bytes(32))
	sid, ok := sized(t, "sid", 0, 32)
	ch.LegacySessionID = sid
	suites := u16s(t, "suites", 0, 8)
	for _, s := range suites {
		ch.CipherSuites = append(ch.CipherSuites, mint.CipherSuite(s))
	}
	ok = ok && len(suites) > 0
	el, xs := genExts(t)
	ch.Extensions = el
	var cookie []byte
	if ver == 0xfefd {
		cookie = []byte{0}
	}
	return ch, illegal(ok, ref.Cat(ref.U16(int(ver)), ch.Random[:], ref.V8(sid), cookie, ref.V16(ref.U16s(suites)), []byte{1, 0}, xs))
}

func pCH(r *ref.R, dtls bool) verdict {
	ver := r.U16()
	r.N(32)
	sid := r.V8()
	ck := 0
	if dtls {
		ck = r.U8()
	}
	su := r.V16()
	cm := r.V8()
	if !pExts(r) || len(sid) > 32 || ck != 0 || len(su) < 2 || len(su)%2 != 0 || len(cm) != 1 || cm[0] != 0 {
		return reject
	}
	want := 0x0303
	if dtls {
		want = 0xfefd
	}
	if ver != want {
		return unclear // a version this library never speaks
	}
	return accept
}

var extensions = []codec{
	{name: "server_name", loose: true, fresh: func() body { return new(mint.ServerNameExtension) },
		gen: func(t *rapid.T) (body, []byte) {
			n, ok := sized(t, "name", 1, 65532)
			s := mint.ServerNameExtension(n)
			return &s, illegal(ok, ref.V16(ref.Cat([]byte{0}, ref.V16(n))))
		},
		parse: func(r *ref.R) verdict {
			l := &ref.R{B: r.V16()}
			if r.Err != nil || len(l.B) == 0 {
				return reject
			}
			first := true
			n := 0
			for len(l.B) > 0 {
				ty := l.U8()
				d := l.V16()
				if l.Err != nil || len(d) == 0 || first && ty != 0 {
					return reject
				}
				first = false
				n++
			}
			if n > 1 {
				return unclear
			}
			return accept
		}},
	{name: "key_share(client)", fresh: func() body { return &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeClientHello} },
		gen: func(t *rapid.T) (body, []byte) {
			k := &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeClientHello}
			ok := true
			var l []byte
			for i := rapid.IntRange(0, 3).Draw(t, "shares"); i > 0; i-- {
				e, b, o := genShare(t)
				ok = ok && o
				k.Shares = append(k.Shares, e)
				l = append(l, b...)
			}
			return k, illegal(ok, ref.V16(l))
		},
		parse: func(r *ref.R) verdict {
			l := &ref.R{B: r.V16()}
			if r.Err != nil {
				return reject
			}
			for len(l.B) > 0 {
				if x := pShare(l, true); x != accept {
					return x
				}
			}
			return accept
		}},
	{name: "key_share(server)", fresh: func() body { return &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeServerHello} },
		gen: func(t *rapid.T) (body, []byte) {
			e, b, ok := genShare(t)
			k := &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeServerHello, Shares: []mint.KeyShareEntry{e}}
			if rapid.IntRange(0, 15).Draw(t, "two") == 0 {
				k.Shares = append(k.Shares, e)
				ok = false
			}
			return k, illegal(ok, b)
		},
		parse: func(r *ref.R) verdict {
			if x := pShare(r, false); x != unclear {
				return x
			}
			return reject
		}},
	{name: "key_share(retry)", fresh: func() body { return &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeHelloRetryRequest} },
		gen: func(t *rapid.T) (body, []byte) {
			g := u16s(t, "group", 1, 1)[0]
			return &mint.KeyShareExtension{HandshakeType: mint.HandshakeTypeHelloRetryRequest, SelectedGroup: mint.NamedGroup(g)}, ref.U16(int(g))
		},
		parse: func(r *ref.R) verdict { r.U16(); return v(r.Err == nil) }},
	{name: "supported_groups", fresh: func() body { return &mint.SupportedGroupsExtension{} },
		gen: func(t *rapid.T) (body, []byte) {
			l := u16s(t, "groups", 0, 10)
			x := &mint.SupportedGroupsExtension{}
			for _, g := range l {
				x.Groups = append(x.Groups, mint.NamedGroup(g))
			}
			return x, illegal(len(l) > 0, ref.V16(ref.U16s(l)))
		},
		parse: func(r *ref.R) verdict { b := r.V16(); return v(r.Err == nil && len(b) >= 2 && len(b)%2 == 0) }},
	{name: "signature_algorithms", fresh: func() body { return &mint.SignatureAlgorithmsExtension{} },
		gen: func(t *rapid.T) (body, []byte) {
			l := u16s(t, "algs", 0, 10)
			x := &mint.SignatureAlgorithmsExtension{}
			for _, g := range l {
				x.Algorithms = append(x.Algorithms, mint.SignatureScheme(g))
			}
			return x, illegal(len(l) > 0, ref.V16(ref.U16s(l)))
		},
		parse: func(r *ref.R) verdict { b := r.V16(); return v(r.Err == nil && len(b) >= 2 && len(b)%2 == 0) }},
	{name: "pre_shared_key(client)", fresh: func() body { return &mint.PreSharedKeyExtension{HandshakeType: mint.HandshakeTypeClientHello} },
		gen: func(t *rapid.T) (body, []byte) {
			x := &mint.PreSharedKeyExtension{HandshakeType: mint.HandshakeTypeClientHello}
			var ids, bs []byte
			n := rapid.IntRange(0, 4).Draw(t, "ids")
			ok := n > 0
			for i := 0; i < n; i++ {
				id, ok1 := sized(t, "id", 1, 65529)
				if n > 1 && len(id) > 1000 {
					id, ok1 = id[:1000], true
				}
				b, ok2 := sized(t, "binder", 32, 255)
				age := rapid.Uint32().Draw(t, "age")
				ok = ok && ok1 && ok2
				x.Identities = append(x.Identities, mint.PSKIdentity{Identity: id, ObfuscatedTicketAge: age})
				x.Binders = append(x.Binders, mint.PSKBinderEntry{Binder: b})
				ids = append(ids, ref.Cat(ref.V16(id), ref.U32(age))...)
				bs = append(bs, ref.V8(b)...)
			}
			return x, illegal(ok, ref.Cat(ref.V16(ids), ref.V16(bs)))
		},
		parse: func(r *ref.R) verdict {
			ids := &ref.R{B: r.V16()}
			bs := &ref.R{B: r.V16()}
			if r.Err != nil || len(ids.B) < 7 || len(bs.B) < 33 {
				return reject
			}
			n, m := 0, 0
			for len(ids.B) > 0 {
				if d := ids.V16(); len(d) == 0 {
					return reject
				}
				ids.N(4)
				if ids.Err != nil {
					return reject
				}
				n++
			}
			for len(bs.B) > 0 {
				if d := bs.V8(); bs.Err != nil || len(d) < 32 {
					return reject
				}
				m++
			}
			return v(n == m)
		}},
	{name: "pre_shared_key(server)", fresh: func() body { return &mint.PreSharedKeyExtension{HandshakeType: mint.HandshakeTypeServerHello} },
		gen: func(t *rapid.T) (body, []byte) {
			g := u16s(t, "index", 1, 1)[0]
			return &mint.PreSharedKeyExtension{HandshakeType: mint.HandshakeTypeServerHello, SelectedIdentity: g}, ref.U16(int(g))
		},
		parse: func(r *ref.R) verdict { r.U16(); return v(r.Err == nil) }},
	{name: "psk_key_exchange_modes", fresh: func() body { return &mint.PSKKeyExchangeModesExtension{} },
		gen: func(t *rapid.T) (body, []byte) {
			l := opaque(t, "modes", 0, 6)
			x := &mint.PSKKeyExchangeModesExtension{}
			for _, g := range l {
				x.KEModes = append(x.KEModes, mint.PSKKeyExchangeMode(g))
			}
			return x, illegal(len(l) > 0, ref.V8(l))
		},
		parse: func(r *ref.R) verdict { b := r.V8(); return v(r.Err == nil && len(b) >= 1) }},
	{name: "early_data", fresh: func() body { return &mint.EarlyDataExtension{} },
		gen:   func(t *rapid.T) (body, []byte) { return &mint.EarlyDataExtension{}, []byte{} },
		parse: func(r *ref.R) verdict { return accept }},
	{name: "ticket early data", fresh: func() body { return &mint.TicketEarlyDataInfoExtension{} },
		gen: func(t *rapid.T) (body, []byte) {
			n := rapid.Uint32().Draw(t, "n")
			return &mint.TicketEarlyDataInfoExtension{MaxEarlyDataSize: n}, ref.U32(n)
		},
		parse: func(r *ref.R) verdict { r.N(4); return v(r.Err == nil) }},
	{name: "alpn", fresh: func() body { return &mint.ALPNExtension{} },
		gen: func(t *rapid.T) (body, []byte) {
			x := &mint.ALPNExtension{}
			ok := true
			var l []byte
			n := rapid.IntRange(0, 5).Draw(t, "protocols")
			for i := 0; i < n; i++ {
				p, o := sized(t, "protocol", 1, 255)
				ok = ok && o
				x.Protocols = append(x.Protocols, string(p))
				if o {
					l = append(l, ref.V8(p)...)
				}
			}
			return x, illegal(ok && n > 0, ref.V16(l))
		},
		parse: func(r *ref.R) verdict {
			l := &ref.R{B: r.V16()}
			if r.Err != nil || len(l.B) < 2 {
				return reject
			}
			for len(l.B) > 0 {
				if d := l.V8(); l.Err != nil || len(d) == 0 {
					return reject
				}
			}
			return accept
		}},
	{name: "supported_versions(client)", fresh: func() body { return &mint.SupportedVersionsExtension{HandshakeType: mint.HandshakeTypeClientHello} },
		gen: func(t *rapid.T) (body, []byte) {
			l := u16s(t, "versions", 0, 6)
			if rapid.IntRange(0, 19).Draw(t, "many") == 0 {
				l = make([]uint16, rapid.IntRange(126, 129).Draw(t, "n"))
			}
			return &mint.SupportedVersionsExtension{HandshakeType: mint.HandshakeTypeClientHello, Versions: l},
				illegal(len(l) > 0 && len(l) <= 127, ref.Cat([]byte{byte(2 * len(l))}, ref.U16s(l)))
		},
		parse: func(r *ref.R) verdict {
			b := r.V8()
			return v(r.Err == nil && len(b) >= 2 && len(b) <= 254 && len(b)%2 == 0)
		}},
	{name: "supported_versions(server)", fresh: func() body { return &mint.SupportedVersionsExtension{HandshakeType: mint.HandshakeTypeServerHello} },
		gen: func(t *rapid.T) (body, []byte) {
			g := u16s(t, "version", 1, 1)
			return &mint.SupportedVersionsExtension{HandshakeType: mint.HandshakeTypeServerHello, Versions: g}, ref.U16s(g)
		},
		parse: func(r *ref.R) verdict { r.U16(); return v(r.Err == nil) }},
	{name: "cookie", fresh: func() body { return &mint.CookieExtension{} },
		gen: func(t *rapid.T) (body, []byte) {
			c, ok := sized(t, "cookie", 1, 65535)
			return &mint.CookieExtension{Cookie: c}, illegal(ok, ref.V16(c))
		},
		parse: func(r *ref.R) verdict { c := r.V16(); return v(r.Err == nil && len(c) > 0) }},
	{name: "extension", fresh: func() body { return &mint.Extension{} },
		gen: func(t *rapid.T) (body, []byte) {
			ty := u16s(t, "type", 1, 1)[0]
			d, ok := sized(t, "data", 0, 65535)
			return &mint.Extension{ExtensionType: mint.ExtensionType(ty), ExtensionData: d}, illegal(ok, ref.Cat(ref.U16(int(ty)), ref.V16(d)))
		},
		parse: func(r *ref.R) verdict { r.U16(); r.V16(); return v(r.Err == nil) }},
	{name: "extension list", fresh: func() body { return &mint.ExtensionList{} },
		gen: func(t *rapid.T) (body, []byte) {
			el, xs := genExts(t)
			return &el, xs
		},
		parse: func(r *ref.R) verdict { return v(pExts(r)) }},
}

func sv(v any) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func brief(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x..(%d)", b[:80], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func sameValue(a, b any) bool {
	x, ok1 := a.(*mint.CertificateBody)
	y, ok2 := b.(*mint.CertificateBody)
	if ok1 && ok2 {
		if len(x.CertificateList) != len(y.CertificateList) || !bytes.Equal(x.CertificateRequestContext, y.CertificateRequestContext) {
			return false
		}
		for i := range x.CertificateList {
			p, q := x.CertificateList[i], y.CertificateList[i]
			if !bytes.Equal(p.CertData.Raw, q.CertData.Raw) || !h.Same(&p.Extensions, &q.Extensions) {
				return false
			}
		}
		return true
	}
	return h.Same(a, b)
}

func check(t *rapid.T, c *codec) {
	val, want := c.gen(t)
	got, err := val.Marshal()
	if (err == nil) != (want != nil) || err == nil && !bytes.Equal(got, want) {
		t.Fatalf("%s %s: Marshal %s, %v; want %s (legal %v)", c.name, sv(val), brief(got), err, brief(want), want != nil)
	}
	h.Label("%s", c.name)
	if want == nil {
		h.Case(true, "%s illegal %s", c.name, sv(val))
		return
	}
	h.Case(len(want) > 0, "%s %s", c.name, brief(want))
	tail := rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "tail")
	in := append(append([]byte{}, want...), tail...)
	keep := append([]byte{}, in...)
	out := c.fresh()
	n, err := out.Unmarshal(in)
	if err != nil || n != len(want) || !sameValue(out, val) {
		t.Fatalf("%s: %s (and %d more) decodes to %s, %d, %v; want %s, %d", c.name, brief(want), len(tail), sv(out), n, err, sv(val), len(want))
	}
	if !bytes.Equal(in, keep) {
		t.Fatalf("%s: Unmarshal changed its input", c.name)
	}
	// The decoded value does not alias memory in a way that matters: damage the input.
	for i := range in {
		in[i] ^= 0xff
	}
	if again, err := out.Marshal(); err != nil || !bytes.Equal(again, want) {
		t.Fatalf("%s: %s decodes but re-encodes to %s, %v", c.name, brief(want), brief(again), err)
	}
	// Damaged encodings.
	for i := 0; i < 3; i++ {
		var in []byte
		if i == 0 && rapid.IntRange(0, 4).Draw(t, "random") == 0 {
			in = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
		} else {
			in = h.Mutate(t, want)
		}
		r := &ref.R{B: in}
		vd := c.parse(r)
		wn := len(in) - len(r.B)
		keep := append([]byte{}, in...)
		out := c.fresh()
		n, err := out.Unmarshal(in)
		if !bytes.Equal(in, keep) {
			t.Fatalf("%s: Unmarshal changed its input", c.name)
		}
		h.Label("mutant accepted=%v", err == nil)
		if vd == unclear {
			continue
		}
		if (err == nil) != (vd == accept) {
			t.Fatalf("%s: %s: Unmarshal %s, %d, %v; reference accepts: %v", c.name, brief(in), sv(out), n, err, vd == accept)
		}
		if err != nil {
			continue
		}
		if n != wn {
			t.Fatalf("%s: %x: Unmarshal consumed %d, reference %d", c.name, in, n, wn)
		}
		if !c.loose {
			if b, err := out.Marshal(); err == nil && !bytes.Equal(b, in[:n]) {
				t.Fatalf("%s: %s decodes to %s, which encodes to %s", c.name, brief(in[:n]), sv(out), brief(b))
			}
		}
	}
}

func TestMessages(t *testing.T) {
	h.Check(t, 15000, 250000, func(t *rapid.T) {
		check(t, &messages[rapid.IntRange(0, len(messages)-1).Draw(t, "message")])
	})
}

func TestExtensions(t *testing.T) {
	h.Check(t, 15000, 250000, func(t *rapid.T) {
		check(t, &extensions[rapid.IntRange(0, len(extensions)-1).Draw(t, "extension")])
	})
}

// ExtensionList.Add, Find and Parse against a simple model.
func TestExtensionList(t *testing.T) {
	h.Check(t, 6000, 100000, func(t *rapid.T) {
		var el mint.ExtensionList
		type entry struct {
			ty   uint16
			data []byte
		}
		var model []entry
		for i := rapid.IntRange(0, 8).Draw(t, "ops"); i > 0; i-- {
			c := &extensions[rapid.IntRange(0, len(extensions)-3).Draw(t, "ext")]
			val, want := c.gen(t)
			x, ok := val.(mint.ExtensionBody)
			if !ok {
				continue
			}
			err := el.Add(x)
			if (err == nil) != (want != nil) {
				t.Fatalf("Add(%s %s): %v", c.name, sv(val), err)
			}
			if want == nil {
				continue
			}
			found := false
			for i := range model {
				if model[i].ty == uint16(x.Type()) {
					model[i].data = want
					found = true
				}
			}
			if !found {
				model = append(model, entry{uint16(x.Type()), want})
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "duplicate") == 0 && len(el) > 0 {
			e := el[rapid.IntRange(0, len(el)-1).Draw(t, "which")]
			el = append(el, e)
			model = append(model, entry{uint16(e.ExtensionType), e.ExtensionData})
		}
		h.Case(len(model) > 1, "%.2000s", fmt.Sprintf("%x", model))
		if len(el) != len(model) {
			t.Fatalf("list %v, model %v", el, model)
		}
		for i, m := range model {
			if uint16(el[i].ExtensionType) != m.ty || !bytes.Equal(el[i].ExtensionData, m.data) {
				t.Fatalf("entry %d: %v, want %v", i, el[i], m)
			}
		}
		// Look everything up.
		var dsts []mint.ExtensionBody
		wantErr := false
		found := map[mint.ExtensionType]bool{}
		seen := map[uint16]bool{}
		for i := range extensions[:len(extensions)-2] {
			c := &extensions[i]
			dst := c.fresh().(mint.ExtensionBody)
			var first []byte
			count := 0
			for _, m := range model {
				if m.ty == uint16(dst.Type()) {
					if count++; count == 1 {
						first = m.data
					}
				}
			}
			ok := first != nil
			vd := accept
			if ok {
				r := &ref.R{B: first}
				if vd = c.parse(r); vd == accept && len(r.B) > 0 {
					vd = reject
				}
			}
			got, err := el.Find(dst)
			if got != ok {
				t.Fatalf("Find(%s) = %v, want %v", c.name, got, ok)
			}
			if ok && vd != unclear && (err == nil) != (vd == accept) {
				t.Fatalf("Find(%s) on %.300x: %v, want accept=%v", c.name, first, err, vd == accept)
			}
			if !ok && err != nil {
				t.Fatalf("Find(%s): absent but %v", c.name, err)
			}
			if seen[uint16(dst.Type())] {
				continue
			}
			if vd == unclear || rapid.IntRange(0, 3).Draw(t, "leave out") == 0 {
				continue
			}
			seen[uint16(dst.Type())] = true
			dsts = append(dsts, c.fresh().(mint.ExtensionBody))
			if ok {
				found[dst.Type()] = true
				if vd == reject || count > 1 {
					wantErr = true
				}
			}
		}
		res, err := el.Parse(dsts)
		if (err != nil) != wantErr {
			t.Fatalf("Parse: %v, %v; want error %v; list %.1000s", res, err, wantErr, fmt.Sprintf("%x", model))
		}
		if err == nil {
			for k, b := range res {
				if b && !found[k] {
					t.Fatalf("Parse found %v", k)
				}
			}
			for k := range found {
				if !res[k] {
					t.Fatalf("Parse missed %v", k)
				}
			}
		}
	})
}

type rw struct{ bytes.Buffer }

// Messages written by a handshake layer make up, over its records, exactly the
// stream of their encodings, and each converts back to its body.
func TestStream(t *testing.T) {
	h.Check(t, 3000, 50000, func(t *rapid.T) {
		pipe := &rw{}
		w := mint.NewHandshakeLayerTLS(&mint.HandshakeContext{}, mint.NewRecordLayerTLS(pipe, mint.DirectionWrite))
		var vals []body
		var hms []*mint.HandshakeMessage
		var want []byte
		for i := rapid.IntRange(1, 5).Draw(t, "messages"); i > 0; i-- {
			c := &messages[rapid.IntRange(0, len(messages)-1).Draw(t, "message")]
			if c.name == "ClientHello(DTLS)" {
				continue
			}
			val, enc := c.gen(t)
			if enc == nil {
				continue
			}
			hm, err := w.HandshakeMessageFromBody(derefBody(val))
			if err != nil {
				t.Fatalf("HandshakeMessageFromBody(%s): %v", sv(val), err)
			}
			m := ref.Msg(byte(derefBody(val).Type()), enc)
			if !bytes.Equal(hm.Marshal(), m) {
				t.Fatalf("message %s, want %s", brief(hm.Marshal()), brief(m))
			}
			want = append(want, m...)
			vals = append(vals, val)
			hms = append(hms, hm)
		}
		if rapid.Bool().Draw(t, "together") {
			if _, err := w.WriteMessages(hms); err != nil {
				t.Fatalf("WriteMessages: %v", err)
			}
		} else {
			for _, hm := range hms {
				if _, err := w.WriteMessage(hm); err != nil {
					t.Fatalf("WriteMessage: %v", err)
				}
			}
		}
		// What went out, as one stream of handshake bytes.
		var stream []byte
		b := pipe.Bytes()
		nrec := 0
		for len(b) > 0 {
			raw, rest := ref.SplitTLS(b)
			if raw == nil || raw[0] != 22 || len(raw) > 5+1<<14 {
				t.Fatalf("bad record in %s", brief(b))
			}
			stream = append(stream, raw[5:]...)
			b = rest
			nrec++
		}
		if !bytes.Equal(stream, want) {
			t.Fatalf("stream %s, want %s", brief(stream), brief(want))
		}
		for i, val := range vals {
			got, err := hms[i].ToBody()
			if err != nil || !sameValue(got, val) {
				t.Fatalf("message %d: %s, %v; want %s", i, sv(got), err, sv(val))
			}
		}
		h.Case(len(vals) > 1 || nrec > 1, "messages=%d records=%d %s", len(vals), nrec, brief(stream))
	})
}

func derefBody(b body) mint.HandshakeMessageBody {
	return b.(mint.HandshakeMessageBody)
}

var _ = reflect.DeepEqual
