// Package c28: a server uses a pre-shared key only when the client proved
// knowledge of it.
package c28

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// key is a pre-shared key the server knows.
type key struct {
	ref.PSK
	received int // age in milliseconds
}

// offer is one identity of a hello.
type offer struct {
	p    *ref.PSK
	k    *key // the server's key of this identity, if it has one
	ok   bool // as the server's key says
	desc string
}

type damage struct {
	name  string
	apply func(d *drawn) bool // false: not applicable
}

// drawn is a case under construction.
type drawn struct {
	r        *h.Rng
	offers   []offer
	deciding int // index of the first identity the server knows, or -1
	c        *ref.Client
	target   int // which hello is damaged: 0 the only or last one, 1 both
	retry    bool
	n        int // hellos built
	note     string
}

func (d *drawn) hit() bool { return !d.retry || d.target == 1 || d.n == 2 }

// pskExt finds the PSK extension in a hello body.
func pskExt(body []byte, dtls bool) (start int, ids [][]byte, ages [][]byte, binders [][]byte) {
	p := extsAt(body, dtls)
	xs := (&ref.R{B: body[p:]}).Exts()
	x := xs[len(xs)-1]
	if x.Type != ref.XPSK {
		panic("HARNESS-ERROR no PSK extension")
	}
	rd := &ref.R{B: x.Data}
	l := &ref.R{B: rd.V16()}
	for len(l.B) > 0 {
		ids = append(ids, append([]byte{}, l.V16()...))
		ages = append(ages, append([]byte{}, l.N(4)...))
	}
	b := &ref.R{B: rd.V16()}
	for len(b.B) > 0 {
		binders = append(binders, append([]byte{}, b.V8()...))
	}
	return len(body) - len(x.Data), ids, ages, binders
}

func extsAt(body []byte, dtls bool) int {
	rd := &ref.R{B: body}
	rd.N(34)
	rd.V8()
	if dtls {
		rd.V8()
	}
	rd.V16()
	rd.V8()
	return len(body) - len(rd.B)
}

// rebuild writes a hello body with another PSK extension.
func rebuild(body []byte, dtls bool, ids, ages, binders [][]byte, before, after []ref.Ext) []byte {
	p := extsAt(body, dtls)
	xs := (&ref.R{B: body[p:]}).Exts()
	xs = xs[:len(xs)-1]
	var a, b []byte
	for i := range ids {
		a = append(append(a, ref.V16(ids[i])...), ages[i]...)
	}
	for _, x := range binders {
		b = append(b, ref.V8(x)...)
	}
	xs = append(xs, before...)
	xs = append(xs, ref.Ext{Type: ref.XPSK, Data: ref.Cat(ref.V16(a), ref.V16(b))})
	xs = append(xs, after...)
	return append(append([]byte{}, body[:p]...), ref.Exts(xs)...)
}

func onHello(d *drawn, f func(body []byte) []byte) bool {
	d.c.Cfg.CHHook = func(b []byte) []byte {
		if d.n++; d.hit() {
			return f(b)
		}
		return b
	}
	return true
}

func onBinders(d *drawn, f func(b [][]byte)) bool {
	d.c.Cfg.BinderHook = func(b [][]byte) {
		if d.n++; d.hit() {
			f(b)
		}
	}
	return true
}

var damages = []damage{
	{"binder byte", func(d *drawn) bool {
		p, x := d.r.IntN(1000), byte(1)<<d.r.IntN(8)
		return onBinders(d, func(b [][]byte) {
			k := b[d.deciding]
			k[p%len(k)] ^= x
			d.note = fmt.Sprintf("%d", p%len(k))
		})
	}},
	{"binder zero", func(d *drawn) bool {
		return onBinders(d, func(b [][]byte) { clear(b[d.deciding]) })
	}},
	{"binder of another identity", func(d *drawn) bool {
		if len(d.offers) < 2 {
			return false
		}
		j := (d.deciding + 1 + d.r.IntN(len(d.offers)-1)) % len(d.offers)
		return onBinders(d, func(b [][]byte) { b[d.deciding] = append([]byte{}, b[j]...) })
	}},
	{"binder shortened", func(d *drawn) bool {
		n := 31 - d.r.IntN(32)
		if d.r.IntN(2) == 0 {
			n = 32 + d.r.IntN(16)
		}
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			k := b[d.deciding]
			b[d.deciding] = k[:min(n, len(k)-1)]
			d.note = fmt.Sprintf("to %d of %d", len(b[d.deciding]), len(k))
			return rebuild(body, d.c.DTLS, i, a, b, nil, nil)
		})
	}},
	{"binder extended", func(d *drawn) bool {
		x := d.r.Bytes(1 + d.r.IntN(20))
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			b[d.deciding] = append(b[d.deciding], x...)
			return rebuild(body, d.c.DTLS, i, a, b, nil, nil)
		})
	}},
	{"binder cut or extended honestly", func(d *drawn) bool {
		x := d.r.IntN(64)
		d.c.Cfg.BinderLen = func(i, n int) int {
			if i == 0 {
				d.n++
			}
			if i != d.deciding || !d.hit() {
				return n
			}
			m := 32 + x%17 // below 32 it is malformed anyway
			if x < 8 {
				m = x * 4
			}
			if m == n {
				m++
			}
			d.note = fmt.Sprintf("%d instead of %d", m, n)
			return m
		}
		return true
	}},
	{"binder missing", func(d *drawn) bool {
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			b = append(b[:d.deciding:d.deciding], b[d.deciding+1:]...)
			if len(b) == 0 && d.r.IntN(2) == 0 {
				b = nil
			}
			return rebuild(body, d.c.DTLS, i, a, b, nil, nil)
		})
	}},
	{"binders rotated", func(d *drawn) bool {
		if len(d.offers) < 2 {
			return false
		}
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			return rebuild(body, d.c.DTLS, i, a, append(b[1:], b[0]), nil, nil)
		})
	}},
	{"other key", func(d *drawn) bool {
		o := &d.offers[d.deciding]
		p := *o.p
		p.Key = append([]byte{}, p.Key...)
		switch d.r.IntN(5) {
		case 0:
			p.Key[d.r.IntN(len(p.Key))] ^= byte(1) << d.r.IntN(8)
		case 1:
			p.Key = append(p.Key, byte(1+d.r.IntN(255)))
		case 2: // HMAC pads keys with zeros, so shorten to something else
			if len(p.Key) < 2 || p.Key[len(p.Key)-1] == 0 {
				return false
			}
			p.Key = p.Key[:len(p.Key)-1]
		case 3:
			if len(bytes.Trim(p.Key, "\x00")) == 0 {
				return false
			}
			p.Key = make([]byte, len(p.Key))
		case 4:
			p.Key = d.r.Bytes(32)
		}
		o.p = &p
		return true
	}},
	{"key of another identity", func(d *drawn) bool {
		o := &d.offers[d.deciding]
		for _, x := range d.offers {
			if !bytes.Equal(x.p.Key, o.p.Key) {
				p := *o.p
				p.Key = x.p.Key
				o.p = &p
				return true
			}
		}
		return false
	}},
	{"other binder label", func(d *drawn) bool {
		o := &d.offers[d.deciding]
		p := *o.p
		p.Resumption = !p.Resumption
		o.p = &p
		return true
	}},
	{"other hash", func(d *drawn) bool {
		o := &d.offers[d.deciding]
		p := *o.p
		if p.Suite == 0x1302 {
			p.Suite = 0x1301
		} else {
			p.Suite = 0x1302
		}
		o.p = &p
		return true
	}},
	{"unknown identity", func(d *drawn) bool {
		o := &d.offers[d.deciding]
		for i := range d.offers {
			if i != d.deciding && d.offers[i].k != nil {
				return false
			}
		}
		p := *o.p
		p.ID = append([]byte{}, p.ID...)
		switch d.r.IntN(3) {
		case 0:
			p.ID[d.r.IntN(len(p.ID))] ^= byte(1) << d.r.IntN(8)
		case 1:
			p.ID = append(p.ID, 0)
		case 2:
			p.ID = []byte(hex.EncodeToString(p.ID))
		}
		for i := range d.offers {
			if d.offers[i].k != nil && bytes.Equal(p.ID, d.offers[i].k.ID) {
				return false
			}
		}
		o.p = &p
		return true
	}},
	{"identity renamed after binding", func(d *drawn) bool {
		x := d.r.Bytes(6)
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			for j := range i { // every other identity too, so that none is left
				if d.offers[j].k != nil {
					i[j] = x
				}
			}
			return rebuild(body, d.c.DTLS, i, a, b, nil, nil)
		})
	}},
	{"identity moved after binding", func(d *drawn) bool {
		if len(d.offers) < 2 {
			return false
		}
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			return rebuild(body, d.c.DTLS, append(i[1:], i[0]), append(a[1:], a[0]), append(b[1:], b[0]), nil, nil)
		})
	}},
	{"identity removed after binding", func(d *drawn) bool {
		if len(d.offers) < 2 {
			return false
		}
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			j := (d.deciding + 1) % len(i)
			return rebuild(body, d.c.DTLS, append(i[:j:j], i[j+1:]...), append(a[:j:j], a[j+1:]...), append(b[:j:j], b[j+1:]...), nil, nil)
		})
	}},
	{"age altered after binding", func(d *drawn) bool {
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			a[d.r.IntN(len(a))][3] ^= byte(1 + d.r.IntN(255)) // less than the tolerance
			return rebuild(body, d.c.DTLS, i, a, b, nil, nil)
		})
	}},
	{"random altered after binding", func(d *drawn) bool {
		return onHello(d, func(body []byte) []byte {
			body[2+d.r.IntN(32)] ^= byte(1) << d.r.IntN(8)
			return body
		})
	}},
	{"session id altered after binding", func(d *drawn) bool {
		d.c.Cfg.SessionID = d.r.Bytes(32)
		return onHello(d, func(body []byte) []byte {
			body[35+d.r.IntN(32)] ^= 1
			copy(d.c.Cfg.SessionID, body[35:])
			return body
		})
	}},
	{"extension inserted after binding", func(d *drawn) bool {
		x := ref.Ext{Type: []uint16{0x1234, 0xff00, 0x0a0a}[d.r.IntN(3)], Data: d.r.Bytes(d.r.IntN(9))}
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			return rebuild(body, d.c.DTLS, i, a, b, []ref.Ext{x}, nil)
		})
	}},
	{"extension appended after the PSKs", func(d *drawn) bool {
		x := ref.Ext{Type: []uint16{0x1234, 0xff00, 0x0a0a}[d.r.IntN(3)], Data: d.r.Bytes(d.r.IntN(9))}
		return onHello(d, func(body []byte) []byte {
			_, i, a, b := pskExt(body, d.c.DTLS)
			return rebuild(body, d.c.DTLS, i, a, b, nil, []ref.Ext{x})
		})
	}},
	{"extension data altered after binding", func(d *drawn) bool {
		d.c.Cfg.Extra = append(d.c.Cfg.Extra, ref.Ext{Type: 0x1234, Data: []byte("0123456789abcdef")})
		return onHello(d, func(body []byte) []byte {
			i := bytes.Index(body, []byte("0123456789abcdef"))
			body[i+d.r.IntN(16)] ^= 1
			return body
		})
	}},
	{"cipher suite added after binding", func(d *drawn) bool {
		return onHello(d, func(body []byte) []byte {
			o := 35 + int(body[34])
			if d.c.DTLS {
				o += 1 + int(body[o])
			}
			n := int(body[o])<<8 | int(body[o+1])
			return ref.Cat(body[:o], ref.V16(ref.Cat(body[o+2:o+2+n], []byte{0x13, 0x05})), body[o+2+n:])
		})
	}},
	{"no modes", func(d *drawn) bool { d.c.Cfg.Modes = nil; return true }},
	{"unknown modes", func(d *drawn) bool {
		d.c.Cfg.Modes = d.r.Bytes(1 + d.r.IntN(3))
		for i := range d.c.Cfg.Modes {
			d.c.Cfg.Modes[i] |= 2
		}
		return true
	}},
	{"age outside the tolerance", func(d *drawn) bool {
		o := &d.offers[d.deciding]
		if !o.k.Resumption {
			return false
		}
		p := *o.p
		switch d.r.IntN(7) {
		case 0, 1:
			p.Age += 9000 + uint32(d.r.IntN(100000))
		case 2, 3:
			p.Age -= 9000 + uint32(d.r.IntN(100000)) // may wrap
		case 4:
			p.Age = u32(d.r)
			if x := int32(p.Age - uint32(o.k.received)); x > -9000 && x < 9000 {
				return false
			}
		case 5: // not obfuscated
			if a := int32(p.AgeAdd); a > -9000 && a < 9000 {
				return false
			}
			p.AgeAdd = 0
		case 6: // equal in its low bits
			p.Age += 1 << (14 + d.r.IntN(18))
		}
		o.p = &p
		return true
	}},
	{"binder over this hello only", func(d *drawn) bool {
		d.c.Cfg.BinderCtx = func(ctx, hello []byte) []byte { return hello }
		return d.retry
	}},
	{"binder over an altered exchange", func(d *drawn) bool {
		p, x := d.r.IntN(1000), byte(1)<<d.r.IntN(8)
		d.c.Cfg.BinderCtx = func(ctx, hello []byte) []byte {
			if len(ctx) == len(hello) && d.retry {
				return ctx
			}
			c := append([]byte{}, ctx...)
			if n := len(ctx) - len(hello); n > 0 { // the retry part
				c[p%n] ^= x
			} else {
				c[p%len(c)] ^= x
			}
			return c
		}
		return true
	}},
	{"binder over the whole hello", func(d *drawn) bool {
		d.c.Cfg.BinderCtx = func(ctx, hello []byte) []byte { return append(append([]byte{}, ctx...), 0) }
		return true
	}},
}

// TestOffer: an independent client offers keys, honestly or not.
func TestOffer(t *testing.T) {
	h.Check(t, 2500, 50000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoPSK: true})
		// Offer and support every suite so that the keys' are among them.
		s.CSuites = rapid.Permutation([]mint.CipherSuite{0x1301, 0x1302, 0x1303}).Draw(t, "suites")
		s.SSuites = s.CSuites
		suites := []uint16{0x1301, 0x1302}
		for i := 0; i < len(s.CSuites); i++ { // which of them exist
			if ref.SuiteByID(uint16(s.CSuites[i])) == nil || s.CSuites[i] == 0x1303 {
				s.CSuites = append(s.CSuites[:i:i], s.CSuites[i+1:]...)
				i--
			}
		}
		s.SSuites = s.CSuites
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		_, sc := s.Configs()
		d := &drawn{r: r, deciding: -1, retry: s.Predict().HRR}
		var keys []*key
		for i := rapid.IntRange(1, 4).Draw(t, "keys"); i > 0; i-- {
			k := &key{PSK: ref.PSK{ID: r.Bytes(1 + r.IntN(20)), Key: r.Bytes(1 + r.IntN(64)), Suite: suites[r.IntN(2)], Resumption: r.IntN(2) == 0}}
			if r.IntN(6) == 0 {
				k.Key = make([]byte, 16) // a weak key is a key
				k.Key[0] = byte(i)
			}
			m := mint.PreSharedKey{CipherSuite: mint.CipherSuite(k.Suite), IsResumption: k.Resumption, Identity: k.ID, Key: k.Key}
			if k.Resumption {
				k.AgeAdd = u32(r)
				k.received = []int{0, 1000, 60000, 7 * 86400000}[r.IntN(4)]
				k.Age = uint32(k.received)
				m.TicketAgeAdd = k.AgeAdd
				m.ReceivedAt = time.Now().Add(-time.Duration(k.received) * time.Millisecond)
				m.ExpiresAt = time.Now().Add(24 * time.Hour)
			}
			dup := false
			for _, o := range keys {
				dup = dup || bytes.Equal(o.ID, k.ID)
			}
			if dup {
				continue
			}
			sc.PSKs.Put(hex.EncodeToString(k.ID), m)
			keys = append(keys, k)
		}
		for i := rapid.IntRange(1, 5).Draw(t, "identities"); i > 0; i-- {
			if rapid.Bool().Draw(t, "known") {
				k := keys[r.IntN(len(keys))]
				for _, o := range d.offers {
					if o.k == k {
						k = nil
						break
					}
				}
				if k == nil { // once is enough
					continue
				}
				p := k.PSK
				if k.Resumption {
					if p.Age += uint32(r.IntN(500)); k.received > 1500 {
						p.Age -= uint32(r.IntN(500))
					}
				} else if r.IntN(4) == 0 {
					p.Age = u32(r) // meaningless for external keys
				}
				d.offers = append(d.offers, offer{p: &p, k: k})
			} else {
				d.offers = append(d.offers, offer{p: &ref.PSK{ID: append(r.Bytes(r.IntN(20)), 0xee, 0xee, 0xee), Key: r.Bytes(32), Suite: suites[r.IntN(2)], Age: u32(r)}})
			}
		}
		if len(d.offers) == 0 {
			t.Skip()
		}
		for i, o := range d.offers {
			if o.k != nil {
				d.deciding = i
				break
			}
		}
		c := h.RefClient(s, r)
		d.c = c
		if r.IntN(3) == 0 {
			c.Cfg.SessionID = r.Bytes(32)
		}
		c.Cfg.Modes = [][]byte{{1}, {0, 1}, {1, 0}, {0}, {1, 7}, {5, 1, 0}}[r.IntN(6)]
		if r.IntN(3) == 0 {
			c.Cfg.Extra = append(c.Cfg.Extra, ref.Ext{Type: 0x4321, Data: r.Bytes(r.IntN(30))})
		}
		name := "none"
		if d.deciding >= 0 && rapid.IntRange(0, 3).Draw(t, "damaged") > 0 {
			i := rapid.IntRange(0, len(damages)-1).Draw(t, "damage")
			d.target = r.IntN(2)
			if damages[i].apply(d) {
				name = damages[i].name
			} else { // undo what was set
				x := c.Cfg
				c = h.RefClient(s, r)
				c.Cfg.Modes, c.Cfg.Extra, c.Cfg.SessionID = x.Modes, x.Extra, x.SessionID
				d.c = c
			}
		}
		for _, o := range d.offers {
			c.Cfg.PSKs = append(c.Cfg.PSKs, o.p)
		}
		l := &h.Link{N: h.NewNode(sc, false), P: c}
		c.Start()
		l.Run()
		c.Flush()
		l.Run()
		cs := l.N.C.ConnectionState()
		desc := fmt.Sprintf("damage %q %s (hello %d of retry=%v) deciding %d of %d server: %v used=%v; client: done=%v psk=%v %v", name, d.note, d.target, d.retry, d.deciding, len(d.offers), l.N, cs.UsingPSK, c.Done, c.UsedPSK != nil, c.Err)
		for _, o := range d.offers {
			desc += fmt.Sprintf("\n  id %x key %x suite %x res=%v age %d known=%v", o.p.ID, o.p.Key, o.p.Suite, o.p.Resumption, o.p.Age, o.k != nil)
		}
		desc += "\n" + s.String()
		if name == "none" {
			want := d.deciding >= 0
			if !l.N.Done || !c.Done {
				t.Fatalf("an honest offer failed: %s", desc)
			}
			if cs.UsingPSK != want || (c.UsedPSK != nil) != want {
				t.Fatalf("honest offer, PSK use %v, expected %v: %s", cs.UsingPSK, want, desc)
			}
			if want && c.UsedPSK != d.offers[d.deciding].p {
				if k := c.UsedPSK; !bytes.Equal(k.ID, d.offers[d.deciding].p.ID) {
					t.Fatalf("another identity was selected: %s", desc)
				}
			}
		} else {
			if cs.UsingPSK || c.UsedPSK != nil {
				t.Fatalf("the server used a key the client did not prove to know: %s", desc)
			}
			if l.N.Done != c.Done {
				t.Fatalf("only one side completed: %s", desc)
			}
		}
		h.Label("%s retry=%v done=%v used=%v", name, d.retry, l.N.Done, cs.UsingPSK)
		h.Case(d.deciding >= 0, "%s %d %v %d/%d %v", name, d.target, d.retry, d.deciding, len(d.offers), s)
	})
}

func u32(r *h.Rng) uint32 {
	b := r.Bytes(4)
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}
