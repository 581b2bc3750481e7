// Package c21: key agreement yields the standard secret and rejects invalid shares.
package c21

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

var ident = func() *ref.Ident {
	return h.Cert(h.CertOpts{Key: "p256-0", Names: []string{"example.com"}, CA: "A"})
}

func clientCfg(dtls bool, gs ...mint.NamedGroup) *mint.Config {
	return &mint.Config{ServerName: "example.com", Groups: gs, RootCAs: h.Roots("A"), NonBlocking: true, UseDTLS: dtls}
}

func serverCfg(dtls bool, gs ...mint.NamedGroup) *mint.Config {
	return &mint.Config{Groups: gs, Certificates: []*mint.Certificate{h.Mint(ident())}, NonBlocking: true, UseDTLS: dtls}
}

func drawGroup(t *rapid.T, slow bool) mint.NamedGroup {
	if slow {
		return rapid.SampledFrom(h.AllGroups).Draw(t, "group")
	}
	return rapid.SampledFrom(h.CheapGroups).Draw(t, "group")
}

func slow(t *rapid.T, n int) bool { return rapid.IntRange(0, n).Draw(t, "slow") == n }

// seen holds every share an endpoint sent in this process.
var seen = map[string]bool{}

func fresh(t *rapid.T, g uint16, share []byte) {
	if !ref.ValidShare(g, share) {
		t.Fatalf("an invalid share for group %d was sent: %x", g, share)
	}
	k := fmt.Sprintf("%d %x", g, share)
	if seen[k] {
		t.Fatalf("the same share for group %d was sent in two handshakes", g)
	}
	if len(seen) > 1<<16 {
		seen = map[string]bool{}
	}
	seen[k] = true
}

func ping(t *rapid.T, l *h.Link, b *ref.Base) {
	if _, err := l.N.C.Write([]byte("ping")); err != nil {
		t.Fatalf("write: %v", err)
	}
	b.SendApp([]byte("pong"))
	l.Move()
	l.N.ReadAvail(10)
	if string(b.App) != "ping" || string(l.N.Got) != "pong" {
		t.Fatalf("data: %q %q", b.App, l.N.Got)
	}
}

// TestClient: the client's shares and its secret with generated server shares.
func TestClient(t *testing.T) {
	h.Check(t, 170, 3000, func(t *rapid.T) {
		sl := slow(t, 40)
		gs := []mint.NamedGroup{drawGroup(t, sl)}
		for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0 && !sl; i-- {
			g := drawGroup(t, false)
			dup := false
			for _, x := range gs {
				dup = dup || x == g
			}
			if !dup {
				gs = append(gs, g)
			}
		}
		dtls := rapid.Bool().Draw(t, "dtls")
		pick := gs[rapid.IntRange(0, len(gs)-1).Draw(t, "server group")]
		kind := rapid.IntRange(0, 4).Draw(t, "kind")
		r := h.NewRng(rapid.Uint64().Draw(t, "server seed"))
		// The crypto seed of the case repeats while shrinking.
		seen = map[string]bool{}
		cfg := clientCfg(dtls, gs...)
		for i := rapid.IntRange(1, 2).Draw(t, "handshakes"); i > 0; i-- {
			var secret []byte
			srv := ref.NewServer(ref.ServerCfg{Suites: []uint16{0x1301, 0x1302}, Groups: []uint16{uint16(pick)}, Ident: ident(),
				Key: func(g uint16, peer []byte) (*ref.KeyPair, error) {
					switch kind {
					case 1:
						return ref.GenKeyZero(g, peer, r, false)
					case 2:
						return ref.GenKeyZero(g, peer, r, true)
					case 4:
						if ref.FFPrime(g) != nil && ref.ShareLen(g) <= 256 {
							return ref.GenKeyZeros(g, peer, r, false, 2)
						}
						return ref.GenKeyZero(g, peer, r, false)
					}
					return ref.GenKey(g, r)
				},
				Share: func(g uint16, pub []byte) []byte {
					if kind == 3 && g == ref.X25519 {
						pub = append([]byte{}, pub...)
						pub[31] |= 0x80 // to be ignored (RFC 7748)
					}
					return pub
				},
				ECDHE: func(s []byte) []byte { secret = s; return s },
			}, r, dtls)
			n := h.NewNode(cfg, true)
			l := &h.Link{N: n, P: srv}
			l.Run()
			if !n.Done || !srv.Done {
				t.Fatalf("group %v kind %d secret %x: %v, server %v", pick, kind, secret, n, srv.Err)
			}
			if len(srv.CH.Shares) != len(gs) {
				t.Fatalf("%d shares for %v", len(srv.CH.Shares), gs)
			}
			for _, sh := range srv.CH.Shares {
				fresh(t, sh.Group, sh.Data)
			}
			zeros := 0
			for zeros < len(secret) && secret[zeros] == 0 {
				zeros++
			}
			h.Label("client group %v zeros=%v", pick, zeros)
			h.Case(true, "client %v of %v kind %d dtls %v zeros %v secret %x", pick, gs, kind, dtls, zeros, secret[:8])
			ping(t, l, &srv.Base)
		}
	})
}

// TestServer: the server's shares and its secret.
func TestServer(t *testing.T) {
	h.Check(t, 1200, 20000, func(t *rapid.T) {
		g := drawGroup(t, slow(t, 150))
		if g == mint.FFDHE2048 && rapid.IntRange(0, 3).Draw(t, "cheaper") > 0 {
			g = mint.P256
		}
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		r := h.NewRng(rapid.Uint64().Draw(t, "client seed"))
		seen = map[string]bool{}
		sc := serverCfg(dtls, g)
		hb := g == mint.X25519 && rapid.Bool().Draw(t, "high bit")
		for i := rapid.IntRange(1, 2).Draw(t, "handshakes"); i > 0; i-- {
			c := ref.NewClient(ref.ClientCfg{ServerName: "example.com", Suites: []uint16{0x1301}, Groups: []uint16{uint16(g)}, SigAlgs: []uint16{ref.ECP256},
				Shares: func(ss []ref.Share) []ref.Share {
					if hb {
						ss[0].Data = append([]byte{}, ss[0].Data...)
						ss[0].Data[31] |= 0x80
					}
					return ss
				}}, r, dtls)
			c.Start()
			n := h.NewNode(sc, false)
			l := &h.Link{N: n, P: c}
			l.Run()
			if !n.Done || !c.Done {
				t.Fatalf("group %v: %v, client %v", g, n, c.Err)
			}
			d, _ := ref.FindExt(c.SH.Exts, ref.XKeyShare)
			fresh(t, uint16(g), d[4:])
			sec, _ := c.Keys[uint16(g)].Shared(d[4:])
			h.Label("server group %v zeros=%v", g, sec[0] == 0)
			h.Case(true, "server %v dtls %v %x", g, dtls, sec[:8])
			ping(t, l, &c.Base)
		}
	})
}

var lowOrder = []string{
	"0000000000000000000000000000000000000000000000000000000000000000",
	"0100000000000000000000000000000000000000000000000000000000000000",
	"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
	"5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
	"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
	"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
}

// invalid draws a share that must not be used, and the secret a careless
// endpoint would compute from it.
func invalid(t *rapid.T, g uint16) (share, secret []byte, what string) {
	r := h.NewRng(rapid.Uint64().Draw(t, "share seed"))
	k, err := ref.GenKey(g, r)
	if err != nil {
		panic(err)
	}
	n := ref.ShareLen(g)
	v := k.Pub
	switch rapid.IntRange(0, 1).Draw(t, "invalid kind") {
	case 0: // wrong length
		what = "length"
		switch rapid.IntRange(0, 5).Draw(t, "length kind") {
		case 0:
			share = []byte{0} // a zero length share cannot be encoded; one byte is the least
		case 1:
			share = v[:n-1]
		case 2:
			share = append(append([]byte{}, v...), 0)
		case 3:
			share = append([]byte{0}, v...)
		case 4:
			share = v[1:]
		default:
			share = r.Bytes(rapid.IntRange(1, 300).Draw(t, "length"))
			if len(share) == n {
				share = share[1:]
			}
		}
		return share, make([]byte, 32), what
	}
	if p := ref.FFPrime(g); p != nil {
		one := big.NewInt(1)
		var y, s *big.Int
		switch rapid.IntRange(0, 5).Draw(t, "value") {
		case 0:
			y, s, what = big.NewInt(0), big.NewInt(0), "0"
		case 1:
			y, s, what = one, one, "1"
		case 2:
			y, s, what = new(big.Int).Sub(p, one), one, "p-1"
		case 3:
			y, s, what = p, big.NewInt(0), "p"
		case 4:
			y, s, what = new(big.Int).Add(p, one), one, "p+1"
		default:
			y = new(big.Int).Lsh(one, uint(8*n))
			y.Sub(y, one)
			s, what = one, "2^n-1"
		}
		return ref.FixLen(y, n), ref.FixLen(s, n), what
	}
	if g == ref.X25519 {
		b, _ := hex.DecodeString(rapid.SampledFrom(lowOrder).Draw(t, "point"))
		if rapid.Bool().Draw(t, "high bit") {
			b[31] |= 0x80
		}
		return b, make([]byte, 32), "low order"
	}
	share = append([]byte{}, v...)
	c := (n - 1) / 2
	switch rapid.IntRange(0, 6).Draw(t, "point") {
	case 0:
		share[1+r.IntN(n-1)] ^= 1 << r.IntN(8)
		what = "off the curve"
	case 1:
		share[0] = byte(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 6, 7, 0xff}).Draw(t, "form"))
		what = "form"
	case 2:
		for i := range share[1:] {
			share[1+i] = 0
		}
		what = "(0,0)"
	case 3:
		copy(share[1:1+c], bytes.Repeat([]byte{0xff}, c))
		what = "x out of range"
	case 4:
		copy(share[1+c:], bytes.Repeat([]byte{0xff}, c))
		what = "y out of range"
	case 5:
		x := append([]byte{}, share[1:1+c]...)
		copy(share[1:1+c], share[1+c:])
		copy(share[1+c:], x)
		what = "swapped"
	case 6: // x + p does not fit for these curves except by one bit at P521
		copy(share[1:], r.Bytes(n-1))
		what = "random"
	}
	return share, make([]byte, c), what
}

// TestInvalidToServer: hellos with invalid shares, alone or among valid ones.
func TestInvalidToServer(t *testing.T) {
	h.Check(t, 900, 15000, func(t *rapid.T) {
		bad := drawGroup(t, slow(t, 60))
		share, _, what := invalid(t, uint16(bad))
		if ref.ValidShare(uint16(bad), share) {
			t.Skip("valid by chance")
		}
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		groups := []uint16{uint16(bad)}
		other := mint.NamedGroup(0)
		if rapid.Bool().Draw(t, "with a valid share") {
			other = rapid.SampledFrom([]mint.NamedGroup{mint.P256, mint.X25519}).Draw(t, "other")
			if other == bad {
				other = mint.P384
			}
			if rapid.Bool().Draw(t, "valid first") {
				groups = []uint16{uint16(other), uint16(bad)}
			} else {
				groups = append(groups, uint16(other))
			}
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "client seed"))
		cfg := ref.ClientCfg{ServerName: "example.com", Suites: []uint16{0x1301}, Groups: groups, SigAlgs: []uint16{ref.ECP256},
			Shares: func(ss []ref.Share) []ref.Share {
				for i := range ss {
					if ss[i].Group == uint16(bad) {
						ss[i].Data = share
					}
				}
				return ss
			}}
		sc := serverCfg(dtls, append([]mint.NamedGroup{bad}, other)[:1+min(1, int(other))]...)
		psk := rapid.IntRange(0, 3).Draw(t, "psk") == 3
		if psk {
			p := &ref.PSK{ID: []byte("id"), Key: []byte("key"), Suite: 0x1301}
			cfg.PSKs = []*ref.PSK{p}
			cfg.Modes = rapid.SampledFrom([][]byte{{0}, {1}, {0, 1}}).Draw(t, "modes")
			sc.PSKs = &mint.PSKMapCache{}
			sc.PSKs.Put(hex.EncodeToString(p.ID), mint.PreSharedKey{CipherSuite: 0x1301, Identity: p.ID, Key: p.Key})
		}
		c := ref.NewClient(cfg, r, dtls)
		c.Start()
		n := h.NewNode(sc, false)
		l := &h.Link{N: n, P: c}
		l.Run()
		h.Label("to server %v %s other=%v psk=%v", bad, what, other != 0, psk)
		h.Case(true, "to server %v %s %x", bad, what, share[:min(len(share), 16)])
		if _, sh := h.ServerHellos(l.Log[0], dtls); sh != nil && h.SHGroup(sh) == uint16(bad) {
			t.Fatalf("the server used the invalid share %x (%s) of group %v", share, what, bad)
		}
		if other == 0 && !psk && n.Done {
			t.Fatalf("completed with an invalid share of group %v (%s)", bad, what)
		}
		if n.Done != c.Done {
			t.Fatalf("server %v client done=%v %v", n, c.Done, c.Err)
		}
	})
}

// TestInvalidToClient: a server's invalid share.
func TestInvalidToClient(t *testing.T) {
	h.Check(t, 900, 15000, func(t *rapid.T) {
		g := drawGroup(t, slow(t, 60))
		share, secret, what := invalid(t, uint16(g))
		if ref.ValidShare(uint16(g), share) {
			t.Skip("valid by chance")
		}
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		r := h.NewRng(rapid.Uint64().Draw(t, "server seed"))
		srv := ref.NewServer(ref.ServerCfg{Suites: []uint16{0x1301}, Groups: []uint16{uint16(g)}, Ident: ident(),
			Share: func(uint16, []byte) []byte { return share },
			ECDHE: func([]byte) []byte { return secret },
		}, r, dtls)
		n := h.NewNode(clientCfg(dtls, g), true)
		l := &h.Link{N: n, P: srv}
		l.Run()
		h.Label("to client %v %s", g, what)
		h.Case(true, "to client %v %s %x", g, what, share[:min(len(share), 16)])
		if n.Done || srv.Done {
			t.Fatalf("completed with an invalid share %x (%s) of group %v", share, what, g)
		}
		if s := n.C.GetHsState(); !n.Failed || s == mint.StateClientWaitEE {
			t.Fatalf("the client went on to %v after an invalid share %x (%s) of group %v: %v", s, share, what, g, n)
		}
	})
}
