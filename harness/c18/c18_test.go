// Package c18: the default cookie protector is an authenticated encryption.
package c18

import (
	"bytes"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type tok struct {
	p    int
	data []byte
	tok  []byte
}

// One history of issuing and presenting tokens on several protectors.
func TestProtector(t *testing.T) {
	h.Check(t, 1500, 20000, func(t *rapid.T) {
		np := rapid.IntRange(1, 3).Draw(t, "protectors")
		var ps []mint.CookieProtector
		for i := 0; i < np; i++ {
			p, err := mint.NewDefaultCookieProtector()
			if err != nil {
				t.Fatalf("NewDefaultCookieProtector: %v", err)
			}
			ps = append(ps, p)
		}
		var toks []tok
		forged := 0
		n := rapid.IntRange(1, 8).Draw(t, "tokens")
		pool := rapid.SliceOfN(rapid.Byte(), 0, 700).Draw(t, "pool")
		for i := 0; i < n; i++ {
			p := rapid.IntRange(0, np-1).Draw(t, "p")
			data := pool
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				data = pool[:rapid.IntRange(0, len(pool)).Draw(t, "cut")]
			case 1:
				data = nil
			case 2:
				data = rapid.SliceOfN(rapid.Byte(), 0, 64).Draw(t, "data")
			}
			in := append([]byte{}, data...)
			tk, err := ps[p].NewToken(in)
			if err != nil {
				t.Fatalf("NewToken(%x): %v", data, err)
			}
			if !bytes.Equal(in, data) {
				t.Fatalf("NewToken changed its argument")
			}
			toks = append(toks, tok{p, append([]byte{}, data...), append([]byte{}, tk...)})
		}
		check := func(p int, b []byte) {
			in := append([]byte{}, b...)
			got, err := ps[p].DecodeToken(in)
			var want *tok
			for i := range toks {
				if toks[i].p == p && bytes.Equal(toks[i].tok, b) {
					want = &toks[i]
				}
			}
			if want == nil {
				if err == nil {
					t.Fatalf("protector %d accepted a byte string it never issued: %x -> %x", p, b, got)
				}
				return
			}
			if err != nil || !bytes.Equal(got, want.data) {
				t.Fatalf("token of %x decodes to %x, %v", want.data, got, err)
			}
			// Decoding leaves the token usable.
			if !bytes.Equal(in, b) {
				t.Fatalf("DecodeToken changed its argument")
			}
		}
		for _, tk := range toks {
			for p := range ps {
				check(p, tk.tok)
			}
			if len(tk.data) >= 8 && bytes.Contains(tk.tok, tk.data[:8]) {
				t.Fatalf("token %x shows its data %x", tk.tok, tk.data)
			}
		}
		// Equal data, different tokens; no keystream shared between tokens.
		for i := range toks {
			for j := 0; j < i; j++ {
				a, b := toks[i], toks[j]
				if bytes.Equal(a.tok, b.tok) {
					t.Fatalf("two tokens are equal: %x", a.tok)
				}
				n := min(len(a.data), len(b.data))
				if n >= 12 {
					off := len(a.tok) - len(a.data)
					for o := 0; o <= off && o+n <= len(a.tok) && o+n <= len(b.tok); o++ {
						same := true
						for k := 0; k < 12 && same; k++ {
							same = a.tok[o+k]^b.tok[o+k] == a.data[k]^b.data[k]
						}
						if same {
							t.Fatalf("tokens %x and %x reveal the difference of their data", a.tok, b.tok)
						}
					}
				}
			}
		}
		m := rapid.IntRange(1, 24).Draw(t, "forgeries")
		for i := 0; i < m; i++ {
			a := toks[rapid.IntRange(0, len(toks)-1).Draw(t, "a")]
			b := toks[rapid.IntRange(0, len(toks)-1).Draw(t, "b")]
			f := append([]byte{}, a.tok...)
			kind := rapid.IntRange(0, 7).Draw(t, "forge")
			switch kind {
			case 0:
				i := rapid.IntRange(0, len(f)-1).Draw(t, "pos")
				f[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case 1:
				f = f[:rapid.IntRange(0, len(f)).Draw(t, "len")]
			case 2:
				f = append(f, rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "ext")...)
			case 3:
				i := rapid.IntRange(0, min(len(f), len(b.tok))).Draw(t, "splice")
				f = append(f[:i:i], b.tok[i:]...)
			case 4:
				f = rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "random")
			case 5:
				f = f[rapid.IntRange(0, len(f)).Draw(t, "skip"):]
			case 6:
				i, j := rapid.IntRange(0, len(f)-1).Draw(t, "i"), rapid.IntRange(0, len(f)-1).Draw(t, "j")
				f[i], f[j] = f[j], f[i]
			case 7:
				f = append(append([]byte{}, b.tok...), a.tok...)
			}
			h.Label("forgery %d", kind)
			forged++
			check(rapid.IntRange(0, np-1).Draw(t, "at"), f)
		}
		h.Case(forged > 0 && len(pool) > 0, "protectors=%d tokens=%d pool=%x forgeries=%d", np, n, pool, forged)
	})
}

// Every single-byte change, every truncation of one token.
func TestEveryPosition(t *testing.T) {
	h.Check(t, 60, 600, func(t *rapid.T) {
		data := rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(t, "data")
		p, err := mint.NewDefaultCookieProtector()
		if err != nil {
			t.Fatal(err)
		}
		tk, err := p.NewToken(data)
		if err != nil {
			t.Fatal(err)
		}
		x := byte(rapid.IntRange(1, 255).Draw(t, "xor"))
		for i := range tk {
			f := append([]byte{}, tk...)
			f[i] ^= x
			if got, err := p.DecodeToken(f); err == nil {
				t.Fatalf("byte %d of %d changed by %x: accepted as %x", i, len(tk), x, got)
			}
			if got, err := p.DecodeToken(tk[:i]); err == nil {
				t.Fatalf("first %d of %d bytes accepted as %x", i, len(tk), got)
			}
		}
		if got, err := p.DecodeToken(tk); err != nil || !bytes.Equal(got, data) {
			t.Fatalf("decode: %x %v", got, err)
		}
		// Many tokens of one value: no two share keystream or are equal.
		if len(data) >= 4 {
			seen := map[string]bool{}
			off := len(tk) - len(data) - 16
			for i := 0; i < 200; i++ {
				k, err := p.NewToken(data)
				if err != nil {
					t.Fatal(err)
				}
				if s := string(k); seen[s] {
					t.Fatalf("token %d for %x repeats an earlier one", i, data)
				} else {
					seen[s] = true
				}
				if off >= 0 && len(data) >= 12 && len(k) == len(tk) {
					if s := "ct" + string(k[off:off+12]); seen[s] {
						t.Fatalf("token %d for %x repeats earlier ciphertext", i, data)
					} else {
						seen[s] = true
					}
				}
			}
		}
		h.Case(true, "data=%x xor=%x positions=%d", data, x, len(tk))
	})
}
