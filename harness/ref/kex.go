package ref

import (
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"errors"
	"fmt"
	"io"
	"math/big"
)

const (
	P256      = 23
	P384      = 24
	P521      = 25
	X25519    = 29
	FFDHE2048 = 256
	FFDHE3072 = 257
	FFDHE4096 = 258
	FFDHE6144 = 259
	FFDHE8192 = 260
)

func ShareLen(g uint16) int {
	switch g {
	case P256:
		return 65
	case P384:
		return 97
	case P521:
		return 133
	case X25519:
		return 32
	case FFDHE2048:
		return 256
	case FFDHE3072:
		return 384
	case FFDHE4096:
		return 512
	case FFDHE6144:
		return 768
	case FFDHE8192:
		return 1024
	}
	return 0
}

func ECDHCurve(g uint16) ecdh.Curve {
	switch g {
	case P256:
		return ecdh.P256()
	case P384:
		return ecdh.P384()
	case P521:
		return ecdh.P521()
	case X25519:
		return ecdh.X25519()
	}
	return nil
}

var ffPrimes = map[uint16]*big.Int{}

// FFPrime computes the RFC 7919 prime from its definition:
// p = 2^b - 2^(b-64) + (floor(2^(b-130) e) + X) 2^64 - 1.
func FFPrime(g uint16) *big.Int {
	if p := ffPrimes[g]; p != nil {
		return p
	}
	var b uint
	var x int64
	switch g {
	case FFDHE2048:
		b, x = 2048, 560316
	case FFDHE3072:
		b, x = 3072, 2625351
	case FFDHE4096:
		b, x = 4096, 5736041
	case FFDHE6144:
		b, x = 6144, 15705020
	case FFDHE8192:
		b, x = 8192, 10965728
	default:
		return nil
	}
	// floor(2^(b-130) e), e = sum 1/k!, with guard bits
	const guard = 256
	one := new(big.Int).Lsh(big.NewInt(1), b-130+guard)
	sum := new(big.Int)
	term := new(big.Int).Set(one)
	for k := int64(1); term.Sign() > 0; k++ {
		sum.Add(sum, term)
		term.Div(term, big.NewInt(k))
	}
	sum.Rsh(sum, guard)
	sum.Add(sum, big.NewInt(x))
	sum.Lsh(sum, 64)
	p := new(big.Int).Lsh(big.NewInt(1), b)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), b-64))
	p.Add(p, sum)
	p.Sub(p, big.NewInt(1))
	ffPrimes[g] = p
	return p
}

func FixLen(x *big.Int, n int) []byte {
	b := x.Bytes()
	out := make([]byte, n)
	copy(out[n-len(b):], b)
	return out
}

// KeyPair is a key-exchange key.
type KeyPair struct {
	Group uint16
	Pub   []byte
	ec    *ecdh.PrivateKey
	ff    *big.Int
}

// GenKey makes a key pair from exactly the bytes in seed, deterministically.
func GenKey(g uint16, rnd io.Reader) (*KeyPair, error) {
	if c := ECDHCurve(g); c != nil {
		n := map[uint16]int{P256: 32, P384: 48, P521: 66, X25519: 32}[g]
		for {
			b := make([]byte, n)
			if _, err := io.ReadFull(rnd, b); err != nil {
				return nil, err
			}
			if g == P521 {
				b[0] &= 1
			}
			k, err := c.NewPrivateKey(b)
			if err != nil {
				continue
			}
			return &KeyPair{Group: g, Pub: k.PublicKey().Bytes(), ec: k}, nil
		}
	}
	if p := FFPrime(g); p != nil {
		b := make([]byte, 32)
		if _, err := io.ReadFull(rnd, b); err != nil {
			return nil, err
		}
		b[0] |= 0x80
		x := new(big.Int).SetBytes(b)
		return &KeyPair{Group: g, Pub: FixLen(new(big.Int).Exp(big.NewInt(2), x, p), ShareLen(g)), ff: x}, nil
	}
	return nil, fmt.Errorf("ref: unknown group %d", g)
}

// Shared computes the shared secret with a valid peer share.
func (k *KeyPair) Shared(peer []byte) ([]byte, error) {
	if k.ec != nil {
		pub, err := ECDHCurve(k.Group).NewPublicKey(peer)
		if err != nil {
			return nil, err
		}
		return k.ec.ECDH(pub)
	}
	p := FFPrime(k.Group)
	y := new(big.Int).SetBytes(peer)
	if len(peer) != ShareLen(k.Group) {
		return nil, errors.New("ref: bad share length")
	}
	pm1 := new(big.Int).Sub(p, big.NewInt(1))
	if y.Cmp(big.NewInt(1)) <= 0 || y.Cmp(pm1) >= 0 {
		return nil, errors.New("ref: degenerate share")
	}
	return FixLen(new(big.Int).Exp(y, k.ff, p), ShareLen(k.Group)), nil
}

// GenKeyZero looks for a key pair whose secret with peer starts with zero
// bytes (or, with pub, whose share does).
func GenKeyZero(g uint16, peer []byte, rnd io.Reader, pub bool) (*KeyPair, error) {
	return GenKeyZeros(g, peer, rnd, pub, 1)
}

// GenKeyZeros does the same with the given number of zero bytes, which the
// elliptic curves ignore.
func GenKeyZeros(g uint16, peer []byte, rnd io.Reader, pub bool, zeros int) (*KeyPair, error) {
	k, err := GenKey(g, rnd)
	if err != nil {
		return nil, err
	}
	if k.ff == nil {
		for i := 0; i < 1500; i++ {
			s, err := k.Shared(peer)
			if err != nil {
				return nil, err
			}
			if pub {
				s = k.Pub[1:]
			}
			if s[0] == 0 && (g != P521 || pub || s[1] == 0) {
				break
			}
			if k, err = GenKey(g, rnd); err != nil {
				return nil, err
			}
		}
		return k, nil
	}
	p, n := FFPrime(g), ShareLen(g)
	sh, err := k.Shared(peer)
	if err != nil {
		return nil, err
	}
	x, s, y := new(big.Int).SetBytes(k.Pub), new(big.Int).SetBytes(sh), new(big.Int).SetBytes(peer)
	for i := int64(0); i < 5000<<(8*(zeros-1)); i++ {
		v := s
		if pub {
			v = x
		}
		if v.BitLen() <= 8*(n-zeros) {
			break
		}
		x.Lsh(x, 1)
		x.Mod(x, p)
		s.Mul(s, y)
		s.Mod(s, p)
		k.ff.Add(k.ff, big.NewInt(1))
	}
	k.Pub = FixLen(x, n)
	return k, nil
}

// ValidShare reports whether pub is acceptable for group g under RFC 8446/7919.
func ValidShare(g uint16, pub []byte) bool {
	if len(pub) != ShareLen(g) {
		return false
	}
	if c := ECDHCurve(g); c != nil {
		pk, err := c.NewPublicKey(pub)
		if err != nil {
			return false
		}
		if g == X25519 {
			k, _ := c.NewPrivateKey(append([]byte{8}, make([]byte, 31)...))
			_, err := k.ECDH(pk)
			return err == nil
		}
		return true
	}
	p := FFPrime(g)
	if p == nil {
		return false
	}
	y := new(big.Int).SetBytes(pub)
	return y.Cmp(big.NewInt(1)) > 0 && y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) < 0
}

// Signature schemes
const (
	PKCS1SHA1   = 0x0201
	PKCS1SHA256 = 0x0401
	PKCS1SHA384 = 0x0501
	PKCS1SHA512 = 0x0601
	ECP256      = 0x0403
	ECP384      = 0x0503
	ECP521      = 0x0603
	PSS256      = 0x0804
	PSS384      = 0x0805
	PSS512      = 0x0806
	ED25519     = 0x0807
	ED448       = 0x0808
)

func SchemeHash(s uint16) crypto.Hash {
	switch s {
	case PKCS1SHA1:
		return crypto.SHA1
	case PKCS1SHA256, ECP256, PSS256:
		return crypto.SHA256
	case PKCS1SHA384, ECP384, PSS384:
		return crypto.SHA384
	case PKCS1SHA512, ECP521, PSS512:
		return crypto.SHA512
	}
	return 0
}

// SchemeFits says whether key can sign with scheme under TLS 1.3 rules
// (PKCS#1 tolerated, as mint documents allowPKCS1; SHA-1 never).
func SchemeFits(s uint16, pub crypto.PublicKey) bool {
	switch k := pub.(type) {
	case *rsa.PublicKey:
		switch s {
		case PKCS1SHA256, PKCS1SHA384, PKCS1SHA512:
			return true
		case PSS256, PSS384, PSS512: // RFC 8017 9.1.1
			return (k.N.BitLen()-1+7)/8 >= 2*SchemeHash(s).Size()+2
		}
	case *ecdsa.PublicKey:
		switch s {
		case ECP256:
			return k.Curve == elliptic.P256()
		case ECP384:
			return k.Curve == elliptic.P384()
		case ECP521:
			return k.Curve == elliptic.P521()
		}
	}
	return false
}

const (
	CtxServer = "TLS 1.3, server CertificateVerify"
	CtxClient = "TLS 1.3, client CertificateVerify"
)

func SigInput(ctx string, th []byte) []byte {
	b := make([]byte, 64)
	for i := range b {
		b[i] = 0x20
	}
	return Cat(b, []byte(ctx), []byte{0}, th)
}

func Sign(scheme uint16, key crypto.Signer, input []byte, rnd io.Reader) ([]byte, error) {
	h := SchemeHash(scheme)
	if h == 0 {
		return nil, errors.New("ref: unknown scheme")
	}
	d := h.New()
	d.Write(input)
	dig := d.Sum(nil)
	var opts crypto.SignerOpts = h
	if scheme == PSS256 || scheme == PSS384 || scheme == PSS512 {
		opts = &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: h}
	}
	return key.Sign(rnd, dig, opts)
}

func Verify(scheme uint16, pub crypto.PublicKey, input, sig []byte) error {
	h := SchemeHash(scheme)
	if h == 0 {
		return errors.New("ref: unknown scheme")
	}
	d := h.New()
	d.Write(input)
	dig := d.Sum(nil)
	switch k := pub.(type) {
	case *rsa.PublicKey:
		switch scheme {
		case PKCS1SHA1, PKCS1SHA256, PKCS1SHA384, PKCS1SHA512:
			return rsa.VerifyPKCS1v15(k, h, dig, sig)
		case PSS256, PSS384, PSS512:
			return rsa.VerifyPSS(k, h, dig, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		}
	case *ecdsa.PublicKey:
		if SchemeFits(scheme, pub) && ecdsa.VerifyASN1(k, dig, sig) {
			return nil
		}
	}
	return errors.New("ref: signature does not verify")
}
