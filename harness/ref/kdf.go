// Package ref is an independent implementation of the parts of TLS 1.3
// (RFC 8446) the checks need: key schedule, record protection, message
// encoders/decoders and scriptable client and server endpoints.  It shares no
// code with the library under test.
package ref

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
)

type Suite struct {
	ID     uint16
	Hash   crypto.Hash
	KeyLen int
}

var Suites = []*Suite{
	{0x1301, crypto.SHA256, 16},
	{0x1302, crypto.SHA384, 32},
}

func SuiteByID(id uint16) *Suite {
	for _, s := range Suites {
		if s.ID == id {
			return s
		}
	}
	return nil
}

func (s *Suite) Sum(b []byte) []byte {
	h := s.Hash.New()
	h.Write(b)
	return h.Sum(nil)
}

// Extract is HKDF-Extract (RFC 5869 2.2).
func Extract(h crypto.Hash, salt, ikm []byte) []byte {
	if len(salt) == 0 {
		salt = make([]byte, h.Size())
	}
	m := hmac.New(h.New, salt)
	m.Write(ikm)
	return m.Sum(nil)
}

// Expand is HKDF-Expand (RFC 5869 2.3).
func Expand(h crypto.Hash, prk, info []byte, n int) []byte {
	var okm, t []byte
	for c := 1; len(okm) < n; c++ {
		m := hmac.New(h.New, prk)
		m.Write(t)
		m.Write(info)
		m.Write([]byte{byte(c)})
		t = m.Sum(nil)
		okm = append(okm, t...)
	}
	return okm[:n]
}

// ExpandLabel is HKDF-Expand-Label (RFC 8446 7.1).
func ExpandLabel(h crypto.Hash, secret []byte, label string, ctx []byte, n int) []byte {
	full := "tls13 " + label
	var info []byte
	info = append(info, byte(n>>8), byte(n), byte(len(full)))
	info = append(info, full...)
	info = append(info, byte(len(ctx)))
	info = append(info, ctx...)
	return Expand(h, secret, info, n)
}

func (s *Suite) Expand(secret []byte, label string, ctx []byte) []byte {
	return ExpandLabel(s.Hash, secret, label, ctx, s.Hash.Size())
}

// Derive is Derive-Secret with an already computed transcript hash.
func (s *Suite) Derive(secret []byte, label string, th []byte) []byte {
	return s.Expand(secret, label, th)
}

func (s *Suite) Finished(base, th []byte) []byte {
	k := s.Expand(base, "finished", nil)
	m := hmac.New(s.Hash.New, k)
	m.Write(th)
	return m.Sum(nil)
}

func (s *Suite) Binder(psk []byte, resumption bool, th []byte) []byte {
	early := Extract(s.Hash, nil, psk)
	label := "ext binder"
	if resumption {
		label = "res binder"
	}
	return s.Finished(s.Derive(early, label, s.Sum(nil)), th)
}

func (s *Suite) Exporter(expMaster []byte, label string, ctx []byte, n int) []byte {
	return ExpandLabel(s.Hash, s.Derive(expMaster, label, s.Sum(nil)), "exporter", s.Sum(ctx), n)
}

func (s *Suite) NextTraffic(secret []byte) []byte { return s.Expand(secret, "traffic upd", nil) }

func (s *Suite) ResumptionPSK(res, nonce []byte) []byte { return s.Expand(res, "resumption", nonce) }

// Keys protect one direction during one epoch.
type Keys struct {
	Suite  *Suite
	Secret []byte
	IV     []byte
	Key    []byte
	AEAD   cipher.AEAD
	Epoch  uint16
	Seq    uint64
}

func NewKeys(s *Suite, secret []byte, epoch uint16) *Keys {
	k := &Keys{Suite: s, Secret: secret, Epoch: epoch}
	k.Key = ExpandLabel(s.Hash, secret, "key", nil, s.KeyLen)
	k.IV = ExpandLabel(s.Hash, secret, "iv", nil, 12)
	b, err := aes.NewCipher(k.Key)
	if err != nil {
		panic(err)
	}
	k.AEAD, err = cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return k
}

func (k *Keys) nonce(seq uint64) []byte {
	n := append([]byte{}, k.IV...)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], seq)
	for i := range b {
		n[4+i] ^= b[i]
	}
	return n
}

const (
	RecAlert     = 21
	RecHandshake = 22
	RecAppData   = 23
	RecAck       = 25
)

// SealTLS encodes one TLS record; k nil means clear text.
func SealTLS(k *Keys, typ byte, payload []byte, pad int, version uint16) []byte {
	if k == nil {
		r := []byte{typ, byte(version >> 8), byte(version), byte(len(payload) >> 8), byte(len(payload))}
		return append(r, payload...)
	}
	inner := append(append([]byte{}, payload...), typ)
	inner = append(inner, make([]byte, pad)...)
	return SealInnerTLS(k, inner)
}

// SealInnerTLS encrypts a literal inner plaintext (possibly malformed).
func SealInnerTLS(k *Keys, inner []byte) []byte {
	n := len(inner) + k.AEAD.Overhead()
	hdr := []byte{RecAppData, 3, 3, byte(n >> 8), byte(n)}
	out := k.AEAD.Seal(append([]byte{}, hdr...), k.nonce(k.Seq), inner, hdr)
	k.Seq++
	return out
}

// SealDTLS encodes one DTLS record with the 13-byte header.
func SealDTLS(k *Keys, clearSeq *uint64, typ byte, payload []byte, version uint16) []byte {
	if k == nil {
		hdr := dtlsHeader(typ, version, *clearSeq, len(payload))
		*clearSeq++
		return append(hdr, payload...)
	}
	return SealInnerDTLS(k, append(append([]byte{}, payload...), typ))
}

func SealInnerDTLS(k *Keys, inner []byte) []byte {
	seq := uint64(k.Epoch)<<48 | k.Seq
	hdr := dtlsHeader(RecAppData, 0xfefd, seq, len(inner)+k.AEAD.Overhead())
	out := k.AEAD.Seal(append([]byte{}, hdr...), k.nonce(seq), inner, hdr)
	k.Seq++
	return out
}

func dtlsHeader(typ byte, version uint16, seq uint64, n int) []byte {
	hdr := make([]byte, 13)
	hdr[0] = typ
	binary.BigEndian.PutUint16(hdr[1:], version)
	binary.BigEndian.PutUint64(hdr[3:], seq)
	binary.BigEndian.PutUint16(hdr[11:], uint16(n))
	return hdr
}

// Rec is a decoded record.
type Rec struct {
	Outer   byte
	Version uint16
	Type    byte
	Payload []byte
	Pad     int
	Enc     bool
	Epoch   uint16
	Seq     uint64
	Raw     []byte
}

var ErrMAC = errors.New("ref: record does not decrypt")

// SplitTLS cuts the first whole record off buf (nil if incomplete).
func SplitTLS(buf []byte) (raw, rest []byte) {
	if len(buf) < 5 {
		return nil, buf
	}
	n := 5 + int(binary.BigEndian.Uint16(buf[3:]))
	if len(buf) < n {
		return nil, buf
	}
	return buf[:n], buf[n:]
}

// OpenTLS decodes raw, one whole TLS record.
func OpenTLS(k *Keys, raw []byte) (*Rec, error) {
	r := &Rec{Outer: raw[0], Version: binary.BigEndian.Uint16(raw[1:]), Raw: raw}
	if k == nil {
		r.Type, r.Payload = raw[0], append([]byte{}, raw[5:]...)
		return r, nil
	}
	inner, err := k.AEAD.Open(nil, k.nonce(k.Seq), raw[5:], raw[:5])
	if err != nil {
		return nil, ErrMAC
	}
	r.Seq, r.Epoch, r.Enc = k.Seq, k.Epoch, true
	k.Seq++
	return r, r.setInner(inner)
}

func (r *Rec) setInner(inner []byte) error {
	i := len(inner) - 1
	for i >= 0 && inner[i] == 0 {
		i--
	}
	if i < 0 {
		return errors.New("ref: inner plaintext without a type")
	}
	r.Type, r.Payload, r.Pad = inner[i], inner[:i], len(inner)-1-i
	return nil
}

// OpenDTLS decodes one datagram holding exactly one record, using the keys of its epoch.
func OpenDTLS(keys map[uint16]*Keys, raw []byte) (*Rec, error) {
	if len(raw) < 13 {
		return nil, errors.New("ref: short DTLS record")
	}
	seq := binary.BigEndian.Uint64(raw[3:])
	n := int(binary.BigEndian.Uint16(raw[11:]))
	if len(raw) != 13+n {
		return nil, fmt.Errorf("ref: DTLS record length %d in datagram of %d", n, len(raw))
	}
	r := &Rec{Outer: raw[0], Version: binary.BigEndian.Uint16(raw[1:]), Raw: raw, Epoch: uint16(seq >> 48), Seq: seq & (1<<48 - 1)}
	if r.Epoch == 0 {
		r.Type, r.Payload = raw[0], append([]byte{}, raw[13:]...)
		return r, nil
	}
	k := keys[r.Epoch]
	if k == nil {
		return nil, fmt.Errorf("ref: no keys for epoch %d", r.Epoch)
	}
	inner, err := k.AEAD.Open(nil, k.nonce(seq), raw[13:], raw[:13])
	if err != nil {
		return nil, ErrMAC
	}
	r.Enc = true
	return r, r.setInner(inner)
}

func equal(a, b []byte) bool { return bytes.Equal(a, b) }
