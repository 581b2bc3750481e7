// Package c12: the record layer transports records faithfully within its limits.
package c12

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"fmt"
	"io"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

const max = 1 << 14

// sink collects writes; source plays chunks back.
type sink struct{ w [][]byte }

func (s *sink) Write(b []byte) (int, error) {
	s.w = append(s.w, append([]byte{}, b...))
	return len(b), nil
}
func (s *sink) Read([]byte) (int, error) { panic("HARNESS-ERROR read of a sink") }

type source struct {
	q   [][]byte
	dg  bool
	end bool
	n   int
}

func (s *source) Write([]byte) (int, error) { panic("HARNESS-ERROR write to a source") }
func (s *source) Read(b []byte) (int, error) {
	if s.n++; s.n > 200000 {
		panic(h.Spin{What: "record layer reads for ever"})
	}
	if len(s.q) == 0 {
		if s.end {
			return 0, io.EOF
		}
		return 0, nil
	}
	c := s.q[0]
	if s.dg {
		s.q = s.q[1:]
		return copy(b, c), nil
	}
	n := copy(b, c)
	if n == len(c) {
		s.q = s.q[1:]
	} else {
		s.q[0] = c[n:]
	}
	return n, nil
}

func aead(key []byte) (cipher.AEAD, error) {
	b, err := aes.NewCipher(key)
	if err != nil {
		return nil, err
	}
	return cipher.NewGCM(b)
}

func keySet(k *ref.Keys) *mint.KeySet {
	return &mint.KeySet{Cipher: aead, Keys: map[string][]byte{"key": append([]byte{}, k.Key...), "iv": append([]byte{}, k.IV...)}}
}

func newLayer(rw io.ReadWriter, dir mint.Direction, dtls bool) *mint.DefaultRecordLayer {
	if dtls {
		return mint.NewRecordLayerDTLS(rw, dir)
	}
	return mint.NewRecordLayerTLS(rw, dir)
}

type state struct {
	dtls     bool
	k        *ref.Keys
	clearSeq uint64
	version  uint16
}

func (s *state) seal(typ byte, data []byte, pad int) []byte {
	if !s.dtls {
		b := ref.SealTLS(s.k, typ, data, pad, s.version)
		b[1], b[2] = byte(s.version>>8), byte(s.version)
		return b
	}
	v := uint16(0xfefd)
	if s.version == 0x0301 {
		v = 0xfeff
	}
	if s.k == nil {
		return ref.SealDTLS(nil, &s.clearSeq, typ, data, v)
	}
	return ref.SealInnerDTLS(s.k, append(append(append([]byte{}, data...), typ), make([]byte, pad)...))
}

func newKeys(t *rapid.T, epoch uint16) *ref.Keys {
	s := ref.Suites[rapid.IntRange(0, 1).Draw(t, "suite")]
	return ref.NewKeys(s, h.NewRng(rapid.Uint64().Draw(t, "secret")).Bytes(s.Hash.Size()), epoch)
}

var outerTypes = []byte{21, 22, 23, 25}

func genData(t *rapid.T, limit int) []byte {
	return h.Data(t, "data", limit, 0, 1, max-257, max-256, max-18, max-17, max-16, max-2, max-1, max)
}

// Write histories: bytes on the wire are the prescribed ones; a reader with
// the same keys gets the records back however the stream is cut.
func TestLockstep(t *testing.T) {
	h.Check(t, 3000, 60000, func(t *rapid.T) {
		dtls := rapid.Bool().Draw(t, "dtls")
		out := &sink{}
		w := newLayer(out, mint.DirectionWrite, dtls)
		w.SetLabel("w")
		st := &state{dtls: dtls, version: 0x0301}
		if dtls {
			st.version = 0x0303
			w.SetVersion(0x0303)
		}
		src := &source{dg: dtls}
		r := newLayer(src, mint.DirectionRead, dtls)
		type rec struct {
			typ  byte
			data []byte
		}
		var pending []rec // written, not yet read
		total, rekeys, big := 0, 0, 0
		epoch := uint16(0)
		wouldBlock := 0
		readAll := func() {
			for i, p := range pending {
				if rapid.Bool().Draw(t, "peek") {
					ty, err := r.PeekRecordType(false)
					if err != nil || byte(ty) != p.typ {
						t.Fatalf("PeekRecordType = %v, %v; want %d", ty, err, p.typ)
					}
				}
				ty, err := r.PeekRecordType(rapid.Bool().Draw(t, "block"))
				if err != nil || byte(ty) != p.typ {
					t.Fatalf("record %d: PeekRecordType = %v, %v; want %d", i, ty, err, p.typ)
				}
				pt, err := r.ReadRecord()
				if err != nil || !bytes.Equal(pt.Fragment(), p.data) {
					t.Fatalf("record %d: ReadRecord: %v; want type %d, %d bytes", i, err, p.typ, len(p.data))
				}
			}
			pending = nil
			if pt, err := r.ReadRecord(); err != mint.AlertWouldBlock {
				t.Fatalf("nothing left, but ReadRecord = %v, %v", pt, err)
			}
			wouldBlock++
		}
		for i := rapid.IntRange(1, 14).Draw(t, "ops"); i > 0; i-- {
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); {
			case op == 0: // rekey both in lockstep
				readAll()
				// Key updates of a stream do not begin new epochs.
				if dtls || epoch == 0 || rapid.Bool().Draw(t, "new epoch") {
					epoch++
				}
				k := newKeys(t, epoch)
				if err := w.Rekey(mint.Epoch(epoch), aead, keySet(k)); err != nil {
					t.Fatalf("Rekey: %v", err)
				}
				if err := r.Rekey(mint.Epoch(epoch), aead, keySet(k)); err != nil {
					t.Fatalf("Rekey: %v", err)
				}
				if w.Epoch() != mint.Epoch(epoch) {
					t.Fatalf("Epoch %v, want %d", w.Epoch(), epoch)
				}
				st.k = k
				st.version = 0x0303
				w.SetVersion(0x0303)
				rekeys++
			case op == 1 && st.k == nil:
				st.version = rapid.SampledFrom([]uint16{0x0301, 0x0303}).Draw(t, "version")
				w.SetVersion(st.version)
			case op == 2:
				readAll()
			default:
				typ := rapid.SampledFrom(outerTypes).Draw(t, "type")
				if st.k != nil && rapid.IntRange(0, 3).Draw(t, "odd type") == 0 {
					typ = byte(rapid.IntRange(1, 255).Draw(t, "type"))
				}
				data := genData(t, max+3)
				pad := 0
				if rapid.Bool().Draw(t, "padded") {
					pad = rapid.SampledFrom([]int{1, 2, 15, 255, 1000, 4096, 10000, 16000, 16384}).Draw(t, "pad")
					if m := max - 1 - len(data); pad > m && m > 0 && rapid.IntRange(0, 3).Draw(t, "too much") > 0 {
						pad = m // the most that fits
					}
				}
				before := len(out.w)
				keep := append([]byte{}, data...)
				var err error
				if pad > 0 || rapid.Bool().Draw(t, "with padding") {
					err = w.WriteRecordWithPadding(mint.NewTLSPlaintext(mint.RecordType(typ), 0, data), pad)
				} else {
					err = w.WriteRecord(mint.NewTLSPlaintext(mint.RecordType(typ), 0, data))
				}
				if !bytes.Equal(data, keep) {
					t.Fatalf("WriteRecord changed its data")
				}
				legal := len(data) <= max && (pad == 0 || st.k != nil)
				if err != nil {
					if legal && (pad == 0 || len(data)+1+pad <= max) {
						t.Fatalf("WriteRecord(%d, %d bytes, pad %d): %v", typ, len(data), pad, err)
					}
					if len(out.w) != before {
						t.Fatalf("WriteRecord failed (%v) but wrote", err)
					}
					continue
				}
				if !legal || len(data)+pad > max {
					t.Fatalf("WriteRecord(%d, %d bytes, pad %d) succeeded", typ, len(data), pad)
				}
				want := st.seal(typ, data, pad)
				got := bytes.Join(out.w[before:], nil)
				if !bytes.Equal(got, want) || dtls && len(out.w) != before+1 {
					t.Fatalf("record on the wire differs (type %d, %d bytes, pad %d): %.60x, want %.60x", typ, len(data), pad, got, want)
				}
				pending = append(pending, rec{typ, data})
				total++
				if len(data) > 16000 {
					big++
				}
				// transport
				if dtls {
					if len(src.q) > 0 && len(src.q[len(src.q)-1])+len(got) < 16000 && rapid.IntRange(0, 2).Draw(t, "same datagram") == 0 {
						src.q[len(src.q)-1] = append(src.q[len(src.q)-1], got...)
					} else {
						src.q = append(src.q, got)
					}
					continue
				}
				for len(got) > 0 {
					n := min(len(got), rapid.SampledFrom([]int{1, 2, 4, 5, 6, 7, 300, 5000, 16384, 30000}).Draw(t, "chunk"))
					if len(got) > 400 && n < 300 && rapid.IntRange(0, 2).Draw(t, "keep small") != 0 {
						n = 300
					}
					if len(src.q) > 0 && rapid.IntRange(0, 3).Draw(t, "merge") == 0 {
						src.q[len(src.q)-1] = append(append([]byte{}, src.q[len(src.q)-1]...), got[:n]...)
					} else {
						src.q = append(src.q, append([]byte{}, got[:n]...))
					}
					got = got[n:]
				}
			}
		}
		readAll()
		src.end = true
		if pt, err := r.ReadRecord(); err == nil {
			t.Fatalf("record after the end: %v", pt)
		}
		h.Case(total >= 1, "dtls=%v records=%d rekeys=%d big=%d %.200s", dtls, total, rekeys, big, fmt.Sprintf("%x", bytes.Join(out.w, nil)))
		h.Label("rekeys>0: %v", rekeys > 0)
		h.Label("big>0: %v", big > 0)
	})
}

// A partial record does not disturb anything: would-block, then it continues.
func TestPartial(t *testing.T) {
	h.Check(t, 4000, 60000, func(t *rapid.T) {
		st := &state{version: 0x0303}
		src := &source{}
		r := newLayer(src, mint.DirectionRead, false)
		if rapid.Bool().Draw(t, "encrypted") {
			st.k = newKeys(t, 1)
			r.Rekey(1, aead, keySet(st.k))
		}
		n := rapid.IntRange(1, 4).Draw(t, "records")
		for i := 0; i < n; i++ {
			data := h.Data(t, "data", 700, 0, 1)
			typ := rapid.SampledFrom(outerTypes).Draw(t, "type")
			b := st.seal(typ, data, 0)
			for len(b) > 0 {
				k := rapid.IntRange(1, len(b)).Draw(t, "cut")
				if k < len(b) {
					src.q = append(src.q, b[:k])
					if rapid.Bool().Draw(t, "peek") {
						if ty, err := r.PeekRecordType(false); err != mint.AlertWouldBlock {
							t.Fatalf("part of a record, PeekRecordType = %v, %v", ty, err)
						}
					} else if pt, err := r.ReadRecord(); err != mint.AlertWouldBlock {
						t.Fatalf("part of a record, ReadRecord = %v, %v", pt, err)
					}
				} else {
					src.q = append(src.q, b)
				}
				b = b[k:]
			}
			if ty, err := r.PeekRecordType(false); err != nil || byte(ty) != typ {
				t.Fatalf("PeekRecordType = %v, %v; want %d", ty, err, typ)
			}
			if pt, err := r.ReadRecord(); err != nil || !bytes.Equal(pt.Fragment(), data) {
				t.Fatalf("ReadRecord: %v", err)
			}
			h.Case(len(data) > 0, "%d %d %x", typ, len(data), data[:min(8, len(data))])
		}
	})
}

// What is not a proper record is never delivered.
func TestDamaged(t *testing.T) {
	h.Check(t, 20000, 400000, func(t *rapid.T) {
		dtls := rapid.Bool().Draw(t, "dtls")
		st := &state{dtls: dtls, version: 0x0303}
		src := &source{dg: dtls, end: true}
		r := newLayer(src, mint.DirectionRead, dtls)
		enc := rapid.IntRange(0, 3).Draw(t, "encrypted") != 0
		if enc {
			st.k = newKeys(t, 1)
			r.Rekey(1, aead, keySet(st.k))
		}
		// Some good records first.
		for i := rapid.IntRange(0, 2).Draw(t, "good"); i > 0; i-- {
			data := h.Data(t, "data", 100, 0, 1)
			src.q = append(src.q, st.seal(23, data, 0))
			pt, err := r.ReadRecord()
			if err != nil || !bytes.Equal(pt.Fragment(), data) {
				t.Fatalf("good record: %v", err)
			}
		}
		data := genData(t, 400)
		typ := rapid.SampledFrom(outerTypes).Draw(t, "type")
		var b []byte
		what := ""
		pick := []string{"type", "oversize", "truncated"}
		if enc {
			pick = append(pick, "flip", "flip", "flip", "header", "wrong key", "replay", "skip", "clear", "no content type", "long plaintext", "short")
		}
		switch what = rapid.SampledFrom(pick).Draw(t, "damage"); what {
		case "type":
			b = st.seal(typ, data, 0)
			b[0] = rapid.SampledFrom([]byte{0, 1, 19, 20, 24, 26, 128, 255}).Draw(t, "outer type")
		case "oversize":
			n := rapid.SampledFrom([]int{max + 257, max + 258, 65535}).Draw(t, "n")
			if enc {
				if dtls {
					b = ref.SealInnerDTLS(st.k, append(make([]byte, n-17), 23))
				} else {
					b = ref.SealInnerTLS(st.k, append(make([]byte, n-17), 23))
				}
			} else {
				if n = max + rapid.IntRange(1, 300).Draw(t, "over"); rapid.Bool().Draw(t, "far") {
					n = 65535
				}
				b = st.seal(22, make([]byte, n), 0)
			}
		case "truncated":
			b = st.seal(typ, data, 0)
			b = b[:rapid.IntRange(0, len(b)-1).Draw(t, "left")]
			if dtls && len(b) == 0 {
				return
			}
		case "flip":
			b = st.seal(typ, data, 0)
			hl := 5
			if dtls {
				hl = 13
			}
			i := rapid.IntRange(hl, len(b)-1).Draw(t, "byte")
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case "header": // the header is authenticated
			b = st.seal(typ, data, 0)
			i := rapid.IntRange(0, len(b)-len(data)-18).Draw(t, "byte")
			b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case "wrong key":
			k := *st.k
			*st.k = *ref.NewKeys(k.Suite, append([]byte{k.Secret[0] ^ 1}, k.Secret[1:]...), 1)
			st.k.Seq = k.Seq
			b = st.seal(typ, data, 0)
		case "replay", "skip":
			if dtls {
				return
			}
			if what == "skip" {
				st.k.Seq += uint64(rapid.IntRange(1, 5).Draw(t, "skipped"))
				b = st.seal(typ, data, 0)
			} else {
				b = st.seal(typ, data, 0)
				src.q = append(src.q, append([]byte{}, b...))
				if _, err := r.ReadRecord(); err != nil {
					t.Fatalf("good record: %v", err)
				}
			}
		case "clear":
			if dtls {
				return
			}
			b = ref.SealTLS(nil, typ, data, 0, 0x0303)
		case "no content type":
			in := make([]byte, rapid.SampledFrom([]int{0, 1, 2, 100}).Draw(t, "zeros"))
			if dtls {
				b = ref.SealInnerDTLS(st.k, in)
			} else {
				b = ref.SealInnerTLS(st.k, in)
			}
		case "long plaintext":
			in := append(make([]byte, max+rapid.IntRange(1, 200).Draw(t, "over")), 23)
			if dtls {
				b = ref.SealInnerDTLS(st.k, in)
			} else {
				b = ref.SealInnerTLS(st.k, in)
			}
		case "short":
			n := rapid.IntRange(0, 15).Draw(t, "n")
			if dtls {
				b = append([]byte{23, 0xfe, 0xfd, 0, 1, 0, 0, 0, 0, 0, byte(st.k.Seq), 0, byte(n)}, make([]byte, n)...)
			} else {
				b = append([]byte{23, 3, 3, 0, byte(n)}, make([]byte, n)...)
			}
		}
		h.Case(true, "dtls=%v enc=%v %s %d %.100s", dtls, enc, what, len(b), fmt.Sprintf("%x", b))
		h.Label("%s dtls=%v", what, dtls)
		src.q = append(src.q, b)
		var ty mint.RecordType
		var pt *mint.TLSPlaintext
		var err error
		switch rapid.IntRange(0, 2).Draw(t, "api") {
		case 0:
			pt, err = r.ReadRecord()
		case 1:
			ty, err = r.PeekRecordType(false)
		case 2:
			pt, err = r.ReadRecordAnyEpoch()
		}
		if err == nil {
			if !(dtls && what == "header" && pt != nil) { // judged below
				t.Fatalf("%s: delivered type %v, %v", what, ty, pt)
			}
			// A DTLS header whose epoch became 0 marks a clear record.
			if !(b[3] == 0 && b[4] == 0) {
				t.Fatalf("%s: delivered %v", what, pt)
			}
		}
	})
}

// DTLS: records of other epochs are left out unless asked for, and then opened
// with the keys of their epoch; unknown epochs never.
func TestEpochs(t *testing.T) {
	h.Check(t, 4000, 100000, func(t *rapid.T) {
		src := &source{dg: true}
		r := newLayer(src, mint.DirectionRead, true)
		epochs := []uint16{0}
		sts := map[uint16]*state{0: {dtls: true, version: 0x0303}}
		cur := uint16(0)
		n, old := 0, 0
		for i := rapid.IntRange(3, 15).Draw(t, "ops"); i > 0; i-- {
			if cur < 4 && rapid.IntRange(0, 3).Draw(t, "rekey") == 0 {
				cur++
				k := newKeys(t, cur)
				if err := r.Rekey(mint.Epoch(cur), aead, keySet(k)); err != nil {
					t.Fatal(err)
				}
				sts[cur] = &state{dtls: true, k: k, version: 0x0303}
				epochs = append(epochs, cur)
				continue
			}
			e := cur
			if rapid.Bool().Draw(t, "other epoch") {
				e = rapid.SampledFrom(epochs).Draw(t, "epoch")
			}
			data := h.Data(t, "data", 300, 0, 1)
			typ := rapid.SampledFrom(outerTypes).Draw(t, "type")
			unknown := rapid.IntRange(0, 7).Draw(t, "unknown epoch") == 0
			var b []byte
			if unknown {
				k := newKeys(t, cur+uint16(rapid.IntRange(1, 5).Draw(t, "ahead")))
				b = (&state{dtls: true, k: k}).seal(typ, data, 0)
			} else {
				if rapid.IntRange(0, 3).Draw(t, "gap") == 0 {
					if sts[e].k != nil {
						sts[e].k.Seq += uint64(rapid.IntRange(1, 1000).Draw(t, "by"))
					}
				}
				b = sts[e].seal(typ, data, 0)
			}
			src.q = append(src.q, b)
			any := rapid.Bool().Draw(t, "any epoch")
			var pt *mint.TLSPlaintext
			var err error
			if any {
				pt, err = r.ReadRecordAnyEpoch()
			} else {
				pt, err = r.ReadRecord()
			}
			want := !unknown && (e == cur || any)
			if want != (err == nil) || want && !bytes.Equal(pt.Fragment(), data) {
				t.Fatalf("epoch %d of %d (any %v, unknown %v): %v, %v", e, cur, any, unknown, pt, err)
			}
			if !want && err != mint.AlertWouldBlock {
				t.Fatalf("record of another epoch: %v", err)
			}
			n++
			if e != cur {
				old++
			}
		}
		h.Case(old > 0, "records=%d old=%d cur=%d %x", n, old, cur, rapid.Uint32().Draw(t, "tag"))
	})
}
