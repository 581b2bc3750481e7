package ref

import (
	"bytes"
	"crypto"
	"crypto/x509"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
)

// Ident is a certificate chain with its key.
type Ident struct {
	Name  string
	Chain [][]byte
	Leaf  *x509.Certificate
	Key   crypto.Signer
}

// PSK is a pre-shared key.
type PSK struct {
	ID         []byte
	Key        []byte
	Suite      uint16
	Resumption bool
	AgeAdd     uint32
	Age        uint32 // age in ms the client claims, before obfuscation
	Nonce      []byte
	Lifetime   uint32
}

// OutMsg lets a hook change an outgoing handshake message: Wire is what is
// sent, Absorb is what enters the sender's transcript.
type OutMsg struct {
	Kind   byte
	HRR    bool
	Raw    []byte
	Wire   [][]byte
	Absorb [][]byte
}

func (m *OutMsg) Set(raws ...[]byte) { m.Wire, m.Absorb = raws, raws }

// Base holds what both roles share.  It does no I/O: bytes go in through Feed
// and come out of Take.
type Base struct {
	IsClient bool
	DTLS     bool
	Rand     io.Reader

	S  *Suite
	TS []byte // transcript

	PSKKey                                                    []byte
	Early, HS, Master, CETS, CHTS, SHTS, CATS, SATS, Exp, Res []byte

	W        *Keys
	ClearSeq uint64
	R        *Keys
	RK       map[uint16]*Keys
	Version  uint16
	MaxFrag  int
	Pad      int
	Coalesce bool
	pend     []byte

	Hook    func(*OutMsg)
	SendSeq uint16
	recvSeq uint16
	frags   map[uint16]*reasm

	in  []byte
	out [][]byte
	hs  []byte

	SkipApp bool // ignore early data after a retry request
	SkipBad bool // ignore records that do not decrypt
	Skipped int

	Recs    []*Rec
	Msgs    []byte // handshake message types received
	App     []byte
	EarlyRx []byte
	Alerts  [][]byte
	Acks    [][]byte
	Err     error
	Done    bool

	Tickets    []*PSK
	KUPending  int
	KUSeen     int
	KURequests int // KeyUpdates received that ask for one in return

	onMsg func(raw, body []byte) error
	// EarlyPhase marks the server reading under the early keys.
	EarlyPhase bool
}

type reasm struct {
	typ  byte
	body []byte
	have []bool
	n    int
}

func (e *Base) hdrLen() int {
	if e.DTLS {
		return 12
	}
	return 4
}

// Frame builds a message in transcript form.
func (e *Base) Frame(t byte, body []byte) []byte {
	if !e.DTLS {
		return Msg(t, body)
	}
	h := Cat([]byte{t}, U24(len(body)), U16(int(e.SendSeq)), U24(0), U24(len(body)), body)
	e.SendSeq++
	return h
}

// Body strips the header of a message in transcript form.
func (e *Base) Body(raw []byte) []byte { return raw[e.hdrLen():] }

func (e *Base) TH() []byte { return e.S.Sum(e.TS) }

// Take returns what is to be sent: one element per transport write.
func (e *Base) Take() [][]byte {
	e.Flush()
	o := e.out
	e.out = nil
	return o
}

func (e *Base) Flush() {
	if len(e.pend) > 0 {
		p := e.pend
		e.pend = nil
		e.Record(RecHandshake, p)
	}
}

// Record sends one payload as one or more records under the current write keys.
func (e *Base) Record(typ byte, payload []byte) {
	max := e.MaxFrag
	if max <= 0 {
		max = 1 << 14
		if e.DTLS {
			max = 1200
		}
	}
	if typ != RecHandshake {
		max = 1 << 14
	}
	for first := true; first || len(payload) > 0; first = false {
		n := len(payload)
		if n > max {
			n = max
		}
		if e.DTLS {
			e.out = append(e.out, SealDTLS(e.W, &e.ClearSeq, typ, payload[:n], e.recVersion()))
		} else {
			e.out = append(e.out, SealTLS(e.W, typ, payload[:n], e.Pad, e.recVersion()))
		}
		payload = payload[n:]
	}
}

// RawOut queues literal transport bytes.
func (e *Base) RawOut(b []byte) { e.Flush(); e.out = append(e.out, b) }

func (e *Base) recVersion() uint16 {
	if e.Version != 0 {
		return e.Version
	}
	if e.DTLS {
		return 0xfefd
	}
	return 0x0303
}

// SendHS sends one handshake message given in transcript form.
func (e *Base) SendHS(raw []byte) {
	if !e.DTLS {
		if e.Coalesce {
			e.pend = append(e.pend, raw...)
			return
		}
		e.Record(RecHandshake, raw)
		return
	}
	for _, f := range FragmentDTLS(raw, e.MaxFrag) {
		e.out = append(e.out, SealDTLS(e.W, &e.ClearSeq, RecHandshake, f, e.recVersion()))
	}
}

// FragmentDTLS splits a whole DTLS message into fragments of at most max body bytes.
func FragmentDTLS(raw []byte, max int) [][]byte {
	if max <= 0 {
		max = 1100
	}
	var out [][]byte
	body := raw[12:]
	for off := 0; off == 0 || off < len(body); off += max {
		n := len(body) - off
		if n > max {
			n = max
		}
		out = append(out, DTLSFrag(raw, off, n))
	}
	return out
}

// DTLSFrag cuts the fragment [off,off+n) out of a whole DTLS message.
func DTLSFrag(raw []byte, off, n int) []byte {
	return Cat(raw[:6], U24(off), U24(n), raw[12+off:12+off+n])
}

// Emit frames, hooks, absorbs and sends a handshake message.
func (e *Base) Emit(t byte, body []byte) {
	e.EmitRaw(t, e.Frame(t, body), false)
}

func (e *Base) EmitRaw(t byte, raw []byte, hrr bool) {
	m := &OutMsg{Kind: t, Raw: raw, HRR: hrr}
	m.Set(raw)
	if e.Hook != nil {
		e.Hook(m)
	}
	for _, a := range m.Absorb {
		e.TS = append(e.TS, a...)
	}
	for _, w := range m.Wire {
		e.SendHS(w)
	}
}

func (e *Base) setW(k *Keys) {
	e.Flush()
	e.W = k
}

func (e *Base) setR(k *Keys) {
	e.R = k
	if e.RK == nil {
		e.RK = map[uint16]*Keys{}
	}
	e.RK[k.Epoch] = k
}

// Feed gives transport bytes (TLS: any chunk; DTLS: one datagram).
func (e *Base) Feed(b []byte) {
	if e.Err != nil {
		return
	}
	if e.DTLS {
		rec, err := OpenDTLS(e.RK, b)
		if err != nil {
			e.Skipped++
			return
		}
		e.dispatch(rec)
		return
	}
	e.in = append(e.in, b...)
	for e.Err == nil {
		raw, rest := SplitTLS(e.in)
		if raw == nil {
			return
		}
		e.in = rest
		if n := len(raw) - 5; n > 1<<14+256 {
			e.Err = fmt.Errorf("ref: oversized record (%d)", n)
			return
		}
		rec, err := OpenTLS(e.R, raw)
		if err == ErrMAC && e.SkipBad {
			e.Skipped++
			continue
		}
		if err != nil {
			e.Err = err
			return
		}
		e.SkipBad = false
		e.dispatch(rec)
	}
}

func (e *Base) dispatch(rec *Rec) {
	e.Recs = append(e.Recs, rec)
	if len(rec.Payload) > 1<<14 && !(rec.Type == RecAppData && !rec.Enc && e.SkipApp) {
		e.Err = fmt.Errorf("ref: plaintext too long (%d)", len(rec.Payload))
		return
	}
	switch rec.Type {
	case RecAlert:
		e.Alerts = append(e.Alerts, rec.Payload)
	case RecAck:
		e.Acks = append(e.Acks, rec.Payload)
	case RecAppData:
		if !rec.Enc && e.SkipApp {
			e.Skipped++
			return
		}
		if !rec.Enc {
			e.Err = errors.New("ref: application data in the clear")
			return
		}
		if e.EarlyPhase {
			e.EarlyRx = append(e.EarlyRx, rec.Payload...)
		} else {
			e.App = append(e.App, rec.Payload...)
		}
	case RecHandshake:
		if e.DTLS {
			e.feedFrag(rec.Payload)
			return
		}
		e.hs = append(e.hs, rec.Payload...)
		for e.Err == nil && len(e.hs) >= 4 {
			n := 4 + int(e.hs[1])<<16 + int(e.hs[2])<<8 + int(e.hs[3])
			if len(e.hs) < n {
				return
			}
			raw := append([]byte{}, e.hs[:n]...)
			e.hs = e.hs[n:]
			e.deliver(raw)
		}
	default:
		e.Err = fmt.Errorf("ref: unexpected record type %d", rec.Type)
	}
}

func (e *Base) deliver(raw []byte) {
	e.Msgs = append(e.Msgs, raw[0])
	if err := e.onMsg(raw, e.Body(raw)); err != nil {
		e.Err = err
	}
}

func (e *Base) feedFrag(p []byte) {
	for len(p) >= 12 {
		n := int(p[9])<<16 | int(p[10])<<8 | int(p[11])
		if len(p) < 12+n {
			e.Err = errors.New("ref: DTLS fragment overruns record")
			return
		}
		f := p[:12+n]
		p = p[12+n:]
		total := int(f[1])<<16 | int(f[2])<<8 | int(f[3])
		seq := binary.BigEndian.Uint16(f[4:])
		off := int(f[6])<<16 | int(f[7])<<8 | int(f[8])
		if seq < e.recvSeq {
			continue
		}
		if off+n > total {
			e.Err = errors.New("ref: DTLS fragment out of range")
			return
		}
		if e.frags == nil {
			e.frags = map[uint16]*reasm{}
		}
		m := e.frags[seq]
		if m == nil {
			m = &reasm{typ: f[0], body: make([]byte, total), have: make([]bool, total)}
			e.frags[seq] = m
		}
		if m.typ != f[0] || len(m.body) != total {
			e.Err = errors.New("ref: inconsistent DTLS fragments")
			return
		}
		for i := 0; i < n; i++ {
			if m.have[off+i] && m.body[off+i] != f[12+i] {
				e.Err = errors.New("ref: DTLS fragment content changed")
				return
			}
			if !m.have[off+i] {
				m.have[off+i] = true
				m.body[off+i] = f[12+i]
				m.n++
			}
		}
		for e.Err == nil {
			m := e.frags[e.recvSeq]
			if m == nil || m.n < len(m.body) {
				break
			}
			delete(e.frags, e.recvSeq)
			raw := Cat([]byte{m.typ}, U24(len(m.body)), U16(int(e.recvSeq)), U24(0), U24(len(m.body)), m.body)
			e.recvSeq++
			e.deliver(raw)
		}
	}
	if len(p) != 0 {
		e.Err = errors.New("ref: trailing bytes in DTLS handshake record")
	}
}

// --- key schedule steps ---

func (e *Base) computeEarly() {
	e.Early = Extract(e.S.Hash, nil, orZero(e.PSKKey, e.S))
}

func orZero(b []byte, s *Suite) []byte {
	if b == nil {
		return make([]byte, s.Hash.Size())
	}
	return b
}

// ComputeHS derives the handshake secrets from the transcript up to ServerHello.
func (e *Base) ComputeHS(ecdhe []byte) {
	e.computeEarly()
	e.HS = Extract(e.S.Hash, e.S.Derive(e.Early, "derived", e.S.Sum(nil)), orZero(ecdhe, e.S))
	th := e.TH()
	e.CHTS = e.S.Derive(e.HS, "c hs traffic", th)
	e.SHTS = e.S.Derive(e.HS, "s hs traffic", th)
	e.Master = Extract(e.S.Hash, e.S.Derive(e.HS, "derived", e.S.Sum(nil)), make([]byte, e.S.Hash.Size()))
}

// ComputeApp derives the application secrets from the transcript up to the server Finished.
func (e *Base) ComputeApp() {
	th := e.TH()
	e.CATS = e.S.Derive(e.Master, "c ap traffic", th)
	e.SATS = e.S.Derive(e.Master, "s ap traffic", th)
	e.Exp = e.S.Derive(e.Master, "exp master", th)
}

func (e *Base) ComputeRes() { e.Res = e.S.Derive(e.Master, "res master", e.TH()) }

func (e *Base) Exporter(label string, ctx []byte, n int) []byte {
	return e.S.Exporter(e.Exp, label, ctx, n)
}

func messageHash(s *Suite, ch1 []byte) []byte {
	return Msg(HMessageHash, s.Sum(ch1))
}

// --- post-handshake ---

func (e *Base) SendApp(b []byte) { e.Flush(); e.Record(RecAppData, b) }

func (e *Base) SendAlert(level, desc byte) { e.Flush(); e.Record(RecAlert, []byte{level, desc}) }

// SendKeyUpdate sends KeyUpdate and moves the write keys on.
func (e *Base) SendKeyUpdate(request bool) {
	v := byte(0)
	if request {
		v = 1
		e.KUPending++
	}
	e.SendHS(e.Frame(HKeyUpdate, []byte{v}))
	e.RollW()
}

func (e *Base) RollW() {
	e.setW(NewKeys(e.S, e.S.NextTraffic(e.W.Secret), 4))
}

func (e *Base) RollR() { e.setR(NewKeys(e.S, e.S.NextTraffic(e.R.Secret), 4)) }

func (e *Base) postHandshake(raw, body []byte) error {
	switch raw[0] {
	case HKeyUpdate:
		if len(body) != 1 || body[0] > 1 {
			return errors.New("ref: bad KeyUpdate")
		}
		e.KUSeen++
		e.RollR()
		if body[0] == 1 {
			e.KURequests++
			e.SendKeyUpdate(false)
		} else if e.KUPending > 0 {
			e.KUPending--
		}
		return nil
	case HNST:
		if !e.IsClient {
			return errors.New("ref: ticket from client")
		}
		r := &R{B: body}
		p := &PSK{Suite: e.S.ID, Resumption: true}
		p.Lifetime = r.U32()
		p.AgeAdd = r.U32()
		p.Nonce = r.V8()
		p.ID = r.V16()
		r.Exts()
		if err := r.Done(); err != nil {
			return err
		}
		p.Key = e.S.ResumptionPSK(e.Res, p.Nonce)
		e.Tickets = append(e.Tickets, p)
		return nil
	}
	return fmt.Errorf("ref: unexpected post-handshake message %d", raw[0])
}

// TicketMsg frames a NewSessionTicket without sending it.
func (e *Base) TicketMsg(id, nonce []byte, ageAdd, lifetime uint32, exts []Ext) []byte {
	return e.Frame(HNST, Cat(U32(lifetime), U32(ageAdd), V8(nonce), V16(id), Exts(exts)))
}

// SendTicket issues a NewSessionTicket (server).
func (e *Base) SendTicket(id, nonce []byte, ageAdd, lifetime uint32, exts []Ext) *PSK {
	body := Cat(U32(lifetime), U32(ageAdd), V8(nonce), V16(id), Exts(exts))
	e.SendHS(e.Frame(HNST, body))
	return &PSK{ID: id, Key: e.S.ResumptionPSK(e.Res, nonce), Suite: e.S.ID, Resumption: true, AgeAdd: ageAdd, Nonce: nonce, Lifetime: lifetime}
}

func rnd(r io.Reader, n int) []byte {
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		panic(err)
	}
	return b
}

var errFinished = errors.New("ref: Finished does not verify")

func checkFin(s *Suite, base, th, got []byte) error {
	if !bytes.Equal(s.Finished(base, th), got) {
		return errFinished
	}
	return nil
}
