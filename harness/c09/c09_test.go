// Package c09: what endpoints put on the wire is protected, under the keys
// of its stage, and no key and nonce pair is used twice.
package c09

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// stage is one set of write keys of an endpoint.
type stage struct {
	name  string
	k     *ref.Keys
	seq   uint64
	last  bool // a message that has to be the last under these keys was sent
	ends  bool // its use may end without such a message
	early bool
	app   bool
}

// auditor reads everything an endpoint writes.  It knows the secrets from the
// reference peer.
type auditor struct {
	dtls, client bool
	stages       []*stage // in order; application stages are added as needed
	cur          int      // TLS: -1 in the clear
	keyed        bool     // a protected record was sent
	clearSeq     uint64
	hellos       int
	frags        map[int][]byte // DTLS: cleartext handshake, by message number
	pend         []byte
	nonces       map[string][]byte
	plain        int
	byStage      map[string]int
}

func newAuditor(b *ref.Base, client bool, early *ref.Keys, accepted bool) *auditor {
	a := &auditor{dtls: b.DTLS, client: client, cur: -1, nonces: map[string][]byte{}, byStage: map[string]int{}}
	add := func(name string, secret []byte, epoch uint16) *stage {
		s := &stage{name: name, k: ref.NewKeys(b.S, secret, epoch)}
		a.stages = append(a.stages, s)
		return s
	}
	if client {
		if early != nil {
			a.stages = append(a.stages, &stage{name: "early", k: early, early: true, ends: !accepted})
		}
		add("handshake", b.CHTS, 2)
		add("application", b.CATS, 3).app = true
	} else {
		add("handshake", b.SHTS, 2)
		add("application", b.SATS, 3).app = true
	}
	return a
}

func (a *auditor) nonce(k *ref.Keys, n, ct []byte) error {
	id := string(k.Key) + string(n)
	if x, ok := a.nonces[id]; ok && !bytes.Equal(x, ct) {
		return fmt.Errorf("two different records under the same key and nonce")
	}
	a.nonces[id] = ct
	return nil
}

func (a *auditor) successor() {
	s := a.stages[len(a.stages)-1]
	k := ref.NewKeys(s.k.Suite, s.k.Suite.NextTraffic(s.k.Secret), 4)
	a.stages = append(a.stages, &stage{name: s.name + "'", k: k, app: true})
}

// open decrypts with s; seq is the record's number (implicit on TLS).
func (a *auditor) open(s *stage, raw []byte) (inner, nonce []byte) {
	h := 5
	seq := s.seq
	if a.dtls {
		h = 13
		seq = binary.BigEndian.Uint64(raw[3:])
	}
	n := append([]byte{}, s.k.IV...)
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], seq)
	for i := range b {
		n[4+i] ^= b[i]
	}
	inner, err := s.k.AEAD.Open(nil, n, raw[h:], raw[:h])
	if err != nil {
		return nil, nil
	}
	if inner == nil {
		inner = []byte{}
	}
	return inner, n
}

func (a *auditor) clear(typ byte, body []byte) error {
	if a.keyed && typ != ref.RecHandshake {
		return fmt.Errorf("a record of type %d in the clear although keys are in use", typ)
	}
	switch typ {
	case ref.RecHandshake:
	case ref.RecAck:
		if a.dtls {
			return nil
		}
		fallthrough
	default:
		return fmt.Errorf("a record of type %d in the clear", typ)
	}
	if a.dtls {
		for len(body) >= 12 {
			n := 12 + int(body[9])<<16 + int(body[10])<<8 + int(body[11])
			if len(body) < n {
				return fmt.Errorf("broken fragment in the clear")
			}
			if err := a.hello(body[0]); err != nil {
				return err
			}
			body = body[n:]
		}
		if len(body) > 0 {
			return fmt.Errorf("broken fragment in the clear")
		}
		return nil
	}
	a.pend = append(a.pend, body...)
	for len(a.pend) >= 4 {
		if err := a.hello(a.pend[0]); err != nil {
			return err
		}
		n := 4 + int(a.pend[1])<<16 + int(a.pend[2])<<8 + int(a.pend[3])
		if len(a.pend) < n {
			break
		}
		a.hellos++
		a.pend = a.pend[n:]
	}
	return nil
}

func (a *auditor) hello(t byte) error {
	if a.client && t == ref.HClientHello || !a.client && t == ref.HServerHello {
		return nil
	}
	return fmt.Errorf("a handshake message of type %d in the clear", t)
}

// content checks what a protected record carries.
func (a *auditor) content(s *stage, inner []byte) error {
	i := len(inner) - 1
	for i >= 0 && inner[i] == 0 {
		i--
	}
	if i < 0 {
		return fmt.Errorf("a protected record without content type")
	}
	typ, p := inner[i], inner[:i]
	a.byStage[s.name]++
	bad := fmt.Errorf("content type %d under the %s keys", typ, s.name)
	if s.last && (!a.dtls || s.app && typ != ref.RecHandshake) {
		// On DTLS messages are repeated under their keys.
		return fmt.Errorf("the %s keys are used after the message that ends their use", s.name)
	}
	switch typ {
	case ref.RecAlert:
		if s.early || len(p) != 2 {
			return bad
		}
	case ref.RecAck:
		if !a.dtls || s.early {
			return bad
		}
	case ref.RecAppData:
		if !s.app && !s.early {
			return bad
		}
	case ref.RecHandshake:
		for len(p) > 0 {
			hl, n := 4, 0
			if a.dtls {
				hl = 12
			}
			if len(a.pend) > 0 || len(p) < hl {
				// The rest of a message that spans records.
				a.pend = append(a.pend, p...)
				p = nil
				if len(a.pend) < hl {
					return nil
				}
				p, a.pend = a.pend, nil
			}
			n = hl + int(p[1])<<16 + int(p[2])<<8 + int(p[3])
			if a.dtls {
				n = hl + int(p[9])<<16 + int(p[10])<<8 + int(p[11])
			}
			if len(p) < n {
				if a.dtls {
					return fmt.Errorf("broken fragment")
				}
				a.pend = p
				break
			}
			if err := a.message(s, p[0]); err != nil {
				return err
			}
			if s.last && !a.dtls && len(p) > n {
				return fmt.Errorf("a message follows, under the old keys, one that ends their use")
			}
			p = p[n:]
		}
	default:
		return bad
	}
	return nil
}

func (a *auditor) message(s *stage, t byte) error {
	ok := false
	switch {
	case s.early:
		ok = t == ref.HEOED
		s.last = true
	case s.app:
		ok = t == ref.HKeyUpdate || t == ref.HNST && !a.client
		if t == ref.HKeyUpdate && !s.last {
			s.last = true
			a.successor()
		}
	case a.client:
		ok = t == ref.HCert || t == ref.HCertVerify || t == ref.HFinished
		s.last = t == ref.HFinished
	default:
		ok = t == ref.HEE || t == ref.HCertReq || t == ref.HCert || t == ref.HCertVerify || t == ref.HFinished
		s.last = t == ref.HFinished
	}
	if !ok {
		return fmt.Errorf("a handshake message of type %d under the %s keys", t, s.name)
	}
	return nil
}

// record checks one record.
func (a *auditor) record(raw []byte) error {
	if !a.dtls {
		first := a.client && raw[0] == ref.RecHandshake && a.hellos == 0
		if v := binary.BigEndian.Uint16(raw[1:]); v != 0x0303 && !(first && v == 0x0301) {
			return fmt.Errorf("record version %x", raw[1:3])
		}
		if raw[0] != ref.RecAppData {
			// With early data, the hello after a retry request.
			again := a.client && a.cur == 0 && a.stages[0].early && !a.stages[0].last
			if a.keyed && !again {
				return fmt.Errorf("a record of type %d outside protection although keys are in use", raw[0])
			}
			keyed := a.keyed
			a.keyed = false
			err := a.clear(raw[0], raw[5:])
			a.keyed = keyed
			if again {
				a.stages[0].last = true
			}
			return err
		}
		if len(a.pend) > 0 && !a.keyed {
			return fmt.Errorf("a hello message continues under other keys")
		}
		for i := a.cur; i < len(a.stages); i++ {
			if i < 0 || i > a.cur+2 {
				continue
			}
			s := a.stages[i]
			inner, nonce := a.open(s, raw)
			if inner == nil {
				continue
			}
			for j := a.cur; j >= 0 && j < i; j++ {
				if x := a.stages[j]; !x.last && !x.ends {
					return fmt.Errorf("keys changed from %s to %s without the message that ends the use of the first", x.name, s.name)
				}
			}
			a.cur, a.keyed = i, true
			s.seq++
			if err := a.nonce(s.k, nonce, raw); err != nil {
				return err
			}
			return a.content(s, inner)
		}
		n := "no"
		if a.cur >= 0 {
			n = a.stages[a.cur].name
		}
		return fmt.Errorf("a record of %d bytes does not decrypt under the keys of its stage (%s keys so far) with the next sequence number", len(raw), n)
	}
	seq := binary.BigEndian.Uint64(raw[3:])
	epoch := uint16(seq >> 48)
	if v := binary.BigEndian.Uint16(raw[1:]); v != 0xfefd && !(a.client && epoch == 0 && v == 0xfeff) {
		return fmt.Errorf("record version %x", v)
	}
	num := seq & (1<<48 - 1)
	if epoch == 0 {
		if raw[0] == ref.RecAppData {
			return fmt.Errorf("application data in the clear")
		}
		if num != a.clearSeq {
			return fmt.Errorf("record number %d in the clear, expected %d", num, a.clearSeq)
		}
		a.clearSeq++
		return a.clear(raw[0], raw[13:])
	}
	if raw[0] != ref.RecAppData {
		return fmt.Errorf("a record of type %d with epoch %d", raw[0], epoch)
	}
	for i := 0; i < len(a.stages); i++ {
		s := a.stages[i]
		if s.k.Epoch != epoch {
			continue
		}
		inner, nonce := a.open(s, raw)
		if inner == nil {
			continue
		}
		if num != s.seq {
			return fmt.Errorf("record number %d under the %s keys, expected %d", num, s.name, s.seq)
		}
		s.seq++
		for j := 0; j < i; j++ {
			if x := a.stages[j]; !x.last && !x.ends {
				return fmt.Errorf("keys changed from %s to %s without the message that ends the use of the first", x.name, s.name)
			}
		}
		a.keyed = true
		if err := a.nonce(s.k, nonce, raw); err != nil {
			return err
		}
		return a.content(s, inner)
	}
	return fmt.Errorf("a record of epoch %d does not decrypt under the keys of that epoch", epoch)
}

// run checks everything written so far.
func (a *auditor) run(writes [][]byte) error {
	for wi, w := range writes {
		rest := w
		for i := 0; len(rest) > 0; i++ {
			var raw []byte
			if a.dtls {
				if len(rest) < 13 {
					return fmt.Errorf("write %d: %d stray bytes", wi, len(rest))
				}
				n := 13 + int(binary.BigEndian.Uint16(rest[11:]))
				if len(rest) < n {
					return fmt.Errorf("write %d: truncated record", wi)
				}
				raw, rest = rest[:n], rest[n:]
			} else if raw, rest = ref.SplitTLS(rest); raw == nil {
				return fmt.Errorf("write %d: not whole records", wi)
			}
			if err := a.record(raw); err != nil {
				return fmt.Errorf("write %d, record %d: %w", wi, i, err)
			}
			a.plain++
		}
	}
	return nil
}

// peer is what both reference roles offer.
type peer interface {
	h.Peer
	SendApp([]byte)
	SendKeyUpdate(bool)
}

type plan struct {
	early   [][]byte
	ops     []op
	end     int // 0 nothing, 1 bad record, 2 Close, 3 bad alert, 4 bad message
	drops   []int
	fails   int // writes that fail, before the end
	secrets [][]byte
}

type op struct{ kind, n int }

func drawPlan(t *rapid.T, dtls bool) *plan {
	p := &plan{}
	n := rapid.IntRange(0, 8).Draw(t, "operations")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "operation")
		size := 0
		if k < 2 {
			sz := []int{1, 16, 100, 1000, 5000}
			if !dtls {
				sz = append(sz, 16384, 16385, 40000)
			}
			size = rapid.SampledFrom(sz).Draw(t, "size")
		}
		p.ops = append(p.ops, op{k, size})
	}
	p.end = rapid.IntRange(0, 4).Draw(t, "end")
	p.fails = rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "writes that fail")
	if dtls {
		p.drops = rapid.SliceOfN(rapid.IntRange(0, 10), 0, 5).Draw(t, "lost at first")
	}
	return p
}

// connect drives the handshake; the peer does not see the datagrams in drops.
func connect(l *h.Link, p *plan) {
	if len(p.drops) == 0 {
		l.Run()
		return
	}
	k := 0
	for i := 0; i < 40; i++ {
		for {
			moved := l.N.StepAll()
			for _, b := range l.N.T.TakeOut() {
				l.Log[0] = append(l.Log[0], b)
				moved = true
				lost := false
				for _, d := range p.drops {
					lost = lost || d == k
				}
				k++
				if !lost {
					l.P.Feed(b)
				}
			}
			for _, b := range l.P.Take() {
				moved = true
				l.N.T.Push(b)
			}
			if !moved {
				break
			}
		}
		if l.N.Failed {
			return
		}
		time.Sleep(210 * time.Millisecond)
		if l.N.Done {
			l.N.ReadAvail(100)
		}
	}
}

// life drives a connected node.
func life(l *h.Link, b *ref.Base, pr peer, p *plan, rng *h.Rng) error {
	n := l.N
	settle := func() {
		for i := 0; i < 20; i++ {
			n.ReadAvail(70000)
			if !l.Move() {
				break
			}
		}
	}
	for _, o := range p.ops {
		switch o.kind {
		case 0:
			m := rng.Bytes(o.n)
			if o.n >= 16 {
				p.secrets = append(p.secrets, m[:16], m[len(m)-16:])
			}
			if k, err := n.C.Write(m); k != len(m) || err != nil {
				return fmt.Errorf("Write = %d, %v", k, err)
			}
		case 1:
			pr.SendApp(rng.Bytes(o.n))
		case 2, 3:
			if err := n.C.SendKeyUpdate(o.kind == 3); err != nil {
				return err
			}
		case 4:
			pr.SendKeyUpdate(true)
		}
		settle()
		if b.Err != nil {
			return fmt.Errorf("the peer fails: %v", b.Err)
		}
		if n.ReadErr != nil {
			return fmt.Errorf("reading fails: %v", n.ReadErr)
		}
	}
	for i := 0; i < p.fails; i++ {
		// The transport fails, but an eavesdropper has seen the record.
		m := rng.Bytes(20 + 30*i)
		p.secrets = append(p.secrets, m[:16])
		n.T.FailWrites = 1
		if k, err := n.C.Write(m); err == nil {
			return fmt.Errorf("Write = %d, %v although the transport failed", k, err)
		}
		m = rng.Bytes(20 + 10*i)
		p.secrets = append(p.secrets, m[:16])
		n.C.Write(m)
		if !b.DTLS {
			// Only this is still sent.
			n.C.SendKeyUpdate(false)
			break
		}
	}
	return nil
}

func finish(l *h.Link, b *ref.Base, p *plan) {
	n := l.N
	var bad []byte
	bad = nil
	switch p.end {
	case 1:
		if !b.DTLS {
			bad = ref.SealTLS(b.W, ref.RecAppData, []byte("x"), 0, 0x303)
			bad[len(bad)-1] ^= 1
		}
	case 2:
		n.C.Close()
	case 3:
		if b.DTLS {
			bad = ref.SealDTLS(b.W, &b.ClearSeq, ref.RecAlert, []byte{2}, 0)
		} else {
			bad = ref.SealTLS(b.W, ref.RecAlert, []byte{2}, 0, 0x303)
		}
	case 4:
		if b.DTLS {
			bad = ref.SealDTLS(b.W, &b.ClearSeq, ref.RecHandshake, b.Frame(ref.HKeyUpdate, []byte{7}), 0)
		} else {
			bad = ref.SealTLS(b.W, ref.RecHandshake, b.Frame(ref.HKeyUpdate, []byte{7}), 0, 0x303)
		}
	}
	if bad != nil {
		n.T.Push(bad)
		n.ReadAvail(100)
		n.C.Write([]byte("more"))
		n.C.Close()
	}
}

func judge(l *h.Link, b *ref.Base, client bool, early *ref.Keys, accepted bool, p *plan) (*auditor, error) {
	a := newAuditor(b, client, early, accepted)
	if err := a.run(l.N.T.Sent); err != nil {
		return a, err
	}
	p.secrets = append(p.secrets, b.Early, b.HS, b.Master, b.CHTS, b.SHTS, b.CATS, b.SATS, b.Exp, b.PSKKey)
	for _, s := range a.stages {
		p.secrets = append(p.secrets, s.k.Key, s.k.IV, s.k.Secret)
	}
	all := bytes.Join(l.N.T.Sent, nil)
	for i, s := range p.secrets {
		if len(s) >= 8 && bytes.Contains(all, s) {
			return a, fmt.Errorf("secret %d of %d (%d bytes) is on the wire in the clear", i, len(p.secrets), len(s))
		}
	}
	return a, nil
}

func drawScen(t *rapid.T, dtls bool) *h.Scen {
	o := h.ScenOpts{Compatible: true, Tickets: true, Slow: rapid.IntRange(0, 60).Draw(t, "slow") == 60}
	if dtls {
		o.DTLSOnly = true
	} else {
		o.NoDTLS = true
	}
	return h.DrawScen(t, o)
}

func bubble(t *testing.T, rt *rapid.T, p *plan, f func()) {
	if len(p.drops) > 0 {
		h.Bubble(t, f)
		return
	}
	f()
}

func client(t *testing.T, dtls bool) func(rt *rapid.T) {
	return func(rt *rapid.T) {
		s := drawScen(rt, dtls)
		o := s.Predict()
		p := drawPlan(rt, dtls)
		rng := h.NewRng(rapid.Uint64().Draw(rt, "seed") ^ 0x5a17c0de)
		early := 0
		if s.EarlyC {
			early = rapid.IntRange(0, 3).Draw(rt, "early writes")
		}
		cc, _ := s.Configs()
		var err error
		var what string
		var a *auditor
		bubble(t, rt, p, func() {
			srv := h.RefServer(s, rng)
			n := h.NewNode(cc, true)
			l := &h.Link{N: n, P: srv}
			for i := 0; i < early && o.EarlySnt; i++ {
				n.Step()
				if n.C.Writable() {
					m := rng.Bytes(40 * (i + 1))
					p.secrets = append(p.secrets, m[:16])
					if k, e := n.C.Write(m); k != len(m) || e != nil {
						err = fmt.Errorf("early Write = %d, %v", k, e)
						return
					}
				}
			}
			connect(l, p)
			what = fmt.Sprintf("client %v, server %v (messages %v)", n, srv.Err, srv.Msgs)
			if !n.Done || !srv.Done {
				err = fmt.Errorf("no handshake")
				return
			}
			n.ReadAvail(100)
			if err = life(l, &srv.Base, srv, p, rng); err != nil {
				return
			}
			finish(l, &srv.Base, p)
			// A client that offered early data is in the early stage even if it
			// sends nothing but the end of it.
			var ek *ref.Keys
			if o.EarlySnt {
				es := ref.SuiteByID(uint16(s.PSK.Suite))
				ch := n.T.Sent[0][5:]
				if len(ch) != 4+int(ch[2])<<8+int(ch[3]) {
					panic("HARNESS-ERROR: the hello spans records")
				}
				ek = ref.NewKeys(es, es.Derive(ref.Extract(es.Hash, nil, s.PSK.Key), "c e traffic", es.Sum(ch)), 1)
			}
			a, err = judge(l, &srv.Base, true, ek, srv.EarlyOK, p)
		})
		if err != nil {
			rt.Fatalf("%v: %s\n%v", err, what, s)
		}
		for k := range a.byStage {
			h.Label("client dtls=%v %.13s", dtls, k)
		}
		h.Label("client dtls=%v end=%d drops=%v fails=%v", dtls, p.end, len(p.drops) > 0, p.fails > 0)
		h.Case(a.plain > 3, "%d records %v %+v", a.plain, a.byStage, s)
	}
}

func server(t *testing.T, dtls bool) func(rt *rapid.T) {
	return func(rt *rapid.T) {
		s := drawScen(rt, dtls)
		p := drawPlan(rt, dtls)
		rng := h.NewRng(rapid.Uint64().Draw(rt, "seed") ^ 0x5a17c0de)
		_, sc := s.Configs()
		var err error
		var what string
		var a *auditor
		bubble(t, rt, p, func() {
			c := h.RefClient(s, rng)
			n := h.NewNode(sc, false)
			l := &h.Link{N: n, P: c}
			c.Start()
			connect(l, p)
			what = fmt.Sprintf("server %v, client %v (messages %v)", n, c.Err, c.Msgs)
			if !n.Done || !c.Done {
				err = fmt.Errorf("no handshake")
				return
			}
			n.ReadAvail(100)
			if err = life(l, &c.Base, c, p, rng); err != nil {
				return
			}
			finish(l, &c.Base, p)
			for _, d := range s.Certs {
				for _, x := range d.Ident().Chain {
					p.secrets = append(p.secrets, x[len(x)/2:len(x)/2+40])
				}
			}
			a, err = judge(l, &c.Base, false, nil, false, p)
		})
		if err != nil {
			rt.Fatalf("%v: %s\n%v", err, what, s)
		}
		for k := range a.byStage {
			h.Label("server dtls=%v %.13s", dtls, k)
		}
		h.Label("server dtls=%v end=%d drops=%v fails=%v", dtls, p.end, len(p.drops) > 0, p.fails > 0)
		h.Case(a.plain > 3, "%d records %v %+v", a.plain, a.byStage, s)
	}
}

// TestClientTLS and its siblings: the library against the reference peer,
// everything the library writes is read with the peer's secrets.
func TestClientTLS(t *testing.T)  { h.Check(t, 500, 12000, client(t, false)) }
func TestClientDTLS(t *testing.T) { h.Check(t, 400, 9000, client(t, true)) }
func TestServerTLS(t *testing.T)  { h.Check(t, 500, 12000, server(t, false)) }
func TestServerDTLS(t *testing.T) { h.Check(t, 400, 9000, server(t, true)) }

var _ = mint.AlertNoAlert
