// Package c13: DTLS handshake messages are reassembled from any fragments.
package c13

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// part is a message of the peer with the keys it goes under.
type part struct {
	raw []byte
	w   *ref.Keys
}

// style says how a peer cuts and orders.
type style struct {
	Cuts    int // pieces per message
	Overlap bool
	Empty   bool // fragments without content
	Dup     bool
	Shuffle int // 0 in order, 1 within what the same keys protect, 2 across
	Pack    int // most fragments in a record
	Join    int // most records in a datagram
	Replay  bool
}

func drawStyle(t *rapid.T) style {
	b := func(l string) bool { return rapid.Bool().Draw(t, l) }
	y := style{
		Cuts:    rapid.SampledFrom([]int{1, 2, 3, 8, 40}).Draw(t, "pieces"),
		Overlap: b("overlap"), Empty: b("empty fragments"), Dup: b("duplicates"),
		Shuffle: rapid.IntRange(0, 2).Draw(t, "order"),
		Pack:    rapid.SampledFrom([]int{1, 1, 3}).Draw(t, "fragments per record"),
		Join:    rapid.SampledFrom([]int{1, 1, 4}).Draw(t, "records per datagram"),
		Replay:  b("replayed records"),
	}
	if y.Pack > 1 {
		// A message before a key change has to end its record (RFC 8446, 5.1).
		y.Overlap, y.Empty, y.Dup = false, false, false
		y.Shuffle = min(y.Shuffle, 1)
	}
	return y
}

// pieces cuts one message: its fragments cover it.
func (y style) pieces(r *h.Rng, raw []byte) (out [][]byte) {
	n := len(raw) - 12
	cut := map[int]bool{0: true}
	k := 1 + r.IntN(y.Cuts)
	for i := 1; i < k && n > 0; i++ {
		cut[r.IntN(n)] = true
	}
	at := []int{}
	for i := 0; i < n; i++ {
		if cut[i] {
			at = append(at, i)
		}
	}
	if n == 0 {
		at = []int{0}
	}
	const max = 1100
	for i, o := range at {
		end := n
		if i+1 < len(at) {
			end = at[i+1]
		}
		for {
			e := min(end, o+max)
			lo, hi := o, e
			if y.Overlap && r.IntN(2) == 0 {
				lo = max0(lo - r.IntN(1+lo))
				if r.IntN(2) == 0 {
					hi += r.IntN(1 + n - hi)
				}
				if hi-lo > max {
					lo, hi = o, e
				}
			}
			out = append(out, ref.DTLSFrag(raw, lo, hi-lo))
			if o = e; o >= end {
				break
			}
		}
	}
	if y.Empty {
		for i := r.IntN(3); i > 0; i-- {
			out = append(out, ref.DTLSFrag(raw, r.IntN(n+1), 0))
		}
	}
	if y.Dup {
		for i := r.IntN(4); i > 0; i-- {
			out = append(out, out[r.IntN(len(out))])
		}
	}
	return
}

func max0(n int) int { return max(n, 0) }

// datagrams turns messages into datagrams.
func (y style) datagrams(r *h.Rng, e *ref.Base, ps []part, extra func(raw []byte) [][]byte) [][]byte {
	var all [][]byte // records
	for i := 0; i < len(ps); {
		j := i
		var fr [][]byte
		for ; j < len(ps) && ps[j].w == ps[i].w; j++ {
			fr = append(fr, y.pieces(r, ps[j].raw)...)
			if extra != nil {
				for _, x := range extra(ps[j].raw) {
					k := r.IntN(len(fr) + 1)
					fr = append(fr[:k], append([][]byte{x}, fr[k:]...)...)
				}
			}
		}
		if y.Shuffle > 0 {
			shuffle(r, fr)
		}
		for len(fr) > 0 {
			k := min(len(fr), 1+r.IntN(y.Pack))
			p := bytes.Join(fr[:k], nil)
			if len(p) > 1<<14 {
				p, k = fr[0], 1
			}
			fr = fr[k:]
			all = append(all, ref.SealDTLS(ps[i].w, &e.ClearSeq, ref.RecHandshake, p, 0xfefd))
		}
		i = j
	}
	if y.Replay {
		for i := r.IntN(4); i > 0; i-- {
			k := r.IntN(len(all))
			all = append(all[:k+1], append([][]byte{all[r.IntN(k+1)]}, all[k+1:]...)...)
		}
	}
	if y.Shuffle == 2 {
		shuffle(r, all)
	}
	var out [][]byte
	for len(all) > 0 {
		k := min(len(all), 1+r.IntN(y.Join))
		d := bytes.Join(all[:k], nil)
		if len(d) > 14000 {
			d, k = all[0], 1
		}
		out = append(out, d)
		all = all[k:]
	}
	return out
}

func shuffle(r *h.Rng, x [][]byte) {
	for i := len(x) - 1; i > 0; i-- {
		j := r.IntN(i + 1)
		x[i], x[j] = x[j], x[i]
	}
}

// run drives a node against a reference peer whose messages are scattered.
// The peer repeats a flight that got no answer up to rounds times.
func run(n *h.Node, p h.Peer, e *ref.Base, done func() bool, y style, r *h.Rng, rounds int, extra func([]byte) [][]byte) {
	var flight, fresh []part
	e.Hook = func(m *ref.OutMsg) {
		fresh = append(fresh, part{append([]byte{}, m.Raw...), e.W})
		m.Wire = nil
	}
	if c, ok := p.(*ref.Client); ok {
		c.Start()
	}
	step := func() {
		for i := 0; i < 5000; i++ {
			before := n.T.Pending()
			if !n.Step() && (n.Done || n.Failed || n.T.Pending() == before) {
				break
			}
		}
		for _, b := range n.T.TakeOut() {
			p.Feed(b)
		}
		p.Take()
	}
	step()
	left := rounds
	for (left > 0 || len(fresh) > 0) && !n.Failed && e.Err == nil && !(n.Done && done() && len(fresh) == 0) {
		if len(fresh) > 0 {
			flight, fresh = fresh, nil
			left = rounds
		}
		left--
		if len(flight) == 0 {
			return
		}
		for _, d := range y.datagrams(r, e, flight, extra) {
			n.T.Push(d)
			if r.IntN(3) == 0 {
				step()
			}
		}
		step()
	}
}

func drawScen(t *rapid.T) *h.Scen {
	return h.DrawScen(t, h.ScenOpts{Compatible: true, DTLSOnly: true, NoEarly: true})
}

// need is how often a flight has to be repeated at most: what is protected
// with keys of the flight itself is lost when it overtakes them.
func need(y style) int {
	if y.Shuffle == 2 {
		return 3
	}
	return 1
}

// TestServer: a client's messages scattered.
func TestServer(t *testing.T) {
	h.Check(t, 1200, 24000, func(t *rapid.T) {
		s := drawScen(t)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		y := drawStyle(t)
		big := rapid.SampledFrom([]int{0, 0, 500, 5000}).Draw(t, "extra extension")
		_, sc := s.Configs()
		c := h.RefClient(s, r)
		if big > 0 {
			c.Cfg.Extra = append(c.Cfg.Extra, ref.Ext{Type: 0x7a7a, Data: r.Bytes(big)})
		}
		n := h.NewNode(sc, false)
		run(n, c, &c.Base, func() bool { return c.Done }, y, r, need(y), nil)
		ctx := fmt.Sprintf("%+v: server %v client done=%v err=%v\n%v", y, n, c.Done, c.Err, s)
		if !n.Done || !c.Done {
			t.Fatalf("the handshake fails: %s", ctx)
		}
		if err := same(n, &c.Base); err != nil {
			t.Fatalf("%v: %s", err, ctx)
		}
		h.Label("server order=%d cuts=%d", y.Shuffle, y.Cuts)
		h.Case(y.Cuts > 1, "%+v %d %v", y, big, s)
	})
}

// TestClient: a server's messages scattered.
func TestClient(t *testing.T) {
	h.Check(t, 1200, 24000, func(t *rapid.T) {
		s := drawScen(t)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		y := drawStyle(t)
		big := rapid.SampledFrom([]int{0, 0, 500, 5000}).Draw(t, "large certificate")
		cc, _ := s.Configs()
		srv := h.RefServer(s, r)
		if srv.Cfg.Cookie != nil && big > 0 {
			srv.Cfg.Cookie = r.Bytes(big)
		}
		if id := srv.Cfg.Ident; id != nil && big > 0 {
			srv.Cfg.Chain = func(chain [][]byte) [][]byte {
				for len(chain) < 12 {
					chain = append(chain, chain[len(chain)-1])
				}
				return chain
			}
		}
		n := h.NewNode(cc, true)
		run(n, srv, &srv.Base, func() bool { return srv.Done }, y, r, need(y), nil)
		ctx := fmt.Sprintf("%+v: client %v server done=%v err=%v\n%v", y, n, srv.Done, srv.Err, s)
		if !n.Done || !srv.Done {
			t.Fatalf("the handshake fails: %s", ctx)
		}
		if err := same(n, &srv.Base); err != nil {
			t.Fatalf("%v: %s", err, ctx)
		}
		h.Label("client order=%d cuts=%d", y.Shuffle, y.Cuts)
		h.Case(y.Cuts > 1, "%+v %d %v", y, big, s)
	})
}

// same checks agreement and that data flows.
func same(n *h.Node, e *ref.Base) error {
	x, err := n.C.ComputeExporter("e", nil, 32)
	if err != nil || !bytes.Equal(x, e.Exporter("e", nil, 32)) {
		return fmt.Errorf("the secrets differ (%v)", err)
	}
	if uint16(n.C.ConnectionState().CipherSuite.Suite) != e.S.ID {
		return fmt.Errorf("the suites differ")
	}
	e.SendApp([]byte("hello"))
	for _, d := range e.Take() {
		n.T.Push(d)
	}
	for i := 0; i < 100 && n.T.Pending() > 0; i++ {
		n.ReadAvail(100)
	}
	if string(n.Got) != "hello" {
		return fmt.Errorf("read %q (%v)", n.Got, n.ReadErr)
	}
	if k, err := n.C.Write([]byte("world")); k != 5 || err != nil {
		return fmt.Errorf("Write = %d, %v", k, err)
	}
	for _, b := range n.T.TakeOut() {
		e.Feed(b)
	}
	if string(e.App) != "world" {
		return fmt.Errorf("the peer read %q (%v)", e.App, e.Err)
	}
	return nil
}

// bad makes fragments that are not cut from the message.
func bad(r *h.Rng, kind int, raw []byte) []byte {
	n := len(raw) - 12
	f := append([]byte{}, raw...)
	off := r.IntN(n + 1)
	k := r.IntN(n - off + 1)
	if k > 1100 {
		k = 1100
	}
	g := ref.DTLSFrag(f, off, k)
	put24 := func(b []byte, v int) { b[0], b[1], b[2] = byte(v>>16), byte(v>>8), byte(v) }
	switch kind {
	case 0: // another total length
		put24(g[1:], n+1+r.IntN(1000))
	case 1: // a total length short of the fragment
		put24(g[1:], r.IntN(off+k+1))
	case 2: // another type
		g[0] ^= byte(1 + r.IntN(31))
	case 3: // out of range
		put24(g[6:], n-k+1+r.IntN(1<<24-n-1))
	case 4: // the largest numbers
		put24(g[1:], 1<<24-1)
		if r.IntN(2) == 0 {
			put24(g[6:], 1<<24-1)
		}
	case 5: // a message far ahead
		g[4] ^= 0x80
	case 6: // a past or a coming message
		g[5] += byte(1 - 2*r.IntN(2))
	case 7: // other content
		for i := 12; i < len(g); i++ {
			g[i] ^= byte(r.IntN(256))
		}
	case 8: // a length of the fragment that overruns the record
		put24(g[9:], k+1+r.IntN(100))
	case 9: // cut within
		g = g[:r.IntN(len(g))]
	case 10: // random
		g = r.Bytes(1 + r.IntN(60))
	}
	return g
}

// TestBad: fragments that do not fit together never crash the endpoint and
// never complete a handshake whose messages differ from the peer's.
func TestBad(t *testing.T) {
	h.Check(t, 2500, 50000, func(t *rapid.T) {
		s := drawScen(t)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		y := drawStyle(t)
		kind := rapid.IntRange(0, 11).Draw(t, "kind")
		count := rapid.IntRange(1, 4).Draw(t, "how many")
		isServer := rapid.Bool().Draw(t, "the endpoint is a server")
		extra := func(raw []byte) (o [][]byte) {
			for i := r.IntN(count + 1); i > 0; i-- {
				k := kind
				if k == 11 {
					k = r.IntN(11)
				}
				o = append(o, bad(r, k, raw))
			}
			return
		}
		var n *h.Node
		var e *ref.Base
		cc, sc := s.Configs()
		if isServer {
			c := h.RefClient(s, r)
			n, e = h.NewNode(sc, false), &c.Base
			run(n, c, e, func() bool { return c.Done }, y, r, need(y), extra)
		} else {
			srv := h.RefServer(s, r)
			n, e = h.NewNode(cc, true), &srv.Base
			run(n, srv, e, func() bool { return srv.Done }, y, r, need(y), extra)
		}
		ctx := fmt.Sprintf("kind %d %+v: endpoint %v (server %v) peer done=%v err=%v\n%v", kind, y, n, isServer, e.Done, e.Err, s)
		if n.Done && e.Done {
			x, err := n.C.ComputeExporter("e", nil, 32)
			if err != nil || !bytes.Equal(x, e.Exporter("e", nil, 32)) {
				t.Fatalf("completed with other messages than the peer's: %s", ctx)
			}
		}
		if n.Done && isServer && !e.Done {
			t.Fatalf("only the server completes: %s", ctx)
		}
		h.Label("bad kind=%d server=%v done=%v", kind, isServer, n.Done)
		h.Case(true, "%d %d %v %+v %v", kind, count, isServer, y, s)
	})
}

// seen is an extension handler that remembers what arrived.
type seen struct{ data [][]byte }

func (s *seen) Send(mint.HandshakeType, *mint.ExtensionList) error { return nil }
func (s *seen) Receive(hs mint.HandshakeType, el *mint.ExtensionList) error {
	for _, x := range *el {
		if x.ExtensionType == 0x7a7a {
			s.data = append(s.data, append([]byte{}, x.ExtensionData...))
		}
	}
	return nil
}

// TestMix: two versions of a hello, fragment by fragment: what the server
// processes is made of the bytes sent for each position, and once.
func TestMix(t *testing.T) {
	h.Check(t, 1500, 30000, func(t *rapid.T) {
		s := drawScen(t)
		s.PSK, s.Cookie = nil, h.CookieNone
		s.CSuites, s.SSuites = nil, nil
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		y := drawStyle(t)
		y.Shuffle = min(y.Shuffle, 1)
		_, sc := s.Configs()
		see := &seen{}
		sc.ExtensionHandler = see
		size := rapid.SampledFrom([]int{1, 100, 1000, 6000}).Draw(t, "size")
		a := r.Bytes(size)
		b := make([]byte, size)
		for i := range b {
			b[i] = ^a[i]
		}
		c := h.RefClient(s, r)
		c.Cfg.Extra = append(c.Cfg.Extra, ref.Ext{Type: 0x7a7a, Data: a})
		n := h.NewNode(sc, false)
		mixed := rapid.Bool().Draw(t, "two versions")
		if mixed {
			y.Pack = 1
		}
		extra := func(raw []byte) (o [][]byte) {
			if raw[0] != 1 || !mixed {
				return
			}
			i := bytes.Index(raw, a)
			if i < 0 || size < 100 {
				return
			}
			alt := append([]byte{}, raw...)
			copy(alt[i:], b)
			return style{Cuts: y.Cuts, Overlap: y.Overlap}.pieces(r, alt)
		}
		run(n, c, &c.Base, func() bool { return c.Done }, y, r, 1, extra)
		ctx := fmt.Sprintf("%+v mixed=%v: server %v client done=%v err=%v\n%v", y, mixed, n, c.Done, c.Err, s)
		if len(see.data) != 1 {
			t.Fatalf("the hello is processed %d times: %s", len(see.data), ctx)
		}
		d := see.data[0]
		if len(d) != size {
			t.Fatalf("%d bytes arrive of %d: %s", len(d), size, ctx)
		}
		same := true
		for i := range d {
			if d[i] != a[i] {
				same = false
				if d[i] != b[i] || !mixed {
					t.Fatalf("byte %d of %d is %02x, sent was %02x: %s", i, size, d[i], a[i], ctx)
				}
			}
		}
		if n.Done != same || c.Done != same {
			t.Fatalf("completes although the hello was altered, or the other way round (%s): %s", hex.EncodeToString(d[:min(8, len(d))]), ctx)
		}
		h.Label("mix mixed=%v altered=%v", mixed, !same)
		h.Case(y.Cuts > 1, "%+v %v %d %v", y, mixed, size, s)
	})
}

// TestHuge: messages whose lengths and offsets need all their bytes.
func TestHuge(t *testing.T) {
	h.Check(t, 48, 1500, func(t *rapid.T) {
		s := drawScen(t)
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		y := drawStyle(t)
		y.Overlap = false // the fragments become too many
		s.PSK = nil
		theirs := rapid.SampledFrom([]int{0, 66000, 140000, 270000}).Draw(t, "their chain")
		ours := rapid.SampledFrom([]int{0, 66000, 140000}).Draw(t, "our chain")
		isClient := rapid.Bool().Draw(t, "client")
		if !isClient && len(s.ClientCerts) == 0 {
			theirs = 0
		}
		cc, sc := s.Configs()
		long := func(chain [][]byte, size int) [][]byte {
			c := append([][]byte{}, chain...)
			for n := 0; n < size; n += len(c[len(c)-1]) {
				c = append(c, c[len(c)-1])
			}
			return c
		}
		mine := sc
		if isClient {
			mine = cc
		}
		for _, c := range mine.Certificates {
			for n := 0; n < ours; n += len(c.Chain[len(c.Chain)-1].Raw) {
				c.Chain = append(c.Chain, c.Chain[len(c.Chain)-1])
			}
		}
		var n *h.Node
		var p h.Peer
		var e *ref.Base
		var done func() bool
		if isClient {
			srv := h.RefServer(s, r)
			srv.Cfg.Chain = func(c [][]byte) [][]byte { return long(c, theirs) }
			n, p, e, done = h.NewNode(cc, true), srv, &srv.Base, func() bool { return srv.Done }
		} else {
			c := h.RefClient(s, r)
			if id := c.Cfg.Ident; id != nil {
				i := *id
				i.Chain = long(id.Chain, theirs)
				c.Cfg.Ident = &i
			}
			n, p, e, done = h.NewNode(sc, false), c, &c.Base, func() bool { return c.Done }
		}
		run(n, p, e, done, y, r, need(y), nil)
		ctx := fmt.Sprintf("client=%v chains of %d and %d %+v: %v peer done=%v err=%v\n%v", isClient, ours, theirs, y, n, done(), e.Err, s)
		if !n.Done || !done() {
			t.Fatalf("the handshake fails: %s", ctx)
		}
		if err := same(n, e); err != nil {
			t.Fatalf("%v: %s", err, ctx)
		}
		h.Label("huge client=%v ours=%v theirs=%v", isClient, ours > 0, theirs > 0)
		h.Case(ours+theirs > 0, "huge %v %d %d %+v %v", isClient, ours, theirs, y, s)
	})
}
