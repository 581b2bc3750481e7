// Package c04: an attacker on the network cannot alter or forge what
// endpoints accept.
package c04

import (
	"bytes"
	"fmt"
	"math/bits"
	"strings"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// attack is what happens to one record of one direction.
type attack struct {
	dir, at int
	what    int
	seed    uint64
}

const (
	flip = iota
	drop
	dup
	swap
	cut
	insert
	reflect
	replay
	foreign
	resize
	inject
	relen
	hello
	nAttacks
)

var attackNames = []string{"flip", "drop", "dup", "swap", "cut", "insert", "reflect", "replay", "foreign", "resize", "inject", "relen", "hello"}

func (a attack) String() string {
	return fmt.Sprintf("%s@%s%d", attackNames[a.what], []string{"c", "s"}[a.dir], a.at)
}

// mitm sits on a wire and works on whole records.
type mitm struct {
	w       *h.Wire
	dtls    bool
	plan    []attack
	buf     [2][]byte
	seen    [2][][]byte
	held    [2][]byte
	foreign [2][][]byte // records of another connection
	hits    []string
}

func (m *mitm) filter(d int, b []byte) [][]byte {
	var recs [][]byte
	if m.dtls {
		recs = [][]byte{b}
	} else {
		m.buf[d] = append(m.buf[d], b...)
		for {
			raw, rest := ref.SplitTLS(m.buf[d])
			if raw == nil {
				break
			}
			recs = append(recs, append([]byte{}, raw...))
			m.buf[d] = rest
		}
	}
	var out [][]byte
	for _, r := range recs {
		out = append(out, m.record(d, r)...)
	}
	return out
}

func (m *mitm) record(d int, raw []byte) [][]byte {
	i := len(m.seen[d])
	m.seen[d] = append(m.seen[d], append([]byte{}, raw...))
	out := [][]byte{raw}
	for _, a := range m.plan {
		if a.dir == d && a.at == i {
			out = m.apply(a, d, i, out)
		}
	}
	if m.held[d] != nil && len(out) > 0 {
		out = append(out, m.held[d])
		m.held[d] = nil
	}
	return out
}

func (m *mitm) apply(a attack, d, i int, out [][]byte) [][]byte {
	r := h.NewRng(a.seed)
	hdr := 5
	if m.dtls {
		hdr = 13
	}
	hit := func() { m.hits = append(m.hits, a.String()) }
	if len(out) == 0 || len(out[0]) < hdr {
		return out
	}
	raw := append([]byte{}, out[0]...)
	rest := out[1:]
	switch a.what {
	case flip:
		p := r.IntN(len(raw))
		if r.IntN(3) == 0 {
			p = r.IntN(min(len(raw), hdr))
		}
		raw[p] ^= byte(1 << r.IntN(8))
		hit()
		return append([][]byte{raw}, rest...)
	case drop:
		hit()
		return rest
	case dup:
		hit()
		return append([][]byte{raw, raw}, rest...)
	case swap:
		hit()
		m.held[d] = raw
		return rest
	case cut:
		hit()
		return append([][]byte{raw[:r.IntN(len(raw))]}, rest...)
	case insert:
		hit()
		b := r.Bytes(1 + r.IntN(40))
		return append([][]byte{b, raw}, rest...)
	case reflect:
		if len(m.seen[1-d]) == 0 {
			return out
		}
		hit()
		o := m.seen[1-d][r.IntN(len(m.seen[1-d]))]
		return append([][]byte{o, raw}, rest...)
	case replay:
		if i == 0 {
			return out
		}
		hit()
		o := m.seen[d][r.IntN(i)]
		return append([][]byte{o, raw}, rest...)
	case foreign:
		f := m.foreign[d]
		if len(f) == 0 {
			return out
		}
		hit()
		j := i
		if j >= len(f) || r.IntN(3) == 0 {
			j = r.IntN(len(f))
		}
		if r.IntN(2) == 0 {
			return append([][]byte{f[j]}, rest...)
		}
		return append([][]byte{f[j], raw}, rest...)
	case resize: // change the contents with a matching length
		hit()
		body := raw[hdr:]
		switch r.IntN(3) {
		case 0:
			body = body[:r.IntN(len(body)+1)]
		case 1:
			body = append(append([]byte{}, body...), r.Bytes(1+r.IntN(20))...)
		case 2:
			body = r.Bytes(len(body))
		}
		return append([][]byte{ref.Cat(raw[:hdr-2], ref.V16(body))}, rest...)
	case relen: // break one record into two with headers of their own
		body := raw[hdr:]
		if len(body) < 2 {
			return out
		}
		hit()
		k := 1 + r.IntN(len(body)-1)
		return append([][]byte{ref.Cat(raw[:hdr-2], ref.V16(body[:k])), ref.Cat(raw[:hdr-2], ref.V16(body[k:]))}, rest...)
	case inject: // a record without protection
		hit()
		var typ byte
		var body []byte
		switch r.IntN(5) {
		case 0:
			typ, body = 21, []byte{byte(1 + r.IntN(2)), byte([]int{0, 20, 40, 90}[r.IntN(4)])}
		case 1:
			typ, body = 23, r.Bytes(1+r.IntN(60))
		case 2:
			typ, body = 22, ref.Msg(byte([]int{0, 1, 2, 4, 8, 11, 15, 20, 24}[r.IntN(9)]), r.Bytes(r.IntN(40)))
		case 3:
			typ, body = 22, ref.Msg(24, []byte{0})
		case 4:
			typ, body = 22, ref.Msg(4, ref.Cat(ref.U32(1000), ref.U32(0), ref.V8(r.Bytes(4)), ref.V16(r.Bytes(8)), ref.Exts(nil)))
		}
		if m.dtls {
			if typ == 22 {
				body = ref.Cat(body[:4], ref.U16(i), ref.U24(0), ref.U24(len(body)-4), body[4:])
			}
			return append([][]byte{ref.Cat([]byte{typ, 0xfe, 0xfd}, make([]byte, 6), ref.U16(100+i), ref.V16(body)), raw}, rest...)
		}
		return append([][]byte{ref.Cat([]byte{typ, 3, 3}, ref.V16(body)), raw}, rest...)
	case hello:
		n := m.editHello(r, raw, d)
		if n == nil {
			return out
		}
		hit()
		return append(n, rest...)
	}
	return out
}

// editHello changes a hello message but keeps it well formed.
func (m *mitm) editHello(r *h.Rng, raw []byte, d int) [][]byte {
	hdr, mh := 5, 4
	if m.dtls {
		hdr, mh = 13, 12
	}
	p := raw[hdr:]
	if raw[0] != 22 || len(p) < mh || (p[0] != 1 && p[0] != 2) {
		return nil
	}
	n := int(p[1])<<16 | int(p[2])<<8 | int(p[3])
	if len(p) != mh+n {
		return nil
	}
	body := p[mh:]
	wrap := func(body []byte) []byte {
		msg := ref.Msg(p[0], body)
		if m.dtls {
			msg = ref.Cat(msg[:4], p[4:6], ref.U24(0), ref.U24(len(body)), body)
		}
		return ref.Cat(raw[:hdr-2], ref.V16(msg))
	}
	edit := func(xs []ref.Ext) []ref.Ext {
		xs = append([]ref.Ext{}, xs...)
		if len(xs) == 0 {
			return xs
		}
		i := r.IntN(len(xs))
		switch r.IntN(5) {
		case 0:
			xs = append(xs[:i], xs[i+1:]...)
		case 1:
			if b := append([]byte{}, xs[i].Data...); len(b) > 0 {
				b[r.IntN(len(b))] ^= byte(1 + r.IntN(255))
				xs[i].Data = b
			}
		case 2:
			j := r.IntN(len(xs))
			if xs[i].Type != ref.XPSK && xs[j].Type != ref.XPSK {
				xs[i], xs[j] = xs[j], xs[i]
			}
		case 3:
			x := ref.Ext{Type: uint16(0x4000 + r.IntN(100)), Data: r.Bytes(r.IntN(10))}
			xs = append([]ref.Ext{x}, xs...)
		case 4: // drop elements of a list extension: halve groups, schemes, shares
			if b := xs[i].Data; len(b) >= 6 && (xs[i].Type == ref.XGroups || xs[i].Type == ref.XSigAlgs) {
				k := 2 * (1 + r.IntN((len(b)-2)/2))
				xs[i].Data = ref.V16(b[2 : 2+k])
			} else {
				xs = append(xs[:i], xs[i+1:]...)
			}
		}
		return xs
	}
	if p[0] == 1 {
		c, err := ref.ParseCH(body, m.dtls)
		if err != nil {
			return nil
		}
		switch k := r.IntN(6); k {
		case 0:
			c.Random = append([]byte{}, c.Random...)
			c.Random[r.IntN(32)] ^= 1
		case 1:
			c.SessionID = r.Bytes(1 + r.IntN(32))
		case 2:
			if len(c.Suites) > 1 {
				c.Suites = append([]uint16{c.Suites[1]}, c.Suites[0])
			} else {
				c.Suites = append([]uint16{0x1303}, c.Suites...)
			}
		case 3, 4, 5:
			c.Exts = edit(c.Exts)
		}
		b := ref.Cat(ref.U16(int(c.Version)), c.Random, ref.V8(c.SessionID))
		if m.dtls {
			b = append(b, ref.V8(c.DTLSCookie)...)
		}
		return [][]byte{wrap(ref.Cat(b, ref.V16(ref.U16s(c.Suites)), ref.V8(c.Compression), ref.Exts(c.Exts)))}
	}
	s, err := ref.ParseSH(body)
	if err != nil {
		return nil
	}
	switch r.IntN(6) {
	case 0:
		s.Random = append([]byte{}, s.Random...)
		s.Random[r.IntN(32)] ^= 1
	case 1:
		s.Suite ^= 3
	case 2, 3:
		s.Exts = edit(s.Exts)
	case 4: // a retry request of the attacker's own instead
		s.Random = ref.HRRRandom
		s.Exts = []ref.Ext{{Type: ref.XVersions, Data: []byte{3, 4}}, {Type: ref.XCookie, Data: ref.V16(r.Bytes(10))}}
	case 5: // ... or before
		o := *s
		o.Random = ref.HRRRandom
		o.Exts = []ref.Ext{{Type: ref.XVersions, Data: []byte{3, 4}}, {Type: ref.XCookie, Data: ref.V16(r.Bytes(10))}}
		return [][]byte{wrap(ref.EncSH(&o)), raw}
	}
	return [][]byte{wrap(ref.EncSH(s))}
}

func drawPlan(t *rapid.T, maxAt int, kinds []int) []attack {
	var p []attack
	for i := rapid.IntRange(1, 3).Draw(t, "attacks"); i > 0; i-- {
		a := attack{
			dir:  rapid.IntRange(0, 1).Draw(t, "direction"),
			what: rapid.SampledFrom(kinds).Draw(t, "attack"),
			at:   rapid.IntRange(0, maxAt).Draw(t, "record"),
			seed: rapid.Uint64().Draw(t, "attack seed"),
		}
		if a.what == hello {
			a.at &= 1
		}
		p = append(p, a)
	}
	return p
}

var all = func() (o []int) {
	for i := 0; i < nAttacks; i++ {
		o = append(o, i)
	}
	return append(o, hello, hello)
}()

// blocks of 32 random bytes: DTLS deliveries are judged block by block.
const block = 32

type side struct {
	early, sent []byte // written before / after completion
}

func dgramsFrom(got []byte, sent []byte) error {
	if len(got)%block != 0 {
		return fmt.Errorf("%d bytes were read, all messages are of %d", len(got), block)
	}
	for i := 0; i < len(got); i += block {
		ok := false
		for j := 0; j < len(sent); j += block {
			ok = ok || bytes.Equal(got[i:i+block], sent[j:j+block])
		}
		if !ok {
			return fmt.Errorf("message %d was read but not sent", i/block)
		}
	}
	return nil
}

// accepted judges what an end read.
func accepted(dtls bool, n *h.Node, s side) error {
	if dtls {
		return dgramsFrom(n.Got, s.sent)
	}
	if bytes.HasPrefix(s.sent, n.Got) || bytes.HasPrefix(append(append([]byte{}, s.early...), s.sent...), n.Got) {
		return nil
	}
	i := 0
	for i < len(n.Got) && i < len(s.sent) && n.Got[i] == s.sent[i] {
		i++
	}
	return fmt.Errorf("read %d bytes, of which %d agree with what was written (%d early, %d later)", len(n.Got), i, len(s.early), len(s.sent))
}

func readAll(n *h.Node) {
	for i := 0; i < 4; i++ { // an application may try again after an error
		if !n.Done {
			return
		}
		n.ReadErr = nil
		n.ReadAvail(block)
	}
}

// TestHandshake: interference with whole handshakes.
func TestHandshake(t *testing.T) {
	h.Check(t, 1500, 30000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, Tickets: true})
		var other *mitm
		plan := drawPlan(t, 6, all)
		for _, a := range plan {
			if a.what == foreign && other == nil {
				// A second connection of equal configurations, recorded.
				cc, sc := s.Configs()
				other = &mitm{w: h.NewWire(cc, sc), dtls: s.DTLS}
				other.w.Filter = other.filter
				other.w.Run()
				if !other.w.Both() {
					t.Fatalf("handshake without interference: %s\n%v", other.w.Status(), s)
				}
				h.Echo(other.w, make([]byte, block), make([]byte, block))
			}
		}
		cc, sc := s.Configs()
		m := &mitm{w: h.NewWire(cc, sc), dtls: s.DTLS, plan: plan}
		if other != nil {
			m.foreign = other.seen
		}
		w := m.w
		w.Filter = m.filter
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		var st [2]side
		if s.EarlyC && s.PSK != nil && !s.DTLS {
			w.A.Step()
			if rapid.Bool().Draw(t, "write early") {
				for i := rapid.IntRange(1, 3).Draw(t, "early writes"); i > 0; i-- {
					b := r.Bytes(block)
					if k, err := w.A.C.Write(b); err == nil {
						st[0].early = append(st[0].early, b[:k]...)
					}
				}
			}
		}
		if rapid.Bool().Draw(t, "drawn schedule") {
			h.Drive(t, w)
		} else {
			w.Run()
		}
		ctx := func() string { return fmt.Sprintf("attacks %v hits %v\n%s\n%v", plan, m.hits, w.Status(), s) }
		node := [2]*h.Node{w.A, w.B}
		if w.Both() {
			if err := h.Agree(w); err != nil {
				t.Fatalf("both ends completed: %v\n%s", err, ctx())
			}
		}
		for round := 0; round < 3; round++ {
			for d := 0; d < 2; d++ {
				if node[d].Done {
					for k := r.IntN(3); k >= 0; k-- {
						b := r.Bytes(block)
						if n, err := node[d].C.Write(b); err == nil && n == len(b) {
							st[d].sent = append(st[d].sent, b...)
						}
					}
				}
			}
			w.Run()
			readAll(w.A)
			readAll(w.B)
			for d := 0; d < 2; d++ {
				if err := accepted(s.DTLS, node[1-d], st[d]); err != nil {
					t.Fatalf("direction %d: %v\n%s", d, err, ctx())
				}
			}
		}
		if w.Both() {
			if err := h.Agree(w); err != nil {
				t.Fatalf("both ends completed: %v\n%s", err, ctx())
			}
		}
		for _, x := range m.hits {
			h.Label("handshake %s %s dtls=%v", strings.Split(x, "@")[0], []string{"incomplete", "one completed", "both completed"}[b2i(w.A.Done)+b2i(w.B.Done)], s.DTLS)
		}
		h.Case(len(m.hits) > 0, "%v %v", m.hits, s)
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// TestData: interference with established connections.
func TestData(t *testing.T) {
	h.Check(t, 1000, 15000, func(t *rapid.T) {
		dtls := rapid.IntRange(0, 3).Draw(t, "dtls") == 3
		suite := rapid.SampledFrom(h.AllSuites).Draw(t, "suite")
		s := &h.Scen{DTLS: dtls, Name: "example.com", CSuites: []mint.CipherSuite{suite}, SSuites: []mint.CipherSuite{suite},
			CGroups: []mint.NamedGroup{mint.X25519}, SGroups: []mint.NamedGroup{mint.X25519},
			Certs: []h.CertSpec{{Key: "p256-0", Names: []string{"example.com"}, CA: "A"}}}
		mk := func() *mitm {
			cc, sc := s.Configs()
			m := &mitm{w: h.NewWire(cc, sc), dtls: dtls}
			m.w.Run()
			m.w.Flush()
			if !m.w.Both() {
				t.Fatalf("handshake: %s", m.w.Status())
			}
			m.w.Filter = m.filter
			return m
		}
		kinds := all[:hello]
		plan := drawPlan(t, 12, kinds)
		m := mk()
		for _, a := range plan {
			if a.what == foreign && m.foreign[0] == nil {
				o := mk()
				for i := 0; i < 8; i++ {
					h.Echo(o.w, make([]byte, block), make([]byte, block))
				}
				m.foreign = o.seen
			}
		}
		m.plan = plan
		w := m.w
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		node := [2]*h.Node{w.A, w.B}
		var st [2]side
		var log []string
		for i := rapid.IntRange(3, 25).Draw(t, "steps"); i > 0; i-- {
			d := rapid.IntRange(0, 1).Draw(t, "side")
			switch rapid.IntRange(0, 5).Draw(t, "step") {
			case 0, 1, 2:
				n := block
				if !dtls && rapid.IntRange(0, 5).Draw(t, "long") == 5 {
					n = rapid.IntRange(1, 40000).Draw(t, "length")
				}
				b := r.Bytes(n)
				k, err := node[d].C.Write(b)
				log = append(log, fmt.Sprintf("write%d(%d)", d, n))
				if err == nil {
					st[d].sent = append(st[d].sent, b[:k]...)
				}
			case 3:
				if !dtls {
					node[d].C.SendKeyUpdate(rapid.Bool().Draw(t, "request"))
					log = append(log, fmt.Sprintf("keyupdate%d", d))
				}
			case 4, 5:
				for w.Deliver(1-d, 1<<20) {
				}
				readAll(node[d])
				log = append(log, fmt.Sprintf("read%d", d))
			}
		}
		for i := 0; i < 2; i++ {
			w.Flush()
			readAll(w.A)
			readAll(w.B)
		}
		for d := 0; d < 2; d++ {
			if err := accepted(dtls, node[1-d], st[d]); err != nil {
				t.Fatalf("direction %d: %v\nattacks %v hits %v\nhistory %s\n", d, err, plan, m.hits, strings.Join(log, " "))
			}
		}
		// Without interference in a direction everything arrives.
		if len(m.hits) == 0 {
			for d := 0; d < 2; d++ {
				if !dtls && len(node[1-d].Got) != len(st[d].sent) {
					t.Fatalf("nothing was attacked but %d of %d bytes arrived (%v)", len(node[1-d].Got), len(st[d].sent), node[1-d].ReadErr)
				}
			}
		}
		for _, x := range m.hits {
			h.Label("data %s dtls=%v", strings.Split(x, "@")[0], dtls)
		}
		h.Case(len(m.hits) > 0, "%v %s", m.hits, strings.Join(log, " "))
	})
}

// TestLong: records of long connections replayed at a distance, such as one at
// which a counter has gone round.
func TestLong(t *testing.T) {
	h.Check(t, 150, 2000, func(t *rapid.T) {
		suite := rapid.SampledFrom(h.AllSuites).Draw(t, "suite")
		s := &h.Scen{Name: "example.com", CSuites: []mint.CipherSuite{suite}, SSuites: []mint.CipherSuite{suite},
			CGroups: []mint.NamedGroup{mint.X25519}, SGroups: []mint.NamedGroup{mint.X25519},
			Certs: []h.CertSpec{{Key: "p256-0", Names: []string{"example.com"}, CA: "A"}}}
		w := h.NewWire(s.Configs())
		w.Run()
		w.Flush()
		if !w.Both() {
			t.Fatalf("handshake: %s", w.Status())
		}
		d := rapid.IntRange(0, 1).Draw(t, "side")
		// dist back from record at; a key update may lie between.
		dist := 1 << rapid.IntRange(0, 10).Draw(t, "distance bits")
		if k := 40; h.Thorough() {
			k = 10
			if rapid.IntRange(0, k).Draw(t, "very long") == k {
				dist = 1 << 16
			}
		} else if rapid.IntRange(0, k).Draw(t, "very long") == k {
			dist = 1 << 16
		}
		dist += rapid.SampledFrom([]int{0, 0, 0, -1, 1}).Draw(t, "off")
		dist = max(dist, 1)
		from := rapid.IntRange(0, 20).Draw(t, "from")
		update := -1
		if rapid.IntRange(0, 2).Draw(t, "key update") == 2 {
			update = rapid.IntRange(0, from+dist).Draw(t, "update at")
		}
		how := rapid.IntRange(0, 1).Draw(t, "in place of")
		end := from + dist
		var recs [][]byte
		hit := false
		w.Filter = func(dir int, b []byte) [][]byte {
			if dir != d {
				return [][]byte{b}
			}
			recs = append(recs, append([]byte{}, b...))
			if hit || len(recs) <= end || len(recs) < 2 {
				return [][]byte{b}
			}
			hit = true
			o := recs[len(recs)-1-dist]
			if how == 1 {
				return [][]byte{o}
			}
			return [][]byte{o, b}
		}
		n := [2]*h.Node{w.A, w.B}
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		var sent []byte
		for i := 0; i < end+4; i++ {
			if i == update {
				n[d].C.SendKeyUpdate(false)
			}
			b := r.Bytes(block)
			if k, err := n[d].C.Write(b); err == nil {
				sent = append(sent, b[:k]...)
			}
			if i%64 == 63 || i >= end-2 {
				w.Flush()
				n[1-d].ReadAvail(block)
			}
		}
		readAll(n[1-d])
		got := n[1-d].Got
		if !bytes.HasPrefix(sent, got) {
			t.Fatalf("a record was replayed %d records later (record %d, update at %d, in its place %v) and then the data was not the data sent: %d bytes read", dist, end, update, how, len(got))
		}
		if !hit || len(got) < end*block-2*block {
			t.Fatalf("HARNESS-ERROR nothing was replayed (%v) or too little read: %d of %d records", hit, len(got)/block, end)
		}
		h.Label("replayed after %d, update=%v", 1<<(bits.Len(uint(dist))-1), update >= 0)
		h.Case(true, "%v %d %d %d %d %d", suite, d, dist, from, update, how)
	})
}
