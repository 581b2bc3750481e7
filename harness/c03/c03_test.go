// Package c03: application data arrives exactly once, in order and unmodified.
package c03

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

var sizes = []int{0, 1, 2, 100, 16383, 16384, 16385, 32767, 32768, 32769, 50000}

func drawSize(t *rapid.T, max int) int {
	n := rapid.OneOf(rapid.IntRange(0, 64), rapid.SampledFrom(sizes), rapid.IntRange(0, 40000)).Draw(t, "size")
	return min(n, max)
}

// stream makes the bytes of one direction: position-dependent, so that loss,
// duplication and reordering show.
type stream struct {
	r    *h.Rng
	sent []byte
	read int
}

func (s *stream) next(n int) []byte {
	b := s.r.Bytes(n)
	s.sent = append(s.sent, b...)
	return b
}

// got checks that what arrived is the prefix of what was sent.
func (s *stream) got(b []byte) error {
	if len(b) > len(s.sent) {
		return fmt.Errorf("%d bytes arrived, %d were sent", len(b), len(s.sent))
	}
	if !bytes.Equal(b[s.read:], s.sent[s.read:len(b)]) {
		i := s.read
		for b[i] == s.sent[i] {
			i++
		}
		return fmt.Errorf("byte %d differs from what was sent", i)
	}
	s.read = len(b)
	return nil
}

func readOnce(n *h.Node, size int) (int, error) {
	buf := make([]byte, size+8)
	for i := range buf {
		buf[i] = 0xA5
	}
	k, err := n.C.Read(buf[:size:size])
	if k < 0 || k > size {
		return k, fmt.Errorf("Read returned %d for %d bytes", k, size)
	}
	for _, x := range buf[size:] {
		if x != 0xA5 {
			return k, errors.New("Read wrote past its buffer")
		}
	}
	n.Got = append(n.Got, buf[:k]...)
	if err == mint.AlertWouldBlock {
		err = nil
	}
	return k, err
}

// TestPair: two ends of the library, any interleaving.
func TestPair(t *testing.T) {
	h.Check(t, 500, 8000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoDTLS: true, Tickets: true, NoEarly: true})
		w := h.RunScen(t, s)
		if !w.Both() {
			t.Fatalf("handshake: %s\n%v", w.Status(), s)
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		st := [2]*stream{{r: r}, {r: r}}
		node := [2]*h.Node{w.A, w.B}
		var log []string
		bad := func(f string, a ...any) {
			t.Fatalf("%s\nhistory: %s\n%v", fmt.Sprintf(f, a...), strings.Join(log, " "), s)
		}
		check := func() {
			for d := 0; d < 2; d++ {
				if err := st[d].got(node[1-d].Got); err != nil {
					bad("direction %d: %v", d, err)
				}
			}
		}
		total := 400000
		ku := 0
		for i := rapid.IntRange(1, 40).Draw(t, "steps"); i > 0; i-- {
			d := rapid.IntRange(0, 1).Draw(t, "side")
			switch rapid.IntRange(0, 7).Draw(t, "step") {
			case 0, 1, 2:
				n := drawSize(t, total)
				total -= n
				b := st[d].next(n)
				keep := append([]byte{}, b...)
				log = append(log, fmt.Sprintf("write%d(%d)", d, n))
				k, err := node[d].C.Write(b)
				if err != nil || k != n {
					bad("Write(%d) = %d, %v", n, k, err)
				}
				if !bytes.Equal(b, keep) {
					bad("Write changed its argument")
				}
				for j := range b { // the caller may reuse its buffer
					b[j] = 0xEE
				}
			case 3, 4:
				n := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(0, 20000)).Draw(t, "buffer")
				log = append(log, fmt.Sprintf("read%d(%d)", d, n))
				if _, err := readOnce(node[d], n); err != nil {
					bad("Read: %v", err)
				}
			case 5, 6:
				n := rapid.OneOf(rapid.IntRange(1, 30), rapid.IntRange(1, 40000)).Draw(t, "bytes")
				log = append(log, fmt.Sprintf("deliver%d(%d)", d, n))
				w.Deliver(d, n)
			case 7:
				q := rapid.Bool().Draw(t, "request")
				log = append(log, fmt.Sprintf("keyupdate%d(%v)", d, q))
				if err := node[d].C.SendKeyUpdate(q); err != nil {
					bad("SendKeyUpdate: %v", err)
				}
				ku++
			}
			check()
		}
		for i := 0; i < 3; i++ { // key update answers need another round
			w.Flush()
			for d := 0; d < 2; d++ {
				node[d].ReadAvail(rapid.SampledFrom([]int{1 << 16, 1000, 16384}).Draw(t, "final buffer"))
				if node[d].ReadErr != nil {
					bad("Read: %v", node[d].ReadErr)
				}
			}
		}
		check()
		for d := 0; d < 2; d++ {
			if len(node[1-d].Got) != len(st[d].sent) {
				bad("direction %d: %d of %d bytes arrived", d, len(node[1-d].Got), len(st[d].sent))
			}
		}
		h.Label("pair key updates=%v", ku > 0)
		h.Case(len(st[0].sent)+len(st[1].sent) > 0, "%s", strings.Join(log, " "))
	})
}

// TestPeer: one end against the independent implementation, which uses the
// freedom it has: record sizes, padding, empty records, coalescing, tickets.
func TestPeer(t *testing.T) {
	h.Check(t, 500, 8000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoDTLS: true, NoEarly: true, NoCookie: true})
		if len(s.SGroups) == 0 || len(s.CGroups) == 0 {
			s.SGroups = []mint.NamedGroup{mint.X25519}
			s.CGroups = s.SGroups
		}
		cc, sc := s.Configs()
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		var l *h.Link
		var b *ref.Base
		if isClient {
			srv := h.RefServer(s, r)
			b = &srv.Base
			l = &h.Link{N: h.NewNode(cc, true), P: srv}
		} else {
			c := h.RefClient(s, r)
			c.Start()
			b = &c.Base
			l = &h.Link{N: h.NewNode(sc, false), P: c}
		}
		b.Pad = rapid.SampledFrom([]int{0, 0, 1, 100}).Draw(t, "handshake padding")
		b.MaxFrag = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 50}).Draw(t, "handshake record size")
		cut := rapid.SampledFrom([]int{0, 1, 7, 300, 5000}).Draw(t, "cut")
		if cut > 0 {
			l.Split = func(x []byte) (o [][]byte) {
				for i := 0; len(x) > 0; i++ {
					k := min(len(x), 1+r.IntN(cut)+i/50*300) // tiny pieces only at first: each costs a read buffer
					o = append(o, x[:k])
					x = x[k:]
				}
				return
			}
		}
		l.Run()
		if !l.N.Done || b.Err != nil {
			t.Fatalf("handshake: %v %v\n%v", l.N, b.Err, s)
		}
		b.MaxFrag = 0 // the library takes whole messages only from here on
		in, out := &stream{r: r}, &stream{r: r}
		n := l.N
		var log []string
		bad := func(f string, a ...any) {
			t.Fatalf("%s (peer error %v)\nhistory: %s", fmt.Sprintf(f, a...), b.Err, strings.Join(log, " "))
		}
		ku, tk, empty := 0, 0, 0
		asked, asks, own := 0, 0, 0 // updates the peer asked for, the library asks for, the library makes on its own
		for i := rapid.IntRange(1, 30).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 8).Draw(t, "step") {
			case 0, 1: // the peer sends records of its choice
				for k := rapid.IntRange(1, 5).Draw(t, "records"); k > 0; k-- {
					m := drawSize(t, 16384)
					b.Pad = rapid.SampledFrom([]int{0, 0, 1, 255, 16384 - m}).Draw(t, "padding")
					if m+b.Pad > 16384 {
						b.Pad = 16384 - m
					}
					if m == 0 {
						empty++
					}
					log = append(log, fmt.Sprintf("peer(%d+%d)", m, b.Pad))
					b.SendApp(in.next(m))
					b.Pad = 0
				}
			case 2, 3:
				m := drawSize(t, 60000)
				log = append(log, fmt.Sprintf("write(%d)", m))
				if k, err := n.C.Write(out.next(m)); err != nil || k != m {
					bad("Write(%d) = %d, %v", m, k, err)
				}
			case 4:
				m := rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(0, 20000)).Draw(t, "buffer")
				log = append(log, fmt.Sprintf("read(%d)", m))
				if _, err := readOnce(n, m); err != nil {
					bad("Read: %v", err)
				}
			case 5:
				log = append(log, "move")
				l.Move()
			case 6:
				log = append(log, "peer keyupdate")
				req := rapid.Bool().Draw(t, "request")
				b.SendKeyUpdate(req)
				if req {
					asked++
				}
				ku++
			case 7:
				log = append(log, "keyupdate")
				req := rapid.Bool().Draw(t, "request")
				if err := n.C.SendKeyUpdate(req); err != nil {
					bad("SendKeyUpdate: %v", err)
				}
				if req {
					asks++
				}
				own++
				ku++
			case 8: // several messages in one record, of which a KeyUpdate has to be the last
				var m []byte
				k := rapid.IntRange(0, 4).Draw(t, "tickets")
				if !isClient {
					k = 0
				}
				for i := 0; i < k; i++ {
					m = append(m, b.TicketMsg(r.Bytes(1+r.IntN(200)), r.Bytes(r.IntN(20)), 1, 1000, nil)...)
					tk++
				}
				up := rapid.Bool().Draw(t, "and a key update")
				if up {
					m = append(m, b.Frame(ref.HKeyUpdate, []byte{0})...)
				}
				log = append(log, fmt.Sprintf("tickets(%d,%v)", k, up))
				if len(m) > 0 {
					b.Flush()
					b.Record(ref.RecHandshake, m)
				}
				if up {
					b.RollW()
					ku++
				}
			}
			if err := in.got(n.Got); err != nil {
				bad("to the library: %v", err)
			}
			if err := out.got(b.App); err != nil {
				bad("to the peer: %v", err)
			}
		}
		for i := 0; i < 3; i++ {
			l.Move()
			n.ReadAvail(5000)
		}
		if n.ReadErr != nil || b.Err != nil {
			bad("Read: %v", n.ReadErr)
		}
		if err := in.got(n.Got); err != nil || len(n.Got) != len(in.sent) {
			bad("to the library: %v, %d of %d bytes", err, len(n.Got), len(in.sent))
		}
		if err := out.got(b.App); err != nil || len(b.App) != len(out.sent) {
			bad("to the peer: %v, %d of %d bytes", err, len(b.App), len(out.sent))
		}
		if b.KURequests != asks {
			bad("the library asked for %d key updates, not %d", b.KURequests, asks)
		}
		if replies := b.KUSeen - own; replies < 0 || replies > asked || asked > 0 && replies == 0 {
			bad("the library made %d key updates on its own account and %d in reply to %d requests", own, replies, asked)
		}
		h.Label("peer client=%v ku=%v ticket=%v empty=%v cut=%v", isClient, ku > 0, tk > 0, empty > 0, cut > 0)
		h.Case(len(in.sent)+len(out.sent) > 0, "client=%v cut=%d %s", isClient, cut, strings.Join(log, " "))
	})
}

// TestWriteFault: a Write that reports success has sent its bytes; one that
// did not reports an error.
func TestWriteFault(t *testing.T) {
	h.Check(t, 200, 3000, func(t *rapid.T) {
		cc, sc := (&h.Scen{Name: "example.com", CGroups: []mint.NamedGroup{mint.X25519}, SGroups: []mint.NamedGroup{mint.X25519}, Certs: []h.CertSpec{{Key: "p256-0", Names: []string{"example.com"}, CA: "A"}}}).Configs()
		w := h.NewWire(cc, sc)
		w.Run()
		if !w.Both() {
			t.Fatalf("handshake: %s", w.Status())
		}
		w.Flush()
		x, y := w.A, w.B
		if rapid.Bool().Draw(t, "server writes") {
			x, y = y, x
		}
		left := rapid.IntRange(0, 6).Draw(t, "writes before the fault")
		x.T.WriteErr = func() error {
			if left--; left < 0 {
				return errors.New("transport broken")
			}
			return nil
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		var ok, all []byte
		failed := 0
		for i := rapid.IntRange(1, 6).Draw(t, "writes"); i > 0; i-- {
			b := r.Bytes(drawSize(t, 60000))
			all = append(all, b...)
			if failed == 0 {
				k, err := x.C.Write(b)
				if k < 0 || k > len(b) {
					t.Fatalf("Write(%d) = %d, %v", len(b), k, err)
				}
				if err == nil && k < len(b) {
					t.Fatalf("Write(%d) = %d without error", len(b), k)
				}
				ok = append(ok, b[:k]...)
				if err != nil {
					failed++
				}
			}
		}
		w.Flush()
		y.ReadAvail(5000)
		if len(y.Got) < len(ok) || !bytes.Equal(y.Got[:len(ok)], ok) {
			t.Fatalf("%d bytes were reported sent, %d arrived", len(ok), len(y.Got))
		}
		if !bytes.HasPrefix(all, y.Got) {
			t.Fatalf("what arrived is not a prefix of what was written")
		}
		h.Label("fault failed=%v", failed > 0)
		h.Case(failed > 0, "%d of %d %d", len(ok), len(all), r.IntN(1<<30))
	})
}

// TestWriteBroken: a transport takes part of a record, or none of it, and
// recovers.  What was cut off cannot be made good, so later writes have to
// report that.
func TestWriteBroken(t *testing.T) {
	h.Check(t, 200, 3000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoDTLS: true, NoEarly: true})
		w := h.RunScen(t, s)
		if !w.Both() {
			t.Fatalf("handshake: %s\n%v", w.Status(), s)
		}
		w.Flush()
		x, y := w.A, w.B
		if rapid.Bool().Draw(t, "server writes") {
			x, y = y, x
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		left := rapid.IntRange(0, 5).Draw(t, "records before the fault")
		for i := rapid.IntRange(0, 2).Draw(t, "records of the other side"); i > 0; i-- {
			y.C.Write(r.Bytes(10))
		}
		down := rapid.IntRange(1, 3).Draw(t, "failing writes")
		failure := rapid.SampledFrom([]error{h.Timeout, errors.New("broken pipe")}).Draw(t, "failure")
		part := rapid.SampledFrom([]int{0, 0, 1, 4, 5, 6, 100, 1 << 20}).Draw(t, "part")
		x.T.WritePart = func(n int) (int, error) {
			if left--; left >= 0 || down == 0 {
				return n, nil
			}
			down--
			return min(part, n-1), failure
		}
		var all []byte
		var log []string
		failed, reported := 0, 0
		for i := rapid.IntRange(1, 8).Draw(t, "writes"); i > 0; i-- {
			b := r.Bytes(max(1, drawSize(t, 50000)))
			k, err := x.C.Write(b)
			log = append(log, fmt.Sprintf("%d:%d,%v", len(b), k, err))
			if failed > 0 {
				if err == nil || k != 0 {
					t.Fatalf("after a failed write, Write(%d) = %d, %v: %v\n%v", len(b), k, err, log, s)
				}
				continue
			}
			if k < 0 || k > len(b) || (err == nil) != (k == len(b)) {
				t.Fatalf("Write(%d) = %d, %v", len(b), k, err)
			}
			all = append(all, b...)
			reported += k
			if err != nil {
				failed++
			}
		}
		w.Flush()
		y.ReadAvail(5000)
		if len(y.Got) < reported || !bytes.HasPrefix(all, y.Got) {
			t.Fatalf("%d bytes were reported sent, %d arrived: %v", reported, len(y.Got), log)
		}
		h.Label("broken failed=%v part=%d", failed > 0, min(part, 7))
		h.Case(failed > 0, "%d %d %v", part, r.IntN(1<<30), log)
	})
}

// TestLong: writes of megabytes, and streams of many records.
func TestLong(t *testing.T) {
	h.Check(t, 12, 300, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoDTLS: true, Tickets: true, NoEarly: true})
		w := h.RunScen(t, s)
		if !w.Both() {
			t.Fatalf("handshake: %s\n%v", w.Status(), s)
		}
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		st := [2]*stream{{r: r}, {r: r}}
		node := [2]*h.Node{w.A, w.B}
		var log []string
		for i := rapid.IntRange(1, 3).Draw(t, "steps"); i > 0; i-- {
			d := rapid.IntRange(0, 1).Draw(t, "side")
			many := rapid.IntRange(0, 2).Draw(t, "many") == 0
			if many {
				n := rapid.IntRange(200, 70000).Draw(t, "records")
				log = append(log, fmt.Sprintf("%d writes by %d", n, d))
				for j := 0; j < n; j++ {
					b := st[d].next(1 + r.IntN(3))
					if k, err := node[d].C.Write(b); err != nil || k != len(b) {
						t.Fatalf("Write %d of %d bytes = %d, %v: %v\n%v", j, len(b), k, err, log, s)
					}
				}
			} else {
				n := rapid.IntRange(1, 260).Draw(t, "fragments")*16384 + rapid.SampledFrom([]int{-1, 0, 1, 5000}).Draw(t, "and")
				log = append(log, fmt.Sprintf("a write of %d by %d", n, d))
				b := st[d].next(n)
				if k, err := node[d].C.Write(b); err != nil || k != n {
					t.Fatalf("Write(%d) = %d, %v: %v\n%v", n, k, err, log, s)
				}
			}
			w.Flush()
			node[1-d].ReadAvail(rapid.SampledFrom([]int{1 << 16, 1000, 1 << 20}).Draw(t, "buffer"))
			if node[1-d].ReadErr != nil {
				t.Fatalf("Read: %v: %v\n%v", node[1-d].ReadErr, log, s)
			}
			if err := st[d].got(node[1-d].Got); err != nil || st[d].read != len(st[d].sent) {
				t.Fatalf("%d of %d bytes arrived: %v: %v\n%v", st[d].read, len(st[d].sent), err, log, s)
			}
		}
		h.Label("long")
		h.Case(true, "%v %v", log, s)
	})
}
