// Package c14: DTLS handshakes complete over a bad network.
package c14

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// network says what happens to datagrams.
type network struct {
	Loss   [2]int // percent, by direction
	Dup    int    // percent
	Spread int    // largest delay in ms
	Until  int    // ms after which it loses nothing
	Drops  [2][]int
	Seed   uint64
}

type pkt struct {
	at  time.Time
	dir int
	b   []byte
	n   int
	ack bool // sent by the server while it completed
}

type sim struct {
	net     network
	r       *h.Rng
	w       *h.Wire
	start   time.Time
	q       []pkt
	n       [2]int
	perfect bool
	log     []string
	sent    [2]int
	ackLost bool // one of the datagrams sent while completing was lost
	acked   int  // of these, how many arrived
	acks    int  // of how many
}

func (s *sim) node(d int) *h.Node {
	if d == 0 {
		return s.w.A
	}
	return s.w.B
}

func (s *sim) now() time.Duration { return time.Since(s.start) }

func (s *sim) note(f string, a ...any) {
	if len(s.log) < 60 {
		s.log = append(s.log, fmt.Sprintf("%v ", s.now())+fmt.Sprintf(f, a...))
	}
}

// send puts what a node wrote on the network.
func (s *sim) send(d int, ack bool) {
	for _, b := range s.node(d).T.TakeOut() {
		k := s.n[d]
		s.n[d]++
		s.sent[d]++
		lost := false
		copies := 1
		var delay time.Duration
		if !s.perfect {
			if s.now() < time.Duration(s.net.Until)*time.Millisecond {
				lost = s.r.IntN(100) < s.net.Loss[d]
			}
			for _, x := range s.net.Drops[d] {
				lost = lost || x == k
			}
			if s.r.IntN(100) < s.net.Dup {
				copies++
			}
		}
		s.note("%s #%d %d bytes lost=%v", []string{"client", "server"}[d], k, len(b), lost)
		if ack {
			s.acks++
		}
		if lost {
			s.ackLost = s.ackLost || ack
			continue
		}
		for ; copies > 0; copies-- {
			if s.net.Spread > 0 && !s.perfect {
				delay = time.Duration(s.r.IntN(s.net.Spread*1000)) * time.Microsecond
			}
			s.q = append(s.q, pkt{at: time.Now().Add(delay), dir: d, b: b, n: k, ack: ack && copies == 1})
		}
	}
	sort.SliceStable(s.q, func(i, j int) bool { return s.q[i].at.Before(s.q[j].at) })
}

// poll lets one node do what it can.
func (s *sim) poll(d int) error {
	n := s.node(d)
	for i := 0; ; i++ {
		was, pend := n.Done, n.T.Pending()
		if !n.Done {
			n.Step()
		} else {
			n.ReadAvail(3000)
		}
		s.send(d, d == 1 && !was && n.Done)
		if n.Failed {
			return fmt.Errorf("the handshake fails")
		}
		if n.ReadErr != nil {
			return fmt.Errorf("reading fails: %v", n.ReadErr)
		}
		if was == n.Done && n.T.Pending() == pend {
			if pend > 0 {
				return fmt.Errorf("datagrams are left unread")
			}
			if n.Done || !n.Step() {
				s.send(d, d == 1 && !was && n.Done)
				return nil
			}
		}
		if i > 10000 {
			return fmt.Errorf("busy without end")
		}
	}
}

// next advances to the next event; false if there is none.
func (s *sim) next() (bool, error) {
	var d time.Duration
	found := false
	if len(s.q) > 0 {
		d, found = time.Until(s.q[0].at), true
	}
	for k := 0; k < 2; k++ {
		if n := s.node(k); n.Steps > 0 {
			if ok, t := n.C.GetDTLSTimeout(); ok {
				if t > 2*time.Minute {
					return false, fmt.Errorf("a timeout of %v", t)
				}
				// Timers fire after their deadline.
				if t += time.Microsecond; !found || t < d {
					d, found = t, true
				}
			}
		}
	}
	if !found {
		return false, nil
	}
	if d > 0 {
		time.Sleep(d)
	}
	return true, nil
}

// run goes on until cond or no event is left.
func (s *sim) run(cond func() bool, limit time.Duration) error {
	end := time.Now().Add(limit)
	for i := 0; ; i++ {
		for len(s.q) > 0 && !s.q[0].at.After(time.Now()) {
			p := s.q[0]
			s.q = s.q[1:]
			s.node(1 - p.dir).T.Push(p.b)
			if p.ack {
				s.acked++
			}
			if err := s.poll(1 - p.dir); err != nil {
				return err
			}
		}
		for d := 0; d < 2; d++ {
			if err := s.poll(d); err != nil {
				return err
			}
		}
		if cond() {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("not within %v", limit)
		}
		if len(s.q) > 0 && !s.q[0].at.After(time.Now()) {
			continue
		}
		// Nothing to do but wait: unless everything is over somebody has to
		// have a timer.
		ok, err := s.next()
		if err != nil {
			return err
		}
		if !ok {
			return fmt.Errorf("everybody waits and no timer is pending")
		}
		if i > 200000 {
			return fmt.Errorf("too many events")
		}
	}
}

func drawNet(t *rapid.T) network {
	n := network{Seed: rapid.Uint64().Draw(t, "network seed")}
	if rapid.Bool().Draw(t, "random loss") {
		for d := 0; d < 2; d++ {
			n.Loss[d] = rapid.SampledFrom([]int{0, 10, 30, 60, 90, 100}).Draw(t, "loss")
		}
		n.Until = rapid.SampledFrom([]int{50, 150, 400, 1000, 3000}).Draw(t, "loses until")
	} else {
		for d := 0; d < 2; d++ {
			n.Drops[d] = rapid.SliceOfN(rapid.IntRange(0, 12), 0, 6).Draw(t, "dropped datagrams")
		}
	}
	n.Dup = rapid.SampledFrom([]int{0, 0, 20, 100}).Draw(t, "duplicated")
	n.Spread = rapid.SampledFrom([]int{0, 0, 5, 60, 250}).Draw(t, "delay spread")
	return n
}

const limit = 30 * time.Second

func handshake(s *h.Scen, n network, count *[2]int) (msg string) {
	cc, sc := s.Configs()
	x := &sim{net: n, r: h.NewRng(n.Seed), w: h.NewWire(cc, sc), start: time.Now()}
	fail := func(f string, a ...any) string {
		return fmt.Sprintf(f, a...) + ": " + x.w.Status() + "\n" + strings.Join(x.log, "\n")
	}
	o := s.Predict()
	if err := x.run(x.w.Both, limit); err != nil {
		return fail("the handshake does not complete: %v", err)
	}
	*count = x.n
	if err := h.Agree(x.w); err != nil {
		return fail("%v", err)
	}
	if a := x.w.A.C.ConnectionState(); a.CipherSuite.Suite != o.Suite || a.UsingPSK != o.PSK || a.NextProto != o.ALPN {
		return fail("negotiated %v %v %q, expected %v %v %q", a.CipherSuite.Suite, a.UsingPSK, a.NextProto, o.Suite, o.PSK, o.ALPN)
	}

	// Data over the same network: what arrives was sent.
	const size = 24
	mk := func(d, i int) []byte {
		return []byte(fmt.Sprintf("%-24s", fmt.Sprintf("dir %d message %d", d, i)))
	}
	x.w.A.Got, x.w.B.Got = nil, nil
	for i := 0; i < 12; i++ {
		for d := 0; d < 2; d++ {
			if k, err := x.node(d).C.Write(mk(d, i)); k != size || err != nil {
				return fail("Write = %d, %v", k, err)
			}
			x.send(d, false)
		}
		end := time.Now().Add(20 * time.Millisecond)
		if err := x.run(func() bool { return len(x.q) == 0 || time.Now().After(end) }, limit); err != nil {
			return fail("after the handshake: %v", err)
		}
	}
	// The network gets perfect and empty.
	x.perfect = true
	if err := x.run(func() bool { return len(x.q) == 0 }, limit); err != nil {
		return fail("after the handshake: %v", err)
	}
	for d := 0; d < 2; d++ {
		got := x.node(1 - d).Got
		for len(got) > 0 {
			ok := false
			for i := 0; i < 12 && len(got) >= size; i++ {
				ok = ok || bytes.Equal(got[:size], mk(d, i))
			}
			if !ok {
				return fail("read %s, which the peer did not send", h.Brief(got))
			}
			got = got[size:]
		}
	}
	// Once acknowledgements have arrived nobody repeats anything.
	if x.acks > 0 && !x.ackLost && x.acked == x.acks {
		for i := 0; i < 100; i++ {
			if err := x.run(func() bool { return len(x.q) == 0 }, limit); err != nil {
				return fail("after the handshake: %v", err)
			}
			if ok, _ := x.next(); !ok {
				break
			}
		}
		x.sent = [2]int{}
		for i := 0; i < 20; i++ {
			time.Sleep(time.Second)
			if err := x.run(func() bool { return len(x.q) == 0 }, limit); err != nil {
				return fail("after the handshake: %v", err)
			}
		}
		if x.sent[0] > 0 {
			return fail("the client repeats %d datagrams although all is acknowledged", x.sent[0])
		}
		if ok, d := x.w.A.C.GetDTLSTimeout(); ok {
			return fail("the client has a timer pending (%v) although all is acknowledged", d)
		}
		if !s.Tickets {
			if x.sent[1] > 0 {
				return fail("the server repeats %d datagrams although all is acknowledged", x.sent[1])
			}
			if ok, d := x.w.B.C.GetDTLSTimeout(); ok {
				return fail("the server has a timer pending (%v) although all is acknowledged", d)
			}
		}
	}
	// Data flows both ways.
	x.w.A.Got, x.w.B.Got = nil, nil
	for d := 0; d < 2; d++ {
		if k, err := x.node(d).C.Write([]byte("finally")); k != 7 || err != nil {
			return fail("Write = %d, %v", k, err)
		}
		x.send(d, false)
	}
	if err := x.run(func() bool { return len(x.q) == 0 }, limit); err != nil {
		return fail("after the handshake: %v", err)
	}
	for d := 0; d < 2; d++ {
		if string(x.node(d).Got) != "finally" {
			return fail("read %q", x.node(d).Got)
		}
	}
	return ""
}

func drawScen(t *rapid.T) *h.Scen {
	return h.DrawScen(t, h.ScenOpts{Compatible: true, DTLSOnly: true, NoEarly: true, Tickets: true})
}

// TestLossy: any network.
func TestLossy(t *testing.T) {
	h.Check(t, 1200, 30000, func(rt *rapid.T) {
		s := drawScen(rt)
		n := drawNet(rt)
		var fail string
		var count [2]int
		h.Bubble(t, func() { fail = handshake(s, n, &count) })
		if fail != "" {
			rt.Fatalf("%s\n%+v\n%v", fail, n, s)
		}
		o := s.Predict()
		h.Label("lossy psk=%v retry=%v auth=%v tickets=%v", o.PSK, o.HRR, o.Asked, s.Tickets)
		h.Case(n.Loss[0]+n.Loss[1]+len(n.Drops[0])+len(n.Drops[1])+n.Dup+n.Spread > 0, "%+v %v", n, s)
	})
}

// TestEachLoss: every single datagram, and every pair, of a handshake lost.
func TestEachLoss(t *testing.T) {
	h.Check(t, 25, 500, func(rt *rapid.T) {
		s := drawScen(rt)
		var fail string
		var base, count [2]int
		h.Bubble(t, func() { fail = handshake(s, network{}, &base) })
		if fail != "" {
			rt.Fatalf("no loss: %s\n%v", fail, s)
		}
		var all [][2]int
		for d := 0; d < 2; d++ {
			for i := 0; i < base[d]; i++ {
				all = append(all, [2]int{d, i})
			}
		}
		h.Label("each loss of %d", len(all))
		for i := range all {
			for j := i; j < len(all); j++ {
				if j > i && (i+j)%4 != 0 && !h.Thorough() {
					continue
				}
				var n network
				n.Drops[all[i][0]] = append(n.Drops[all[i][0]], all[i][1])
				if j > i {
					n.Drops[all[j][0]] = append(n.Drops[all[j][0]], all[j][1])
				}
				h.Bubble(t, func() { fail = handshake(s, n, &count) })
				if fail != "" {
					rt.Fatalf("lost %v: %s\n%v", n.Drops, fail, s)
				}
				h.Case(true, "%v %v", n.Drops, s)
			}
		}
	})
}

// TestDeadNetwork: with a network that delivers nothing each side keeps a
// timer pending and repeats its flight, and only that.
func TestDeadNetwork(t *testing.T) {
	h.Check(t, 300, 6000, func(rt *rapid.T) {
		s := drawScen(rt)
		after := [2]int{rapid.IntRange(0, 6).Draw(rt, "delivered to the server"), rapid.IntRange(0, 12).Draw(rt, "delivered to the client")}
		var fail string
		h.Bubble(t, func() { fail = dead(s, after) })
		if fail != "" {
			rt.Fatalf("%s\n%v\n%v", fail, after, s)
		}
		h.Label("dead %v", after[0] > 0)
		h.Case(true, "%v %v", after, s)
	})
}

func dead(s *h.Scen, after [2]int) string {
	cc, sc := s.Configs()
	w := h.NewWire(cc, sc)
	var reached [2]int
	for i := 0; i < 30; i++ {
		for d := 0; d < 2; d++ {
			n := w.A
			if d == 1 {
				n = w.B
			}
			n.StepAll()
			w.Collect()
			for after[d] > 0 && w.Deliver(d, 1) {
				after[d]--
				reached[1-d]++
			}
		}
	}
	// From here on nothing arrives.  Who waits for an answer repeats.
	ends := [2]*h.Node{w.A, w.B}
	for d, n := range ends {
		if n.Failed {
			return fmt.Sprintf("end %d fails: %s", d, w.Status())
		}
	}
	var quiet [2]int
	for i := 0; i < 30; i++ {
		var wait time.Duration
		open := false
		for d, n := range ends {
			if n.Done {
				continue
			}
			ok, left := n.C.GetDTLSTimeout()
			if !ok {
				// An end that got something may have nothing left to repeat,
				// but then the other one has.
				if len(n.T.Sent) > 0 && reached[d] == 0 {
					return fmt.Sprintf("end %d waits for an answer without a timer: %s", d, w.Status())
				}
				continue
			}
			if left > time.Minute || left < -time.Millisecond {
				return fmt.Sprintf("end %d has a timeout of %v: %s", d, left, w.Status())
			}
			before := len(n.T.Sent)
			if n.StepAll(); left > 0 && len(n.T.Sent) > before {
				return fmt.Sprintf("end %d sends %v before its timeout: %s", d, left, w.Status())
			}
			if wait == 0 || left < wait {
				wait = left
			}
		}
		for d, n := range ends {
			if n.Done {
				if ok, left := n.C.GetDTLSTimeout(); ok && (wait == 0 || left < wait) {
					wait = left
				}
			} else if d == 0 || reached[d] > 0 {
				open = true
			}
		}
		if wait == 0 {
			if open {
				return fmt.Sprintf("nobody has a timer: %s", w.Status())
			}
			break
		}
		var due [2]bool
		for d, n := range ends {
			if ok, left := n.C.GetDTLSTimeout(); ok && !n.Done {
				due[d] = left <= wait
			}
		}
		time.Sleep(wait + time.Microsecond)
		for d, n := range ends {
			if n.Done {
				n.ReadAvail(100)
				continue
			}
			before := len(n.T.Sent)
			n.StepAll()
			if n.Failed {
				return fmt.Sprintf("end %d fails: %s", d, w.Status())
			}
			if !due[d] {
				continue
			}
			if ok, left := n.C.GetDTLSTimeout(); ok && left <= 0 {
				return fmt.Sprintf("end %d does not handle its timeout: %s", d, w.Status())
			}
			if len(n.T.Sent) == before {
				if quiet[d]++; quiet[d] > 3 {
					return fmt.Sprintf("end %d has timeouts and sends nothing: %s", d, w.Status())
				}
			}
		}
	}
	return ""
}
