// Package c23: the outcome does not depend on how transport and caller
// interleave.
package c23

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type op struct{ kind, n int } // 0 write, 1 key update, 2 key update with request

type plan struct {
	s     *h.Scen
	early []int
	ops   [2][]op
	seed  uint64
}

// result is what has to be the same.
type result struct {
	done   [2]bool
	first  int // the end that failed, -1
	alert  mint.Alert
	state  [2]string
	recv   [2][]byte // read by client, server
	detail string
}

func (r *result) String() string {
	return fmt.Sprintf("{done %v failed %d with %v, client %s read %s, server %s read %s; %s}", r.done, r.first, r.alert, r.state[0], h.Brief(r.recv[0]), r.state[1], h.Brief(r.recv[1]), r.detail)
}

func summary(c *mint.Conn) string {
	s := c.ConnectionState()
	x := sha256.New()
	for _, p := range s.PeerCertificates {
		x.Write(p.Raw)
	}
	for _, v := range s.VerifiedChains {
		x.Write([]byte{byte(len(v))})
	}
	return fmt.Sprintf("%v %v %q psk=%v early=%v %x", s.HandshakeState, s.CipherSuite.Suite, s.NextProto, s.UsingPSK, s.UsingEarlyData, x.Sum(nil)[:6])
}

func payload(dir, i, n int) []byte {
	return bytes.Repeat([]byte{byte(dir*101 + i*7 + 1), byte(n), byte(i)}, n/3+1)[:n]
}

func (p *plan) earlyData() (b []byte) {
	for i, n := range p.early {
		b = append(b, payload(2, i, n)...)
	}
	return
}

// doOp performs operation i of an end.
func (p *plan) doOp(c *mint.Conn, d, i int) error {
	o := p.ops[d][i]
	if o.kind > 0 {
		return c.SendKeyUpdate(o.kind == 2)
	}
	if n, err := c.Write(payload(d, i, o.n)); n != o.n || err != nil {
		return fmt.Errorf("Write(%d) = %d, %v", o.n, n, err)
	}
	return nil
}

type schedule struct {
	name   string
	max    int // largest delivered piece, 0: everything
	rounds int // random steps
	read   int // buffer size
	split  bool
}

// nonblocking runs one schedule.
func (p *plan) nonblocking(sch schedule) (*result, error) {
	cc, sc := p.s.Configs()
	w := h.NewWire(cc, sc)
	r := h.NewRng(p.seed ^ uint64(sch.max*7919+sch.rounds) ^ 0x1234567)
	res := &result{first: -1}
	ends := [2]*h.Node{w.A, w.B}
	next := [2]int{}
	wrote := len(p.early) == 0
	if w.A.T.Datagram == false && sch.split {
		for _, n := range ends {
			n.T.ReadMax = func(int) int { return 1 + r.IntN(sch.max) }
		}
	}
	quiet := func(d int) error {
		n := ends[d]
		if k := n.T.Pending(); k > 0 {
			return fmt.Errorf("end %d reports would-block with %d received bytes unread", d, k)
		}
		was, sent := n.C.GetHsState(), len(n.T.Sent)
		var err error
		if n.Done {
			var k int
			if k, err = n.C.Read(make([]byte, 10)); k != 0 {
				return fmt.Errorf("end %d reads %d bytes after it reported would-block", d, k)
			}
		} else {
			err = n.C.Handshake()
		}
		if err != mint.AlertWouldBlock {
			return fmt.Errorf("end %d returns %v instead of would-block when it is called again", d, err)
		}
		if x := n.C.GetHsState(); x != was || len(n.T.Sent) != sent {
			return fmt.Errorf("end %d changes state from %v to %v or sends (%d) though it blocks", d, was, x, len(n.T.Sent)-sent)
		}
		return nil
	}
	call := func(d int) (bool, error) {
		n := ends[d]
		if n.Failed {
			return false, nil
		}
		if n.Failed || n.Done {
			wrote = wrote || d == 0
		}
		if d == 0 && !wrote && n.Steps > 0 {
			wrote = true
			if !n.Done && res.first < 0 && n.C.Writable() {
				for i, k := range p.early {
					if m, err := n.C.Write(payload(2, i, k)); m != k || err != nil {
						return false, fmt.Errorf("early Write(%d) = %d, %v", k, m, err)
					}
				}
			}
		}
		if n.Done {
			if n.ReadErr != nil {
				return false, nil
			}
			g := len(n.Got)
			n.ReadAvail(sch.read)
			if n.ReadErr == nil && r.IntN(4) == 0 {
				if err := quiet(d); err != nil {
					return false, err
				}
			}
			return len(n.Got) > g, nil
		}
		st := n.Step()
		if n.Failed && res.first < 0 {
			res.first, res.alert = d, n.Alert
			for _, e := range ends {
				e.T.Close()
			}
		}
		if !st {
			if err := quiet(d); err != nil {
				return false, err
			}
		}
		return st, nil
	}
	doNext := func(d int) (bool, error) {
		if w.A.Done && w.B.Done && next[d] < len(p.ops[d]) {
			next[d]++
			return true, p.doOp(ends[d].C, d, next[d]-1)
		}
		return false, nil
	}
	for i := 0; i < sch.rounds; i++ {
		var err error
		switch k := r.IntN(6); k {
		case 0, 1:
			_, err = call(k)
		case 2, 3:
			w.Deliver(k-2, 1+r.IntN(sch.max))
		default:
			if r.IntN(8) == 0 {
				_, err = doNext(k - 4)
			}
		}
		if err != nil {
			return nil, err
		}
	}
	fresh := [2]bool{true, true}
	deliver := func() bool {
		max := sch.max
		if max == 0 {
			max = 1 << 30
		} else if w.Both() && max < 97 {
			max = 97
		}
		p := false
		for d := 0; d < 2; d++ {
			if w.Deliver(d, max) {
				p, fresh[1-d] = true, true
			}
			if sch.max == 0 {
				for w.Deliver(d, max) {
				}
			}
		}
		return p
	}
	for again := true; again; {
		again = false
		for d := 0; d < 2; d++ {
			for fresh[d] || d == 0 && !wrote {
				x, err := call(d)
				if err != nil {
					return nil, err
				}
				if !x {
					fresh[d] = d == 0 && !wrote && !ends[d].Failed
					if !fresh[d] {
						break
					}
				}
				again = true
			}
			again = deliver() || again
			x, err := doNext(d)
			if err != nil {
				return nil, err
			}
			again = again || x
		}
	}
	for d, n := range ends {
		res.done[d] = n.Done
		res.state[d] = summary(n.C)
		res.recv[d] = n.Got
		if n.Done && res.first < 0 && n.ReadErr != nil {
			return nil, fmt.Errorf("end %d: reading fails: %v", d, n.ReadErr)
		}
	}
	res.detail = w.Status()
	if w.Both() {
		if err := h.Agree(w); err != nil {
			return nil, err
		}
	}
	return res, nil
}

// blocking runs both ends in goroutines.
func (p *plan) blocking(max int) (*result, error) {
	s := *p.s
	s.Blocking = true
	cc, sc := s.Configs()
	a, b := h.NewPair(s.DTLS, true)
	ends := [2]*h.End{a, b}
	r := [2]*h.Rng{h.NewRng(p.seed ^ 77), h.NewRng(p.seed ^ 99)}
	for d, e := range ends {
		e.Block = true
		if max > 0 && !s.DTLS {
			x := r[d]
			e.ReadMax = func(int) int { return 1 + x.IntN(max) }
		}
	}
	conns := [2]*mint.Conn{mint.NewConn(a, cc, true), mint.NewConn(b, sc, false)}
	res := &result{first: -1}
	type ev struct {
		d     int
		what  string
		alert mint.Alert
		err   error
	}
	ch := make(chan ev, 10)
	goOn := [2]chan int{make(chan int, 5), make(chan int, 5)}
	for d := 0; d < 2; d++ {
		go func() {
			e := ev{d: d}
			perr := h.Guard(func() {
				c := conns[d]
				if d == 0 && len(p.early) > 0 {
					if al := c.HandshakeSetup(); al != mint.AlertNoAlert {
						ch <- ev{d, "handshake", al, nil}
						return
					}
					if c.Writable() {
						for i, k := range p.early {
							if m, err := c.Write(payload(2, i, k)); m != k || err != nil {
								ch <- ev{d, "early", 0, fmt.Errorf("early Write(%d) = %d, %v", k, m, err)}
								return
							}
						}
					}
				}
				al := c.Handshake()
				ch <- ev{d, "handshake", al, nil}
				if al != mint.AlertNoAlert {
					return
				}
				if <-goOn[d] == 0 {
					return
				}
				for i := range p.ops[d] {
					if e.err = p.doOp(c, d, i); e.err != nil {
						break
					}
				}
				ch <- ev{d, "written", 0, e.err}
				<-goOn[d]
				buf := make([]byte, 1+int(p.seed%3000))
				for {
					n, err := c.Read(buf)
					res.recv[d] = append(res.recv[d], buf[:n]...)
					if err != nil {
						e.err = nil
						ch <- ev{d, "read", 0, err}
						return
					}
				}
			})
			if perr != nil {
				ch <- ev{d, "panic", 0, perr}
			}
		}()
	}
	defer func() {
		for d := range ends {
			ends[d].Close()
			close(goOn[d])
		}
	}()
	wait := func() (ev, bool) {
		select {
		case e := <-ch:
			return e, true
		case <-time.After(time.Hour):
			return ev{}, false
		}
	}
	for i := 0; i < 2; i++ {
		e, ok := wait()
		if !ok {
			return nil, fmt.Errorf("blocking: the handshake hangs, states %v %v", conns[0].GetHsState(), conns[1].GetHsState())
		}
		if e.err != nil {
			return nil, fmt.Errorf("blocking: end %d: %s: %v", e.d, e.what, e.err)
		}
		if res.done[e.d] = e.alert == mint.AlertNoAlert; !res.done[e.d] && res.first < 0 {
			res.first, res.alert = e.d, e.alert
			a.Close()
			b.Close()
		}
	}
	for d := range conns {
		res.state[d] = summary(conns[d])
	}
	if res.first >= 0 {
		return res, nil
	}
	for _, stage := range []string{"written", "read"} {
		for d := range conns {
			goOn[d] <- 1
		}
		if stage == "read" {
			// What arrives is read, then the stream ends.
			time.Sleep(time.Second)
			a.EndIn()
			b.EndIn()
		}
		for i := 0; i < 2; i++ {
			e, ok := wait()
			if !ok {
				return nil, fmt.Errorf("blocking: hangs (%s)", stage)
			}
			if e.what != stage || stage == "written" && e.err != nil {
				return nil, fmt.Errorf("blocking: end %d: %s: %v", e.d, e.what, e.err)
			}
			if stage == "read" && e.err.Error() != "EOF" {
				return nil, fmt.Errorf("blocking: end %d: reading ends with %v", e.d, e.err)
			}
		}
	}
	return res, nil
}

func (r *result) same(o *result, p *plan) bool {
	if r.done != o.done || r.first != o.first || r.alert != o.alert {
		return false
	}
	for d := range r.done {
		if r.done[d] && r.state[d] != o.state[d] {
			return false
		}
		if r.done[0] && r.done[1] && !bytes.Equal(r.recv[d], o.recv[d]) {
			return false
		}
	}
	return true
}

func (p *plan) expected(d int, early bool) (b []byte) {
	if d == 1 && early {
		b = p.earlyData()
	}
	for i, o := range p.ops[1-d] {
		if o.kind == 0 {
			b = append(b, payload(1-d, i, o.n)...)
		}
	}
	return
}

func (p *plan) check() (msg string, base *result) {
	var err error
	base, err = p.nonblocking(schedule{name: "base", read: 1000})
	if err != nil {
		return "at once: " + err.Error(), nil
	}
	if base.done[0] && base.done[1] {
		o := p.s.Predict()
		for d := 0; d < 2; d++ {
			if want := p.expected(d, o.Early && len(p.early) > 0); !bytes.Equal(base.recv[d], want) {
				return fmt.Sprintf("end %d reads %s instead of %s", d, h.Brief(base.recv[d]), h.Brief(want)), nil
			}
		}
	}
	for _, sch := range []schedule{
		{"bytes", 1, 2000, 1, true}, {"small pieces", 11, 1500, 7, true}, {"pieces", 300, 700, 100, true}, {"large pieces", 20000, 200, 20000, false}, {"step by step", 1 << 20, 0, 3000, false},
	} {
		r, err := p.nonblocking(sch)
		if err != nil {
			return sch.name + ": " + err.Error(), nil
		}
		if !r.same(base, p) {
			return fmt.Sprintf("%s: %v\nat once: %v", sch.name, r, base), nil
		}
	}
	for _, max := range []int{0, 1, 700} {
		r, err := p.blocking(max)
		if err != nil {
			return fmt.Sprintf("blocking, at most %d bytes: %v\nnonblocking: %v", max, err, base), nil
		}
		if !r.same(base, p) {
			return fmt.Sprintf("blocking, at most %d bytes: %v\nnonblocking: %v", max, r, base), nil
		}
	}
	return "", base
}

func prop(t *testing.T, compatible bool) func(rt *rapid.T) {
	return func(rt *rapid.T) {
		p := &plan{s: h.DrawScen(rt, h.ScenOpts{Compatible: compatible, Tickets: true}), seed: rapid.Uint64().Draw(rt, "schedule seed")}
		if p.s.EarlyC && p.s.PSK != nil {
			for i := rapid.IntRange(0, 3).Draw(rt, "early writes"); i > 0; i-- {
				p.early = append(p.early, rapid.SampledFrom([]int{1, 50, 3000}).Draw(rt, "early size"))
			}
		}
		for d := 0; d < 2; d++ {
			updated := false
			for i := rapid.IntRange(0, 5).Draw(rt, "operations"); i > 0; i-- {
				sizes := []int{1, 10, 100, 1000, 1000, 3000}
				if !p.s.DTLS {
					sizes = append(sizes, 20000)
				}
				o := op{rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "operation"), rapid.SampledFrom(sizes).Draw(rt, "size")}
				if o.kind > 0 && p.s.DTLS {
					// All updated keys have the same epoch, so only one update is
					// possible.
					if o.kind = 1; updated {
						o.kind = 0
					}
					updated = true
				}
				p.ops[d] = append(p.ops[d], o)
			}
		}
		var msg string
		var base *result
		h.Bubble(t, func() { msg, base = p.check() })
		if msg != "" {
			rt.Fatalf("%s\n%+v early=%v ops=%v", msg, p.s, p.early, p.ops)
		}
		h.Label("dtls=%v done=%v failed=%d early=%v", p.s.DTLS, base.done, base.first, len(p.early) > 0)
		h.Case(true, "%v early=%v ops=%v", p.s, p.early, p.ops)
	}
}

// TestCompatible: pairs that complete.
func TestCompatible(t *testing.T) { h.Check(t, 160, 5000, prop(t, true)) }

// TestAny: pairs that may fail.
func TestAny(t *testing.T) { h.Check(t, 160, 5000, prop(t, false)) }
