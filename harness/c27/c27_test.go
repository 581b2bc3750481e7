// Package c27: concurrent use of a connection is safe.  Run with the race
// detector.
package c27

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"sync"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type op struct{ kind, n int } // 0 write, 1 update, 2 update asking for one, 3 pause

type plan struct {
	s    *h.Scen
	ops  [2][]op
	upd  [2][]op // by a third goroutine
	read [2]int
	max  int
	seed uint64
}

func drawOps(t *rapid.T, dtls bool) []op {
	var o []op
	for i := rapid.IntRange(0, 12).Draw(t, "operations"); i > 0; i-- {
		k := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 2, 3}).Draw(t, "operation")
		if dtls && (k == 1 || k == 2) {
			k = 0
		}
		sizes := []int{1, 100, 1000, 3000}
		if !dtls {
			sizes = append(sizes, 16384, 40000)
		}
		o = append(o, op{k, rapid.SampledFrom(sizes).Draw(t, "size")})
	}
	return o
}

func draw(t *rapid.T) *plan {
	p := &plan{s: h.DrawScen(t, h.ScenOpts{Compatible: true, Tickets: true})}
	for d := 0; d < 2; d++ {
		p.ops[d] = drawOps(t, p.s.DTLS)
		if !p.s.DTLS && rapid.IntRange(0, 2).Draw(t, "third") == 2 {
			for i := rapid.IntRange(1, 6).Draw(t, "updates"); i > 0; i-- {
				p.upd[d] = append(p.upd[d], op{1 + rapid.IntRange(0, 1).Draw(t, "request"), 0})
			}
		}
		p.read[d] = rapid.SampledFrom([]int{1, 100, 5000, 70000}).Draw(t, "read size")
		if p.read[d] == 1 {
			// Large streams take too long a byte at a time.
			for i := range p.ops[1-d] {
				p.read[d] += p.ops[1-d][i].n / 500
			}
		}
	}
	p.max = rapid.SampledFrom([]int{0, 3, 1000}).Draw(t, "transport")
	p.seed = rapid.Uint64().Draw(t, "seed")
	return p
}

func payload(d, i, n int) []byte {
	return bytes.Repeat([]byte{byte(d*91 + i*5 + 1), byte(n), byte(i), 0}, n/4+1)[:n]
}

func (p *plan) stream(d int) (b []byte) {
	for i, o := range p.ops[d] {
		if o.kind == 0 {
			b = append(b, payload(d, i, o.n)...)
		}
	}
	return
}

// yielder makes the transport give way now and then.
func yielder(seed uint64) func() {
	r := h.NewRng(seed)
	var mu sync.Mutex
	return func() {
		mu.Lock()
		k := r.IntN(6)
		mu.Unlock()
		for ; k > 3; k-- {
			runtime.Gosched()
		}
	}
}

// connection runs one pair from the handshake to the end of both streams.
func (p *plan) connection(cc, sc *mint.Config, tag uint64) error {
	a, b := h.NewPair(p.s.DTLS, true)
	ends := [2]*h.End{a, b}
	yield := yielder(p.seed ^ tag)
	for i, e := range ends {
		e.Block = true
		r := h.NewRng(p.seed ^ tag ^ uint64(i+5))
		if p.max > 0 {
			max := p.max
			var n int
			e.ReadMax = func(av int) int {
				// After a while larger pieces.
				if n++; n > 300 {
					return av
				}
				return 1 + r.IntN(max)
			}
		}
		e.OnWrite = func([]byte) { yield() }
	}
	conns := [2]*mint.Conn{mint.NewConn(a, cc, true), mint.NewConn(b, sc, false)}
	type res struct {
		what string
		err  error
	}
	ch := make(chan res, 20)
	run := func(what string, f func() error) {
		go func() {
			var err error
			if e := h.Guard(func() { err = f() }); e != nil {
				err = e
			}
			ch <- res{what, err}
		}()
	}
	wait := func(n int) error {
		for ; n > 0; n-- {
			select {
			case r := <-ch:
				if r.err != nil {
					a.Close()
					b.Close()
					for n--; n > 0; n-- {
						select {
						case <-ch:
						case <-time.After(time.Hour):
							return fmt.Errorf("%s: %w; and then something hangs", r.what, r.err)
						}
					}
					return fmt.Errorf("%s: %w", r.what, r.err)
				}
			case <-time.After(time.Hour):
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				a.Close()
				b.Close()
				time.Sleep(time.Hour)
				return fmt.Errorf("deadlock: %d goroutines wait\n%.6000s", n, buf)
			}
		}
		return nil
	}
	for d := range conns {
		run(fmt.Sprintf("handshake of end %d", d), func() error {
			if al := conns[d].Handshake(); al != mint.AlertNoAlert {
				return fmt.Errorf("alert %v", al)
			}
			return nil
		})
	}
	if err := wait(2); err != nil {
		return err
	}
	n := 4
	for d := range conns {
		c := conns[d]
		run(fmt.Sprintf("writer of end %d", d), func() error {
			for i, o := range p.ops[d] {
				switch o.kind {
				case 0:
					if k, err := c.Write(payload(d, i, o.n)); k != o.n || err != nil {
						return fmt.Errorf("Write(%d) = %d, %v", o.n, k, err)
					}
				case 1, 2:
					if err := c.SendKeyUpdate(o.kind == 2); err != nil {
						return err
					}
				default:
					runtime.Gosched()
				}
			}
			return nil
		})
		run(fmt.Sprintf("reader of end %d", d), func() error {
			want := p.stream(1 - d)
			got := make([]byte, 0, len(want))
			buf := make([]byte, p.read[d])
			for len(got) < len(want) {
				k, err := c.Read(buf)
				got = append(got, buf[:k]...)
				if err != nil {
					return fmt.Errorf("Read after %d of %d bytes: %w", len(got), len(want), err)
				}
			}
			if !bytes.Equal(got, want) {
				return fmt.Errorf("the stream is corrupted")
			}
			return nil
		})
		if len(p.upd[d]) > 0 {
			n++
			run(fmt.Sprintf("key updates of end %d", d), func() error {
				for _, o := range p.upd[d] {
					if err := c.SendKeyUpdate(o.kind == 2); err != nil {
						return err
					}
					runtime.Gosched()
				}
				return nil
			})
		}
	}
	if err := wait(n); err != nil {
		return err
	}
	// Everything still works, in both directions: what key updates are still
	// under way get processed.
	for d := range conns {
		m := []byte("the end of it")
		run("last write", func() error { _, err := conns[d].Write(m); return err })
		run("last read", func() error {
			got := make([]byte, len(m))
			if _, err := io.ReadFull(conns[1-d], got); err != nil || !bytes.Equal(got, m) {
				return fmt.Errorf("read %q, %v", got, err)
			}
			return nil
		})
		if err := wait(2); err != nil {
			return err
		}
	}
	a.Close()
	b.Close()
	return nil
}

// TestDuplex: a reader and a writer, and key updates, on each side.
func TestDuplex(t *testing.T) {
	h.Check(t, 500, 12000, func(rt *rapid.T) {
		p := draw(rt)
		s := *p.s
		s.Blocking = true
		cc, sc := s.Configs()
		var err error
		h.Bubble(t, func() { err = p.connection(cc, sc, 1) })
		if err != nil {
			rt.Fatalf("%v\n%v %v %v", err, p.s, p.ops, p.upd)
		}
		k := 0
		for d := range p.ops {
			for _, o := range append(p.ops[d], p.upd[d]...) {
				if o.kind == 1 || o.kind == 2 {
					k++
				}
			}
		}
		h.Label("duplex dtls=%v updates=%v third=%v", s.DTLS, k > 0, len(p.upd[0])+len(p.upd[1]) > 0)
		h.Case(len(p.ops[0])+len(p.ops[1]) > 1, "%v %v %v", p.s, p.ops, p.upd)
	})
}

// TestShared: several connections at the same time through one pair of
// configurations.
func TestShared(t *testing.T) {
	h.Check(t, 200, 5000, func(rt *rapid.T) {
		p := draw(rt)
		s := *p.s
		s.Blocking = true
		if s.DTLS {
			// No timers run while a blocking connection waits, so nothing may
			// be lost: nothing is.
			h.Label("shared dtls")
		}
		n := rapid.IntRange(2, 5).Draw(rt, "connections")
		zero := rapid.Bool().Draw(rt, "unset cookie protector")
		clones := rapid.Bool().Draw(rt, "clone meanwhile")
		cc, sc := s.Configs()
		if zero {
			sc.CookieProtector = nil
		}
		var errs []error
		h.Bubble(t, func() {
			ch := make(chan error, n+1)
			for i := 0; i < n; i++ {
				go func() { ch <- p.connection(cc, sc, uint64(i+2)) }()
			}
			if clones {
				for i := 0; i < 5; i++ {
					cc.Clone()
					sc.Clone()
					runtime.Gosched()
				}
			}
			for i := 0; i < n; i++ {
				if err := <-ch; err != nil {
					errs = append(errs, err)
				}
			}
		})
		if len(errs) > 0 {
			rt.Fatalf("%v\n%d connections %v %v", errs[0], n, p.s, p.ops)
		}
		h.Label("shared dtls=%v tickets=%v cookie=%v", s.DTLS, s.Tickets, s.Cookie != h.CookieNone)
		h.Case(true, "%d %v %v", n, p.s, p.ops)
	})
}
