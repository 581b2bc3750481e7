// Package c01: both ends of a completed handshake agree.
package c01

import (
	"bytes"
	"strings"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type exp struct {
	label string
	ctx   []byte
	n     int
}

func drawExp(t *rapid.T) exp {
	e := exp{}
	switch rapid.IntRange(0, 4).Draw(t, "label kind") {
	case 0:
		e.label = rapid.SampledFrom([]string{"", "a", "EXPORTER-Channel-Binding", "exporter", "derived"}).Draw(t, "label")
	case 1:
		e.label = strings.Repeat("x", rapid.SampledFrom([]int{200, 248, 249, 250, 255, 256, 300, 505}).Draw(t, "label length"))
	default:
		e.label = string(rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "label bytes"))
	}
	e.ctx = rapid.OneOf(rapid.Just([]byte(nil)), rapid.SliceOfN(rapid.Byte(), 0, 40), rapid.Just(bytes.Repeat([]byte{7}, 255)), rapid.Just(bytes.Repeat([]byte{7}, 256)), rapid.Just(bytes.Repeat([]byte{7}, 70000))).Draw(t, "context")
	e.n = rapid.OneOf(rapid.IntRange(16, 70), rapid.SampledFrom([]int{0, 1, 255, 256, 257, 1000, 255 * 32, 255*32 + 1, 255 * 48, 255*48 + 1, 65535, 65536, 70000, -1})).Draw(t, "length")
	return e
}

func same(a, b exp) bool { return a.label == b.label && bytes.Equal(a.ctx, b.ctx) }

// check compares the two ends of one connection and returns its exports.
func check(t *rapid.T, what string, s *h.Scen, w *h.Wire, es []exp) [][]byte {
	if !w.Both() {
		t.Fatalf("%s: compatible ends did not complete: %s\n%v", what, w.Status(), s)
	}
	if err := h.Agree(w); err != nil {
		t.Fatalf("%s: %v\n%v", what, err, s)
	}
	var out [][]byte
	for i, e := range es {
		x, err1 := w.A.C.ComputeExporter(e.label, e.ctx, e.n)
		y, err2 := w.B.C.ComputeExporter(e.label, e.ctx, e.n)
		if (err1 == nil) != (err2 == nil) {
			t.Fatalf("%s: exporter errors differ: %v / %v", what, err1, err2)
		}
		if err1 != nil {
			if e.n >= 0 && e.n <= 255*32 && len(e.label) <= 249 {
				t.Fatalf("%s: exporter refused label of %d bytes, length %d: %v", what, len(e.label), e.n, err1)
			}
			out = append(out, nil)
			continue
		}
		if !bytes.Equal(x, y) || len(x) != e.n {
			t.Fatalf("%s: exports differ for %q/%x/%d: client %s server %s", what, e.label, e.ctx, e.n, h.Brief(x), h.Brief(y))
		}
		for j, f := range es[:i] {
			n := min(e.n, f.n)
			if n >= 16 && out[j] != nil && !same(e, f) && bytes.Equal(x[:n], out[j][:n]) {
				t.Fatalf("%s: same export for (%q,%s) and (%q,%s)", what, e.label, h.Brief(e.ctx), f.label, h.Brief(f.ctx))
			}
		}
		// Repeatable
		if z, err := w.A.C.ComputeExporter(e.label, e.ctx, e.n); err != nil || !bytes.Equal(x, z) {
			t.Fatalf("%s: exporter is not repeatable", what)
		}
		out = append(out, x)
	}
	if !s.DTLS {
		if err := h.Echo(w, h.NewRng(1).Bytes(rapid.SampledFrom([]int{1, 5, 16384, 40000}).Draw(t, "echo size")), []byte("pong")); err != nil {
			t.Fatalf("%s: %v\n%v", what, err, s)
		}
	} else if err := h.Echo(w, []byte("ping"), []byte("pong")); err != nil {
		t.Fatalf("%s: %v\n%v", what, err, s)
	}
	return out
}

func TestAgree(t *testing.T) {
	h.Check(t, 260, 6000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, Slow: rapid.IntRange(0, 60).Draw(t, "slow") == 60, Tickets: true})
		cc, sc := s.Configs()
		var es []exp
		for i := rapid.IntRange(1, 6).Draw(t, "exports"); i > 0; i-- {
			es = append(es, drawExp(t))
		}
		// A pair that differs in one part only.
		e := es[len(es)-1]
		f := e
		switch rapid.IntRange(0, 3).Draw(t, "variant") {
		case 0:
			f.label += "\x00"
		case 1:
			f.ctx = append(append([]byte{}, e.ctx...), 0)
		case 2:
			if len(f.label) > 0 {
				f.ctx = append([]byte{f.label[len(f.label)-1]}, f.ctx...)
				f.label = f.label[:len(f.label)-1]
			}
		case 3:
			f.n++
		}
		es = append(es, f)
		early := s.Predict().Early || s.Predict().EarlySnt

		var prev [][]byte
		conns := rapid.IntRange(1, 3).Draw(t, "connections")
		classes := ""
		for i := 0; i < conns; i++ {
			w := h.NewWire(cc, sc)
			if early && i == 0 && rapid.Bool().Draw(t, "write early") {
				w.A.Step()
				if w.A.C.Writable() {
					if _, err := w.A.C.Write([]byte("early")); err != nil {
						t.Fatalf("early Write: %v", err)
					}
				}
			}
			h.Drive(t, w)
			// Tickets are read here, before the next connection.
			if w.Both() {
				w.Flush()
				w.A.ReadAvail(100)
				w.B.ReadAvail(100)
			}
			x := check(t, []string{"first", "second", "third"}[i], s, w, es)
			cs := w.A.C.ConnectionState()
			if cs.UsingPSK {
				classes += "P"
			} else {
				classes += "C"
			}
			if cs.UsingEarlyData {
				classes += "e"
			}
			if prev != nil {
				for k := range x {
					if es[k].n >= 16 && x[k] != nil && prev[k] != nil && bytes.Equal(x[k], prev[k]) {
						t.Fatalf("two connections export the same for %q", es[k].label)
					}
				}
			}
			prev = x
		}
		h.Label("conns %s dtls=%v cookie=%d auth=%v", classes, s.DTLS, s.Cookie, s.ClientAuth)
		h.Case(true, "%v conns=%s exports=%d", s, classes, len(es))
	})
}

var _ = mint.AlertNoAlert
