package c31

import (
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// TestRetransmitTimer looks at the timers through an endpoint: with no answer
// from the peer, what is sent and when follows the reported timeout.
func TestRetransmitTimer(t *testing.T) {
	h.Check(t, 300, 5000, func(rt *rapid.T) {
		h.Bubble(t, func() { retransmit(rt) })
	})
}

func retransmit(t *rapid.T) {
	cfg := &mint.Config{ServerName: "example.com", NonBlocking: true, UseDTLS: true, Groups: []mint.NamedGroup{mint.X25519}}
	n := h.NewNode(cfg, true)
	if ok, _ := n.C.GetDTLSTimeout(); ok {
		t.Fatalf("a timeout is reported before anything was sent")
	}
	n.StepAll()
	first := len(n.T.TakeOut())
	if first == 0 {
		t.Fatalf("no hello was sent")
	}
	for i := rapid.IntRange(1, 12).Draw(t, "waits"); i > 0; i-- {
		ok, d := n.C.GetDTLSTimeout()
		if !ok {
			t.Fatalf("no timeout is reported though the hello is unanswered")
		}
		w := d + time.Duration(rapid.SampledFrom([]int{-1000, -100, -3, -1, 1, 2, 50, 2000}).Draw(t, "delta"))*time.Millisecond
		if w < 0 {
			w = 0
		}
		time.Sleep(w)
		n.Step()
		got := len(n.T.TakeOut())
		switch {
		case w < d && got != 0:
			t.Fatalf("retransmitted %v before the reported timeout", d-w)
		case w > d && got != first:
			t.Fatalf("%d datagrams sent %v after the timeout, want %d", got, w-d, first)
		}
		n.Step()
		if k := len(n.T.TakeOut()); k != 0 {
			t.Fatalf("retransmitted again at once")
		}
		h.Label("retransmit due=%v", w > d)
		h.Case(true, "%v of %v", w, d)
	}
}
