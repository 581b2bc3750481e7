//go:build !noshim

// Package c31: timers fire once, in order, after their deadline unless cancelled.
package c31

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
)

type tm struct {
	id       int
	label    string
	deadline time.Time
	pending  bool
	runs     int
	cancel   func()
}

type op struct {
	kind  int // 0 start, 1 cancel label, 2 cancel handle
	label string
	ms    uint32
	n     int
	then  []op // what the callback does
	fail  bool
}

func drawOp(t *rapid.T, depth int) op {
	o := op{kind: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "op")}
	o.label = rapid.SampledFrom([]string{"a", "b", "c", "d", ""}).Draw(t, "label")
	o.n = rapid.IntRange(0, 20).Draw(t, "handle")
	if o.kind == 0 {
		o.ms = uint32(rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 60), rapid.SampledFrom([]int{0, 0, 1000, 1 << 31, 1<<32 - 1})).Draw(t, "ms"))
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "acts") == 0 {
			for i := rapid.IntRange(1, 3).Draw(t, "acts n"); i > 0; i-- {
				o.then = append(o.then, drawOp(t, depth-1))
			}
		}
		o.fail = rapid.IntRange(0, 7).Draw(t, "fails") == 7
	}
	return o
}

var errCb = errors.New("callback failed")

func TestTimers(t *testing.T) {
	h.Check(t, 6000, 100000, func(rt *rapid.T) {
		h.Bubble(t, func() { timers(rt) })
	})
}

func timers(t *rapid.T) {
	v := mint.NewVerifTimers()
	var all []*tm
	var log []string
	fired, nested, failures, cancels := 0, 0, 0, 0
	var now time.Time // of the running check
	var lastErr error
	bad := func(f string, a ...any) {
		t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(log, " "))
	}
	var exec func(o op, inside bool)
	exec = func(o op, inside bool) {
		switch o.kind {
		case 0:
			x := &tm{id: len(all), label: o.label, pending: true, deadline: time.Now().Add(time.Duration(o.ms) * time.Millisecond)}
			all = append(all, x)
			log = append(log, fmt.Sprintf("start#%d(%q,%d)", x.id, o.label, o.ms))
			x.cancel = v.Start(o.label, func() error {
				log = append(log, fmt.Sprintf("fire#%d", x.id))
				if now.IsZero() {
					bad("timer %d ran outside a check", x.id)
				}
				if !x.pending {
					bad("timer %d ran although it was cancelled or had run (%d times)", x.id, x.runs)
				}
				if x.deadline.After(now) {
					bad("timer %d ran %v early", x.id, x.deadline.Sub(now))
				}
				if lastErr != nil {
					bad("timer %d ran after a callback of the same check had failed", x.id)
				}
				for _, y := range all {
					if y.pending && y != x && y.deadline.Before(x.deadline) {
						bad("timer %d ran before timer %d, which is due earlier", x.id, y.id)
					}
				}
				x.pending = false
				x.runs++
				fired++
				for _, p := range o.then {
					nested++
					exec(p, true)
				}
				if o.fail {
					failures++
					lastErr = fmt.Errorf("timer %d: %w", x.id, errCb)
					return lastErr
				}
				return nil
			}, o.ms)
		case 1:
			log = append(log, fmt.Sprintf("cancel(%q)", o.label))
			v.Cancel(o.label)
			for _, y := range all {
				if y.label == o.label && y.pending {
					y.pending = false
					cancels++
				}
			}
		case 2:
			if len(all) == 0 {
				return
			}
			y := all[o.n%len(all)]
			if y.cancel == nil {
				return
			}
			log = append(log, fmt.Sprintf("cancel#%d", y.id))
			y.cancel()
			y.pending = false
			cancels++
		}
	}
	observe := func() {
		var want []string
		first := time.Time{}
		n := map[string]bool{}
		for _, y := range all {
			if y.pending {
				want = append(want, y.label)
				n[y.label] = true
				if first.IsZero() || y.deadline.Before(first) {
					first = y.deadline
				}
			}
		}
		got := append([]string{}, v.All()...)
		sort.Strings(got)
		sort.Strings(want)
		if strings.Join(got, "|") != strings.Join(want, "|") || len(got) != len(want) {
			bad("pending timers are reported as %q, they are %q", got, want)
		}
		for _, l := range []string{"a", "b", "c", "d"} {
			if v.Has(l) != n[l] {
				bad("timer %q pending: reported %v", l, v.Has(l))
			}
		}
		ok, d := v.Remaining()
		if ok != (len(want) > 0) {
			bad("next timeout reported: %v with %d pending", ok, len(want))
		}
		if ok && d != time.Until(first) {
			bad("next timeout in %v reported, is in %v", d, time.Until(first))
		}
	}
	for i := rapid.IntRange(1, 30).Draw(t, "steps"); i > 0; i-- {
		switch rapid.IntRange(0, 4).Draw(t, "step") {
		case 0, 1:
			exec(drawOp(t, 2), false)
		case 2:
			d := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(0, 80), rapid.SampledFrom([]int{1500, 1 << 22})).Draw(t, "sleep")
			log = append(log, fmt.Sprintf("sleep(%d)", d))
			time.Sleep(time.Duration(d) * time.Millisecond)
			if rapid.Bool().Draw(t, "off the grid") {
				time.Sleep(time.Microsecond)
			}
		default:
			now, lastErr = time.Now(), nil
			log = append(log, "check")
			err := v.Check(now)
			if err != lastErr {
				bad("check returned %v, the callbacks %v", err, lastErr)
			}
			if err == nil {
				for _, y := range all {
					if y.pending && y.deadline.Before(now) {
						bad("timer %d did not run %v after its deadline", y.id, now.Sub(y.deadline))
					}
				}
			}
			now = time.Time{}
		}
		observe()
	}
	for _, y := range all {
		if y.runs > 1 {
			bad("timer %d ran %d times", y.id, y.runs)
		}
	}
	h.Label("fired=%v nested=%v failures=%v cancels=%v", fired > 0, nested > 0, failures > 0, cancels > 0)
	h.Case(fired > 0, "%s", strings.Join(log, " "))
}
