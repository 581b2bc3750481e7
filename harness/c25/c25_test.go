// Package c25: alerts and connection end are reported faithfully.
package c25

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"testing"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

// The alert numbers of RFC 8446 section 6.
var rfc = map[byte]mint.Alert{
	0: mint.AlertCloseNotify, 10: mint.AlertUnexpectedMessage, 20: mint.AlertBadRecordMAC, 22: mint.AlertRecordOverflow,
	40: mint.AlertHandshakeFailure, 42: mint.AlertBadCertificate, 43: mint.AlertUnsupportedCertificate, 44: mint.AlertCertificateRevoked,
	45: mint.AlertCertificateExpired, 46: mint.AlertCertificateUnknown, 47: mint.AlertIllegalParameter, 48: mint.AlertUnknownCA,
	49: mint.AlertAccessDenied, 50: mint.AlertDecodeError, 51: mint.AlertDecryptError, 70: mint.AlertProtocolVersion,
	71: mint.AlertInsufficientSecurity, 80: mint.AlertInternalError, 86: mint.AlertInappropriateFallback, 90: mint.AlertUserCanceled,
	109: mint.AlertMissingExtension, 110: mint.AlertUnsupportedExtension, 112: mint.AlertUnrecognizedName,
	113: mint.AlertBadCertificateStatsResponse, 115: mint.AlertUnknownPSKIdentity, 120: mint.AlertNoApplicationProtocol,
}

// internal values are no alerts of the protocol
func internal(d byte) bool { return d >= 253 }

func drawDesc(t *rapid.T) byte {
	if rapid.Bool().Draw(t, "any description") {
		return rapid.Byte().Draw(t, "description")
	}
	return rapid.SampledFrom([]byte{0, 0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 100, 109, 110, 112, 113, 115, 116, 120, 252, 253, 254, 255}).Draw(t, "known description")
}

// names checks that err is the report of the peer's fatal alert.
func names(err error, desc byte) bool {
	if err == nil || err == mint.AlertWouldBlock {
		return false
	}
	if internal(desc) {
		return err != io.EOF && err != mint.AlertNoAlert && err != mint.AlertStatelessRetry
	}
	var a mint.Alert
	return errors.As(err, &a) && byte(a) == desc
}

type base = ref.Base

// pair makes a library end and an independent end of a scenario.
func pair(t *rapid.T, s *h.Scen, isClient bool, r *h.Rng) (*h.Link, *base, func()) {
	cc, sc := s.Configs()
	if isClient {
		p := h.RefServer(s, r)
		return &h.Link{N: h.NewNode(cc, true), P: p}, &p.Base, func() {}
	}
	p := h.RefClient(s, r)
	return &h.Link{N: h.NewNode(sc, false), P: p}, &p.Base, p.Start
}

// sent checks the alerts that the library sent so far.
func sent(b *base, n *h.Node) error {
	if b.Err != nil {
		return fmt.Errorf("the peer cannot read what was sent: %v", b.Err)
	}
	fatal := false
	for i, a := range b.Alerts {
		if len(a) != 2 || a[0] < 1 || a[0] > 2 || internal(a[1]) {
			return fmt.Errorf("alert %d is malformed: %x", i, a)
		}
		if (a[0] == 1) != (a[1] == 0 || a[1] == 100 || a[1] == 90) {
			return fmt.Errorf("alert %d has the wrong level: %x", i, a)
		}
		if fatal {
			return fmt.Errorf("alert %x after a fatal alert", a)
		}
		fatal = a[0] == 2
	}
	if fatal {
		if b.Recs[len(b.Recs)-1].Type != ref.RecAlert {
			return fmt.Errorf("a record of type %d followed the fatal alert", b.Recs[len(b.Recs)-1].Type)
		}
		if !n.T.Closed() {
			return fmt.Errorf("the transport is open after the fatal alert %x", b.Alerts[len(b.Alerts)-1])
		}
	}
	return nil
}

// TestConnected: an established connection receives data, an alert, and more
// data.
func TestConnected(t *testing.T) {
	h.Check(t, 1500, 30000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoEarly: true, Tickets: true})
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		l, b, start := pair(t, s, isClient, r)
		start()
		l.Run()
		if !l.N.Done {
			t.Fatalf("handshake: %v %v\n%v", l.N, b.Err, s)
		}
		l.N.NoClose = true
		var want []byte
		var log []string
		data := func() {
			p := r.Bytes(rapid.SampledFrom([]int{0, 1, 5, 100, 2000, 16384}).Draw(t, "size"))
			if s.DTLS && len(p) > 2000 {
				p = p[:2000]
			}
			b.SendApp(p)
			want = append(want, p...)
			log = append(log, fmt.Sprintf("data(%d)", len(p)))
		}
		steps := rapid.IntRange(0, 6).Draw(t, "before")
		for i := 0; i < steps; i++ {
			switch rapid.IntRange(0, 4).Draw(t, "step") {
			case 0, 1:
				data()
			case 2:
				if !s.DTLS {
					b.SendKeyUpdate(false)
					log = append(log, "keyupdate")
				}
			case 3:
				l.Move()
				l.N.ReadAvail(rapid.IntRange(1, 3000).Draw(t, "read"))
				log = append(log, "read")
			case 4:
				l.N.C.Write(r.Bytes(10))
			}
		}
		level, desc := byte(2), drawDesc(t)
		kind := rapid.IntRange(0, 10).Draw(t, "kind")
		var payload []byte
		switch {
		case kind < 4:
			payload = []byte{2, desc}
		case kind < 7:
			level, desc = byte(rapid.IntRange(1, 2).Draw(t, "level")), 0
			payload = []byte{level, 0}
		case kind == 10: // a warning
			if level = 1; desc == 0 {
				desc = 90
			}
			payload = []byte{level, desc}
		case kind < 9: // malformed: length
			n := rapid.SampledFrom([]int{0, 1, 3, 4, 50}).Draw(t, "length")
			payload = r.Bytes(n)
			if n > 1 && rapid.Bool().Draw(t, "looks right") {
				payload[0], payload[1] = 2, desc
			}
			if n > 1 && rapid.Bool().Draw(t, "looks like a close") {
				payload[0], payload[1] = 1, 0
			}
		default: // malformed: level
			level = rapid.SampledFrom([]byte{0, 3, 4, 255}).Draw(t, "bad level")
			if desc == 0 {
				desc = 10
			}
			payload = []byte{level, desc}
		}
		b.Flush()
		b.Record(ref.RecAlert, payload)
		log = append(log, fmt.Sprintf("alert(%x)", payload))
		mark := len(want)
		for i := rapid.IntRange(0, 3).Draw(t, "after"); i > 0; i-- {
			data()
		}
		together := !s.DTLS && rapid.Bool().Draw(t, "one segment")
		if together { // all in one segment
			var all []byte
			for _, x := range b.Take() {
				all = append(all, x...)
			}
			l.N.T.Push(all)
		} else {
			l.Move()
		}
		if kind != 10 && rapid.Bool().Draw(t, "transport ends too") {
			l.N.T.EndIn()
		}
		size := rapid.SampledFrom([]int{1, 7, 1000, 20000}).Draw(t, "read size")
		if len(want) > 5000 && size < 100 {
			size = 100
		}
		for i := 0; i < 20 && l.N.ReadErr == nil; i++ { // a datagram at a time
			l.N.ReadAvail(size)
		}
		ctx := fmt.Sprintf("client=%v dtls=%v %s\n%v", isClient, s.DTLS, strings.Join(log, " "), s)
		if kind == 10 {
			// Ignored, or as good as fatal; but no end of the stream.
			ignored := l.N.ReadErr == nil && bytes.Equal(l.N.Got, want)
			if !ignored && !(names(l.N.ReadErr, desc) && bytes.Equal(l.N.Got, want[:mark])) {
				t.Fatalf("after a warning %d of %d bytes are read, %d were sent before it; error %v: %s", len(l.N.Got), len(want), mark, l.N.ReadErr, ctx)
			}
			h.Label("connected dtls=%v warning ignored=%v", s.DTLS, ignored)
			h.Case(len(want) > mark, "%v %v %x %s", isClient, s.DTLS, payload, strings.Join(log, " "))
			return
		}
		if !bytes.Equal(l.N.Got, want[:mark]) {
			t.Fatalf("read %d bytes, %d were sent before the alert, error %v: %s", len(l.N.Got), mark, l.N.ReadErr, ctx)
		}
		switch {
		case kind < 4 && desc != 0:
			if !names(l.N.ReadErr, desc) {
				t.Fatalf("Read reports %v (%T) for the fatal alert %d: %s", l.N.ReadErr, l.N.ReadErr, desc, ctx)
			}
		case kind < 7:
			if l.N.ReadErr != io.EOF {
				t.Fatalf("Read reports %v for a close notification: %s", l.N.ReadErr, ctx)
			}
		default:
			if l.N.ReadErr == nil || l.N.ReadErr == io.EOF {
				t.Fatalf("Read reports %v for a malformed alert: %s", l.N.ReadErr, ctx)
			}
		}
		// It stays so.
		first := l.N.ReadErr
		for i := 0; i < 3; i++ {
			l.N.ReadErr = nil
			l.N.ReadAvail(100)
			if len(l.N.Got) != mark {
				t.Fatalf("data after the end: %s", ctx)
			}
			if l.N.ReadErr == nil || (first == io.EOF) != (l.N.ReadErr == io.EOF) {
				t.Fatalf("Read reports %v, then %v: %s", first, l.N.ReadErr, ctx)
			}
			if i == 0 {
				b.SendApp([]byte("late"))
				l.Move()
			}
		}
		l.Move()
		if err := sent(b, l.N); err != nil {
			t.Fatalf("%v: %s", err, ctx)
		}
		if len(b.Alerts) > 0 && kind < 7 {
			t.Fatalf("answered an alert with %x: %s", b.Alerts, ctx)
		}
		h.Label("connected dtls=%v kind=%d err=%T", s.DTLS, kind, first)
		h.Case(mark > 0 || len(want) > mark, "%v %v %x %s", isClient, s.DTLS, payload, strings.Join(log, " "))
	})
}

// TestHandshake: an alert instead of the next handshake message.
func TestHandshake(t *testing.T) {
	h.Check(t, 1500, 30000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoEarly: true})
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		l, b, start := pair(t, s, isClient, r)
		b.Coalesce = !s.DTLS && r.IntN(2) == 0
		at := rapid.IntRange(0, 7).Draw(t, "position")
		desc := drawDesc(t)
		level := byte(2)
		if desc == 0 {
			level = byte(rapid.IntRange(1, 2).Draw(t, "level"))
		}
		rest := rapid.Bool().Draw(t, "rest follows")
		hit, where, n := false, "", 0
		b.Hook = func(m *ref.OutMsg) {
			if n == at {
				hit = true
				where = fmt.Sprintf("%d", m.Kind)
				b.Flush()
				b.Record(ref.RecAlert, []byte{level, desc})
			}
			n++
			if hit && !rest {
				m.Wire = nil
			}
		}
		start()
		l.Run()
		ctx := fmt.Sprintf("alert %d at message %d (%s) client=%v: %v peer %v\n%v", desc, at, where, isClient, l.N, b.Err, s)
		if !hit {
			if !l.N.Done {
				t.Fatalf("handshake failed: %s", ctx)
			}
			h.Case(false, "")
			return
		}
		if l.N.Done {
			t.Fatalf("the handshake completed: %s", ctx)
		}
		if !l.N.Failed {
			t.Fatalf("the alert is not reported: %s", ctx)
		}
		if internal(desc) {
			switch l.N.Alert {
			case mint.AlertNoAlert, mint.AlertWouldBlock, mint.AlertStatelessRetry:
				t.Fatalf("reported as %v: %s", l.N.Alert, ctx)
			}
		} else if byte(l.N.Alert) != desc {
			t.Fatalf("reported as %v: %s", l.N.Alert, ctx)
		}
		for i := 0; i < 2; i++ {
			if a := l.N.C.Handshake(); a != l.N.Alert {
				t.Fatalf("Handshake reports %v later: %s", a, ctx)
			}
			if k, err := l.N.C.Read(make([]byte, 10)); k != 0 || err == nil || err == mint.AlertWouldBlock {
				t.Fatalf("Read reports %d, %v: %s", k, err, ctx)
			}
		}
		for _, a := range b.Alerts {
			if len(a) != 2 || a[0] != 1 || a[1] != 0 {
				t.Fatalf("answered with %x: %s", a, ctx)
			}
		}
		h.Label("handshake client=%v dtls=%v before %s", isClient, s.DTLS, where)
		h.Case(true, "%v %d %d %v %v", isClient, at, desc, rest, s)
	})
}

// TestOwn: failures of its own make an endpoint send proper alerts.
func TestOwn(t *testing.T) {
	h.Check(t, 1200, 24000, func(t *rapid.T) {
		isClient := rapid.Bool().Draw(t, "library is client")
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoEarly: true, Tickets: true})
		r := h.NewRng(rapid.Uint64().Draw(t, "peer seed"))
		l, b, start := pair(t, s, isClient, r)
		during := rapid.IntRange(0, 3).Draw(t, "during the handshake") == 0
		what := ""
		if during {
			at, n := rapid.IntRange(0, 6).Draw(t, "position"), 0
			kind := rapid.IntRange(0, 3).Draw(t, "kind")
			b.Hook = func(m *ref.OutMsg) {
				if n++; n-1 != at {
					return
				}
				what = fmt.Sprintf("%d at %d", kind, m.Kind)
				switch kind {
				case 0:
					b.Flush()
					b.Record(ref.RecHandshake, r.Bytes(60))
				case 1:
					b.Flush()
					b.Record(ref.RecAlert, r.Bytes(3))
				case 2:
					x := append([]byte{}, m.Raw...)
					x[len(x)-1] ^= 1
					m.Set(x)
				case 3:
					b.Flush()
					b.Record(ref.RecAlert, []byte{1, 0})
				}
			}
		}
		start()
		l.N.NoClose = true
		l.Run()
		if !during && !l.N.Done {
			t.Fatalf("handshake: %v %v\n%v", l.N, b.Err, s)
		}
		fails := false
		var want []byte
		if l.N.Done && !during {
			want = r.Bytes(r.IntN(100))
			b.SendApp(want)
			if !s.DTLS && r.IntN(3) == 0 {
				b.SendKeyUpdate(r.IntN(2) == 0)
			}
			fails = true
			switch k := rapid.IntRange(0, 7).Draw(t, "failure"); k {
			case 0:
				what = "handshake message not allowed"
				b.SendHS(b.Frame([]byte{1, 2, 8, 11, 13, 15, 20, 254}[r.IntN(8)], r.Bytes(32)))
			case 1:
				what = "malformed alert"
				b.Flush()
				b.Record(ref.RecAlert, r.Bytes([]int{0, 1, 3, 9}[r.IntN(4)]))
			case 2:
				what = "alert of an unknown level"
				b.SendAlert(byte(3+r.IntN(250)), byte(1+r.IntN(250)))
			case 3:
				what = "ticket with trailing bytes"
				b.SendHS(b.Frame(ref.HNST, append(ref.Cat(ref.U32(9), ref.U32(9), ref.V8([]byte{1}), ref.V16([]byte{2, 3}), ref.Exts(nil)), 1)))
			case 4:
				what = "invalid key update"
				b.SendHS(b.Frame(ref.HKeyUpdate, []byte{byte(2 + r.IntN(250))}))
			case 5:
				what = "empty key update"
				b.SendHS(b.Frame(ref.HKeyUpdate, nil))
			case 6:
				what = "ticket from a client"
				if isClient {
					what = "certificate request"
					b.SendHS(b.Frame(ref.HCertReq, ref.Cat(ref.V8(nil), ref.Exts([]ref.Ext{{Type: ref.XSigAlgs, Data: ref.V16([]byte{4, 3})}}))))
				} else {
					b.SendHS(b.Frame(ref.HNST, ref.Cat(ref.U32(9), ref.U32(9), ref.V8([]byte{1}), ref.V16([]byte{2, 3}), ref.Exts(nil))))
				}
			case 7:
				// (Zero is not a type but padding.)
				typ := []byte{19, 20, 24, 25, 27, 99, 254, 255, ref.RecAck}[r.IntN(9)]
				if s.DTLS && typ == ref.RecAck {
					typ = 24
				}
				what = fmt.Sprintf("record of type %d", typ)
				b.Flush()
				b.Record(typ, r.Bytes(1+r.IntN(20)))
			}
			b.SendApp([]byte("more"))
			l.Move()
			for i := 0; i < 20 && l.N.ReadErr == nil; i++ {
				l.N.ReadAvail(1000)
			}
		}
		l.Move()
		ctx := fmt.Sprintf("%s client=%v dtls=%v: %v read error %v alerts %x\n%v", what, isClient, s.DTLS, l.N, l.N.ReadErr, b.Alerts, s)
		if err := sent(b, l.N); err != nil && !during {
			t.Fatalf("%v: %s", err, ctx)
		}
		if during { // the keys may not agree any more: only look at the alerts that can be read
			for _, a := range b.Alerts {
				if len(a) != 2 || a[0] < 1 || a[0] > 2 || internal(a[1]) || (a[0] == 2) == (a[1] == 0) {
					t.Fatalf("malformed alert %x: %s", a, ctx)
				}
			}
		}
		if fails {
			if !bytes.Equal(l.N.Got, want) {
				t.Fatalf("read %x instead of %x: %s", l.N.Got, want, ctx)
			}
			if e := l.N.ReadErr; e == nil || e == io.EOF {
				t.Fatalf("a failure is reported as %v: %s", e, ctx)
			}
			if len(b.Alerts) != 1 || b.Alerts[0][0] != 2 {
				t.Fatalf("no fatal alert was sent: %s", ctx)
			}
		}
		h.Label("own %s sent=%x", what, b.Alerts)
		h.Case(what != "" && len(b.Alerts) > 0, "%s %v %v", what, isClient, s)
	})
}

// TestEnd: the end of the transport and its errors.
func TestEnd(t *testing.T) {
	h.Check(t, 500, 10000, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{Compatible: true, NoEarly: true, Tickets: true})
		w := h.RunScen(t, s)
		if !w.Both() {
			t.Fatalf("handshake: %s\n%v", w.Status(), s)
		}
		from := rapid.IntRange(0, 1).Draw(t, "direction")
		nodes := [2]*h.Node{w.A, w.B}
		a, b := nodes[from], nodes[1-from]
		r := h.NewRng(rapid.Uint64().Draw(t, "data seed"))
		var want []byte
		for i := rapid.IntRange(0, 4).Draw(t, "writes"); i > 0; i-- {
			p := r.Bytes(rapid.SampledFrom([]int{1, 10, 1000, 20000}).Draw(t, "size"))
			if _, err := a.C.Write(p); err != nil {
				t.Fatalf("Write: %v", err)
			}
			want = append(want, p...)
		}
		kind := rapid.IntRange(0, 2).Draw(t, "end")
		reset := errors.New("connection reset")
		if rapid.Bool().Draw(t, "net error") {
			reset = &net.OpError{Op: "read", Net: "tcp", Err: reset}
		}
		if kind == 0 || !s.DTLS {
			a.C.Close()
			if !a.T.Closed() {
				t.Fatalf("Close did not close the transport")
			}
			if k, err := a.C.Write([]byte("x")); err == nil {
				t.Fatalf("Write after Close: %d, nil", k)
			}
		}
		if kind == 1 {
			b.T.ReadErr = reset
		}
		w.Flush()
		b.T.EndIn()
		size := rapid.SampledFrom([]int{100, 5000}).Draw(t, "read size")
		for i := 0; i < 20 && b.ReadErr == nil; i++ {
			b.ReadAvail(size)
		}
		ctx := fmt.Sprintf("kind %d direction %d: read error %v\n%v", kind, from, b.ReadErr, s)
		if !bytes.Equal(b.Got, want) {
			t.Fatalf("read %d of %d bytes sent before the end: %s", len(b.Got), len(want), ctx)
		}
		if kind == 1 {
			if !errors.Is(b.ReadErr, reset) {
				t.Fatalf("the transport's error is not reported: %s", ctx)
			}
		} else if b.ReadErr == nil {
			t.Fatalf("the end is not reported: %s", ctx)
		}
		// Write errors
		bad := errors.New("broken pipe")
		b.T.WriteErr = func() error { return bad }
		if k, err := b.C.Write([]byte("x")); !errors.Is(err, bad) || k != 0 {
			t.Fatalf("a write error is reported as %d, %v: %s", k, err, ctx)
		}
		if b.C.SendKeyUpdate(false) == nil && !s.DTLS {
			t.Fatalf("a write error of a key update is not reported: %s", ctx)
		}
		h.Label("end %d dtls=%v", kind, s.DTLS)
		h.Case(len(want) > 0, "%d %d %d %v", kind, from, len(want), s)
	})
}

// TestNumbers: the constants are those of the protocol and have names.
func TestNumbers(t *testing.T) {
	h.Check(t, 1, 1, func(t *rapid.T) {
		seen := map[string]byte{}
		for n, a := range rfc {
			if byte(a) != n {
				t.Fatalf("alert %d of the protocol is %d here (%v)", n, byte(a), a)
			}
			if a.Error() == "" {
				t.Fatalf("alert %d has no name", n)
			}
			if o, ok := seen[a.Error()]; ok {
				t.Fatalf("alerts %d and %d have the same name %q", o, n, a.Error())
			}
			seen[a.Error()] = n
		}
		h.Case(true, "numbers")
	})
}
