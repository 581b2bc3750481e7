// Package c24: connections that share a configuration do not affect each
// other, and clones behave like the original.
package c24

import (
	"crypto/sha256"
	"crypto/x509"
	"fmt"
	"io"
	"reflect"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// snap is a copy of a configuration's exported fields.
type snap map[string]any

func take(c *mint.Config) snap {
	s := snap{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		x := v.Field(i)
		switch x.Kind() {
		case reflect.Slice:
			y := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
			reflect.Copy(y, x)
			s[f.Name] = y.Interface()
		case reflect.Func:
			s[f.Name] = x.Pointer()
		case reflect.Ptr:
			s[f.Name] = x.Pointer()
		default:
			s[f.Name] = x.Interface()
		}
	}
	return s
}

func zero(x any) bool {
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return true
	}
	if v.Kind() == reflect.Slice {
		return v.Len() == 0
	}
	return v.IsZero()
}

func equal(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() && va.Kind() == reflect.Ptr && vb.Kind() == reflect.Ptr {
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

// defaults are the values filled in before anything ran.
var defaults = func() snap {
	var c mint.Config
	c.Init(true)
	return take(&c)
}()

var filled = map[string]bool{"CipherSuites": true, "Groups": true, "SignatureSchemes": true, "TicketLen": true, "PSKModes": true}

// unchanged compares a configuration with what it was, default filling apart.
func unchanged(was snap, c *mint.Config) error {
	for k, x := range take(c) {
		o := was[k]
		switch {
		case zero(o) && zero(x):
		case zero(o) && filled[k]:
			if !equal(x, defaults[k]) {
				return fmt.Errorf("%s was unset and is %v, not the default %v", k, x, defaults[k])
			}
		case zero(o) && k == "PSKs" || zero(o) && k == "CookieProtector":
		case !equal(x, o):
			return fmt.Errorf("%s was %v and is %v", k, o, x)
		}
	}
	var d mint.Config
	d.Init(false)
	for k, x := range take(&d) {
		if k != "PSKs" && !equal(x, defaults[k]) {
			return fmt.Errorf("the default of %s became %v instead of %v", k, x, defaults[k])
		}
	}
	return nil
}

type stub struct{ n int }

func (*stub) Send(mint.HandshakeType, *mint.ExtensionList) error    { return nil }
func (*stub) Receive(mint.HandshakeType, *mint.ExtensionList) error { return nil }
func (*stub) NewToken(b []byte) ([]byte, error)                     { return b, nil }
func (*stub) DecodeToken(b []byte) ([]byte, error)                  { return b, nil }
func (*stub) Generate(*mint.Conn) ([]byte, error)                   { return nil, nil }
func (*stub) Validate(*mint.Conn, []byte) bool                      { return true }

type stubLayer struct{}

func (stubLayer) NewLayer(io.ReadWriter, mint.Direction) mint.RecordLayer { return nil }

// fillField sets a field to a value that is not zero.
func fillField(t *rapid.T, f reflect.Value, name string) {
	n := rapid.IntRange(1, 5).Draw(t, name)
	switch x := f.Addr().Interface().(type) {
	case *string:
		*x = fmt.Sprintf("name%d", n)
	case *bool:
		*x = true
	case *uint32:
		*x = uint32(n)
	case *int:
		*x = n
	case *mint.CookieHandler:
		*x = &stub{n}
	case *mint.CookieProtector:
		*x = &stub{n}
	case *mint.AppExtensionHandler:
		*x = &stub{n}
	case *func() time.Time:
		*x = func() time.Time { return time.Unix(int64(n), 0) }
	case *func([][]byte, [][]*x509.Certificate) error:
		*x = func([][]byte, [][]*x509.Certificate) error { return nil }
	case **x509.CertPool:
		*x = h.Roots("A")
	case *[]*mint.Certificate:
		*x = make([]*mint.Certificate, n)
		(*x)[0] = &mint.Certificate{}
	case *[]mint.CipherSuite:
		*x = []mint.CipherSuite{mint.CipherSuite(n), 7}
	case *[]mint.NamedGroup:
		*x = []mint.NamedGroup{mint.NamedGroup(n), 7}
	case *[]mint.SignatureScheme:
		*x = []mint.SignatureScheme{mint.SignatureScheme(n)}
	case *[]string:
		*x = []string{fmt.Sprint(n), "b"}
	case *mint.PreSharedKeyCache:
		*x = &mint.PSKMapCache{"a": {}}
	case *[]mint.PSKKeyExchangeMode:
		*x = []mint.PSKKeyExchangeMode{mint.PSKKeyExchangeMode(n)}
	case *mint.RecordLayerFactory:
		*x = stubLayer{}
	default:
		// A setting this check does not know: leave it.
		h.Label("unknown setting %s", name)
	}
}

// TestCloneFields: every setting of a clone is that of the original.
func TestCloneFields(t *testing.T) {
	h.Check(t, 2000, 30000, func(rt *rapid.T) {
		c := &mint.Config{}
		v := reflect.ValueOf(c).Elem()
		n := 0
		all := rapid.IntRange(0, 3).Draw(rt, "all") == 3
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && (all || rapid.Bool().Draw(rt, "set "+f.Name)) {
				fillField(rt, v.Field(i), f.Name)
				n++
			}
		}
		if rapid.Bool().Draw(rt, "initialized") {
			c.Init(rapid.Bool().Draw(rt, "client"))
		}
		was := take(c)
		d := c.Clone()
		if rapid.Bool().Draw(rt, "again") {
			d = d.Clone()
		}
		for k, x := range take(d) {
			if !equal(x, was[k]) && !(zero(x) && zero(was[k])) {
				rt.Fatalf("%s of the clone is %v, of the original %v", k, x, was[k])
			}
		}
		for k, x := range take(c) {
			if !equal(x, was[k]) {
				rt.Fatalf("cloning changed %s", k)
			}
		}
		// The clone is another object: filling in its defaults does not change
		// the original.
		d.Init(false)
		d.ServerName, d.TicketLifetime, d.NonBlocking = "changed", 99, !d.NonBlocking
		d.CipherSuites = append([]mint.CipherSuite{1}, d.CipherSuites...)
		for k, x := range take(c) {
			if !equal(x, was[k]) {
				rt.Fatalf("changing the clone changed %s of the original", k)
			}
		}
		h.Case(n > 2, "%d settings %v", n, all)
	})
}

// outcome is what one connection came to.
func outcome(w *h.Wire) string {
	o := ""
	for _, n := range []*h.Node{w.A, w.B} {
		s := n.C.ConnectionState()
		x := sha256.New()
		for _, p := range s.PeerCertificates {
			x.Write(p.Raw)
		}
		a := n.Alert
		if !n.Failed {
			a = mint.AlertNoAlert
		}
		o += fmt.Sprintf("{done=%v failed=%v alert=%v retries=%d suite=%v proto=%q psk=%v early=%v peer=%x read=%x %v} ", n.Done, n.Failed, a, n.Retries,
			s.CipherSuite.Suite, s.NextProto, s.UsingPSK, s.UsingEarlyData, x.Sum(nil)[:5], sha256.Sum256(n.Got), n.ReadErr)
	}
	return o
}

type link struct {
	c, s  int // whose configurations
	early bool
	data  int
	fail  bool
	pause int
	clone bool
}

// drawWorld draws scenarios that can be mixed.
func drawWorld(t *rapid.T, tickets bool) ([]*h.Scen, []link) {
	o := h.ScenOpts{NoDTLS: true, Tickets: tickets, Compatible: rapid.IntRange(0, 2).Draw(t, "compatible") > 0}
	if rapid.IntRange(0, 3).Draw(t, "dtls") == 3 {
		o.NoDTLS, o.DTLSOnly, o.NoEarly = false, true, true
	}
	var ss []*h.Scen
	for i := rapid.IntRange(1, 3).Draw(t, "scenarios"); i > 0; i-- {
		s := h.DrawScen(t, o)
		if !tickets {
			s.Tickets = false
		}
		ss = append(ss, s)
	}
	var ls []link
	for i := rapid.IntRange(2, 6).Draw(t, "connections"); i > 0; i-- {
		l := link{c: rapid.IntRange(0, len(ss)-1).Draw(t, "client of"), early: rapid.Bool().Draw(t, "early"), data: rapid.IntRange(0, 3000).Draw(t, "data"),
			fail: rapid.IntRange(0, 5).Draw(t, "corrupt") == 5, pause: rapid.SampledFrom([]int{0, 0, 1, 2, 100}).Draw(t, "pause"), clone: rapid.IntRange(0, 3).Draw(t, "clone") == 3}
		if l.s = l.c; rapid.IntRange(0, 3).Draw(t, "mixed") == 3 {
			l.s = rapid.IntRange(0, len(ss)-1).Draw(t, "server of")
		}
		ls = append(ls, l)
	}
	return ss, ls
}

// start makes the endpoints of a connection.
func (l *link) start(cc, sc *mint.Config) *h.Wire {
	if l.clone {
		cc, sc = cc.Clone(), sc.Clone()
	}
	w := h.NewWire(cc, sc)
	if l.fail {
		n := 0
		w.Filter = func(d int, b []byte) [][]byte {
			if d == 1 {
				if n++; n == 2 {
					b = append([]byte{}, b...)
					b[len(b)-1] ^= 1
				}
			}
			return [][]byte{b}
		}
	}
	w.A.Step()
	if l.early && w.A.C.Writable() {
		w.A.C.Write([]byte("early data"))
	}
	return w
}

// finish exchanges data.
func (l *link) finish(w *h.Wire) error {
	w.Run()
	if !w.Both() {
		return nil
	}
	if err := h.Agree(w); err != nil {
		return err
	}
	if l.fail {
		return nil
	}
	w.B.ReadAvail(100)
	m := make([]byte, l.data)
	for i := range m {
		m[i] = byte(i * 7)
	}
	return h.Echo(w, append([]byte{1}, m...), append([]byte{2}, m...))
}

type pair struct{ c, s *mint.Config }

func build(ss []*h.Scen) (p []pair) {
	for _, s := range ss {
		c, d := s.Configs()
		p = append(p, pair{c, d})
	}
	return
}

// sequence runs connections one after another; shared says through the same
// configurations, otherwise each has its own that share but the caches.
func sequence(ss []*h.Scen, ls []link, shared bool) ([]string, error) {
	first := build(ss)
	var was [][2]snap
	for _, p := range first {
		was = append(was, [2]snap{take(p.c), take(p.s)})
	}
	var out []string
	for i, l := range ls {
		cc, sc := first[l.c].c, first[l.s].s
		if !shared {
			again := build(ss)
			x, y := again[l.c].c, again[l.s].s
			x.PSKs, y.PSKs = cc.PSKs, sc.PSKs
			cc, sc = x, y
		}
		time.Sleep(time.Duration(l.pause) * time.Second)
		w := l.start(cc, sc)
		if err := l.finish(w); err != nil {
			return out, fmt.Errorf("connection %d: %w", i, err)
		}
		out = append(out, outcome(w))
	}
	for i, p := range first {
		if err := unchanged(was[i][0], p.c); err != nil {
			return out, fmt.Errorf("client configuration %d: %w", i, err)
		}
		if err := unchanged(was[i][1], p.s); err != nil {
			return out, fmt.Errorf("server configuration %d: %w", i, err)
		}
	}
	return out, nil
}

// TestSequence: a sequence of connections through shared configurations.
func TestSequence(t *testing.T) {
	h.Check(t, 600, 12000, func(rt *rapid.T) {
		ss, ls := drawWorld(rt, true)
		var a, b []string
		var e1, e2 error
		h.Bubble(t, func() {
			a, e1 = sequence(ss, ls, true)
			b, e2 = sequence(ss, ls, false)
		})
		if e1 != nil || e2 != nil {
			rt.Fatalf("shared: %v; separate: %v\n%v\n%+v", e1, e2, ss, ls)
		}
		done := 0
		for i := range a {
			if a[i] != b[i] {
				rt.Fatalf("connection %d\nshared:   %s\nseparate: %s\n%v\n%+v", i, a[i], b[i], ss, ls)
			}
			if len(a[i]) > 10 && a[i][:10] == "{done=true" {
				done++
			}
		}
		h.Label("sequence dtls=%v done=%v scenarios=%d", ss[0].DTLS, done > 1, len(ss))
		h.Case(done > 0, "%v %+v", ss, ls)
	})
}

// TestInterleaved: connections that are under way at the same time.
func TestInterleaved(t *testing.T) {
	h.Check(t, 500, 10000, func(rt *rapid.T) {
		ss, ls := drawWorld(rt, false)
		seed := rapid.Uint64().Draw(rt, "schedule seed")
		var msg string
		done := 0
		h.Bubble(t, func() {
			shared := build(ss)
			var ws []*h.Wire
			for _, l := range ls {
				ws = append(ws, l.start(shared[l.c].c, shared[l.s].s))
			}
			r := h.NewRng(seed ^ 0xfeed)
			for i := 0; i < 150*len(ls); i++ {
				w := ws[r.IntN(len(ws))]
				switch r.IntN(4) {
				case 0:
					w.A.Step()
				case 1:
					w.B.Step()
				case 2:
					w.Deliver(0, 1+r.IntN(400))
				case 3:
					w.Deliver(1, 1+r.IntN(400))
				}
			}
			for i, w := range ws {
				if err := ls[i].finish(w); err != nil {
					msg = fmt.Sprintf("connection %d: %v", i, err)
					return
				}
			}
			for i, l := range ls {
				own := build(ss)
				w := l.start(own[l.c].c, own[l.s].s)
				if err := l.finish(w); err != nil {
					msg = fmt.Sprintf("separate connection %d: %v", i, err)
					return
				}
				a, b := outcome(ws[i]), outcome(w)
				if a != b {
					msg = fmt.Sprintf("connection %d\nshared:   %s\nseparate: %s", i, a, b)
					return
				}
				if w.Both() {
					done++
				}
			}
		})
		if msg != "" {
			rt.Fatalf("%s\n%v\n%+v", msg, ss, ls)
		}
		h.Label("interleaved dtls=%v done=%v", ss[0].DTLS, done > 1)
		h.Case(done > 0, "%v %+v", ss, ls)
	})
}

// TestBothRoles: one configuration serves both ends.
func TestBothRoles(t *testing.T) {
	h.Check(t, 250, 5000, func(rt *rapid.T) {
		s := h.DrawScen(rt, h.ScenOpts{Compatible: true, NoCookie: true, NoPSK: true, Tickets: true})
		n := rapid.IntRange(1, 3).Draw(rt, "connections")
		data := rapid.IntRange(0, 2000).Draw(rt, "data")
		var msg string
		var out [2][]string
		h.Bubble(t, func() {
			for k := 0; k < 2; k++ {
				_, c := s.Configs()
				c.ServerName, c.RootCAs, c.InsecureSkipVerify = s.Name, h.Roots("A"), s.Insecure
				was := take(c)
				for i := 0; i < n; i++ {
					x, y := c, c
					if k == 1 {
						x, y = c.Clone(), c.Clone()
					}
					l := &link{data: data}
					w := l.start(x, y)
					if err := l.finish(w); err != nil {
						msg = fmt.Sprintf("connection %d (%d): %v", i, k, err)
						return
					}
					out[k] = append(out[k], outcome(w))
				}
				if err := unchanged(was, c); err != nil {
					msg = err.Error()
				}
			}
		})
		for i := 0; msg == "" && i < n; i++ {
			if out[0][i] != out[1][i] {
				msg = fmt.Sprintf("connection %d\nshared: %s\nclones: %s", i, out[0][i], out[1][i])
			}
		}
		if msg != "" {
			rt.Fatalf("%s\n%v", msg, s)
		}
		h.Case(true, "%v %d", s, n)
	})
}
