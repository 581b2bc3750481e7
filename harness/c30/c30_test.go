// Package c30: Dial and Listen give authenticated, working connections or
// errors.  Everything runs over the loopback network with the real clock.
package c30

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

const long = 20 * time.Second // far more than anything here takes

func must[T any](x T, err error) T {
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return x
}

// listen is must for the library's own listeners.
func listen(t *rapid.T) func(l net.Listener, err error) net.Listener {
	return func(l net.Listener, err error) net.Listener {
		if err != nil || l == nil {
			t.Fatalf("a listener with a valid configuration is refused: %v", err)
		}
		return l
	}
}

// snap is a copy of a configuration's exported settings.
func snap(c *mint.Config) map[string]any {
	s := map[string]any{}
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		switch x := v.Field(i); x.Kind() {
		case reflect.Slice:
			y := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
			reflect.Copy(y, x)
			s[f.Name] = y.Interface()
		case reflect.Func, reflect.Ptr:
			s[f.Name] = x.Pointer()
		case reflect.Interface:
			if !x.IsNil() && x.Elem().Kind() == reflect.Ptr {
				s[f.Name] = x.Elem().Pointer()
			}
		default:
			s[f.Name] = x.Interface()
		}
	}
	return s
}

func changed(was map[string]any, c *mint.Config) error {
	for k, x := range snap(c) {
		if o := was[k]; !reflect.DeepEqual(o, x) && !(reflect.ValueOf(o).Kind() == reflect.Slice && reflect.ValueOf(o).Len() == 0 && reflect.ValueOf(x).Len() == 0) {
			return fmt.Errorf("the caller's %s was %v and is %v", k, o, x)
		}
	}
	return nil
}

// where is how a client is told whom to reach.
type where struct {
	host   string // what the address says
	config bool   // whether the configuration says the name
}

func drawWhere(t *rapid.T, s *h.Scen) where {
	w := where{host: rapid.SampledFrom([]string{"127.0.0.1", "localhost"}).Draw(t, "host"), config: rapid.Bool().Draw(t, "name configured")}
	if !w.config {
		// The name is the address's: the certificates that were good for
		// the drawn name are good for it.
		for i, c := range s.Certs {
			var n []string
			for _, x := range c.Names {
				if x == s.Name {
					x = w.host
				}
				n = append(n, x)
			}
			s.Certs[i].Names = n
		}
		s.Name = w.host
	}
	return w
}

// dialer draws timeouts that play no role, or nearly none.
func drawDialer(t *rapid.T) (*net.Dialer, bool) {
	d := &net.Dialer{}
	set := false
	if rapid.Bool().Draw(t, "timeout") {
		d.Timeout, set = long, true
	}
	if rapid.IntRange(0, 2).Draw(t, "deadline") == 0 {
		d.Deadline, set = time.Now().Add(long), true
	}
	return d, set
}

// exchange sends data both ways and checks it.
func exchange(a, b net.Conn, x, y []byte) error {
	dead := time.Now().Add(long)
	errs := make(chan error, 2)
	one := func(name string, from, to net.Conn, d []byte) {
		go from.Write(d)
		got := make([]byte, len(d))
		to.SetReadDeadline(dead)
		n, err := io.ReadFull(to, got)
		if err != nil || !bytes.Equal(got, d) {
			err = fmt.Errorf("%s: %d of %d bytes arrived: %v", name, n, len(d), err)
		}
		errs <- err
	}
	go one("to the server", a, b, x)
	go one("to the client", b, a, y)
	e1, e2 := <-errs, <-errs
	if e1 != nil {
		return e1
	}
	return e2
}

// accepted is what Accept returned.
type accepted struct {
	c   net.Conn
	err error
}

func accept(l net.Listener) chan accepted {
	ch := make(chan accepted, 1)
	go func() {
		c, err := l.Accept()
		ch <- accepted{c, err}
	}()
	return ch
}

func wait[T any](ch chan T, what string) (x T, err error) {
	select {
	case x = <-ch:
	case <-time.After(long + 10*time.Second):
		err = fmt.Errorf("%s does not return", what)
	}
	return
}

func serverConnected(c net.Conn) error {
	m, ok := c.(*mint.Conn)
	if !ok || m == nil {
		return fmt.Errorf("Accept returned a %T", c)
	}
	if s := m.GetHsState(); s != mint.StateServerConnected {
		return fmt.Errorf("Accept returned a connection in state %v", s)
	}
	return nil
}

// TestDialListen: the library's two ends meet over loopback.
func TestDialListen(t *testing.T) {
	h.Check(t, 90, 2500, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{NoDTLS: true, Tickets: true})
		s.Blocking = true
		at := drawWhere(t, s)
		o := s.Predict()
		cc, sc := s.Configs()
		if !at.config {
			cc.ServerName = ""
		}
		cc.UseDTLS = rapid.IntRange(0, 4).Draw(t, "misleading UseDTLS") == 0
		dialer, timed := drawDialer(t)
		x, y := h.Data(t, "to server", 30000, 1, 100), h.Data(t, "to client", 30000, 1, 100)
		inner := rapid.Bool().Draw(t, "inner listener")
		h.Case(true, "dial host=%v/%v timed=%v ok=%v %v", at.host, at.config, timed, o.OK, s)
		h.Label("dial ok=%v retry=%v psk=%v timed=%v configured=%v", o.OK, o.HRR, o.PSK, timed, at.config)
		was := snap(cc)
		valid := sc.ValidForServer()
		var l net.Listener
		if inner {
			l = listen(t)(mint.NewListener(must(net.Listen("tcp", "127.0.0.1:0")), sc))
		} else {
			var err error
			l, err = mint.Listen("tcp", "127.0.0.1:0", sc)
			if err != nil || !valid {
				t.Fatalf("Listen with a valid configuration: %v", err)
			}
		}
		defer l.Close()
		_, port, _ := net.SplitHostPort(l.Addr().String())
		// A handshake that the server cannot complete ends with an error on
		// both sides, then the next client is served.
		acc := accept(l)
		type dialed struct {
			c   *mint.Conn
			err error
		}
		dch := make(chan dialed, 1)
		addr := net.JoinHostPort(at.host, port)
		go func() {
			var d dialed
			if timed {
				d.c, d.err = mint.DialWithDialer(dialer, "tcp", addr, cc)
			} else {
				d.c, d.err = mint.Dial("tcp", addr, cc)
			}
			dch <- d
		}()
		d, err := wait(dch, "Dial")
		if err != nil {
			t.Fatalf("%v although the listener is there: %s (%v)", err, o.Why, s)
		}
		defer func() {
			if d.c != nil {
				d.c.Close()
			}
		}()
		a, err := wait(acc, "Accept")
		if err != nil {
			t.Fatalf("%v although a client connected and ended (%v)", err, s)
		}
		if a.err == nil || a.c != nil && !reflect.ValueOf(a.c).IsNil() {
			defer a.c.Close()
		}
		if err := changed(was, cc); err != nil {
			t.Fatalf("%v", err)
		}
		if (d.err == nil) != o.OK || (d.c != nil) != o.OK {
			t.Fatalf("Dial(%q) = %v, %v; expected success: %v %s (%v)", addr, d.c != nil, d.err, o.OK, o.Why, s)
		}
		if (a.err == nil) != o.OK {
			t.Fatalf("Accept returned error %v; Dial %v; expected success: %v %s (%v)", a.err, d.err, o.OK, o.Why, s)
		}
		if !o.OK {
			return
		}
		if err := serverConnected(a.c); err != nil {
			t.Fatalf("%v", err)
		}
		if st := d.c.GetHsState(); st != mint.StateClientConnected {
			t.Fatalf("Dial returned a connection in state %v", st)
		}
		st := d.c.ConnectionState()
		if !o.PSK && !bytes.Equal(st.PeerCertificates[0].Raw, s.Certs[o.Cert].Ident().Chain[0]) {
			t.Fatalf("the client reports another certificate than the server's")
		}
		if st.CipherSuite.Suite != o.Suite || st.NextProto != o.ALPN || st.UsingPSK != o.PSK {
			t.Fatalf("dialed connection: %v %q psk=%v instead of %v %q psk=%v", st.CipherSuite.Suite, st.NextProto, st.UsingPSK, o.Suite, o.ALPN, o.PSK)
		}
		if d.c.RemoteAddr().String() != a.c.LocalAddr().String() || d.c.LocalAddr().String() != a.c.RemoteAddr().String() {
			t.Fatalf("addresses: %v-%v and %v-%v", d.c.LocalAddr(), d.c.RemoteAddr(), a.c.LocalAddr(), a.c.RemoteAddr())
		}
		if err := exchange(d.c, a.c, x, y); err != nil {
			t.Fatalf("%v (%v)", err, s)
		}
		if err := changed(was, cc); err != nil {
			t.Fatalf("%v", err)
		}
	})
}

// TestDeadlines: deadlines of a dialed or accepted connection apply to what
// they name; reading goes on after one, writing does not.
func TestDeadlines(t *testing.T) {
	h.Check(t, 60, 1500, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{NoDTLS: true, Tickets: true, Compatible: true, NoPSK: true})
		s.Blocking = true
		cc, sc := s.Configs()
		l := must(mint.Listen("tcp", "127.0.0.1:0", sc))
		defer l.Close()
		acc := accept(l)
		d, err := mint.Dial("tcp", l.Addr().String(), cc)
		a, e2 := wait(acc, "Accept")
		if err != nil || e2 != nil || a.err != nil {
			t.Fatalf("Dial %v, Accept %v %v (%v)", err, e2, a.err, s)
		}
		defer d.Close()
		defer a.c.Close()
		var x, y net.Conn = d, a.c
		if rapid.Bool().Draw(t, "accepted connection") {
			x, y = y, x
		}
		past := func() time.Time {
			return time.Now().Add(-time.Duration(rapid.IntRange(1, 100000).Draw(t, "ago")) * time.Millisecond)
		}
		timeout := func(what string, n int, err error) {
			ne, ok := err.(net.Error)
			if n != 0 || !ok || !ne.Timeout() {
				t.Fatalf("%s gives %d, %v", what, n, err)
			}
		}
		read := func(c net.Conn) (n int, err error) {
			type res struct {
				n   int
				err error
			}
			ch := make(chan res, 1)
			go func() { n, err := c.Read(make([]byte, 100)); ch <- res{n, err} }()
			r, e := wait(ch, "Read with a deadline")
			if e != nil {
				t.Fatalf("%v", e)
			}
			return r.n, r.err
		}
		one := func(from, to net.Conn, clear bool) {
			m := h.Data(t, "data", 3000, 1, 100)
			go from.Write(m)
			if clear {
				to.SetReadDeadline(time.Now().Add(long))
			}
			got := make([]byte, len(m))
			if n, err := io.ReadFull(to, got); err != nil || !bytes.Equal(got, m) {
				t.Fatalf("%d of %d bytes arrived: %v", n, len(m), err)
			}
		}
		var log []string
		n := rapid.IntRange(0, 6).Draw(t, "deadlines")
		for i := 0; i < n; i++ {
			op := rapid.IntRange(0, 4).Draw(t, "deadline")
			log = append(log, fmt.Sprint(op))
			switch op {
			case 0: // none for reading
				x.SetWriteDeadline(past())
				one(y, x, false)
				x.SetWriteDeadline(time.Time{})
				one(x, y, true)
			case 1: // none for writing
				x.SetReadDeadline(past())
				one(x, y, true)
				n, err := read(x)
				timeout("Read after its deadline", n, err)
				x.SetReadDeadline(time.Time{})
				one(y, x, false)
			case 2: // both
				x.SetDeadline(past())
				n, err := read(x)
				timeout("Read after the deadline", n, err)
				x.SetDeadline(time.Time{})
				one(x, y, true)
				one(y, x, false)
			case 3: // a deadline that comes
				begin, in := time.Now(), time.Duration(rapid.IntRange(1, 5).Draw(t, "in"))*time.Millisecond
				if rapid.Bool().Draw(t, "only reading") {
					x.SetReadDeadline(begin.Add(in))
				} else {
					x.SetDeadline(begin.Add(in))
				}
				n, err := read(x)
				timeout("Read", n, err)
				if time.Since(begin) < in {
					t.Fatalf("Read times out before its deadline")
				}
				x.SetDeadline(time.Time{})
				one(y, x, false)
			case 4: // a later deadline
				x.SetDeadline(past())
				x.SetDeadline(time.Now().Add(long))
				one(y, x, false)
				one(x, y, true)
				x.SetDeadline(time.Time{})
			}
		}
		// A write that timed out ends writing.
		if rapid.Bool().Draw(t, "write deadline") {
			x.SetWriteDeadline(past())
		} else {
			x.SetDeadline(past())
		}
		k, err := x.Write([]byte("late"))
		timeout("Write after its deadline", k, err)
		x.SetDeadline(time.Time{})
		if k, again := x.Write([]byte("more")); k != 0 || again == nil {
			t.Fatalf("Write after one that timed out with %v: %d, %v", err, k, again)
		}
		one(y, x, false)
		h.Label("deadlines")
		h.Case(true, "%v %v", log, s)
	})
}

// rogue is a peer that gives no working connection.
type rogue struct {
	name  string
	ends  bool // the client learns of it without a timeout
	serve func(c net.Conn)
}

// pump runs an independent endpoint on a connection until out says stop.
func pump(c net.Conn, p h.Peer, out func([]byte) bool) {
	buf := make([]byte, 4096)
	for {
		for _, b := range p.Take() {
			if !out(b) {
				return
			}
		}
		n, err := c.Read(buf)
		if err != nil {
			return
		}
		p.Feed(buf[:n])
	}
}

func write(c net.Conn) func([]byte) bool {
	return func(b []byte) bool { _, err := c.Write(b); return err == nil }
}

// flight is what an honest server answers to a client's hello.
func drawRogue(t *rapid.T, s *h.Scen, name string, seed uint64) rogue {
	kind := rapid.SampledFrom([]string{"silent", "silent", "close", "part", "garbage", "name", "untrusted", "alert", "dribble", "text", "expired"}).Draw(t, "peer")
	r := rogue{name: kind}
	rng := h.NewRng(seed ^ 0x30)
	mk := func() *ref.Server { return h.RefServer(s, rng) }
	other := func(o h.CertOpts) func(net.Conn) {
		return func(c net.Conn) {
			p := mk()
			p.Cfg.PSK = nil
			p.Cfg.Ident = h.Cert(o)
			p.Cfg.Scheme = 0
			pump(c, p, write(c))
			c.Close()
		}
	}
	key := h.CertOpts{Key: s.Certs[0].Key, Names: []string{name}, CA: "A"}
	if i := s.Predict().Cert; i >= 0 {
		key.Key = s.Certs[i].Key
	}
	switch kind {
	case "silent":
		r.serve = func(c net.Conn) {}
	case "close":
		r.ends = true
		r.serve = func(c net.Conn) { c.Close() }
	case "part":
		n := rapid.IntRange(0, 700).Draw(t, "bytes sent")
		r.ends = rapid.Bool().Draw(t, "then closes")
		r.serve = func(c net.Conn) {
			first := true
			pump(c, mk(), func(b []byte) bool {
				// The first flight is cut short.
				if first {
					if n >= len(b) {
						n = len(b) - 1
					}
					c.Write(b[:n])
				}
				first = false
				return false
			})
			if r.ends {
				c.Close()
			}
		}
	case "garbage", "text":
		b := h.Data(t, "garbage", 300, 1, 5, 6)
		if kind == "text" {
			b = []byte("HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n")
		}
		r.ends = rapid.Bool().Draw(t, "then closes")
		r.serve = func(c net.Conn) {
			c.Read(make([]byte, 1))
			c.Write(b)
			if r.ends {
				c.(*net.TCPConn).CloseWrite()
			}
		}
	case "name":
		r.ends = true
		key.Names = []string{"other.example", "x" + name}
		r.serve = other(key)
	case "untrusted":
		r.ends = true
		key.CA = "B"
		r.serve = other(key)
	case "expired":
		r.ends = true
		key.After = 1000000000
		r.serve = other(key)
	case "alert":
		d := rapid.SampledFrom([]byte{40, 47, 70, 80, 112, 116}).Draw(t, "alert")
		r.ends = true
		r.serve = func(c net.Conn) {
			c.Read(make([]byte, 1))
			c.Write([]byte{21, 3, 3, 0, 2, 2, d})
		}
	case "dribble":
		r.serve = func(c net.Conn) {
			pump(c, mk(), func(b []byte) bool {
				for i := range b {
					if _, err := c.Write(b[i : i+1]); err != nil {
						return false
					}
					time.Sleep(20 * time.Millisecond)
				}
				return true
			})
		}
	}
	return r
}

// TestDialRogue: peers that do not give a working connection.
func TestDialRogue(t *testing.T) {
	h.Check(t, 60, 1500, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{NoDTLS: true, NoPSK: true, Compatible: true})
		s.Blocking, s.Insecure = true, false
		cc, _ := s.Configs()
		at := rapid.Bool().Draw(t, "name configured")
		name := s.Name
		if !at {
			name, cc.ServerName = "localhost", ""
		}
		r := drawRogue(t, s, name, rapid.Uint64().Draw(t, "peer seed"))
		d := &net.Dialer{}
		limit := time.Duration(rapid.IntRange(15, 90).Draw(t, "limit")) * time.Millisecond
		how := rapid.SampledFrom([]string{"timeout", "deadline", "both, timeout first", "both, deadline first"}).Draw(t, "limit by")
		if r.ends {
			limit, how = long, rapid.SampledFrom([]string{"none", "timeout"}).Draw(t, "limit by")
		}
		h.Case(true, "rogue %s ends=%v limit=%v by %s configured=%v %v", r.name, r.ends, limit, how, at, s)
		h.Label("rogue %s ends=%v limit by %s", r.name, r.ends, how)
		was := snap(cc)
		l := must(net.Listen("tcp", "127.0.0.1:0"))
		defer l.Close()
		ended := make(chan bool, 1)
		go func() {
			c, err := l.Accept()
			if err != nil {
				return
			}
			r.serve(c)
			// The client's end of the transport is closed.
			c.SetReadDeadline(time.Now().Add(long))
			_, err = io.Copy(io.Discard, c)
			var ne net.Error
			ended <- !(errors.As(err, &ne) && ne.Timeout())
			c.Close()
		}()
		_, port, _ := net.SplitHostPort(l.Addr().String())
		begin := time.Now()
		switch how {
		case "timeout":
			d.Timeout = limit
		case "deadline":
			d.Deadline = begin.Add(limit)
		case "both, timeout first":
			d.Timeout, d.Deadline = limit, begin.Add(limit+long)
		case "both, deadline first":
			d.Timeout, d.Deadline = limit+long, begin.Add(limit)
		}
		type dialed struct {
			c   *mint.Conn
			err error
		}
		dch := make(chan dialed, 1)
		go func() {
			c, err := mint.DialWithDialer(d, "tcp", "localhost:"+port, cc)
			dch <- dialed{c, err}
		}()
		x, err := wait(dch, "Dial")
		if err != nil {
			t.Fatalf("%v: peer %s, limit %v by %s", err, r.name, limit, how)
		}
		took := time.Since(begin)
		if x.err == nil || x.c != nil {
			t.Fatalf("Dial = %v, %v although the peer is rogue: %s (%v)", x.c != nil, x.err, r.name, s)
		}
		if x.err == mint.AlertNoAlert || x.err == mint.AlertWouldBlock || x.err == mint.AlertStatelessRetry {
			t.Fatalf("Dial returned the error %v: peer %s", x.err, r.name)
		}
		var ne net.Error
		timedOut := errors.As(x.err, &ne) && ne.Timeout()
		// Garbage may be found out before the limit.
		if !r.ends && r.name != "garbage" && r.name != "text" {
			if !timedOut {
				t.Fatalf("Dial returned %v instead of a timeout: peer %s, limit %v by %s", x.err, r.name, limit, how)
			}
			if took < limit-time.Millisecond {
				t.Fatalf("Dial timed out after %v, limit %v by %s", took, limit, how)
			}
		}
		if r.ends && timedOut {
			t.Fatalf("Dial timed out (%v) although the peer ended the handshake: %s", x.err, r.name)
		}
		if err := changed(was, cc); err != nil {
			t.Fatalf("%v", err)
		}
		if ok, err := wait(ended, "the peer's read"); err != nil || !ok {
			t.Fatalf("the transport was not closed after Dial failed with %v: peer %s", x.err, r.name)
		}
	})
}

// TestTimeoutOver: a connection that was dialed with a limit works after it.
func TestTimeoutOver(t *testing.T) {
	h.Check(t, 8, 150, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{NoDTLS: true, Compatible: true})
		s.Blocking = true
		cc, sc := s.Configs()
		limit := time.Duration(rapid.IntRange(150, 300).Draw(t, "limit")) * time.Millisecond
		byDeadline := rapid.Bool().Draw(t, "deadline")
		l := listen(t)(mint.NewListener(must(net.Listen("tcp", "127.0.0.1:0")), sc))
		defer l.Close()
		acc := accept(l)
		begin := time.Now()
		d := &net.Dialer{Timeout: limit}
		if byDeadline {
			d = &net.Dialer{Deadline: begin.Add(limit)}
		}
		c, err := mint.DialWithDialer(d, "tcp", l.Addr().String(), cc)
		if err != nil {
			// A slow machine.
			h.Case(false, "")
			return
		}
		defer c.Close()
		a, err := wait(acc, "Accept")
		if err != nil || a.err != nil {
			t.Fatalf("Accept: %v %v although Dial succeeded (%v)", err, a.err, s)
		}
		defer a.c.Close()
		h.Case(true, "outlives limit=%v deadline=%v %v", limit, byDeadline, s)
		time.Sleep(time.Until(begin.Add(limit + 50*time.Millisecond)))
		if err := exchange(c, a.c, []byte("ping"), []byte("pong")); err != nil {
			t.Fatalf("after the limit %v: %v (%v)", limit, err, s)
		}
	})
}

// TestAcceptRogue: clients that do not complete the handshake, then one that
// does, at one listener.
func TestAcceptRogue(t *testing.T) {
	h.Check(t, 60, 1500, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{NoDTLS: true, Compatible: true})
		s.Blocking = true
		cc, sc := s.Configs()
		var l net.Listener
		if rapid.Bool().Draw(t, "inner listener") {
			l = listen(t)(mint.NewListener(must(net.Listen("tcp", "127.0.0.1:0")), sc))
		} else {
			l = listen(t)(mint.Listen("tcp", "127.0.0.1:0", sc))
		}
		defer l.Close()
		was := snap(sc)
		n := rapid.IntRange(1, 4).Draw(t, "clients")
		for i := 0; i < n; i++ {
			kind := rapid.SampledFrom([]string{"close", "garbage", "stop", "part", "finished", "text", "honest"}).Draw(t, "client")
			rng := h.NewRng(rapid.Uint64().Draw(t, "client seed") ^ 0x31)
			g := h.Data(t, "garbage", 300, 1, 5, 6)
			k := rapid.IntRange(0, 600).Draw(t, "bytes sent")
			h.Case(true, "client %s %d %v", kind, k, s)
			h.Label("client %s", kind)
			acc := accept(l)
			c := must(net.Dial("tcp", l.Addr().String()))
			p := h.RefClient(s, rng)
			ended := make(chan bool, 1)
			var hold sync.Mutex
			hold.Lock()
			go func() {
				switch kind {
				case "garbage":
					c.Write(g)
				case "text":
					c.Write([]byte("GET / HTTP/1.1\r\n\r\n"))
				case "part":
					p.Start()
					b := bytes.Join(p.Take(), nil)
					if k >= len(b) {
						k = len(b) - 1
					}
					c.Write(b[:k])
				case "stop":
					p.Cfg.Stop = true
					p.Start()
					for _, b := range p.Take() {
						c.Write(b)
					}
					buf := make([]byte, 4096)
					for p.SHTS == nil {
						n, err := c.Read(buf)
						if err != nil {
							break
						}
						p.Feed(buf[:n])
						for _, b := range p.Take() {
							c.Write(b)
						}
					}
				case "finished":
					p.Cfg.FinHook = func(b []byte) []byte { b = append([]byte{}, b...); b[len(b)-1] ^= 1; return b }
					fallthrough
				case "honest":
					p.Start()
					buf := make([]byte, 4096)
					for _, b := range p.Take() {
						c.Write(b)
					}
					for !p.Done {
						n, err := c.Read(buf)
						if err != nil {
							break
						}
						p.Feed(buf[:n])
						for _, b := range p.Take() {
							c.Write(b)
						}
					}
				}
				if kind == "honest" {
					hold.Lock()
				} else {
					c.(*net.TCPConn).CloseWrite()
				}
				c.SetReadDeadline(time.Now().Add(long))
				_, err := io.Copy(io.Discard, c)
				var ne net.Error
				ended <- !(errors.As(err, &ne) && ne.Timeout())
				c.Close()
			}()
			a, err := wait(acc, "Accept")
			if err != nil {
				t.Fatalf("%v although the client (%s) ended", err, kind)
			}
			if kind == "honest" {
				if a.err != nil {
					t.Fatalf("Accept failed with %v for an honest client (%v)", a.err, s)
				}
				if err := serverConnected(a.c); err != nil {
					t.Fatalf("%v", err)
				}
				a.c.Close()
				hold.Unlock()
			} else {
				if a.err == nil {
					t.Fatalf("Accept returned no error for a client that is %s (%v)", kind, s)
				}
				if a.err == mint.AlertNoAlert || a.err == mint.AlertWouldBlock || a.err == mint.AlertStatelessRetry {
					t.Fatalf("Accept returned the error %v", a.err)
				}
			}
			// An application that got an error has nothing to close.
			if ok, err := wait(ended, "the client's read"); err != nil || !ok {
				t.Fatalf("the transport was not closed after Accept returned %v: client %s", a.err, kind)
			}
		}
		// The listener still serves.
		acc := accept(l)
		c, err := mint.Dial("tcp", l.Addr().String(), cc)
		if err != nil {
			t.Fatalf("Dial after %d other clients: %v (%v)", n, err, s)
		}
		defer c.Close()
		a, err := wait(acc, "Accept")
		if err != nil || a.err != nil {
			t.Fatalf("Accept after %d other clients: %v %v (%v)", n, err, a.err, s)
		}
		defer a.c.Close()
		if err := exchange(c, a.c, []byte("ping"), []byte("pong")); err != nil {
			t.Fatalf("%v (%v)", err, s)
		}
		now := snap(sc)
		for k, v := range was {
			if reflect.ValueOf(v).Kind() == reflect.Slice && reflect.ValueOf(v).Len() == 0 {
				continue // default filling
			}
			switch k {
			case "TicketLen", "PSKModes":
				continue
			}
			if !reflect.DeepEqual(v, now[k]) {
				t.Fatalf("the listener's %s was %v and is %v", k, v, now[k])
			}
		}
	})
}

type failing struct {
	net.Listener
	errs []error
}

func (f *failing) Accept() (net.Conn, error) {
	if len(f.errs) > 0 {
		e := f.errs[0]
		f.errs = f.errs[1:]
		return nil, e
	}
	return f.Listener.Accept()
}

// TestRefused: configurations and addresses that cannot work.
func TestRefused(t *testing.T) {
	h.Check(t, 60, 1500, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"dial nonblocking", "listen nonblocking", "listen nil", "listen nothing", "closed port", "bad address", "listener error", "listener closed", "past deadline", "listen taken"}).Draw(t, "kind")
		s := h.DrawScen(t, h.ScenOpts{NoDTLS: true, Compatible: true})
		s.Blocking = true
		cc, sc := s.Configs()
		h.Case(true, "refused %s %v", kind, s)
		h.Label("refused %s", kind)
		free := func() string {
			l := must(net.Listen("tcp", "127.0.0.1:0"))
			defer l.Close()
			return l.Addr().String()
		}
		bad := func(c *mint.Conn, err error) {
			if c != nil || err == nil {
				t.Fatalf("Dial = %v, %v (%s)", c != nil, err, kind)
			}
		}
		switch kind {
		case "dial nonblocking", "past deadline":
			cc.NonBlocking = kind == "dial nonblocking"
			l := must(net.Listen("tcp", "127.0.0.1:0"))
			defer l.Close()
			if kind == "past deadline" {
				d := &net.Dialer{Deadline: time.Now().Add(-time.Duration(rapid.IntRange(1, 10000).Draw(t, "ago")) * time.Millisecond), Timeout: time.Duration(rapid.SampledFrom([]int{0, 1000}).Draw(t, "timeout")) * time.Millisecond}
				c, err := mint.DialWithDialer(d, "tcp", l.Addr().String(), cc)
				bad(c, err)
				var ne net.Error
				if !errors.As(err, &ne) || !ne.Timeout() {
					t.Fatalf("Dial with a deadline that is over: %v", err)
				}
				break
			}
			was := snap(cc)
			if rapid.Bool().Draw(t, "dialer") {
				bad(mint.DialWithDialer(&net.Dialer{}, "tcp", l.Addr().String(), cc))
			} else {
				bad(mint.Dial("tcp", l.Addr().String(), cc))
			}
			l.(*net.TCPListener).SetDeadline(time.Now().Add(2 * time.Millisecond))
			if c, err := l.Accept(); err == nil {
				c.Close()
				t.Fatalf("Dial with an unusable configuration connected")
			}
			if err := changed(was, cc); err != nil {
				t.Fatalf("%v", err)
			}
		case "listen nonblocking", "listen nil", "listen nothing":
			addr := free()
			cfg := sc
			switch kind {
			case "listen nonblocking":
				cfg.NonBlocking = true
			case "listen nil":
				cfg = nil
			case "listen nothing":
				cfg = &mint.Config{ServerName: "a.example", NextProtos: []string{"x"}}
				switch rapid.IntRange(0, 3).Draw(t, "missing") {
				case 0:
					cfg.Certificates = []*mint.Certificate{{}}
				case 1:
					cfg.Certificates = []*mint.Certificate{{Chain: h.Mint(s.Certs[0].Ident()).Chain}}
				case 2:
					cfg.PSKs = &mint.PSKMapCache{}
				}
			}
			l, err := mint.Listen("tcp", addr, cfg)
			if err == nil || l != nil {
				t.Fatalf("Listen = %v, %v (%s)", l != nil, err, kind)
			}
			// Nothing listens.
			c, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				c.Close()
				t.Fatalf("the address is listened on although Listen was refused (%s)", kind)
			}
			if kind == "listen nonblocking" {
				in := must(net.Listen("tcp", "127.0.0.1:0"))
				defer in.Close()
				if l, err := mint.NewListener(in, cfg); err == nil || l != nil {
					t.Fatalf("NewListener = %v, %v (%s)", l != nil, err, kind)
				}
			}
		case "closed port":
			d, _ := drawDialer(t)
			bad(mint.DialWithDialer(d, "tcp", free(), cc))
		case "bad address":
			bad(mint.Dial("tcp", rapid.SampledFrom([]string{"127.0.0.1", "127.0.0.1:99999", "", "::1", "nonsense:x"}).Draw(t, "address"), cc))
			bad(mint.Dial(rapid.SampledFrom([]string{"", "tcp9", "nonsense"}).Draw(t, "network"), "127.0.0.1:1", cc))
		case "listen taken":
			l := must(net.Listen("tcp", "127.0.0.1:0"))
			defer l.Close()
			if x, err := mint.Listen("tcp", l.Addr().String(), sc); err == nil || x != nil {
				t.Fatalf("Listen on a taken address = %v, %v", x != nil, err)
			}
			if x, err := mint.Listen("nonsense", "127.0.0.1:0", sc); err == nil || x != nil {
				t.Fatalf("Listen on an unknown network = %v, %v", x != nil, err)
			}
		case "listener error":
			e1, e2 := errors.New("first"), errors.New("second")
			f := &failing{must(net.Listen("tcp", "127.0.0.1:0")), []error{e1, e2}}
			l := listen(t)(mint.NewListener(f, sc))
			defer l.Close()
			for _, e := range []error{e1, e2} {
				c, err := l.Accept()
				if err != e || c != nil && !reflect.ValueOf(c).IsNil() {
					t.Fatalf("Accept = %v, %v when the inner listener fails with %v", c, err, e)
				}
			}
			acc := accept(l)
			c, err := mint.Dial("tcp", l.Addr().String(), cc)
			if err != nil {
				t.Fatalf("Dial after failures of the inner listener: %v", err)
			}
			c.Close()
			if a, err := wait(acc, "Accept"); err != nil || a.err != nil {
				t.Fatalf("Accept: %v %v", err, a.err)
			} else {
				a.c.Close()
			}
		case "listener closed":
			l := listen(t)(mint.Listen("tcp", "127.0.0.1:0", sc))
			acc := accept(l)
			if l.Close() != nil {
				t.Fatalf("Close failed")
			}
			a, err := wait(acc, "Accept")
			if err != nil || a.err == nil || !strings.Contains(a.err.Error(), "closed") {
				t.Fatalf("Accept at a closed listener: %v %v", err, a.err)
			}
			bad(mint.Dial("tcp", l.Addr().String(), cc))
		}
	})
}

// udpServer runs a library server behind a UDP socket.
func udpServer(u net.PacketConn, sc *mint.Config, silent bool, stop chan bool, res chan *h.Node) {
	n := h.NewNode(sc, false)
	n.NoClose = true
	buf := make([]byte, 65536)
	var to net.Addr
	for {
		select {
		case <-stop:
			res <- n
			return
		default:
		}
		u.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
		k, a, err := u.ReadFrom(buf)
		if errors.Is(err, net.ErrClosed) {
			return // the case has failed
		}
		if err == nil && !silent {
			to = a
			n.T.Push(buf[:k])
		}
		if to == nil {
			continue
		}
		n.StepAll()
		if n.Done {
			n.ReadAvail(1000)
			if len(n.Got) > 0 {
				n.C.Write(n.Got) // echo
				n.Got = nil
			}
		}
		for _, b := range n.T.TakeOut() {
			u.WriteTo(b, to)
		}
	}
}

// TestDialUDP: DTLS.
func TestDialUDP(t *testing.T) {
	h.Check(t, 30, 800, func(t *rapid.T) {
		silent := rapid.IntRange(0, 3).Draw(t, "silent") == 0
		s := h.DrawScen(t, h.ScenOpts{DTLSOnly: true, Compatible: silent})
		o := s.Predict()
		cc, sc := s.Configs()
		cc.NonBlocking = false
		cc.UseDTLS = rapid.Bool().Draw(t, "UseDTLS set")
		network := rapid.SampledFrom([]string{"udp", "udp4", "udp6"}).Draw(t, "network")
		host := "127.0.0.1"
		if network == "udp6" || network == "udp" && rapid.Bool().Draw(t, "six") {
			host = "::1"
		}
		u, err := net.ListenPacket("udp", net.JoinHostPort(host, "0"))
		if err != nil {
			if host == "::1" {
				h.Case(false, "")
				return
			}
			panic("HARNESS-ERROR " + err.Error())
		}
		defer u.Close()
		h.Case(true, "%s host=%s silent=%v ok=%v %v", network, host, silent, o.OK, s)
		h.Label("%s silent=%v ok=%v", network, silent, o.OK)
		stop, res := make(chan bool), make(chan *h.Node, 1)
		go udpServer(u, sc, silent, stop, res)
		d := &net.Dialer{Timeout: long}
		fails := silent || !o.OK
		if fails {
			// A server that gives up says nothing.
			d.Timeout = time.Duration(rapid.IntRange(20, 200).Draw(t, "limit")) * time.Millisecond
		}
		was := snap(cc)
		begin := time.Now()
		type dialed struct {
			c   *mint.Conn
			err error
		}
		dch := make(chan dialed, 1)
		go func() {
			c, err := mint.DialWithDialer(d, network, u.LocalAddr().String(), cc)
			dch <- dialed{c, err}
		}()
		x, err := wait(dch, "Dial")
		if err != nil {
			t.Fatalf("%v", err)
		}
		took := time.Since(begin)
		if err := changed(was, cc); err != nil {
			t.Fatalf("%v", err)
		}
		if (x.err == nil) == fails || (x.c != nil) == fails {
			t.Fatalf("Dial(%s) = %v, %v after %v; silent=%v, expected success: %v %s (%v)", network, x.c != nil, x.err, took, silent, o.OK, o.Why, s)
		}
		if silent && took < d.Timeout-time.Millisecond {
			t.Fatalf("Dial returned %v after %v, timeout %v", x.err, took, d.Timeout)
		}
		if !fails {
			if st := x.c.GetHsState(); st != mint.StateClientConnected {
				t.Fatalf("Dial returned a connection in state %v", st)
			}
			st := x.c.ConnectionState()
			if st.CipherSuite.Suite != o.Suite || st.NextProto != o.ALPN || st.UsingPSK != o.PSK {
				t.Fatalf("dialed connection: %v %q psk=%v instead of %v %q psk=%v", st.CipherSuite.Suite, st.NextProto, st.UsingPSK, o.Suite, o.ALPN, o.PSK)
			}
			// The server may not have the last flight yet, so it may miss
			// the first message.
			got := make([]byte, 100)
			n := 0
			for i := 0; i < 100 && n == 0; i++ {
				if k, err := x.c.Write([]byte("over datagrams")); err != nil || k != 14 {
					t.Fatalf("Write = %d, %v", k, err)
				}
				x.c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
				var err error
				n, err = x.c.Read(got)
				var ne net.Error
				if err != nil && !(errors.As(err, &ne) && ne.Timeout()) {
					t.Fatalf("Read: %v (%v)", err, s)
				}
			}
			if !bytes.HasPrefix(got[:n], []byte("over datagrams")) {
				t.Fatalf("the echo is %q (%v)", got[:n], s)
			}
			x.c.Close()
		}
		stop <- true
		n := <-res
		if !fails && !n.Done {
			t.Fatalf("the client is connected but the server is %v", n)
		}
	})
}

// TestNilConfig: no configuration means the defaults, which trust nobody here.
func TestNilConfig(t *testing.T) {
	h.Check(t, 5, 100, func(t *rapid.T) {
		s := h.DrawScen(t, h.ScenOpts{NoDTLS: true, NoPSK: true, NoCookie: true, Compatible: true})
		s.Blocking = true
		s.Certs = append(s.Certs, h.CertSpec{Key: "p256-0", Names: []string{"localhost"}, CA: "A"})
		_, sc := s.Configs()
		sc.CipherSuites, sc.Groups, sc.SignatureSchemes = nil, nil, nil
		l := listen(t)(mint.Listen("tcp", "127.0.0.1:0", sc))
		defer l.Close()
		acc := accept(l)
		_, port, _ := net.SplitHostPort(l.Addr().String())
		h.Case(true, "nil %v", s)
		c, err := mint.Dial("tcp", "localhost:"+port, nil)
		if err == nil || c != nil {
			t.Fatalf("Dial without a configuration = %v, %v: the certificate's issuer is not trusted", c != nil, err)
		}
		a, err := wait(acc, "Accept")
		if err != nil || a.err == nil {
			t.Fatalf("Accept: %v %v", err, a.err)
		}
	})
}
