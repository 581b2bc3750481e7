// Package c20: the library against the standard library's TLS 1.3.
package c20

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/bifurcation/mint"
	"pgregory.net/rapid"

	"verif/h"
	"verif/ref"
)

func TestMain(m *testing.M) { h.Main(m) }

var curves = map[mint.NamedGroup]tls.CurveID{mint.X25519: tls.X25519, mint.P256: tls.CurveP256, mint.P384: tls.CurveP384, mint.P521: tls.CurveP521}

type xfer struct {
	toMint bool
	size   int
	update int // 0 none, 1 mint's key update, 2 one that requests another
}

type plan struct {
	client   bool // the library is the client
	suites   []mint.CipherSuite
	groups   []mint.NamedGroup
	theirs   []tls.CurveID
	schemes  []mint.SignatureScheme
	key      string
	name     string
	inter    bool
	alpn     []string
	theirAL  []string
	auth     bool
	authKey  string // "" none
	tickets  bool
	chunk    int
	chunkOut int
	strip    bool
	cookie   bool // the library's server asks for a cookie
	rounds   int
	x        []xfer
	seed     uint64
	cert     mint.SignatureScheme
}

func draw(t *rapid.T, client bool) *plan {
	p := &plan{client: client, seed: rapid.Uint64().Draw(t, "seed")}
	p.suites = h.Subset(t, "suites", h.AllSuites, 0)
	p.key = rapid.SampledFrom(h.KeyNames).Draw(t, "key")
	p.name = rapid.SampledFrom([]string{"a.example", "some.long.host-name.example.com"}).Draw(t, "name")
	p.inter = rapid.Bool().Draw(t, "intermediate")
	mine := []mint.NamedGroup{mint.X25519, mint.P256, mint.P384, mint.P521}
	p.groups = h.Subset(t, "groups", mine, 0)
	own := p.groups
	if len(own) == 0 {
		own = []mint.NamedGroup{mint.X25519, mint.P256, mint.P384}
	}
	p.theirs = h.Subset(t, "their groups", []tls.CurveID{tls.X25519, tls.CurveP256, tls.CurveP384, tls.CurveP521, tls.X25519MLKEM768}, 0)
	common := len(p.theirs) == 0
	for _, g := range own {
		for _, c := range p.theirs {
			common = common || curves[g] == c
		}
	}
	if !common {
		p.theirs = append(p.theirs, curves[own[rapid.IntRange(0, len(own)-1).Draw(t, "common")]])
	}
	all := []string{"h2", "http/1.1", "x", "proto-with-a-long-name"}
	p.alpn = h.Subset(t, "protocols", all, 0)
	p.theirAL = h.Subset(t, "their protocols", all, 0)
	if client && len(p.alpn) > 0 && len(p.theirAL) > 0 {
		ok := false
		for _, x := range p.alpn {
			for _, y := range p.theirAL {
				ok = ok || x == y
			}
		}
		if !ok {
			// Their server refuses clients it has no protocol in common with.
			p.theirAL = append(p.theirAL, p.alpn[0])
		}
	}
	if p.auth = rapid.IntRange(0, 2).Draw(t, "client authentication") == 2; p.auth {
		p.authKey = rapid.SampledFrom(append([]string{""}, h.KeyNames...)).Draw(t, "client key")
	}
	if rapid.Bool().Draw(t, "schemes set") {
		// Some scheme has to fit each key in use.
		for _, a := range rapid.Permutation(h.AllSchemes[:6]).Draw(t, "schemes") {
			p.schemes = append(p.schemes, a)
			fits := func(k string) bool {
				for _, b := range p.schemes {
					if k == "" || ref.SchemeFits(uint16(b), h.Key(k).Public()) {
						return true
					}
				}
				return false
			}
			if fits(p.key) && fits(p.authKey) && rapid.Bool().Draw(t, "enough") {
				break
			}
		}
	}
	p.tickets = rapid.IntRange(0, 2).Draw(t, "tickets") > 0
	p.rounds = 1
	if p.tickets {
		p.rounds = rapid.IntRange(1, 3).Draw(t, "connections")
	}
	p.chunk = rapid.SampledFrom([]int{0, 1, 5, 100, 3000}).Draw(t, "read size")
	p.strip = rapid.IntRange(0, 3).Draw(t, "strip") == 3
	p.cookie = !client && rapid.IntRange(0, 2).Draw(t, "cookie") == 2
	for i := rapid.IntRange(0, 5).Draw(t, "transfers"); i > 0; i-- {
		p.x = append(p.x, xfer{
			toMint: rapid.Bool().Draw(t, "direction"),
			size:   rapid.SampledFrom([]int{1, 2, 100, 16383, 16384, 16385, 50000, 200000}).Draw(t, "size"),
			update: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "update"),
		})
	}
	return p
}

func tlsCert(id *ref.Ident) tls.Certificate {
	return tls.Certificate{Certificate: id.Chain, PrivateKey: id.Key, Leaf: id.Leaf}
}

// ccs is a transport that leaves out change_cipher_spec records.
type ccs struct {
	*h.End
	buf []byte
}

func (c *ccs) Write(b []byte) (int, error) {
	c.buf = append(c.buf, b...)
	for {
		raw, rest := ref.SplitTLS(c.buf)
		if raw == nil {
			return len(b), nil
		}
		c.buf = rest
		if raw[0] == 20 {
			continue
		}
		if n, err := c.End.Write(raw); err != nil {
			return n, err
		}
	}
}

type memCache map[string]*tls.ClientSessionState

func (m memCache) Get(k string) (*tls.ClientSessionState, bool) {
	s, ok := m[k]
	return s, ok && s != nil
}
func (m memCache) Put(k string, s *tls.ClientSessionState) { m[k] = s }

// sharesKnown reports whether their client sends a key share the library's
// server can use.  It sends one for its most preferred group (and X25519 with
// the hybrid).
func (p *plan) shareKnown() bool {
	own := p.groups
	if len(own) == 0 {
		own = []mint.NamedGroup{mint.X25519, mint.P256, mint.P384}
	}
	has := func(c tls.CurveID) bool {
		for _, x := range p.theirs {
			if x == c {
				return true
			}
		}
		return len(p.theirs) == 0
	}
	for _, g := range []mint.NamedGroup{mint.X25519, 0, mint.P256, mint.P384, mint.P521} {
		if g == 0 {
			if has(tls.X25519MLKEM768) {
				return false
			}
			continue
		}
		if has(curves[g]) {
			for _, x := range own {
				if x == g {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (p *plan) run(t *testing.T) (msg string, resumed bool) {
	id := h.Cert(h.CertOpts{Key: p.key, Names: []string{p.name}, Inter: p.inter})
	mc := &mint.Config{CipherSuites: p.suites, Groups: p.groups, SignatureSchemes: p.schemes, NextProtos: p.alpn, PSKs: &mint.PSKMapCache{}}
	tc := &tls.Config{MinVersion: tls.VersionTLS13, MaxVersion: tls.VersionTLS13, CurvePreferences: p.theirs, NextProtos: p.theirAL}
	var cid *ref.Ident
	if p.authKey != "" {
		cid = h.Cert(h.CertOpts{Key: p.authKey, Names: []string{"client"}})
	}
	if p.client {
		mc.ServerName, mc.RootCAs = p.name, h.Roots("A")
		tc.Certificates = []tls.Certificate{tlsCert(id)}
		tc.SessionTicketsDisabled = !p.tickets
		if p.auth {
			tc.ClientAuth = tls.RequestClientCert
		}
		if cid != nil {
			mc.Certificates = []*mint.Certificate{h.Mint(cid)}
		}
	} else {
		tc.ServerName, tc.RootCAs = p.name, h.Roots("A")
		tc.ClientSessionCache = memCache{}
		mc.Certificates = []*mint.Certificate{h.Mint(id)}
		mc.RequireClientAuth, mc.RequireCookie = p.auth, p.cookie
		if mc.SendSessionTickets = p.tickets; p.tickets {
			mc.TicketLifetime = 3600
		}
		if cid != nil {
			tc.Certificates = []tls.Certificate{tlsCert(cid)}
		}
	}
	for i := 0; i < p.rounds && msg == ""; i++ {
		h.Bubble(t, func() { msg = p.connection(mc, tc, id, cid, i, &resumed) })
		if msg != "" {
			msg = fmt.Sprintf("connection %d: %s", i, msg)
		}
	}
	return
}

func (p *plan) connection(mc *mint.Config, tc *tls.Config, id, cid *ref.Ident, round int, resumed *bool) string {
	a, b := h.NewPair(false, true)
	a.Block, b.Block = true, true
	if p.chunk > 0 {
		a.ReadMax = func(int) int { return p.chunk }
	}
	var m *mint.Conn
	var s *tls.Conn
	if p.client {
		m = mint.Client(a, mc)
	} else {
		m = mint.Server(a, mc)
	}
	if p.strip {
		c := &ccs{End: b}
		if p.client {
			s = tls.Server(c, tc)
		} else {
			s = tls.Client(c, tc)
		}
	} else if p.client {
		s = tls.Server(b, tc)
	} else {
		s = tls.Client(b, tc)
	}
	// both runs f and g at the same time and waits for both.
	both := func(what string, f, g func() error) string {
		r := make(chan string, 2)
		go func() {
			if err := try(f); err != nil {
				r <- "the library: " + err.Error()
				return
			}
			r <- ""
		}()
		go func() {
			if err := try(g); err != nil {
				r <- "crypto/tls: " + err.Error()
				return
			}
			r <- ""
		}()
		out := ""
		for i := 0; i < 2; i++ {
			select {
			case x := <-r:
				if x != "" {
					out += x + "; "
					a.Close()
					b.Close()
				}
			case <-time.After(time.Hour):
				a.Close()
				b.Close()
				return what + ": hangs"
			}
		}
		if out != "" {
			return what + ": " + out
		}
		return ""
	}
	var al mint.Alert
	msg := both("handshake", func() error {
		if al = m.Handshake(); al != mint.AlertNoAlert {
			return fmt.Errorf("alert %v", al)
		}
		return nil
	}, s.Handshake)
	if msg != "" && !p.client && !p.shareKnown() && al == mint.AlertHandshakeFailure {
		return known
	}
	if msg != "" {
		return msg
	}
	defer a.Close()
	defer b.Close()

	ms, ts := m.ConnectionState(), s.ConnectionState()
	if uint16(ms.CipherSuite.Suite) != ts.CipherSuite {
		return fmt.Sprintf("suites: %v and %x", ms.CipherSuite.Suite, ts.CipherSuite)
	}
	if len(p.suites) > 0 && p.client {
		ok := false
		for _, c := range p.suites {
			ok = ok || c == ms.CipherSuite.Suite
		}
		if !ok {
			return fmt.Sprintf("suite %v was not configured", ms.CipherSuite.Suite)
		}
	}
	if ms.NextProto != ts.NegotiatedProtocol {
		return fmt.Sprintf("protocols: %q and %q", ms.NextProto, ts.NegotiatedProtocol)
	}
	want := ""
	for _, x := range p.alpn {
		for _, y := range p.theirAL {
			if x == y {
				want = "some"
			}
		}
	}
	if (want == "") != (ts.NegotiatedProtocol == "") {
		return fmt.Sprintf("protocol %q out of %q and %q", ts.NegotiatedProtocol, p.alpn, p.theirAL)
	}
	if ms.UsingPSK != ts.DidResume {
		return fmt.Sprintf("resumption: %v and %v", ms.UsingPSK, ts.DidResume)
	}
	if round > 0 && ts.DidResume {
		*resumed = true
	}
	if round == 0 && ts.DidResume {
		return "resumed without a ticket"
	}
	if len(p.theirs) > 0 && !ts.DidResume {
		ok := false
		for _, c := range p.theirs {
			ok = ok || c == ts.CurveID
		}
		if !ok {
			return fmt.Sprintf("group %v", ts.CurveID)
		}
	}
	if p.client && !ts.DidResume {
		if len(ms.PeerCertificates) != len(id.Chain) || !ms.PeerCertificates[0].Equal(id.Leaf) {
			return "the client does not report the server's certificate chain"
		}
		if p.auth && cid != nil {
			// The server's request lists its own schemes.
			if len(ts.PeerCertificates) != 1 || !ts.PeerCertificates[0].Equal(cid.Leaf) {
				return "the server does not report the client's certificate"
			}
		} else if len(ts.PeerCertificates) != 0 {
			return "a client certificate nobody has"
		}
	}
	if !p.client && !ts.DidResume {
		if p.auth && cid != nil {
			if len(ms.PeerCertificates) != 1 || !ms.PeerCertificates[0].Equal(cid.Leaf) {
				return "the server does not report the client's certificate"
			}
		} else if len(ms.PeerCertificates) != 0 {
			return "a client certificate nobody has"
		}
	}
	for _, l := range []string{"EXPORTER-x", "another label"} {
		for _, c := range [][]byte{{}, []byte("context")} {
			x, err := m.ComputeExporter(l, c, 40)
			if err != nil {
				return err.Error()
			}
			y, err := ts.ExportKeyingMaterial(l, c, 40)
			if err != nil {
				return err.Error()
			}
			if !bytes.Equal(x, y) {
				return fmt.Sprintf("exporters: %x and %x", x, y)
			}
		}
	}
	rng := h.NewRng(p.seed ^ 0xabcdef)
	xs := append(append([]xfer{}, p.x...), xfer{toMint: p.client, size: 10}, xfer{toMint: !p.client, size: 20})
	for i, x := range xs {
		data := rng.Bytes(x.size)
		got := make([]byte, x.size)
		var w io.Writer = m
		var r io.Reader = s
		if x.toMint {
			w, r = s, m
		}
		f := func() error {
			if x.update > 0 {
				if err := m.SendKeyUpdate(x.update == 2); err != nil {
					return err
				}
			}
			n, err := w.Write(data)
			if err == nil && n != len(data) {
				err = fmt.Errorf("Write = %d of %d", n, len(data))
			}
			return err
		}
		g := func() error { _, err := io.ReadFull(r, got); return err }
		if x.toMint {
			// The key update is the library's.
			f2 := f
			f = func() error { _, err := w.Write(data); return err }
			if x.update > 0 {
				if err := m.SendKeyUpdate(x.update == 2); err != nil {
					return err.Error()
				}
				// Their side sees it when it next reads.
				poke, back := []byte{7}, make([]byte, 1)
				if msg := both("poke", func() error { _, err := m.Write(poke); return err }, func() error { _, err := io.ReadFull(s, back); return err }); msg != "" {
					return msg
				}
			}
			f, g = g, f
			_ = f2
		}
		if msg := both(fmt.Sprintf("transfer %d %+v", i, x), f, g); msg != "" {
			return msg
		}
		if !bytes.Equal(got, data) {
			return fmt.Sprintf("transfer %d %+v: read %s instead of %s", i, x, h.Brief(got), h.Brief(data))
		}
	}
	// Their close is the end of the stream.
	if p.seed%2 == 0 {
		n := 0
		if msg := both("close", func() error {
			k, err := m.Read(make([]byte, 10))
			n = k
			if err != io.EOF {
				return fmt.Errorf("reading after the close gives %d, %v", k, err)
			}
			return nil
		}, s.CloseWrite); msg != "" {
			return msg
		}
		if n != 0 {
			return "data after the close"
		}
	}
	return ""
}

// known marks the recorded finding.
const known = "the server does not ask for a key share of a group both support"

func check(client bool) func(t *testing.T, rt *rapid.T) {
	return func(t *testing.T, rt *rapid.T) {
		p := draw(rt, client)
		msg, resumed := p.run(t)
		if strings.HasSuffix(msg, known) {
			h.KnownFinding("a server does not ask for a key share (no HelloRetryRequest for another group)")
			return
		}
		if msg != "" {
			rt.Fatalf("%s\n%+v", msg, *p)
		}
		h.Label("client=%v tickets=%v cookie=%v resumed=%v", client, p.tickets, p.cookie, resumed)
		h.Label("client=%v auth=%v/%v alpn=%v", client, p.auth, p.authKey != "", len(p.alpn) > 0 && len(p.theirAL) > 0)
		h.Case(true, "%+v", *p)
	}
}

// TestClient: the library's client against crypto/tls.
func TestClient(t *testing.T) {
	h.Check(t, 400, 8000, func(rt *rapid.T) { check(true)(t, rt) })
}

// TestServer: the library's server against crypto/tls.
func TestServer(t *testing.T) {
	h.Check(t, 400, 8000, func(rt *rapid.T) { check(false)(t, rt) })
}

// try turns a panic into an error.
func try(f func() error) (err error) {
	if e := h.Guard(func() { err = f() }); e != nil {
		err = e
	}
	return
}
