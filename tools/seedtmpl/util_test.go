package mint

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"testing"
	"time"
)

// dEnd is one end of a non-blocking in-memory transport.
type dEnd struct {
	dgram  bool
	in     [][]byte
	out    [][]byte
	eof    bool
	closed bool
	max    int // most bytes one stream read returns (0: all)
}

func (e *dEnd) Read(p []byte) (int, error) {
	if e.closed {
		return 0, errors.New("closed")
	}
	if len(e.in) == 0 {
		if e.eof {
			return 0, io.EOF
		}
		return 0, nil
	}
	if e.dgram {
		n := copy(p, e.in[0])
		e.in = e.in[1:]
		return n, nil
	}
	if e.max > 0 && len(p) > e.max {
		p = p[:e.max]
	}
	n := copy(p, e.in[0])
	e.in[0] = e.in[0][n:]
	if len(e.in[0]) == 0 {
		e.in = e.in[1:]
	}
	return n, nil
}

func (e *dEnd) Write(p []byte) (int, error) {
	if e.closed {
		return 0, errors.New("closed")
	}
	e.out = append(e.out, append([]byte{}, p...))
	return len(p), nil
}
func (e *dEnd) Close() error                       { e.closed = true; return nil }
func (e *dEnd) LocalAddr() net.Addr                { return nil }
func (e *dEnd) RemoteAddr() net.Addr               { return nil }
func (e *dEnd) SetDeadline(t time.Time) error      { return nil }
func (e *dEnd) SetReadDeadline(t time.Time) error  { return nil }
func (e *dEnd) SetWriteDeadline(t time.Time) error { return nil }

// dPeer is a non-blocking connection with its transport and last alert.
type dPeer struct {
	*Conn
	e     *dEnd
	alert Alert
}

type dPair struct {
	c, s *dPeer
	// filter sees (and may alter) everything in transit; dir 0 is from the
	// client.
	filter func(dir int, b []byte) [][]byte
}

func dNew(cc, sc *Config) *dPair {
	cc.NonBlocking, sc.NonBlocking = true, true
	ce, se := &dEnd{dgram: cc.UseDTLS}, &dEnd{dgram: sc.UseDTLS}
	return &dPair{c: &dPeer{Client(ce, cc), ce, AlertNoAlert}, s: &dPeer{Server(se, sc), se, AlertNoAlert}}
}

// move carries what was written; it reports whether there was anything.
func (p *dPair) move() bool {
	moved := false
	for dir, x := range []*dPeer{p.c, p.s} {
		to := p.s
		if dir == 1 {
			to = p.c
		}
		o := x.e.out
		x.e.out = nil
		for _, b := range o {
			moved = true
			if p.filter == nil {
				to.e.in = append(to.e.in, b)
			} else {
				to.e.in = append(to.e.in, p.filter(dir, b)...)
			}
		}
	}
	return moved
}

func dOn(x *dPeer) bool {
	_, ok := x.hState.(stateConnected)
	return ok
}

// step makes one Handshake call; it reports whether it got somewhere.
func (x *dPeer) step() bool {
	if dOn(x) || x.alert != AlertNoAlert {
		return false
	}
	switch a := x.Handshake(); a {
	case AlertNoAlert, AlertStatelessRetry:
		return true
	case AlertWouldBlock:
		return false
	default:
		x.alert = a
		return true
	}
}

// run drives the handshake until nothing happens any more.
func (p *dPair) run() {
	for n := 0; n < 2000; n++ {
		m := false
		for p.c.step() {
			m = true
		}
		m = p.move() || m
		for p.s.step() {
			m = true
		}
		m = p.move() || m
		if !m {
			return
		}
	}
}

func (p *dPair) ok() bool { return dOn(p.c) && dOn(p.s) }

func (p *dPair) status() string {
	return fmt.Sprintf("client %v %v, server %v %v", p.c.GetHsState(), p.c.alert, p.s.GetHsState(), p.s.alert)
}

// read reads all that is there.
func (x *dPeer) read() (got []byte, err error) {
	buf := make([]byte, 70000)
	for {
		n, err := x.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			if err == AlertWouldBlock {
				err = nil
			}
			return got, err
		}
	}
}

// say sends data from x to y and returns what y reads.
func (p *dPair) say(x, y *dPeer, data []byte) ([]byte, error) {
	if n, err := x.Write(data); n != len(data) || err != nil {
		return nil, fmt.Errorf("Write = %d, %v", n, err)
	}
	p.move()
	return y.read()
}

// echo checks that data flows both ways.
func (p *dPair) echo() error {
	for i := 0; i < 2; i++ {
		x, y := p.c, p.s
		if i == 1 {
			x, y = y, x
		}
		d := bytes.Repeat([]byte{byte(i + 1), 7}, 50)
		got, err := p.say(x, y, d)
		if err != nil || !bytes.Equal(got, d) {
			return fmt.Errorf("direction %d: read %x, %v", i, got, err)
		}
	}
	return nil
}

var dCA *x509.Certificate
var dCAKey *ecdsa.PrivateKey

func dMake(curve elliptic.Curve, ca bool, names ...string) *Certificate {
	k, err := ecdsa.GenerateKey(curve, rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(time.Hour), DNSNames: names, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, BasicConstraintsValid: true, IsCA: ca}
	parent, pk := t, k
	if !ca {
		parent, pk = dCA, dCAKey
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, k.Public(), pk)
	if err != nil {
		panic(err)
	}
	c, err := x509.ParseCertificate(der)
	if err != nil {
		panic(err)
	}
	if ca {
		dCA, dCAKey = c, k
	}
	return &Certificate{Chain: []*x509.Certificate{c}, PrivateKey: k}
}

// dCert makes a certificate of the demonstration's authority.
func dCert(names ...string) *Certificate {
	if dCA == nil {
		dMake(elliptic.P256(), true)
	}
	return dMake(elliptic.P256(), false, names...)
}

func dRoots() *x509.CertPool {
	p := x509.NewCertPool()
	p.AddCert(dCA)
	return p
}

// dConfigs is a pair of configurations that works.
func dConfigs() (cc, sc *Config) {
	sc = &Config{Certificates: []*Certificate{dCert("a.example")}, PSKs: &PSKMapCache{}}
	cc = &Config{ServerName: "a.example", RootCAs: dRoots(), PSKs: &PSKMapCache{}}
	return
}

// dPSK gives both a pre-shared key.
func dPSK(cc, sc *Config, suite CipherSuite) PreSharedKey {
	k := PreSharedKey{CipherSuite: suite, Identity: []byte{1, 2, 3}, Key: bytes.Repeat([]byte{9}, 32)}
	cc.PSKs.Put(cc.ServerName, k)
	sc.PSKs.Put("010203", k)
	return k
}

func dMust(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}
