// Package h drives the library under test: in-memory transports, non-blocking
// nodes, certificate fixtures, the rapid wrapper and evidence counters.
package h

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"
)

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

// Spin is panicked out of a transport read when the endpoint keeps reading a
// transport that has nothing more to give.
type Spin struct{ What string }

func (s Spin) Error() string { return "endpoint spins: " + s.What }

const spinLimit = 20000

// End is one side of an in-memory connection.  Without a Peer everything
// written waits in Out until the harness takes it.
type End struct {
	Name     string
	Datagram bool
	Block    bool // Read waits for data (otherwise it returns 0, nil)

	mu      *sync.Mutex
	cond    *sync.Cond
	peer    *End
	in      [][]byte
	out     [][]byte
	eof     bool
	closed  bool
	idle    int
	eofRead int

	ReadMax    func(avail int) int // how many bytes one stream read may return
	ReadErr    error               // what Read returns once in is empty and eof set (default io.EOF)
	WriteErr   func() error
	WritePart  func(n int) (int, error) // with an error, how many bytes of a write get through
	FailWrites int                      // that many writes fail although an eavesdropper sees them
	Sent       [][]byte                 // every successful write
	OnWrite    func(b []byte)
	NReads     int
	NClosed    int
	deadline   time.Time
}

// NewEnd makes an unconnected end.
func NewEnd(name string, datagram bool) *End {
	e := &End{Name: name, Datagram: datagram, mu: new(sync.Mutex)}
	e.cond = sync.NewCond(e.mu)
	return e
}

// NewPair makes two ends; joined says writes go straight to the other side.
func NewPair(datagram, joined bool) (*End, *End) {
	a, b := NewEnd("client", datagram), NewEnd("server", datagram)
	if joined {
		b.mu, b.cond = a.mu, a.cond
		a.peer, b.peer = b, a
	}
	return a, b
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "mem: i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (e *End) Read(p []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.NReads++
	for {
		if e.closed {
			return 0, e.atEOF(errors.New("mem: read on closed connection"))
		}
		if len(e.in) > 0 {
			e.idle = 0
			c := e.in[0]
			if e.Datagram {
				e.in = e.in[1:]
				return copy(p, c), nil
			}
			n := len(c)
			if e.ReadMax != nil {
				if m := e.ReadMax(n); m < n {
					n = m
				}
				if n < 1 {
					n = 1
				}
			}
			n = copy(p, c[:n])
			if n == len(c) {
				e.in = e.in[1:]
			} else {
				e.in[0] = c[n:]
			}
			return n, nil
		}
		if e.eof {
			err := e.ReadErr
			if err == nil {
				err = io.EOF
			}
			return 0, e.atEOF(err)
		}
		if !e.Block {
			if e.idle++; e.idle > spinLimit {
				panic(Spin{"reads " + e.Name + " transport without end although nothing arrives"})
			}
			return 0, nil
		}
		if !e.deadline.IsZero() && !time.Now().Before(e.deadline) {
			return 0, timeoutErr{}
		}
		e.cond.Wait()
	}
}

func (e *End) atEOF(err error) error {
	if e.eofRead++; e.eofRead > spinLimit {
		panic(Spin{"reads " + e.Name + " transport without end after it ended"})
	}
	return err
}

func (e *End) Write(p []byte) (int, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.closed {
		return 0, errors.New("mem: write on closed connection")
	}
	if e.WriteErr != nil {
		if err := e.WriteErr(); err != nil {
			return 0, err
		}
	}
	var err error
	if e.WritePart != nil {
		var k int
		if k, err = e.WritePart(len(p)); err != nil {
			if k == 0 {
				return 0, err
			}
			p = p[:k]
		}
	}
	b := append([]byte{}, p...)
	e.Sent = append(e.Sent, b)
	if e.FailWrites > 0 {
		e.FailWrites--
		return 0, errors.New("mem: write failed")
	}
	if e.OnWrite != nil {
		e.OnWrite(b)
	}
	if e.peer != nil {
		if !e.peer.closed {
			e.peer.in = append(e.peer.in, b)
		}
		e.cond.Broadcast()
	} else {
		e.out = append(e.out, b)
	}
	return len(p), err
}

// Timeout is what a transport whose deadline has passed returns.
var Timeout error = timeoutErr{}

// Close ends the connection; a joined peer sees the end of the stream.
func (e *End) Close() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.NClosed++
	e.closed = true
	if e.peer != nil && !e.Datagram {
		e.peer.eof = true
	}
	e.cond.Broadcast()
	return nil
}

// Closed reports whether Close was called.
func (e *End) Closed() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.closed
}

// EndIn ends the incoming stream after what is queued.
func (e *End) EndIn() {
	e.mu.Lock()
	e.eof = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

// Push queues incoming bytes (one datagram, or a piece of the stream).
func (e *End) Push(b []byte) {
	e.mu.Lock()
	if len(b) > 0 || e.Datagram {
		e.in = append(e.in, append([]byte{}, b...))
	}
	e.cond.Broadcast()
	e.mu.Unlock()
}

// TakeOut returns what was written since the last call.
func (e *End) TakeOut() [][]byte {
	e.mu.Lock()
	o := e.out
	e.out = nil
	e.mu.Unlock()
	return o
}

// Queued is what TakeOut would return.
func (e *End) Queued() [][]byte {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.out
}

// Pending counts unread queued bytes.
func (e *End) Pending() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, c := range e.in {
		n += len(c)
	}
	return n
}

// SentBytes is everything ever written.
func (e *End) SentBytes() []byte {
	e.mu.Lock()
	defer e.mu.Unlock()
	var b []byte
	for _, s := range e.Sent {
		b = append(b, s...)
	}
	return b
}

func (e *End) LocalAddr() net.Addr  { return addr(e.Name) }
func (e *End) RemoteAddr() net.Addr { return addr("peer-of-" + e.Name) }
func (e *End) SetDeadline(t time.Time) error {
	e.mu.Lock()
	e.deadline = t
	e.mu.Unlock()
	if !t.IsZero() {
		time.AfterFunc(time.Until(t), func() { e.mu.Lock(); e.cond.Broadcast(); e.mu.Unlock() })
	}
	return nil
}
func (e *End) SetReadDeadline(t time.Time) error  { return e.SetDeadline(t) }
func (e *End) SetWriteDeadline(t time.Time) error { return nil }
