package h

import (
	"fmt"
	"io"

	"github.com/bifurcation/mint"

	"verif/ref"
)

// Node is a non-blocking endpoint with its transport.
type Node struct {
	C      *mint.Conn
	T      *End
	Client bool

	Done    bool
	Failed  bool
	Alert   mint.Alert
	Retries int
	Steps   int

	Got     []byte
	ReadErr error
	NoClose bool // do not close the transport on failure
}

// NewNode makes an endpoint over a fresh unjoined end.
func NewNode(cfg *mint.Config, client bool) *Node {
	name := "server"
	if client {
		name = "client"
	}
	t := NewEnd(name, cfg.UseDTLS)
	return &Node{C: mint.NewConn(t, cfg, client), T: t, Client: client}
}

// Step makes one Handshake call and reports whether it got anywhere.
func (n *Node) Step() bool {
	if n.Done || n.Failed {
		return false
	}
	if n.Steps++; n.Steps > spinLimit {
		panic(Spin{"Handshake makes progress for ever"})
	}
	a := n.C.Handshake()
	switch a {
	case mint.AlertNoAlert:
		n.Done = n.Connected()
		return true
	case mint.AlertWouldBlock:
		return false
	case mint.AlertStatelessRetry:
		n.Retries++
		return true
	}
	n.Alert = a
	n.Failed = true
	if !n.NoClose {
		n.T.Close()
	}
	return true
}

// StepAll steps until the node blocks or ends.
func (n *Node) StepAll() bool {
	p := false
	for n.Step() {
		p = true
	}
	return p
}

// Connected asks the endpoint.
func (n *Node) Connected() bool {
	s := n.C.GetHsState()
	return s == mint.StateClientConnected || s == mint.StateServerConnected
}

// ReadAvail reads what is there, with the given buffer size.
func (n *Node) ReadAvail(size int) {
	if n.ReadErr != nil {
		return
	}
	if size < 1 {
		size = 1
	}
	buf := make([]byte, size)
	for i := 0; ; i++ {
		if i > 1<<20 {
			panic(Spin{"Read returns for ever"})
		}
		k, err := n.C.Read(buf)
		if k < 0 || k > len(buf) {
			panic(fmt.Sprintf("Read returned %d for a buffer of %d", k, len(buf)))
		}
		n.Got = append(n.Got, buf[:k]...)
		if err == mint.AlertWouldBlock {
			return
		}
		if err != nil {
			n.ReadErr = err
			return
		}
		if k == 0 {
			panic(Spin{"Read returned 0, nil"})
		}
	}
}

func (n *Node) String() string {
	return fmt.Sprintf("{done=%v failed=%v alert=%v state=%v}", n.Done, n.Failed, n.Alert, n.C.GetHsState())
}

// Wire carries bytes between two nodes whose ends are not joined.
type Wire struct {
	A, B   *Node // client, server
	Q      [2][][]byte
	Filter func(dir int, b []byte) [][]byte
	eof    [2]bool
	Log    [2][][]byte
}

func (w *Wire) node(i int) *Node {
	if i == 0 {
		return w.A
	}
	return w.B
}

// Collect moves what the nodes wrote to the wire's queues.
func (w *Wire) Collect() {
	for d := 0; d < 2; d++ {
		for _, b := range w.node(d).T.TakeOut() {
			w.Log[d] = append(w.Log[d], b)
			if w.Filter != nil {
				w.Q[d] = append(w.Q[d], w.Filter(d, b)...)
			} else {
				w.Q[d] = append(w.Q[d], b)
			}
		}
	}
}

// Deliver hands at most max stream bytes (or one datagram) of direction d over.
func (w *Wire) Deliver(d, max int) bool {
	w.Collect()
	to := w.node(1 - d).T
	if len(w.Q[d]) == 0 {
		if w.node(d).T.Closed() && !w.eof[d] && !to.Datagram {
			w.eof[d] = true
			to.EndIn()
			return true
		}
		return false
	}
	if to.Datagram {
		to.Push(w.Q[d][0])
		w.Q[d] = w.Q[d][1:]
		return true
	}
	for max > 0 && len(w.Q[d]) > 0 {
		b := w.Q[d][0]
		if len(b) > max {
			to.Push(b[:max])
			w.Q[d][0] = b[max:]
			return true
		}
		to.Push(b)
		max -= len(b)
		w.Q[d] = w.Q[d][1:]
	}
	return true
}

// Flush delivers everything both ways.
func (w *Wire) Flush() bool {
	p := false
	for d := 0; d < 2; d++ {
		for w.Deliver(d, 1<<30) {
			p = true
		}
	}
	return p
}

// Run drives both handshakes until nothing moves.
func (w *Wire) Run() {
	for i := 0; ; i++ {
		p := w.A.StepAll()
		if w.Flush() {
			p = true
		}
		if w.B.StepAll() {
			p = true
		}
		if w.Flush() {
			p = true
		}
		if !p {
			return
		}
		if i > spinLimit {
			panic(Spin{"the two endpoints exchange messages for ever"})
		}
	}
}

// NewWire builds a client and a server.
func NewWire(cc, sc *mint.Config) *Wire {
	return &Wire{A: NewNode(cc, true), B: NewNode(sc, false)}
}

// Peer is a reference endpoint.
type Peer interface {
	Feed([]byte)
	Take() [][]byte
}

// Link joins a node with a reference endpoint.
type Link struct {
	N     *Node
	P     Peer
	Split func([]byte) [][]byte // how to cut what goes to the node
	ToN   func([]byte) [][]byte
	Log   [2][][]byte // from node, to node
	eof   bool
}

// Move exchanges what is pending; it reports whether anything moved.
func (l *Link) Move() bool {
	p := false
	for _, b := range l.N.T.TakeOut() {
		l.Log[0] = append(l.Log[0], b)
		l.P.Feed(b)
		p = true
	}
	for _, b := range l.P.Take() {
		bs := [][]byte{b}
		if l.ToN != nil {
			bs = l.ToN(b)
		}
		for _, b := range bs {
			l.Log[1] = append(l.Log[1], b)
			if l.Split != nil && !l.N.T.Datagram {
				for _, c := range l.Split(b) {
					l.N.T.Push(c)
				}
			} else {
				l.N.T.Push(b)
			}
		}
		p = true
	}
	return p
}

// Run drives the handshake until nothing moves.
func (l *Link) Run() {
	for i := 0; ; i++ {
		p := l.N.StepAll()
		if l.Move() {
			p = true
		}
		if !p {
			return
		}
		if i > spinLimit {
			panic(Spin{"endless exchange"})
		}
	}
}

var _ = io.EOF
var _ Peer = (*ref.Client)(nil)

// Guard runs f and turns a panic into an error.
func Guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = fmt.Errorf("panic: %w", e)
			} else {
				err = fmt.Errorf("panic: %v", r)
			}
		}
	}()
	f()
	return nil
}
