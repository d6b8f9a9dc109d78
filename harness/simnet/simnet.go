// Package simnet is an in-memory UDP network for use inside a testing/synctest
// bubble. It is installed through the net.VerifListen hook that
// tools/mkoverlay.py adds to the standard library for the harness build, so the
// unmodified library runs on it with virtual time and injected I/O faults.
package simnet

import (
	"fmt"
	"net"
	"os"
	"runtime"
	"sync"
	"syscall"
	"time"
)

// IP is an IPv4 address.
type IP = [4]byte

// Sent is one attempted transmission.
type Sent struct {
	At       time.Time
	Host     IP // host of the sending socket
	Sock     int
	To       IP
	Port     int
	Data     []byte
	Err      error // injected fault: the datagram was not sent
	SeqNo    int
	AfterEnd bool
}

// Listen is one attempt to open a socket.
type Listen struct {
	At      time.Time
	Host    IP
	Network string
	IP      IP
	Port    int
	Err     error
}

type item struct {
	data []byte
	from IP
	port int
	err  error
}

// Sock is a simulated socket.
type Sock struct {
	n      *Net
	ID     int
	Host   IP
	IP     IP // bound address, 0.0.0.0 for wildcard
	Port   int
	mu     sync.Mutex
	queue  []item
	wake   chan struct{}
	done   chan struct{}
	closed bool
	rdl    time.Time
	Reads  int // completed reads
	Spin   int // reads after close
}

// Net is a network.
type Net struct {
	mu      sync.Mutex
	host    IP
	socks   []*Sock
	sent    []Sent
	listens []Listen
	// ListenErr, if set, decides whether a socket can be opened.
	ListenErr func(ip IP, port int) error
	// WriteErr, if set, decides whether a datagram can be sent.
	WriteErr func(s *Sent) error
	// WriteYield, if set, tells how often sending a datagram lets others run first.
	WriteYield func() int
	// CloseErr, if set, is what closing a socket reports; it is closed all the same.
	CloseErr func() error
	// Route delivers sent datagrams to the other sockets of the network.
	Route bool
	// Broadcast are the destination addresses that reach every host.
	Broadcast map[IP]bool
	// Storm is set when more datagrams were routed at one instant than any
	// history can cause; what is sent at that instant goes nowhere from then on.
	Storm     bool
	instant   time.Time
	atInstant int
	spinLimit func(*Sock)
}

// New installs a network. Call it inside the bubble.
func New() *Net {
	n := &Net{Broadcast: map[IP]bool{{2, 255, 255, 255}: true, {255, 255, 255, 255}: true}}
	n.Use()
	return n
}

// Use makes this the network on which the next sockets are opened.
func (n *Net) Use() { net.VerifListen = n.listen }

// SetHost selects the host on which the next sockets are opened.
func (n *Net) SetHost(ip IP) {
	n.mu.Lock()
	n.host = ip
	n.mu.Unlock()
}

func (n *Net) listen(network string, laddr *net.UDPAddr) (net.VerifUDP, *net.UDPAddr, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	var ip IP
	port := 0
	if laddr != nil {
		copy(ip[:], laddr.IP.To4())
		port = laddr.Port
	}
	l := Listen{At: time.Now(), Host: n.host, Network: network, IP: ip, Port: port}
	if n.ListenErr != nil {
		l.Err = n.ListenErr(ip, port)
	}
	if l.Err == nil {
		for _, s := range n.socks {
			if !s.isClosed() && s.Host == n.host && s.Port == port && (s.IP == ip || s.IP == IP{} || ip == IP{}) {
				l.Err = os.NewSyscallError("bind", syscall.EADDRINUSE)
			}
		}
	}
	n.listens = append(n.listens, l)
	if l.Err != nil {
		return nil, nil, l.Err
	}
	s := &Sock{n: n, ID: len(n.socks), Host: n.host, IP: ip, Port: port, wake: make(chan struct{}, 1), done: make(chan struct{})}
	n.socks = append(n.socks, s)
	return s, &net.UDPAddr{IP: net.IP(append([]byte(nil), ip[:]...)), Port: port}, nil
}

// Listens returns the attempts to open sockets.
func (n *Net) Listens() []Listen {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Listen(nil), n.listens...)
}

// Sent returns the transmissions from index i on.
func (n *Net) Sent(i int) []Sent {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Sent(nil), n.sent[i:]...)
}

// Forget drops what has been recorded so far, and the closed sockets.
func (n *Net) Forget() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.sent, n.listens = nil, nil
	var open []*Sock
	for _, s := range n.socks {
		if !s.isClosed() {
			open = append(open, s)
		}
	}
	n.socks = open
}

// SentCount returns the number of transmissions so far.
func (n *Net) SentCount() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.sent)
}

// Open returns the open sockets.
func (n *Net) Open() []*Sock {
	n.mu.Lock()
	defer n.mu.Unlock()
	var out []*Sock
	for _, s := range n.socks {
		if !s.isClosed() {
			out = append(out, s)
		}
	}
	return out
}

// OpenOn returns the open sockets of a host.
func (n *Net) OpenOn(host IP) []*Sock {
	var out []*Sock
	for _, s := range n.Open() {
		if s.Host == host {
			out = append(out, s)
		}
	}
	return out
}

// Inject delivers a datagram to every open socket of the host that is bound to
// the destination; it returns how many received it.
func (n *Net) Inject(host IP, dst IP, dport int, from IP, sport int, data []byte) int {
	c := 0
	for _, s := range n.Open() {
		if s.Host == host && s.Port == dport && (s.IP == IP{} || s.IP == dst) {
			s.push(item{data: append([]byte(nil), data...), from: from, port: sport})
			c++
		}
	}
	return c
}

// InjectErr makes a pending or later read of the host's sockets fail.
func (n *Net) InjectErr(host IP, err error) {
	for _, s := range n.OpenOn(host) {
		s.push(item{err: err})
	}
}

func (s *Sock) push(it item) {
	s.mu.Lock()
	s.queue = append(s.queue, it)
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
}

func (s *Sock) isClosed() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.closed
}

// Pending is the number of queued items not read yet.
func (s *Sock) Pending() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.queue)
}

// ReadFrom implements net.VerifUDP.
func (s *Sock) ReadFrom(p []byte) (int, IP, int, error) {
	for {
		s.mu.Lock()
		if s.closed {
			s.Spin++
			spin := s.Spin
			s.mu.Unlock()
			if spin > 20000 {
				// a reader that never notices the close would spin forever
				// inside the bubble; park it and let the oracle report it.
				select {}
			}
			return 0, IP{}, 0, net.ErrClosed
		}
		if len(s.queue) > 0 {
			it := s.queue[0]
			s.queue = s.queue[1:]
			s.Reads++
			s.mu.Unlock()
			if it.err != nil {
				return 0, IP{}, 0, it.err
			}
			return copy(p, it.data), it.from, it.port, nil
		}
		dl := s.rdl
		s.mu.Unlock()
		var tc <-chan time.Time
		if !dl.IsZero() {
			d := time.Until(dl)
			if d <= 0 {
				return 0, IP{}, 0, os.ErrDeadlineExceeded
			}
			tm := time.NewTimer(d)
			tc = tm.C
			select {
			case <-s.wake:
			case <-s.done:
			case <-tc:
			}
			tm.Stop()
			continue
		}
		select {
		case <-s.wake:
		case <-s.done:
		}
	}
}

// SpunAfterClose reports a reader that ignored the closed socket.
func (s *Sock) SpunAfterClose() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Spin > 20000
}

// WriteTo implements net.VerifUDP.
func (s *Sock) WriteTo(p []byte, to IP, port int) (int, error) {
	if s.isClosed() {
		return 0, net.ErrClosed
	}
	n := s.n
	if n.WriteYield != nil {
		for k := n.WriteYield(); k > 0; k-- {
			runtime.Gosched()
		}
		if s.isClosed() {
			return 0, net.ErrClosed
		}
	}
	n.mu.Lock()
	e := Sent{At: time.Now(), Host: s.Host, Sock: s.ID, To: to, Port: port, Data: append([]byte(nil), p...), SeqNo: len(n.sent)}
	if n.WriteErr != nil {
		e.Err = n.WriteErr(&e)
	}
	n.sent = append(n.sent, e)
	var dst []*Sock
	if n.Route {
		if !e.At.Equal(n.instant) {
			n.instant, n.atInstant = e.At, 0
		}
		n.atInstant++
	}
	if n.Route && n.atInstant > 5000 {
		n.Storm = true
	} else if n.Route && e.Err == nil {
		for _, d := range n.socks {
			if d.Port != port || d.isClosed() {
				continue
			}
			if n.Broadcast[to] {
				if d.IP == (IP{}) || d.IP == to {
					dst = append(dst, d)
				}
			} else if d.Host == to && (d.IP == IP{} || d.IP == to) {
				dst = append(dst, d)
			}
		}
	}
	n.mu.Unlock()
	if e.Err != nil {
		return 0, e.Err
	}
	src := s.Host
	if s.IP != (IP{}) {
		src = s.IP
	}
	for _, d := range dst {
		d.push(item{data: append([]byte(nil), p...), from: src, port: s.Port})
	}
	return len(p), nil
}

// Close implements net.VerifUDP.
func (s *Sock) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return net.ErrClosed
	}
	s.closed = true
	close(s.done)
	if s.n.CloseErr != nil {
		return s.n.CloseErr()
	}
	return nil
}

// SetDeadline implements net.VerifUDP.
func (s *Sock) SetDeadline(read, write bool, t time.Time) error {
	if read {
		s.mu.Lock()
		s.rdl = t
		s.mu.Unlock()
		select {
		case s.wake <- struct{}{}:
		default:
		}
	}
	return nil
}

// Errs are the injectable I/O errors.
var Errs = []error{
	os.NewSyscallError("recvfrom", syscall.ECONNREFUSED),
	os.NewSyscallError("recvfrom", syscall.EHOSTUNREACH),
	os.NewSyscallError("recvfrom", syscall.ENETDOWN),
	os.NewSyscallError("recvfrom", syscall.ENOBUFS),
	os.NewSyscallError("recvfrom", syscall.EINTR),
	os.NewSyscallError("recvfrom", syscall.EAGAIN),
	os.ErrDeadlineExceeded,
	os.NewSyscallError("sendto", syscall.EPERM),
	os.NewSyscallError("sendto", syscall.ENETUNREACH),
	os.NewSyscallError("sendto", syscall.EMSGSIZE),
}

// String shows a transmission.
func (s Sent) String() string {
	return fmt.Sprintf("%v -> %v:%d %d bytes % x", s.Host, s.To, s.Port, len(s.Data), s.Data[:min(len(s.Data), 24)])
}
