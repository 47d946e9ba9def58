package neffos

// In-memory transport: the tests below play one side of the wire byte by byte.

import (
	"context"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"
)

type hFrame struct {
	b   string
	bin bool
}

type hSock struct {
	in, out chan hFrame
	done    chan struct{}
	once    sync.Once
	req     *http.Request
}

type hConn struct {
	net.Conn
	s *hSock
}

func (c hConn) Close() error { c.s.once.Do(func() { close(c.s.done) }); return nil }

func newHSock() *hSock {
	return &hSock{in: make(chan hFrame, 4096), out: make(chan hFrame, 4096), done: make(chan struct{})}
}
func (s *hSock) NetConn() net.Conn      { return hConn{s: s} }
func (s *hSock) Request() *http.Request { return s.req }
func (s *hSock) ReadData(time.Duration) ([]byte, MessageType, error) {
	select {
	case f := <-s.in:
		if f.bin {
			return []byte(f.b), BinaryMessage, nil
		}
		return []byte(f.b), TextMessage, nil
	case <-s.done:
		return nil, 0, io.EOF
	}
}
func (s *hSock) put(b []byte, bin bool) error {
	select {
	case <-s.done:
		return io.EOF
	default:
	}
	s.out <- hFrame{string(b), bin}
	return nil
}
func (s *hSock) WriteBinary(b []byte, _ time.Duration) error { return s.put(b, true) }
func (s *hSock) WriteText(b []byte, _ time.Duration) error   { return s.put(b, false) }

func (s *hSock) send(text string) { s.in <- hFrame{b: text} }

// recv returns the next frame written by the library, "" if none comes.
func (s *hSock) recv() string {
	select {
	case f := <-s.out:
		return f.b
	case <-time.After(500 * time.Millisecond):
		return ""
	}
}

// token is the reply token of a frame.
func hToken(frame string) string { return strings.SplitN(frame, ";", 2)[0] }

func hServer(h ConnHandler) *Server {
	return New(func(w http.ResponseWriter, r *http.Request) (Socket, error) {
		return r.Context().Value("sock").(*hSock), nil
	}, h)
}

// hAccept connects a raw client to the server, without its handshake.
func hAccept(s *Server, id string) (*Conn, *hSock, error) {
	k := newHSock()
	r := httptest.NewRequest("GET", "/", nil)
	r = r.WithContext(context.WithValue(context.Background(), "sock", k))
	k.req = r
	c, err := s.Upgrade(httptest.NewRecorder(), r, nil, func(http.ResponseWriter, *http.Request) string { return id })
	return c, k, err
}

// hPeer is hAccept and the handshake.
func hPeer(t *testing.T, s *Server, id string) (*Conn, *hSock) {
	t.Helper()
	c, k, err := hAccept(s, id)
	if err != nil {
		t.Fatal(err)
	}
	k.send("M")
	if got := k.recv(); got != "A"+id {
		t.Fatalf("handshake: %q", got)
	}
	return c, k
}

// hConnect makes the raw client connect to a namespace of the server.
func hConnect(t *testing.T, k *hSock, ns string) {
	t.Helper()
	k.send("$1;" + ns + ";;_OnNamespaceConnect;0;0;")
	if got := k.recv(); got != "$1;;;;;;" {
		t.Fatalf("connect %q: %q", ns, got)
	}
}

func hJoin(t *testing.T, k *hSock, ns, room string) {
	t.Helper()
	k.send("$2;" + ns + ";" + room + ";_OnRoomJoin;0;0;")
	if got := k.recv(); got != "$2;;;;;;" {
		t.Fatalf("join %q: %q", room, got)
	}
}

// hDial is a client of the library whose server is played by the test.
func hDial(t *testing.T, h ConnHandler) (*Client, *hSock) {
	t.Helper()
	k := newHSock()
	go func() {
		<-k.out // the handshake.
		k.send("Aid")
	}()
	c, err := Dial(nil, func(context.Context, string) (Socket, error) { return k, nil }, "x", h)
	if err != nil {
		t.Fatal(err)
	}
	return c, k
}

// hWithin reports whether fn returns in time.
func hWithin(d time.Duration, fn func()) bool {
	done := make(chan struct{})
	go func() { fn(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func hUntil(cond func() bool) bool {
	for i := 0; i < 200; i++ {
		if cond() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

type hLog struct {
	mu sync.Mutex
	l  []string
}

func (l *hLog) add(s string) { l.mu.Lock(); l.l = append(l.l, s); l.mu.Unlock() }
func (l *hLog) get() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.l...)
}
func (l *hLog) count(s string) (n int) {
	for _, x := range l.get() {
		if x == s {
			n++
		}
	}
	return
}

var _ = hToken
