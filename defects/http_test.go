package jlibhttp

import (
	"context"
	"encoding/json"
	"io/ioutil"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

func TestDefectH1HeadersLate(t *testing.T) {
	h := NewH1Handler(nil)
	h.Actor.On("m", func(p []interface{}) (interface{}, error) { return 1, nil })
	r := httptest.NewRequest("POST", "/", strings.NewReader(`{"id":1,"method":"m","params":[],"traceid":"T"}`))
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if w.Result().Header.Get("Content-Type") != "application/json" || w.Result().Header.Get("X-Trace-Id") != "T" {
		t.Fatal(w.Result().Header)
	}
}

func TestDefectH1TraceHeaderIgnored(t *testing.T) {
	h := NewH1Handler(nil)
	h.Actor.On("m", func(p []interface{}) (interface{}, error) { return 1, nil })
	r := httptest.NewRequest("POST", "/", strings.NewReader(`{"id":1,"method":"m","params":[]}`))
	r.Header.Set("X-Trace-Id", "T")
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if w.Header().Get("X-Trace-Id") != "T" {
		t.Fatal(w.Header())
	}
}

func h1server(body string) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ioutil.ReadAll(r.Body)
		w.Write([]byte(body))
	}))
}

func TestDefectH1ClientTraceLost(t *testing.T) {
	s := h1server(`{"id":1,"result":1}`)
	defer s.Close()
	c, _ := NewClient(s.URL)
	m := jlib.NewRequestMessage(1, "m", nil)
	m.SetTraceId("T")
	c.Call(context.Background(), m)
	if m.TraceId() != "T" {
		t.Fatal("trace lost by Call")
	}
	c.Send(context.Background(), m)
	if m.TraceId() != "T" {
		t.Fatal("trace lost by Send")
	}
}

func TestDefectH1ClientNonReply(t *testing.T) {
	s := h1server(`{"id":1,"method":"m","params":[]}`)
	defer s.Close()
	c, _ := NewClient(s.URL)
	m := jlib.NewRequestMessage(1, "m", nil)
	if res, err := c.Call(context.Background(), m); err == nil {
		t.Fatal(res)
	}
}

func TestDefectTypedNull(t *testing.T) {
	a := NewActor()
	called := false
	a.OnTyped("m", func(x interface{}) (int, error) { called = true; return 1, nil })
	msg := jlib.NewRequestMessage(1, "m", []interface{}{nil})
	res, err := a.Feed(NewRPCRequest(context.Background(), msg, "t", nil))
	if err != nil || !res.IsResult() || !called {
		t.Fatal(res, err)
	}
}

func TestDefectTypedVariadic(t *testing.T) {
	a := NewActor()
	a.OnTyped("m", func(x ...int) (int, error) { return len(x), nil })
	msg := jlib.NewRequestMessage(1, "m", []interface{}{[]interface{}{1, 2}})
	res, err := a.Feed(NewRPCRequest(context.Background(), msg, "t", nil))
	if err != nil || !res.IsResult() || jlib.MessageString(res) != `{"jsonrpc":"2.0","id":1,"result":2}` {
		t.Fatal(res, err)
	}
}

func TestDefectTypedIfaceParam(t *testing.T) {
	a := NewActor()
	a.OnTyped("m", func(x error) (int, error) { return 1, nil })
	msg := jlib.NewRequestMessage(1, "m", []interface{}{5})
	res, err := a.Feed(NewRPCRequest(context.Background(), msg, "t", nil))
	if err != nil || !res.IsError() || res.MustError().Code != -32602 {
		t.Fatal(res, err)
	}
}

func TestDefectTypedNilHandler(t *testing.T) {
	a := NewActor()
	if err := a.OnTypedRequest("m", nil); err == nil {
		t.Fatal("accepted")
	}
}

func TestDefectBareBearer(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "s"}}, http.NotFoundHandler())
	r := httptest.NewRequest("POST", "/", nil)
	r.Header.Set("Authorization", "Bearer")
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	if w.Code != 401 {
		t.Fatal(w.Code)
	}
}

func wsPair(t *testing.T, h *WSHandler) (*WSClient, *httptest.Server) {
	s := httptest.NewServer(h)
	u, _ := url.Parse("ws" + strings.TrimPrefix(s.URL, "http"))
	return NewWSClient(u), s
}

func TestDefectUnencodableReplyWedges(t *testing.T) {
	h := NewWSHandler(context.Background(), nil)
	h.Actor.On("bad", func(p []interface{}) (interface{}, error) { return make(chan int), nil })
	h.Actor.On("ok", func(p []interface{}) (interface{}, error) { return 1, nil })
	c, s := wsPair(t, h)
	defer s.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	type r struct {
		m jlib.Message
		e error
	}
	call := func(id int, m string) r {
		ch := make(chan r, 1)
		go func() {
			x, e := c.Call(context.Background(), jlib.NewRequestMessage(id, m, nil))
			ch <- r{x, e}
		}()
		select {
		case x := <-ch:
			return x
		case <-ctx.Done():
			t.Fatal("no reply for", m)
		}
		return r{}
	}
	if x := call(1, "bad"); x.e != nil || !x.m.IsError() || x.m.MustError().Code != -32603 {
		t.Fatal(x)
	}
	if x := call(2, "ok"); x.e != nil || !x.m.IsResult() {
		t.Fatal(x)
	}
}

func TestDefectLateMessageCrash(t *testing.T) {
	// a session whose wait() returned while a message is still being served
	h := NewWSHandler(context.Background(), nil)
	h.Actor.On("m", func(p []interface{}) (interface{}, error) { return 1, nil })
	got := make(chan *WSSession, 1)
	block := make(chan bool)
	h.Actor.OnRequest("hold", func(req *RPCRequest, p []interface{}) (interface{}, error) {
		got <- req.Session().(*WSSession)
		<-block
		return 1, nil
	})
	s := httptest.NewServer(h)
	defer s.Close()
	ws, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(s.URL, "http"), nil)
	if err != nil {
		t.Fatal(err)
	}
	ws.WriteMessage(websocket.TextMessage, []byte(`{"id":1,"method":"hold","params":[]}`))
	sess := <-got
	ws.Close()
	time.Sleep(200 * time.Millisecond) // the handler has returned by now
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("late message crashed:", r)
		}
	}()
	sess.msgBytesReceived([]byte(`{"id":2,"method":"m","params":[]}`)) // a goroutine scheduled late
	close(block)
}

func TestDefectSendAfterEndBlocks(t *testing.T) {
	h := NewWSHandler(context.Background(), nil)
	got := make(chan RPCSession, 1)
	h.Actor.OnRequest("hold", func(req *RPCRequest, p []interface{}) (interface{}, error) {
		got <- req.Session()
		return 1, nil
	})
	s := httptest.NewServer(h)
	defer s.Close()
	ws, _, _ := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(s.URL, "http"), nil)
	ws.WriteMessage(websocket.TextMessage, []byte(`{"id":1,"method":"hold","params":[]}`))
	sess := <-got
	ws.Close()
	time.Sleep(200 * time.Millisecond)
	done := make(chan bool)
	go func() {
		for i := 0; i < 300; i++ {
			sess.Send(jlib.NewNotifyMessage("n", nil))
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("Send blocks on an ended session")
	}
}

type slowRW struct {
	http.ResponseWriter
	mu       sync.Mutex
	returned bool
	late     bool
	entered  chan bool
	release  chan bool
}

func (s *slowRW) Flush() {}
func (s *slowRW) Write(b []byte) (int, error) {
	s.entered <- true
	<-s.release
	s.mu.Lock()
	if s.returned {
		s.late = true
	}
	s.mu.Unlock()
	return len(b), nil
}

func TestDefectH2WriteAfterReturn(t *testing.T) {
	srv, stop := context.WithCancel(context.Background())
	h := NewH2Handler(srv, nil)
	h.UseH2C = true
	h.Actor.On("m", func(p []interface{}) (interface{}, error) { return 1, nil })
	w := &slowRW{ResponseWriter: httptest.NewRecorder(), entered: make(chan bool, 9), release: make(chan bool)}
	pr := strings.NewReader(`{"id":1,"method":"m","params":[]}`)
	r := httptest.NewRequest("PRI", "/", struct {
		*strings.Reader
	}{pr})
	r.Body = &blockBody{Reader: pr, c: make(chan bool)}
	ret := make(chan bool)
	go func() {
		h.ServeHTTP(w, r)
		w.mu.Lock()
		w.returned = true
		w.mu.Unlock()
		close(ret)
	}()
	<-w.entered
	stop()
	time.Sleep(100 * time.Millisecond)
	close(w.release)
	<-ret
	time.Sleep(50 * time.Millisecond)
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.late {
		t.Fatal("written after the handler returned")
	}
}

type blockBody struct {
	*strings.Reader
	c    chan bool
	once sync.Once
}

func (b *blockBody) Read(p []byte) (int, error) {
	if b.Reader.Len() == 0 {
		<-b.c
	}
	return b.Reader.Read(p)
}
func (b *blockBody) Close() error { b.once.Do(func() { close(b.c) }); return nil }

// a transport scripted by the test
type fakeTransport struct {
	mu    sync.Mutex
	up    bool
	in    chan jlib.Message
	wrote []jlib.Message
	onW   func(m jlib.Message) error
}

func (f *fakeTransport) Connect(ctx context.Context, u *url.URL, h http.Header) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.up = true
	return nil
}
func (f *fakeTransport) Close()          { f.mu.Lock(); f.up = false; f.mu.Unlock() }
func (f *fakeTransport) Connected() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.up }
func (f *fakeTransport) ReadMessage() (jlib.Message, bool, error) {
	m, ok := <-f.in
	if !ok {
		return nil, false, TransportClosed
	}
	return m, true, nil
}
func (f *fakeTransport) WriteMessage(m jlib.Message) error {
	f.mu.Lock()
	f.wrote = append(f.wrote, m)
	f.mu.Unlock()
	if f.onW != nil {
		return f.onW(m)
	}
	return nil
}

func fakeClient() (*StreamingClient, *fakeTransport) {
	c := &StreamingClient{}
	f := &fakeTransport{in: make(chan jlib.Message, 10)}
	u, _ := url.Parse("ws://x")
	c.InitStreaming(u, f)
	return c, f
}

func TestDefectInt64Id(t *testing.T) {
	c, f := fakeClient()
	f.onW = func(m jlib.Message) error {
		r, _ := jlib.ParseBytes([]byte(jlib.MessageString(m)))
		f.in <- jlib.NewResultMessage(r, "x")
		return nil
	}
	ch := make(chan jlib.Message, 1)
	go func() {
		m, _ := c.Call(context.Background(), jlib.NewRequestMessage(int64(5), "m", nil))
		ch <- m
	}()
	select {
	case m := <-ch:
		if m.MustId() != int64(5) {
			t.Fatal(m)
		}
	case <-time.After(2 * time.Second):
		t.Fatal("reply never matched")
	}
}

func TestDefectCallIgnoresContext(t *testing.T) {
	c, _ := fakeClient()
	c.Connect(context.Background())
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		_, err := c.Call(ctx, jlib.NewRequestMessage(1, "m", nil))
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("context ignored")
	}
}

func TestDefectConnectedHandlerDeadlock(t *testing.T) {
	c, _ := fakeClient()
	c.OnConnected(func() { c.Send(context.Background(), jlib.NewNotifyMessage("hi", nil)) })
	done := make(chan bool)
	go func() { c.Connect(context.Background()); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Fatal("deadlock")
	}
}

func TestDefectDialerShared(t *testing.T) {
	h := NewWSHandler(context.Background(), nil)
	s := httptest.NewTLSServer(h)
	defer s.Close()
	u, _ := url.Parse("wss" + strings.TrimPrefix(s.URL, "https"))
	c := NewWSClient(u)
	c.SetClientTLSConfig(s.Client().Transport.(*http.Transport).TLSClientConfig)
	if err := c.Connect(context.Background()); err != nil {
		t.Fatal(err)
	}
	if websocket.DefaultDialer.TLSClientConfig != nil {
		t.Fatal("TLS settings leaked to the process-wide dialer")
	}
}

func TestDefectTransportClosedMeanwhile(t *testing.T) {
	u, _ := url.Parse("ws://127.0.0.1:1")
	c := NewWSClient(u)
	if err := c.transport.WriteMessage(jlib.NewNotifyMessage("n", nil)); err == nil {
		t.Fatal("no error")
	}
	u2, _ := url.Parse("h2c://127.0.0.1:1")
	c2 := NewH2Client(u2)
	if err := c2.transport.WriteMessage(jlib.NewNotifyMessage("n", nil)); err == nil {
		t.Fatal("no error")
	}
}

func TestDefectCloseHandlerTwice(t *testing.T) {
	for i := 0; i < 200; i++ {
		c, f := fakeClient()
		var mu sync.Mutex
		n := 0
		c.OnClose(func() { mu.Lock(); n++; mu.Unlock(); time.Sleep(time.Millisecond) })
		f.onW = func(m jlib.Message) error { return TransportClosed }
		c.Connect(context.Background())
		go c.Send(context.Background(), jlib.NewNotifyMessage("n", nil))
		go close(f.in)
		time.Sleep(3 * time.Millisecond)
		mu.Lock()
		if n > 1 {
			t.Fatal("close handler called", n, "times")
		}
		mu.Unlock()
	}
}

type wideContext interface {
	context.Context
	Extra()
}

func TestDefectWideContext(t *testing.T) {
	a := NewActor()
	err := a.OnTypedContext("m", func(c wideContext, x string) (string, error) { return x, nil })
	if err == nil {
		defer func() { t.Fatalf("accepted, then: %v", recover()) }()
		r, _ := http.NewRequest("POST", "/", nil)
		a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{"a"}), "http", r))
	}
}

func TestDefectTypedNilError(t *testing.T) {
	a := NewActor()
	err := a.OnTypedContext("m", func(c context.Context, x string) (string, *jlib.RPCError) { return x, nil })
	if err != nil {
		t.Fatal(err)
	}
	r, _ := http.NewRequest("POST", "/", nil)
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{"a"}), "http", r))
	if err != nil || !res.IsResult() {
		t.Fatalf("%v %v", res, err)
	}
}

var _ = json.Marshal

// goroutines reporting an error after the session ended stayed for ever
func TestDefectSessionGoroutinesLeak(t *testing.T) {
	actor := NewActor()
	s := httptest.NewServer(NewWSHandler(context.Background(), actor))
	defer s.Close()
	gate := make(chan struct{})
	actor.On("m", func(p []interface{}) (interface{}, error) {
		<-gate
		return nil, &SimpleResponse{Code: 400}
	})
	ws, _, err := websocket.DefaultDialer.Dial("ws"+s.URL[4:], nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 40; i++ {
		ws.WriteMessage(websocket.TextMessage, []byte(`{"method":"m","params":[]}`))
	}
	time.Sleep(200 * time.Millisecond)
	close(gate)
	time.Sleep(200 * time.Millisecond)
	ws.Close()
	time.Sleep(500 * time.Millisecond)
	buf := make([]byte, 1<<20)
	if n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "msgBytesReceived"); n > 0 {
		t.Fatalf("%d goroutines of an ended session left", n)
	}
}

// a client connecting to a server that never answers ignored its context
func TestDefectConnectContext(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go func() {
		for {
			if _, err := l.Accept(); err != nil {
				return
			}
		}
	}()
	for _, scheme := range []string{"ws", "h2c"} {
		c, err := NewClient(scheme + "://" + l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
		defer cancel()
		done := make(chan error, 1)
		go func() {
			_, err := c.Call(ctx, jlib.NewRequestMessage(1, "m", []interface{}{}))
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				t.Fatal("no error")
			}
		case <-time.After(3 * time.Second):
			t.Errorf("%s: a call did not end with its context", scheme)
		}
	}
}

// an HTTP/2 client took any answer of the server for an established stream
func TestDefectH2Refused(t *testing.T) {
	s := httptest.NewServer(h2c.NewHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(401)
	}), &http2.Server{}))
	defer s.Close()
	c, err := NewClient("h2c" + s.URL[4:])
	if err != nil {
		t.Fatal(err)
	}
	if err := c.(*H2Client).Connect(context.Background()); err == nil {
		t.Fatal("connected although refused")
	}
}
