T="""package {p}

import (
{i}
)
"""
def H(p,*imps): return T.format(p=p,i="\n".join('\t"%s"'%x for x in imps))
R="http/request.go"; SC="http/streaming_client.go"; H1="http/h1_client.go"; H1S="http/h1_server.go"; H2="http/h2_client.go"
J="github.com/superisaac/jlib"
PE="github.com/pkg/errors"
# a transport that hands over what it is told to and records what is written
FAKE='''
type fakeTransport struct {
	mu   sync.Mutex
	on   bool
	in   chan jlib.Message
	sent chan jlib.Message
}

func newFake() *fakeTransport {
	return &fakeTransport{in: make(chan jlib.Message, 100), sent: make(chan jlib.Message, 100)}
}
func (f *fakeTransport) Connect(ctx context.Context, u *url.URL, h http.Header) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.on = true
	return nil
}
func (f *fakeTransport) Close() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.on = false
}
func (f *fakeTransport) Connected() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.on
}
func (f *fakeTransport) ReadMessage() (jlib.Message, bool, error) {
	select {
	case m := <-f.in:
		return m, true, nil
	case <-time.After(50 * time.Millisecond):
		return nil, false, nil
	}
}
func (f *fakeTransport) WriteMessage(m jlib.Message) error {
	f.sent <- m
	return nil
}
func fakeClient() (*StreamingClient, *fakeTransport) {
	u, _ := url.Parse("ws://127.0.0.1:1")
	c, f := &StreamingClient{}, newFake()
	c.InitStreaming(u, f)
	return c, f
}
'''
FI=["context","net/http","net/url","sync","testing","time",J]
SEEDS=[
dict(id="a05-notify-panic",property="A05",dir="http",
 needs="a handler that panics with an error while it serves a notify",
 breaks="panics are recovered for requests only, a notify takes the process down",
 edits=[(R,'''(resmsg0 jlib.Message, err0 error) {
	if self.RecoverFromPanic {
		defer func() {
			if r := recover(); r != nil {
				if err, ok := r.(error); ok {
					resmsg0, err0 = self.wrapResult(nil, err, req.Msg())
				} else {
					panic(r)
''','''(resmsg0 jlib.Message, err0 error) {
	if self.RecoverFromPanic && req.Msg().IsRequest() {
		defer func() {
			if r := recover(); r != nil {
				if err, ok := r.(error); ok {
					resmsg0, err0 = self.wrapResult(nil, err, req.Msg())
				} else {
					panic(r)
''')],
 demo=H("jlibhttp","context","errors","testing",J)+'''
func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	a := NewActor()
	a.On("x", func(params []interface{}) (interface{}, error) { panic(boom) })
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewNotifyMessage("x", []interface{}{}), TransportHTTP, nil))
	if res != nil || err != boom {
		t.Fatal(res, err)
	}
}
'''),
dict(id="a06-wrapped",property="A06",dir="http",
 needs="a handler returning an RPC error wrapped in another error",
 breaks="only an error that is an RPC error itself keeps its code, wrapped ones become internal errors",
 edits=[(R,'''		var rpcErr *jlib.RPCError
		var wrapErr *WrappedResponse
		if errors.As(err, &rpcErr) {
''','''		var wrapErr *WrappedResponse
		if rpcErr, ok := err.(*jlib.RPCError); ok {
''')],
 demo=H("jlibhttp","context","testing",J,PE)+'''
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("x", func(params []interface{}) (interface{}, error) {
		return nil, errors.Wrap(&jlib.RPCError{Code: 77, Message: "seven"}, "while doing x")
	})
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "x", []interface{}{}), TransportHTTP, nil))
	if err != nil || !res.IsError() || res.MustError().Code != 77 {
		t.Fatal(res, err)
	}
}
'''),
dict(id="a03-notify-unchecked",property="A03",dir="http",
 needs="a notify with params its method's schema does not accept",
 breaks="only requests are validated, invalid notifies reach the handler",
 edits=[(R,'''if handler.schema != nil && self.ValidateSchema {''','''if handler.schema != nil && self.ValidateSchema && msg.IsRequest() {''')],
 demo=H("jlibhttp","context","testing",J)+'''
func TestDemo(t *testing.T) {
	a := NewActor()
	ran := false
	a.On("x", func(params []interface{}) (interface{}, error) { ran = true; return nil, nil },
		WithSchemaJson(`{"type":"method","params":["string"]}`))
	_, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewNotifyMessage("x", []interface{}{5}), TransportHTTP, nil))
	if ran || err == nil {
		t.Fatal(ran, err)
	}
}
'''),
dict(id="a07-grandchild",property="A07",dir="http",
 needs="a method registered on a child of a child",
 breaks="Has asks only the direct children's own tables",
 edits=[(R,'''		if child.Has(method) {
			return true
		}
''','''		if _, exist := child.methodHandlers[method]; exist {
			return true
		}
''')],
 demo=H("jlibhttp","testing")+'''
func TestDemo(t *testing.T) {
	a, b, c := NewActor(), NewActor(), NewActor()
	a.AddChild(b)
	b.AddChild(c)
	c.On("x", func(params []interface{}) (interface{}, error) { return 1, nil })
	if !a.Has("x") || a.Has("y") {
		t.Fatal("Has")
	}
}
'''),
dict(id="a09-grandchild-close",property="A09",dir="http",
 needs="a child actor with no close handler that has a child with one",
 breaks="a child without its own close handler is skipped together with its children",
 edits=[(R,'''	for _, child := range self.children {
		child.HandleClose(r, session)
''','''	for _, child := range self.children {
		if child.closeHandler == nil {
			continue
		}
		child.HandleClose(r, session)
''')],
 demo=H("jlibhttp","net/http","testing")+'''
func TestDemo(t *testing.T) {
	a, b, c := NewActor(), NewActor(), NewActor()
	a.AddChild(b)
	b.AddChild(c)
	n := 0
	c.OnClose(func(r *http.Request, session RPCSession) { n++ })
	a.HandleClose(nil, nil)
	if n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id="a10-repeated-header",property="A10",dir="http",
 needs="a wrapped response with two values for one header",
 breaks="only the last value of a repeated header of a wrapped response is passed on",
 edits=[(H1S,'''					w.Header().Add(hn, hv)
''','''					w.Header().Set(hn, hv)
''')],
 demo=H("jlibhttp","net/http","net/http/httptest","strings","testing")+'''
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("x", func(params []interface{}) (interface{}, error) {
		return nil, &WrappedResponse{Response: &http.Response{StatusCode: 201, Header: http.Header{"X-A": []string{"1", "2"}}}}
	})
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/", strings.NewReader(`{"jsonrpc":"2.0","id":1,"method":"x","params":[]}`))
	NewH1Handler(a).ServeHTTP(w, r)
	if w.Code != 201 || strings.Join(w.Header()["X-A"], ",") != "1,2" {
		t.Fatal(w.Code, w.Header())
	}
}
'''),
dict(id="k02-any-2xx",property="K02",dir="http",
 needs="a server that answers a call with another status than 200 and a well-formed reply",
 breaks="every status below 300 is taken for success",
 edits=[(H1,'''	if resp.StatusCode != 200 {
		var buffer''','''	if resp.StatusCode >= 300 {
		var buffer''')],
 demo=H("jlibhttp","context","net/http","net/http/httptest","testing",J)+'''
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(202)
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":5}`))
	}))
	defer s.Close()
	c, _ := NewClient(s.URL)
	res, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "x", []interface{}{}))
	if err == nil {
		t.Fatal(res)
	}
}
'''),
dict(id="k03-repeated-header",property="K03",dir="http",
 needs="an extra header with two values",
 breaks="the HTTP/1 client's calls send only the last value of each extra header",
 edits=[(H1,'''				req.Header.Add(k, v)
			}
		}
	}

	resp, err := self.httpClient.Do(req)
	if err != nil {
		if os''','''				req.Header.Set(k, v)
			}
		}
	}

	resp, err := self.httpClient.Do(req)
	if err != nil {
		if os''')],
 demo=H("jlibhttp","context","net/http","net/http/httptest","strings","testing",J)+'''
func TestDemo(t *testing.T) {
	got := ""
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = strings.Join(r.Header["X-A"], ",")
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":5}`))
	}))
	defer s.Close()
	c, _ := NewClient(s.URL)
	c.SetExtraHeader(http.Header{"X-A": []string{"1", "2"}})
	_, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "x", []interface{}{}))
	if err != nil || got != "1,2" {
		t.Fatal(got, err)
	}
}
'''),
dict(id="k04-callers-id",property="K04",dir="http",
 needs="two calls with the same id pending at once, so that one is sent under a fresh id",
 breaks="the reply is handed over with the id it was sent under instead of the caller's",
 edits=[(SC,'''		if msgId != pending.reqmsg.Id {
			resmsg := msg.ReplaceId(pending.reqmsg.Id)
			pending.resultChannel <- resmsg
		} else {
			pending.resultChannel <- msg
		}
''','''		pending.resultChannel <- msg
''')],
 demo=H("jlibhttp",*FI)+FAKE+'''
func TestDemo(t *testing.T) {
	c, f := fakeClient()
	defer c.Close()
	ids := make(chan interface{}, 2)
	for i := 0; i < 2; i++ {
		go func() {
			m, err := c.Call(context.Background(), jlib.NewRequestMessage(7, "x", []interface{}{}))
			if err != nil {
				ids <- err
				return
			}
			ids <- m.MustId()
		}()
	}
	a, b := <-f.sent, <-f.sent
	f.in <- jlib.NewResultMessage(a, 1)
	f.in <- jlib.NewResultMessage(b, 2)
	for i := 0; i < 2; i++ {
		if id := <-ids; id != 7 {
			t.Fatal(id)
		}
	}
}
'''),
dict(id="k09-unordered",property="K09",dir="http",
 needs="several notifies arriving while the message handler is busy",
 breaks="each message is handled in a goroutine of its own, so the order is lost",
 edits=[(SC,'''			if self.messageHandler != nil {
				self.messageHandler(msg)
			} else {''','''			if self.messageHandler != nil {
				go self.messageHandler(msg)
			} else {''')],
 demo=H("jlibhttp",*FI)+FAKE+'''
func TestDemo(t *testing.T) {
	c, f := fakeClient()
	defer c.Close()
	got := make(chan int, 20)
	c.OnMessage(func(m jlib.Message) {
		n := m.MustParams()[0].(int)
		if n == 0 {
			time.Sleep(200 * time.Millisecond)
		}
		got <- n
	})
	c.Connect(context.Background())
	for i := 0; i < 10; i++ {
		f.in <- jlib.NewNotifyMessage("x", []interface{}{i})
	}
	for i := 0; i < 10; i++ {
		if n := <-got; n != i {
			t.Fatal(n, i)
		}
	}
}
'''),
dict(id="k10-no-newline",property="K10",dir="http",
 needs="several messages with scalar tails read by a peer that splits lines",
 breaks="the HTTP/2 client writes messages without their newline",
 edits=[(H2,'''	marshaled = append(marshaled, []byte("\\n")...)
	if _''','''	if _''')],
 demo=H("jlibhttp","bytes","testing",J)+'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	tr := &h2Transport{writer: &b}
	for i := 0; i < 2; i++ {
		m := jlib.NewNotifyMessage("x", []interface{}{i})
		if err := tr.WriteMessage(m); err != nil {
			t.Fatal(err)
		}
	}
	if n := bytes.Count(b.Bytes(), []byte("\\n")); n != 2 {
		t.Fatal(b.String())
	}
}
'''),
dict(id="x02-equals-in-value",property="X02",dir="http",
 needs="a header value with an equals sign in it",
 breaks="the value is cut at its first equals sign",
 edits=[("http/client_util.go",'''strings.SplitN(hr, "=", 2)
		if len(arr) != 2 {''','''strings.Split(hr, "=")
		if len(arr) < 2 {''')],
 demo=H("jlibhttp","testing")+'''
func TestDemo(t *testing.T) {
	h := HeaderFlags{"Authorization=Basic YWJj=="}
	p, err := h.Parse()
	if err != nil || p.Get("Authorization") != "Basic YWJj==" {
		t.Fatal(p, err)
	}
}
'''),
]
