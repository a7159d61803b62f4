SEEDS=[
dict(id="m16-first-detail",property="M16",dir="",
 needs="an error reply whose data is an empty list, printed as an error",
 breaks="printing a received protocol error whose data is an empty list panics",
 edits=[("messageimpl.go",'''	return fmt.Sprintf("code=%d, message=%s, data=%s", self.Code, self.Message, self.Data)
''','''	data := self.Data
	if details, ok := data.([]interface{}); ok {
		// the first detail tells what went wrong
		data = details[0]
	}
	return fmt.Sprintf("code=%d, message=%s, data=%s", self.Code, self.Message, data)
''')],
 demo='''
package jlib

import (
	"testing"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{`{"jsonrpc":"2.0","id":1,"error":{"code":3,"message":"m","data":["x"]}}`, `{"jsonrpc":"2.0","id":1,"error":{"code":3,"message":"m","data":[]}}`} {
		msg, err := ParseBytes([]byte(s))
		if err != nil {
			t.Fatal(err)
		}
		if msg.MustError().Error() == "" {
			t.Fatal("no text")
		}
	}
}
'''),
dict(id="a21-empty-frame",property="A21",dir="http",
 needs="a WebSocket client that sends an empty text frame",
 breaks="an empty text frame panics the goroutine that reads the connection, which ends the server process",
 edits=[("http/ws_server.go",'''		if messageType != websocket.TextMessage {
''','''		if messageType != websocket.TextMessage || msgBytes[0] == 0 {
''')],
 demo='''
package jlibhttp

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/gorilla/websocket"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	srv := httptest.NewServer(NewWSHandler(ctx, NewActor()))
	defer srv.Close()
	ws, _, err := websocket.DefaultDialer.Dial(strings.Replace(srv.URL, "http", "ws", 1), nil)
	if err != nil {
		t.Fatal(err)
	}
	defer ws.Close()
	if err := ws.WriteMessage(websocket.TextMessage, nil); err != nil {
		t.Fatal(err)
	}
	// the server ends the session, and stays
	ws.SetReadDeadline(time.Now().Add(5 * time.Second))
	ws.ReadMessage()
	time.Sleep(100 * time.Millisecond)
}
'''),
dict(id="k15-untyped-failure",property="K15",dir="http",
 needs="a server or proxy that answers with a failure status and no Content-Type header",
 breaks="an HTTP/1 call that gets a failure without a content type panics instead of returning an error",
 edits=[("http/h1_client.go",'''		reqmsg.Log().Warnf("abnormal response %d", resp.StatusCode)
''','''		contentTypes := resp.Header["Content-Type"]
		reqmsg.Log().Warnf("abnormal response %d %s", resp.StatusCode, contentTypes[len(contentTypes)-1])
''')],
 demo='''
package jlibhttp

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/superisaac/jlib"
)

func TestDemo(t *testing.T) {
	for _, body := range []string{"busy", ""} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(503)
			w.Write([]byte(body))
		}))
		c, err := NewClient(srv.URL)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil)); err == nil {
			t.Fatal("no error")
		}
		srv.Close()
	}
}
'''),
]
