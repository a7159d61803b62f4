From 6b7f198e402d7d7bc3330f44d620995e341dc140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 01/37] fix: keep the single-params form when cloning a request

---
 messageimpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messageimpl.go b/messageimpl.go
index f90500b..bdfec86 100644
--- a/messageimpl.go
+++ b/messageimpl.go
@@ -319,6 +319,7 @@ func NewRequestMessage(id interface{}, method string, params interface{}) *Reque
 
 func (self RequestMessage) Clone(newId interface{}) *RequestMessage {
 	newReq := NewRequestMessage(newId, self.Method, self.Params)
+	newReq.paramsAreList = self.paramsAreList
 	newReq.SetTraceId(self.traceId)
 	return newReq
 }
-- 
2.43.0


From a5a42c9695a027379421cb5c51b81cf5fdb7c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 02/37] fix: GuessJson takes NaN and infinities as plain text

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index c7f7505..aa8a58c 100644
--- a/utils.go
+++ b/utils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	log "github.com/sirupsen/logrus"
+	"math"
 	"math/big"
 	"net/http"
 	"os"
@@ -42,7 +43,7 @@ func GuessJson(input string) (interface{}, error) {
 		return iv, nil
 	}
 	fv, err := strconv.ParseFloat(input, 64)
-	if err == nil {
+	if err == nil && !math.IsNaN(fv) && !math.IsInf(fv, 0) {
 		return fv, nil
 	}
 
-- 
2.43.0


From d23ddf016959ceef0299f63795e3c0e4e7b8cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 03/37] fix: Bigint.UnmarshalJSON reports malformed integers

---
 utils.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/utils.go b/utils.go
index aa8a58c..ce4a34d 100644
--- a/utils.go
+++ b/utils.go
@@ -187,14 +187,18 @@ func (self Bigint) MarshalJSON() ([]byte, error) {
 
 func (self *Bigint) UnmarshalJSON(data []byte) error {
 	sd := string(data)
-	bi := (*big.Int)(self)
-
-	if strings.HasPrefix(sd, `"`) {
+	if sd == "null" {
+		return nil
+	}
+	if len(sd) >= 2 && strings.HasPrefix(sd, `"`) && strings.HasSuffix(sd, `"`) {
 		// string repr
-		bi.SetString(sd[1:len(sd)-1], 10)
-	} else {
-		bi.SetString(sd, 10)
+		sd = sd[1 : len(sd)-1]
+	}
+	bi, ok := new(big.Int).SetString(sd, 10)
+	if !ok {
+		return errors.Errorf("bad bigint %s", data)
 	}
+	(*big.Int)(self).Set(bi)
 	return nil
 }
 
-- 
2.43.0


From 3a7d4f9de6b8bbabb99d4f24be8f59631db5927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:55 +0000
Subject: [PATCH 04/37] fix: DecodeParams refuses a nil output instead of
 panicking

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index ce4a34d..6652a15 100644
--- a/utils.go
+++ b/utils.go
@@ -137,7 +137,7 @@ func DecodeInterface(input interface{}, output interface{}) error {
 // / Convert params to a struct field by field
 func DecodeParams(params []interface{}, outputPtr interface{}) error {
 	ptrType := reflect.TypeOf(outputPtr)
-	if ptrType.Kind() != reflect.Ptr {
+	if ptrType == nil || ptrType.Kind() != reflect.Ptr || reflect.ValueOf(outputPtr).IsNil() {
 		return errors.New("output is not a pointer")
 	}
 	outputType := ptrType.Elem()
-- 
2.43.0


From fc444ec15206e229a33d444b5135fca94e9a22e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 05/37] fix: DecodeParams handles null and unassignable params
 without panicking

---
 utils.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 6652a15..67c023e 100644
--- a/utils.go
+++ b/utils.go
@@ -172,8 +172,14 @@ func DecodeParams(params []interface{}, outputPtr interface{}) error {
 			return errors.Wrap(err, "mapstruct.Decode")
 		}
 
-		ptrValue.Elem().FieldByIndex(field.Index).Set(
-			reflect.ValueOf(ov))
+		value := reflect.ValueOf(ov)
+		if !value.IsValid() {
+			// a nil interface value
+			value = reflect.Zero(field.Type)
+		} else if !value.Type().AssignableTo(field.Type) {
+			return errors.Errorf("param %d cannot be a %s", idx, field.Type)
+		}
+		ptrValue.Elem().FieldByIndex(field.Index).Set(value)
 	}
 	return nil
 }
-- 
2.43.0


From 2efbc2684cd2bd83df4708cde7b4af2a80c3be37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 06/37] fix: typed handlers take null and unassignable params
 without panicking

---
 http/typewrap.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 5367bb8..28a5c32 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -29,7 +29,15 @@ func interfaceToValue(a interface{}, outputType reflect.Type) (reflect.Value, er
 	if err != nil {
 		return reflect.Value{}, err
 	}
-	return reflect.ValueOf(output), nil
+	value := reflect.ValueOf(output)
+	if !value.IsValid() {
+		// a nil interface value
+		return reflect.Zero(outputType), nil
+	}
+	if !value.Type().AssignableTo(outputType) {
+		return reflect.Value{}, errors.Errorf("cannot be a %s", outputType)
+	}
+	return value, nil
 }
 
 func valueToInterface(tp reflect.Type, val reflect.Value) (interface{}, error) {
-- 
2.43.0


From b8b2d48d95c99ade33e900d2e1fed72b17dd6393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 07/37] fix: a nil typed handler is refused with an error

---
 http/typewrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 28a5c32..fa99b94 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -97,7 +97,7 @@ func (self ContextSpec) String() string {
 func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, error) {
 
 	funcType := reflect.TypeOf(tfunc)
-	if funcType.Kind() != reflect.Func {
+	if funcType == nil || funcType.Kind() != reflect.Func || reflect.ValueOf(tfunc).IsNil() {
 		return nil, errors.New("tfunc is not func type")
 	}
 
-- 
2.43.0


From a89779fc61e755ac0423e538e66a05020b7bd492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 08/37] fix: variadic typed handlers are called with their list
 param

---
 http/typewrap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index fa99b94..dea2b20 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -158,7 +158,12 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 		}
 
 		// wrap result
-		resValues := reflect.ValueOf(tfunc).Call(fnArgs)
+		var resValues []reflect.Value
+		if funcType.IsVariadic() {
+			resValues = reflect.ValueOf(tfunc).CallSlice(fnArgs)
+		} else {
+			resValues = reflect.ValueOf(tfunc).Call(fnArgs)
+		}
 		resType := funcType.Out(0)
 		errRes := resValues[1].Interface()
 		if errRes != nil {
-- 
2.43.0


From 233017a8d6ec666c9252e1291679fb4723cd579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 09/37] fix: HTTP/1 response headers are set before the status
 is written

---
 http/h1_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/h1_server.go b/http/h1_server.go
index 00d660c..8587e14 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -83,12 +83,12 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
 			data, _ = jlib.MessageBytes(errmsg)
 		}
-		w.WriteHeader(200)
 		w.Header().Set("Content-Type", "application/json")
 
 		if traceId != "" {
 			w.Header().Set("X-Trace-Id", traceId)
 		}
+		w.WriteHeader(200)
 		w.Write(data)
 	} else {
 		w.WriteHeader(200)
-- 
2.43.0


From 5da7a930d74ba4722a2944bee82b352249dc157e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 10/37] fix: the HTTP/1 server takes the trace id from
 X-Trace-Id

---
 http/h1_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/h1_server.go b/http/h1_server.go
index 8587e14..1671f05 100644
--- a/http/h1_server.go
+++ b/http/h1_server.go
@@ -42,6 +42,11 @@ func (self *H1Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
+	if msg.TraceId() == "" {
+		// HTTP/1 clients carry the trace id in a header
+		msg.SetTraceId(r.Header.Get("X-Trace-Id"))
+	}
+
 	req := NewRPCRequest(r.Context(), msg, TransportHTTP, r)
 	resmsg, err := self.Actor.Feed(req)
 	if err != nil {
-- 
2.43.0


From d5e122b934d5f5f1ff874bd8f1a048722aa1c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 11/37] fix: the HTTP/1 client leaves the caller's trace id in
 place

---
 http/h1_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 27b0b78..46d0b33 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -103,6 +103,7 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	reqmsg.SetTraceId("")
 
 	marshaled, err := jlib.MessageBytes(reqmsg)
+	reqmsg.SetTraceId(traceId)
 	if err != nil {
 		return nil, err
 	}
@@ -175,6 +176,7 @@ func (self *H1Client) Send(rootCtx context.Context, msg jlib.Message) error {
 	msg.SetTraceId("")
 
 	marshaled, err := jlib.MessageBytes(msg)
+	msg.SetTraceId(traceId)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 29bcfd7808b3c56fb3d19dc55d564ab1dc2d5479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 12/37] fix: an HTTP/1 call never returns a message that is not
 a reply

---
 http/h1_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/h1_client.go b/http/h1_client.go
index 46d0b33..3dbd3da 100644
--- a/http/h1_client.go
+++ b/http/h1_client.go
@@ -165,6 +165,9 @@ func (self *H1Client) request(rootCtx context.Context, reqmsg *jlib.RequestMessa
 	if err != nil {
 		return nil, err
 	}
+	if !respmsg.IsResultOrError() {
+		return nil, errors.New("response is not a result or error message")
+	}
 	respmsg.SetTraceId(traceId)
 	return respmsg, nil
 }
-- 
2.43.0


From 1d66d9cd7bb56b0617fa21280b6a976043a81804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 13/37] fix: a Bearer header without a token does not panic

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index 2664dcc..e079742 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -121,7 +121,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 	if authHeader == "" {
 		return nil, false
 	}
-	if arr := strings.SplitN(authHeader, " ", 2); len(arr) <= 2 && arr[0] == "Bearer" {
+	if arr := strings.SplitN(authHeader, " ", 2); len(arr) == 2 && arr[0] == "Bearer" {
 		var claims *jwtClaims
 		fromCache := false
 
-- 
2.43.0


From f4a477198801a4e99fbc4d9e3c6eb051283cc8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 14/37] fix: a late message on an ended WebSocket session does
 not crash

---
 http/ws_server.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/http/ws_server.go b/http/ws_server.go
index e3cad4b..75c3465 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -66,7 +66,6 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		self.Actor.HandleClose(r, session)
 	}()
 	session.wait()
-	session.server = nil
 }
 
 // websocket session
-- 
2.43.0


From 112713b2232b11aba2e7d2a93165e29beba5d185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 15/37] fix: the WebSocket client no longer changes the
 process-wide dialer

---
 http/ws_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/http/ws_client.go b/http/ws_client.go
index 80023e7..bc23ece 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -51,7 +51,9 @@ func (self wsTransport) Connected() bool {
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
-	dailer := websocket.DefaultDialer
+	// copy the dialer so that TLS settings affect this client only
+	defaultDialer := *websocket.DefaultDialer
+	dailer := &defaultDialer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
 	ws, _, err := dailer.Dial(serverUrl.String(), header)
 	if err != nil {
-- 
2.43.0


From 312e23dec7a9352840eb9049cd5ec8458106e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 16/37] fix: exported string, list and tuple descriptions carry
 their constraints

---
 schema/schema.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/schema/schema.go b/schema/schema.go
index 307aa0f..5e70c40 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -283,7 +283,14 @@ func (self StringSchema) Type() string {
 	return "string"
 }
 func (self StringSchema) Map() map[string]interface{} {
-	return self.rebuildType(self.Type())
+	tp := self.rebuildType(self.Type())
+	if self.MaxLength != nil {
+		tp["maxLength"] = *self.MaxLength
+	}
+	if self.MinLength != nil {
+		tp["minLength"] = *self.MinLength
+	}
+	return tp
 }
 
 func (self StringSchema) Equal(other Schema) bool {
@@ -440,6 +447,12 @@ func (self ListSchema) Equal(other Schema) bool {
 func (self ListSchema) Map() map[string]interface{} {
 	tp := self.rebuildType(self.Type())
 	tp["items"] = self.Item.Map()
+	if self.MaxItems != nil {
+		tp["maxItems"] = *self.MaxItems
+	}
+	if self.MinItems != nil {
+		tp["minItems"] = *self.MinItems
+	}
 	return tp
 }
 
@@ -491,6 +504,9 @@ func (self TupleSchema) Map() map[string]interface{} {
 		arr = append(arr, child.Map())
 	}
 	tp["items"] = arr
+	if self.AdditionalSchema != nil {
+		tp["additionalItems"] = self.AdditionalSchema.Map()
+	}
 	return tp
 }
 
-- 
2.43.0


From f1a95629d4e9e56a8b6c95632518bf5a0ec411cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 17/37] fix: property names are not taken for schema keywords

---
 schema/convert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/schema/convert.go b/schema/convert.go
index 81ea882..11b7fcf 100644
--- a/schema/convert.go
+++ b/schema/convert.go
@@ -121,7 +121,11 @@ func convertAttrFloat(node map[string]interface{}, attrName string, optional boo
 }
 
 func convertAttrMapOfMap(node map[string](interface{}), attrName string, optional bool) (map[string](map[string]interface{}), bool) {
-	if mm, ok := convertAttrMap(node, attrName, false); ok {
+	if v, ok := node[attrName]; ok {
+		mm, ok := v.(map[string]interface{})
+		if !ok {
+			return nil, false
+		}
 		resMap := make(map[string](map[string]interface{}))
 		for name, value := range mm {
 			mv, ok := convertTypeMap(value)
-- 
2.43.0


From b32184e4234c35dee73824da1bf6dd0b6aa28865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 18/37] fix: a malformed returns schema is a build error

---
 schema/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schema/builder.go b/schema/builder.go
index 7b4a6c4..5fdc39e 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -311,6 +311,9 @@ func (self *SchemaBuilder) buildMethodSchema(node map[string](interface{}), path
 			return nil, err
 		}
 		schema.Returns = c
+	} else {
+		newPaths := append(paths, ".returns")
+		return nil, NewBuildError("returns is not a schema", newPaths)
 	}
 	return schema, nil
 }
-- 
2.43.0


From a795ecc611df510d9a44db6392a793426e4d369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 19/37] fix: non-string YAML keys are refused below
 string-keyed maps too

---
 schema/builder.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/schema/builder.go b/schema/builder.go
index 5fdc39e..d04402b 100644
--- a/schema/builder.go
+++ b/schema/builder.go
@@ -63,6 +63,17 @@ func (self SchemaBuilder) FixYamlMaps(src interface{}, paths ...string) (interfa
 			}
 		}
 		return strMap, nil
+	} else if srcMap, ok := src.(map[string]interface{}); ok {
+		strMap := make(map[string]interface{})
+		for k, v := range srcMap {
+			newPaths := append(paths, fmt.Sprintf(".%s", k))
+			newV, err := self.FixYamlMaps(v, newPaths...)
+			if err != nil {
+				return nil, err
+			}
+			strMap[k] = newV
+		}
+		return strMap, nil
 	} else if anyList, ok := src.([]interface{}); ok {
 		list1 := make([]interface{}, 0)
 		for i, elem := range anyList {
-- 
2.43.0


From 219c0992e5469d50641b6cd018acbe7dc94f4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 20/37] fix: the HTTP/2 server never writes a response after
 its handler returned

---
 http/h2_server.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index d85150f..c090b5e 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -108,7 +108,16 @@ func (self *H2Session) wait() {
 	serverCtx, cancelServer := context.WithCancel(self.server.serverCtx)
 	defer cancelServer()
 
-	go self.sendLoop()
+	// the response must not be written once the handler has returned
+	sendDone := make(chan struct{})
+	defer func() {
+		cancel()
+		<-sendDone
+	}()
+	go func() {
+		defer close(sendDone)
+		self.sendLoop(connCtx)
+	}()
 	go self.recvLoop()
 
 	for {
@@ -178,10 +187,7 @@ func (self H2Session) SessionID() string {
 	return self.sessionId
 }
 
-func (self *H2Session) sendLoop() {
-	ctx, cancel := context.WithCancel(self.rootCtx)
-	defer cancel()
-
+func (self *H2Session) sendLoop(ctx context.Context) {
 	for {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From a41fe0ec82c161573ebe1694b471b4dbc4438f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 21/37] fix: an unencodable reply is answered with an internal
 error on streaming sessions

---
 http/h2_server.go | 9 ++++++++-
 http/ws_server.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index c090b5e..a6d7b1f 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -202,7 +202,14 @@ func (self *H2Session) sendLoop(ctx context.Context) {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				if !msg.IsResultOrError() {
+					continue
+				}
+				// answer the request with an internal error instead
+				errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+				if marshaled, err = jlib.MessageBytes(errmsg); err != nil {
+					continue
+				}
 			}
 
 			marshaled = append(marshaled, []byte("\n")...)
diff --git a/http/ws_server.go b/http/ws_server.go
index 75c3465..c75bdee 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -169,7 +169,14 @@ func (self *WSSession) sendLoop() {
 			marshaled, err := jlib.MessageBytes(msg)
 			if err != nil {
 				log.Warnf("marshal msg error %s", err)
-				return
+				if !msg.IsResultOrError() {
+					continue
+				}
+				// answer the request with an internal error instead
+				errmsg := jlib.ErrInternalError.ToMessageFromId(msg.MustId(), msg.TraceId())
+				if marshaled, err = jlib.MessageBytes(errmsg); err != nil {
+					continue
+				}
 			}
 
 			if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
-- 
2.43.0


From 1aa6eb9b99f65ba85ea6053c8dc822e4a11ec6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 22/37] fix: sending to an ended streaming session does not
 block

---
 http/h2_server.go | 13 +++++++------
 http/ws_server.go | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index a6d7b1f..2ee3f87 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -104,6 +104,7 @@ func (self *H2Handler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 func (self *H2Session) wait() {
 	connCtx, cancel := context.WithCancel(self.rootCtx)
 	defer cancel()
+	self.rootCtx = connCtx
 
 	serverCtx, cancelServer := context.WithCancel(self.server.serverCtx)
 	defer cancelServer()
@@ -171,16 +172,16 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
 func (self *H2Session) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+		// the session has ended
+	}
 }
 
 func (self H2Session) SessionID() string {
diff --git a/http/ws_server.go b/http/ws_server.go
index c75bdee..19490e1 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -72,6 +72,7 @@ func (self *WSHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 func (self *WSSession) wait() {
 	connCtx, cancel := context.WithCancel(self.rootCtx)
 	defer cancel()
+	self.rootCtx = connCtx
 
 	serverCtx, cancelServer := context.WithCancel(self.server.serverCtx)
 	defer cancelServer()
@@ -135,16 +136,16 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 		return
 	}
 	if resmsg != nil {
-		if resmsg.IsResultOrError() {
-			self.sendChannel <- resmsg
-		} else {
-			self.Send(resmsg)
-		}
+		self.Send(resmsg)
 	}
 }
 
 func (self *WSSession) Send(msg jlib.Message) {
-	self.sendChannel <- msg
+	select {
+	case self.sendChannel <- msg:
+	case <-self.rootCtx.Done():
+		// the session has ended
+	}
 }
 
 func (self WSSession) SessionID() string {
-- 
2.43.0


From 2abd4f6c31c8a44719631293bcbdf882f382dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 23/37] fix: streaming calls register atomically under an id
 replies can match

---
 http/streaming_client.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 61d43f0..fb87f8f 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -330,6 +330,24 @@ func (self *StreamingClient) Call(rootCtx context.Context, reqmsg *jlib.RequestM
 	return resmsg, nil
 }
 
+// register a pending request, returns the request to send, whose id is
+// not the id of any other pending request
+func (self *StreamingClient) register(p *pendingRequest) *jlib.RequestMessage {
+	sendmsg := p.reqmsg
+	switch sendmsg.Id.(type) {
+	case int, string:
+	default:
+		// replies carry only int or string ids
+		sendmsg = p.reqmsg.Clone(jlib.NewUuid())
+	}
+	for {
+		if _, loaded := self.pendingRequests.LoadOrStore(sendmsg.Id, p); !loaded {
+			return sendmsg
+		}
+		sendmsg = p.reqmsg.Clone(jlib.NewUuid())
+	}
+}
+
 func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.RequestMessage) (jlib.Message, error) {
 	err := self.Connect(rootCtx)
 	if err != nil {
@@ -337,17 +355,12 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 	}
 	ch := make(chan jlib.Message, 10)
 
-	sendmsg := reqmsg
-	if _, loaded := self.pendingRequests.Load(reqmsg.Id); loaded {
-		sendmsg = reqmsg.Clone(jlib.NewUuid())
-	}
-
 	p := &pendingRequest{
 		reqmsg:        reqmsg,
 		resultChannel: ch,
 		expire:        time.Now().Add(time.Second * 10),
 	}
-	self.pendingRequests.Store(sendmsg.Id, p)
+	sendmsg := self.register(p)
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
-- 
2.43.0


From c2be1bba21269ae04f4cdb4dbf8c9a9495aa3b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 24/37] fix: streaming calls end with their context and only
 forget their own entry

---
 http/streaming_client.go | 47 ++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index fb87f8f..fee45f4 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -45,6 +45,9 @@ type StreamingClient struct {
 	// jsonrpc request message pending for result
 	pendingRequests sync.Map
 
+	// lock held to register and forget pending requests
+	pendingLock sync.Mutex
+
 	// on messsage handler
 	messageHandler MessageHandler
 
@@ -289,23 +292,34 @@ func (self *StreamingClient) handleResult(msg jlib.Message) {
 	}
 }
 
-func (self *StreamingClient) expire(k interface{}, after time.Duration) {
+func (self *StreamingClient) expire(k interface{}, pending *pendingRequest, after time.Duration) {
 	// ctx, cancel := context.WithCancel(rootCtx)
 	// defer cancel()
 	select {
 	// case <- ctx.Done():
 	// 	return
 	case <-time.After(after):
-		v, loaded := self.pendingRequests.LoadAndDelete(k)
-		if loaded {
-			if pending, ok := v.(*pendingRequest); ok {
-				timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
-				pending.resultChannel <- timeout
-			}
+		if self.forget(k, pending) {
+			timeout := jlib.ErrTimeout.ToMessage(pending.reqmsg)
+			pending.resultChannel <- timeout
 		}
 	}
 }
 
+// remove a request from the pending ones, returns false when it is not
+// pending any more
+func (self *StreamingClient) forget(k interface{}, pending *pendingRequest) bool {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+
+	if v, loaded := self.pendingRequests.Load(k); !loaded || v != pending {
+		// already replied, the id may belong to another request now
+		return false
+	}
+	_, loaded := self.pendingRequests.LoadAndDelete(k)
+	return loaded
+}
+
 func (self *StreamingClient) UnwrapCall(rootCtx context.Context, reqmsg *jlib.RequestMessage, output interface{}) error {
 	resmsg, err := self.Call(rootCtx, reqmsg)
 	if err != nil {
@@ -333,6 +347,9 @@ func (self *StreamingClient) Call(rootCtx context.Context, reqmsg *jlib.RequestM
 // register a pending request, returns the request to send, whose id is
 // not the id of any other pending request
 func (self *StreamingClient) register(p *pendingRequest) *jlib.RequestMessage {
+	self.pendingLock.Lock()
+	defer self.pendingLock.Unlock()
+
 	sendmsg := p.reqmsg
 	switch sendmsg.Id.(type) {
 	case int, string:
@@ -364,15 +381,21 @@ func (self *StreamingClient) request(rootCtx context.Context, reqmsg *jlib.Reque
 
 	err = self.Send(rootCtx, sendmsg)
 	if err != nil {
+		self.forget(sendmsg.Id, p)
 		return nil, err
 	}
-	go self.expire(sendmsg.Id, time.Second*10)
+	go self.expire(sendmsg.Id, p, time.Second*10)
 
-	resmsg, ok := <-ch
-	if !ok {
-		return nil, errors.New("result channel closed")
+	select {
+	case resmsg, ok := <-ch:
+		if !ok {
+			return nil, errors.New("result channel closed")
+		}
+		return resmsg, nil
+	case <-rootCtx.Done():
+		self.forget(sendmsg.Id, p)
+		return nil, rootCtx.Err()
 	}
-	return resmsg, nil
 }
 
 func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) error {
-- 
2.43.0


From b41416c2d8609b5f8cdb31cda51064e763e3b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 25/37] fix: the connected handler is called without holding
 the connection lock

---
 http/streaming_client.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index fee45f4..7862380 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -168,16 +168,26 @@ func (self *StreamingClient) OnClose(handler CloseHandler) error {
 }
 
 func (self *StreamingClient) Connect(rootCtx context.Context) error {
+	established, err := self.establish(rootCtx)
+	if err != nil {
+		return err
+	}
+	if established && self.connectedHandler != nil {
+		// the handler may use the client, so the lock is not held
+		self.connectedHandler()
+	}
+	return nil
+}
+
+// connect the transport and start its loops unless already connected
+func (self *StreamingClient) establish(rootCtx context.Context) (bool, error) {
 	self.connectLock.Lock()
 	defer self.connectLock.Unlock()
 
 	if !self.transport.Connected() {
 		if err := self.transport.Connect(rootCtx, self.serverUrl, self.extraHeader); err != nil {
 			//self.connectErr = err
-			return err
-		}
-		if self.connectedHandler != nil {
-			self.connectedHandler()
+			return false, err
 		}
 		connCtx, cancel := context.WithCancel(rootCtx)
 		self.cancelFunc = cancel
@@ -185,10 +195,10 @@ func (self *StreamingClient) Connect(rootCtx context.Context) error {
 		self.closeChannel = make(chan error, 10)
 		go self.sendLoop(connCtx)
 		go self.recvLoop()
-	} else {
-		self.Log().Debug("client already connected")
+		return true, nil
 	}
-	return nil
+	self.Log().Debug("client already connected")
+	return false, nil
 }
 
 func (self *StreamingClient) handleError(err error) {
-- 
2.43.0


From 00628cc723bfbe620c69b677340310c32605a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 26/37] fix: streaming transports closed meanwhile return an
 error instead of crashing

---
 http/h2_client.go | 20 ++++++++++++++------
 http/ws_client.go | 14 ++++++++++++--
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index f3aad83..955f7f5 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -96,9 +96,7 @@ func (self *h2Transport) Close() {
 	if self.resp != nil {
 		self.resp.Body.Close()
 		self.resp = nil
-		self.writer = nil
-		self.flusher = nil
-		//self.decoder = nil
+		// the writer and decoder stay, they return errors from now on
 	}
 }
 
@@ -147,15 +145,25 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
+	writer := self.writer
+	if writer == nil {
+		// not connected
+		return TransportClosed
+	}
 	marshaled = append(marshaled, []byte("\n")...)
-	if _, err := self.writer.Write(marshaled); err != nil {
+	if _, err := writer.Write(marshaled); err != nil {
 		return self.handleHttp2Error(err)
 	}
 	return nil
 }
 
 func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
-	msg, err := jlib.DecodeMessage(self.decoder)
+	decoder := self.decoder
+	if decoder == nil {
+		// not connected
+		return nil, false, TransportClosed
+	}
+	msg, err := jlib.DecodeMessage(decoder)
 	if err != nil {
 		if errors.Is(err, io.EOF) {
 			return nil, false, TransportClosed
@@ -164,7 +172,7 @@ func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
 		}
 		self.client.Log().Warnf(
 			"bad jsonrpc message %s %s, at pos %d",
-			reflect.TypeOf(err), err, self.decoder.InputOffset())
+			reflect.TypeOf(err), err, decoder.InputOffset())
 		return nil, false, err
 	}
 	return msg, true, nil
diff --git a/http/ws_client.go b/http/ws_client.go
index bc23ece..654c6ba 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -89,14 +89,24 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
-	if err := self.ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
+	ws := self.ws
+	if ws == nil {
+		// closed meanwhile
+		return TransportClosed
+	}
+	if err := ws.WriteMessage(websocket.TextMessage, marshaled); err != nil {
 		return self.handleWebsocketError(err)
 	}
 	return nil
 }
 
 func (self *wsTransport) ReadMessage() (jlib.Message, bool, error) {
-	messageType, msgBytes, err := self.ws.ReadMessage()
+	ws := self.ws
+	if ws == nil {
+		// closed meanwhile
+		return nil, false, TransportClosed
+	}
+	messageType, msgBytes, err := ws.ReadMessage()
 	if err != nil {
 		return nil, false, self.handleWebsocketError(err)
 	}
-- 
2.43.0


From 625a884f72a1b69c186122f25911f142ba878864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 27/37] fix: streaming clients close once and old loops leave a
 new connection alone

---
 http/streaming_client.go | 91 ++++++++++++++++++++++++++++++++--------
 1 file changed, 74 insertions(+), 17 deletions(-)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index 7862380..cf1c00b 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -64,6 +64,9 @@ type StreamingClient struct {
 	// send channel to write messsage sequencially
 	sendChannel chan jlib.Message
 
+	// closed when the connection is given up
+	connDone <-chan struct{}
+
 	// channel to wait until connection closed
 	closeChannel chan error
 
@@ -114,8 +117,11 @@ func (self *StreamingClient) CloseChannel() chan error {
 
 // wait connection close and return error
 func (self *StreamingClient) Wait() error {
-	if self.closeChannel != nil {
-		err := <-self.closeChannel
+	self.connectLock.Lock()
+	closeChannel := self.closeChannel
+	self.connectLock.Unlock()
+	if closeChannel != nil {
+		err := <-closeChannel
 		return err
 	} else {
 		// client not connected, just return
@@ -130,6 +136,13 @@ func (self *StreamingClient) Close() {
 }
 
 func (self *StreamingClient) Reset(err error) {
+	self.connectLock.Lock()
+	defer self.connectLock.Unlock()
+	self.reset(err)
+}
+
+// end the current connection, called with connectLock held
+func (self *StreamingClient) reset(err error) {
 	if self.cancelFunc != nil {
 		self.cancelFunc()
 		self.cancelFunc = nil
@@ -160,6 +173,8 @@ func (self *StreamingClient) OnConnected(handler ConnectedHandler) error {
 }
 
 func (self *StreamingClient) OnClose(handler CloseHandler) error {
+	self.connectLock.Lock()
+	defer self.connectLock.Unlock()
 	if self.closeHandler != nil {
 		return errors.New("close handler already exist!")
 	}
@@ -191,24 +206,43 @@ func (self *StreamingClient) establish(rootCtx context.Context) (bool, error) {
 		}
 		connCtx, cancel := context.WithCancel(rootCtx)
 		self.cancelFunc = cancel
+		self.connDone = connCtx.Done()
 		self.sendChannel = make(chan jlib.Message, 100)
 		self.closeChannel = make(chan error, 10)
-		go self.sendLoop(connCtx)
-		go self.recvLoop()
+		go self.sendLoop(connCtx, self.sendChannel)
+		go self.recvLoop(connCtx, self.sendChannel)
 		return true, nil
 	}
 	self.Log().Debug("client already connected")
 	return false, nil
 }
 
-func (self *StreamingClient) handleError(err error) {
+// end the connection the send channel belongs to, unless the client has
+// closed it or made a new one meanwhile
+func (self *StreamingClient) endConn(sendChannel chan jlib.Message, err error) {
+	self.connectLock.Lock()
+	defer self.connectLock.Unlock()
+	if self.sendChannel == sendChannel {
+		self.reset(err)
+	}
+}
+
+// take the close handler, so that it is called only once
+func (self *StreamingClient) takeCloseHandler() CloseHandler {
+	self.connectLock.Lock()
+	defer self.connectLock.Unlock()
+	handler := self.closeHandler
+	self.closeHandler = nil
+	return handler
+}
+
+func (self *StreamingClient) handleError(sendChannel chan jlib.Message, err error) {
 	if errors.Is(err, TransportClosed) {
 		self.Log().Debug("transport closed")
 	}
-	self.Reset(err)
-	if self.closeHandler != nil {
-		self.closeHandler()
-		self.closeHandler = nil
+	self.endConn(sendChannel, err)
+	if handler := self.takeCloseHandler(); handler != nil {
+		handler()
 	}
 }
 
@@ -216,7 +250,7 @@ func (self *StreamingClient) Connected() bool {
 	return self.transport.Connected()
 }
 
-func (self *StreamingClient) sendLoop(connCtx context.Context) {
+func (self *StreamingClient) sendLoop(connCtx context.Context, sendChannel chan jlib.Message) {
 	//defer self.Reset(nil)
 	defer func() {
 		self.Log().Debug("sendLoop stop")
@@ -232,37 +266,47 @@ func (self *StreamingClient) sendLoop(connCtx context.Context) {
 		select {
 		case <-ctx.Done():
 			self.Log().Debug("ctx Done")
-			self.Close()
+			self.endConn(sendChannel, nil)
 			return
-		case msg, ok := <-self.sendChannel:
+		case msg, ok := <-sendChannel:
 			if !ok {
 				return
 			}
+			if ctx.Err() != nil {
+				// the connection ended, do not write to the next one
+				self.endConn(sendChannel, nil)
+				return
+			}
 			if !self.transport.Connected() {
 				return
 			}
 			err := self.transport.WriteMessage(msg)
 			if err != nil {
 				self.Log().Warnf("write msg error %s", err)
-				self.handleError(err)
+				self.handleError(sendChannel, err)
 				return
 			}
 		}
 	}
 }
 
-func (self *StreamingClient) recvLoop() {
+func (self *StreamingClient) recvLoop(connCtx context.Context, sendChannel chan jlib.Message) {
 	self.Log().Debug("recvLoop start")
 	defer func() {
 		self.Log().Debug("recvLoop stop")
 	}()
 	for {
+		if connCtx.Err() != nil {
+			// the connection ended, do not read from the next one
+			self.handleError(sendChannel, nil)
+			return
+		}
 		if !self.transport.Connected() {
 			return
 		}
 		msg, readed, err := self.transport.ReadMessage()
 		if err != nil {
-			self.handleError(err)
+			self.handleError(sendChannel, err)
 			return
 		}
 		if !readed {
@@ -413,6 +457,19 @@ func (self *StreamingClient) Send(rootCtx context.Context, msg jlib.Message) err
 	if err != nil {
 		return err
 	}
-	self.sendChannel <- msg
-	return nil
+	self.connectLock.Lock()
+	sendChannel, connDone := self.sendChannel, self.connDone
+	self.connectLock.Unlock()
+	if sendChannel == nil {
+		// closed meanwhile
+		return TransportClosed
+	}
+	select {
+	case sendChannel <- msg:
+		return nil
+	case <-connDone:
+		return TransportClosed
+	case <-rootCtx.Done():
+		return rootCtx.Err()
+	}
 }
-- 
2.43.0


From 7198a160b50fce253edd3dd8a18b0fd4f6520a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 28/37] fix: validating an absent TLS configuration succeeds
 instead of crashing

---
 http/server_utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/server_utils.go b/http/server_utils.go
index 0e9f5b7..37829b6 100644
--- a/http/server_utils.go
+++ b/http/server_utils.go
@@ -14,6 +14,9 @@ type TLSConfig struct {
 }
 
 func (self *TLSConfig) ValidateValues() error {
+	if self == nil {
+		return nil
+	}
 	if self.Certfile == "" {
 		return errors.New("certfile is empty")
 	}
-- 
2.43.0


From 08f625cab4308644c33febe5a76fdfee4f3f9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:26 +0000
Subject: [PATCH 29/37] fix: refuse typed context handlers whose argument not
 every context fits

---
 http/typewrap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index dea2b20..8280f88 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -85,7 +85,8 @@ type ContextSpec struct{}
 
 func (self ContextSpec) Check(firstArgType reflect.Type) bool {
 	ctxType := reflect.TypeOf((*context.Context)(nil)).Elem()
-	return firstArgType.Kind() == reflect.Interface && firstArgType.Implements(ctxType)
+	// any context must fit the argument
+	return firstArgType.Kind() == reflect.Interface && firstArgType.Implements(ctxType) && ctxType.Implements(firstArgType)
 }
 func (self ContextSpec) Value(req *RPCRequest) interface{} {
 	return req.Context()
-- 
2.43.0


From 99739915ee92a57c7c1b2f6623c01677cfc8dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:13 +0000
Subject: [PATCH 30/37] fix: a nil pointer returned as the error of a typed
 handler is no error

---
 http/typewrap.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/http/typewrap.go b/http/typewrap.go
index 8280f88..2b943ef 100644
--- a/http/typewrap.go
+++ b/http/typewrap.go
@@ -95,6 +95,15 @@ func (self ContextSpec) String() string {
 	return "context.Context"
 }
 
+// isNilValue tells whether a value is nil, whatever its type
+func isNilValue(val reflect.Value) bool {
+	switch val.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice:
+		return val.IsNil()
+	}
+	return false
+}
+
 func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, error) {
 
 	funcType := reflect.TypeOf(tfunc)
@@ -167,7 +176,7 @@ func wrapTyped(tfunc interface{}, firstArgSpec FirstArgSpec) (RequestCallback, e
 		}
 		resType := funcType.Out(0)
 		errRes := resValues[1].Interface()
-		if errRes != nil {
+		if errRes != nil && !isNilValue(resValues[1]) {
 			if err, ok := errRes.(error); ok {
 				return nil, err
 			} else {
-- 
2.43.0


From 569bab3700a50bcf8507b705833fc14f4e2e1216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 31/37] fix: end the goroutines of a session that report after
 it ended

---
 http/h2_server.go | 15 ++++++++++++---
 http/ws_server.go | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/http/h2_server.go b/http/h2_server.go
index 2ee3f87..f78a3a9 100644
--- a/http/h2_server.go
+++ b/http/h2_server.go
@@ -143,7 +143,7 @@ func (self *H2Session) recvLoop() {
 			if errors.Is(err, io.EOF) {
 				break
 			} else {
-				self.done <- err
+				self.finish(err)
 				return
 			}
 		}
@@ -154,7 +154,7 @@ func (self *H2Session) recvLoop() {
 		}
 	}
 	// end of scanning
-	self.done <- nil
+	self.finish(nil)
 	return
 }
 
@@ -168,7 +168,7 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
@@ -176,6 +176,15 @@ func (self *H2Session) msgReceived(msg jlib.Message) {
 	}
 }
 
+// finish ends the session
+func (self *H2Session) finish(err error) {
+	select {
+	case self.done <- err:
+	case <-self.rootCtx.Done():
+		// nobody waits any more
+	}
+}
+
 func (self *H2Session) Send(msg jlib.Message) {
 	select {
 	case self.sendChannel <- msg:
diff --git a/http/ws_server.go b/http/ws_server.go
index 19490e1..0523329 100644
--- a/http/ws_server.go
+++ b/http/ws_server.go
@@ -99,7 +99,7 @@ func (self *WSSession) recvLoop() {
 	for {
 		messageType, msgBytes, err := self.ws.ReadMessage()
 		if err != nil {
-			self.done <- errors.Wrap(err, "ws.ReadMessage()")
+			self.finish(errors.Wrap(err, "ws.ReadMessage()"))
 			return
 		}
 		if messageType != websocket.TextMessage {
@@ -119,7 +119,7 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	msg, err := jlib.ParseBytes(msgBytes)
 	if err != nil {
 		log.Warnf("bad jsonrpc message %s", msgBytes)
-		self.done <- errors.New("bad jsonrpc message")
+		self.finish(errors.New("bad jsonrpc message"))
 		return
 	}
 
@@ -132,7 +132,7 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 
 	resmsg, err := self.server.Actor.Feed(req)
 	if err != nil {
-		self.done <- errors.Wrap(err, "actor.Feed")
+		self.finish(errors.Wrap(err, "actor.Feed"))
 		return
 	}
 	if resmsg != nil {
@@ -140,6 +140,15 @@ func (self *WSSession) msgBytesReceived(msgBytes []byte) {
 	}
 }
 
+// finish ends the session
+func (self *WSSession) finish(err error) {
+	select {
+	case self.done <- err:
+	case <-self.rootCtx.Done():
+		// nobody waits any more
+	}
+}
+
 func (self *WSSession) Send(msg jlib.Message) {
 	select {
 	case self.sendChannel <- msg:
-- 
2.43.0


From 60d41a672474f80c6526d176354ae35552de17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 32/37] fix: read the close channel under the connection lock

---
 http/streaming_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/http/streaming_client.go b/http/streaming_client.go
index cf1c00b..6757d3b 100644
--- a/http/streaming_client.go
+++ b/http/streaming_client.go
@@ -112,6 +112,8 @@ func (self *StreamingClient) InitStreaming(serverUrl *url.URL, transport Transpo
 }
 
 func (self *StreamingClient) CloseChannel() chan error {
+	self.connectLock.Lock()
+	defer self.connectLock.Unlock()
 	return self.closeChannel
 }
 
-- 
2.43.0


From abb7fca4bbf9bf830341559763904508a55d27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 33/37] fix: connecting a WebSocket client ends with its
 context

---
 http/ws_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws_client.go b/http/ws_client.go
index 654c6ba..c7a05fd 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -55,7 +55,7 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	defaultDialer := *websocket.DefaultDialer
 	dailer := &defaultDialer
 	dailer.TLSClientConfig = self.client.ClientTLSConfig()
-	ws, _, err := dailer.Dial(serverUrl.String(), header)
+	ws, _, err := dailer.DialContext(rootCtx, serverUrl.String(), header)
 	if err != nil {
 		var opErr *net.OpError
 		if errors.As(err, &opErr) {
-- 
2.43.0


From 7edb6fd971da6034784bc82cb3caa0b0096e1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 34/37] fix: connecting an HTTP/2 client ends with its context

---
 http/h2_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index 955f7f5..2d13e7a 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -114,7 +114,7 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		Body:   pipeReader,
 	}
 
-	resp, err := self.client.HTTPClient().Do(req)
+	resp, err := self.client.HTTPClient().Do(req.WithContext(rootCtx))
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
-- 
2.43.0


From 9e28444744b747b4a3268878f56386cef506ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 35/37] fix: an HTTP/2 client refused by the server counted as
 connected

---
 http/h2_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/http/h2_client.go b/http/h2_client.go
index 2d13e7a..5db34eb 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -118,6 +118,11 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 	if err != nil {
 		return self.handleHttp2Error(err)
 	}
+	if resp.StatusCode != http.StatusOK {
+		// the server did not accept the stream
+		resp.Body.Close()
+		return errors.Wrap(&WrappedResponse{Response: resp}, "abnormal response")
+	}
 	self.writer = pipeWriter
 	self.resp = resp
 	self.decoder = json.NewDecoder(resp.Body)
-- 
2.43.0


From 7fa6c1e479869da79e854a863c191b2c6b2d2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 36/37] fix: the connection state of streaming transports is
 guarded by a lock

---
 http/h2_client.go | 17 +++++++++++++++--
 http/ws_client.go | 24 +++++++++++++++++++-----
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/http/h2_client.go b/http/h2_client.go
index 5db34eb..27c88cd 100644
--- a/http/h2_client.go
+++ b/http/h2_client.go
@@ -29,7 +29,10 @@ type H2Client struct {
 }
 
 type h2Transport struct {
-	client  *H2Client
+	client *H2Client
+
+	// guards the fields below
+	lock    sync.Mutex
 	resp    *http.Response
 	decoder *json.Decoder
 	writer  io.Writer
@@ -93,6 +96,8 @@ func (self *H2Client) String() string {
 
 // http2 transport methods
 func (self *h2Transport) Close() {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	if self.resp != nil {
 		self.resp.Body.Close()
 		self.resp = nil
@@ -100,7 +105,9 @@ func (self *h2Transport) Close() {
 	}
 }
 
-func (self h2Transport) Connected() bool {
+func (self *h2Transport) Connected() bool {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	return self.resp != nil
 }
 
@@ -123,6 +130,8 @@ func (self *h2Transport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		resp.Body.Close()
 		return errors.Wrap(&WrappedResponse{Response: resp}, "abnormal response")
 	}
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	self.writer = pipeWriter
 	self.resp = resp
 	self.decoder = json.NewDecoder(resp.Body)
@@ -150,7 +159,9 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
+	self.lock.Lock()
 	writer := self.writer
+	self.lock.Unlock()
 	if writer == nil {
 		// not connected
 		return TransportClosed
@@ -163,7 +174,9 @@ func (self *h2Transport) WriteMessage(msg jlib.Message) error {
 }
 
 func (self *h2Transport) ReadMessage() (jlib.Message, bool, error) {
+	self.lock.Lock()
 	decoder := self.decoder
+	self.lock.Unlock()
 	if decoder == nil {
 		// not connected
 		return nil, false, TransportClosed
diff --git a/http/ws_client.go b/http/ws_client.go
index c7a05fd..5a11245 100644
--- a/http/ws_client.go
+++ b/http/ws_client.go
@@ -12,6 +12,7 @@ import (
 	"net/http"
 	"net/url"
 	"reflect"
+	"sync"
 )
 
 type WSClient struct {
@@ -19,7 +20,9 @@ type WSClient struct {
 }
 
 type wsTransport struct {
-	ws *websocket.Conn
+	// guards ws
+	lock sync.Mutex
+	ws   *websocket.Conn
 
 	client *WSClient
 }
@@ -40,14 +43,23 @@ func (self *WSClient) String() string {
 
 // websocket transport methods
 func (self *wsTransport) Close() {
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	if self.ws != nil {
 		self.ws.Close()
 		self.ws = nil
 	}
 }
 
-func (self wsTransport) Connected() bool {
-	return self.ws != nil
+// the current connection, nil if not connected
+func (self *wsTransport) conn() *websocket.Conn {
+	self.lock.Lock()
+	defer self.lock.Unlock()
+	return self.ws
+}
+
+func (self *wsTransport) Connected() bool {
+	return self.conn() != nil
 }
 
 func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, header http.Header) error {
@@ -64,6 +76,8 @@ func (self *wsTransport) Connect(rootCtx context.Context, serverUrl *url.URL, he
 		}
 		return errors.Wrap(err, "wstransport.connect")
 	}
+	self.lock.Lock()
+	defer self.lock.Unlock()
 	self.ws = ws
 	return nil
 }
@@ -89,7 +103,7 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 		return err
 	}
 
-	ws := self.ws
+	ws := self.conn()
 	if ws == nil {
 		// closed meanwhile
 		return TransportClosed
@@ -101,7 +115,7 @@ func (self *wsTransport) WriteMessage(msg jlib.Message) error {
 }
 
 func (self *wsTransport) ReadMessage() (jlib.Message, bool, error) {
-	ws := self.ws
+	ws := self.conn()
 	if ws == nil {
 		// closed meanwhile
 		return nil, false, TransportClosed
-- 
2.43.0


From ac7d2033b84dbd475886d981ffcb19a2f90edcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 37/37] fix: do not log the token of expired claims

---
 http/auth_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/auth_handler.go b/http/auth_handler.go
index e079742..caba844 100644
--- a/http/auth_handler.go
+++ b/http/auth_handler.go
@@ -149,7 +149,7 @@ func (self *AuthHandler) jwtAuth(jwtCfg *JwtAuthConfig, r *http.Request) (*AuthI
 		}
 		// check expiration
 		if claims.ExpiresAt < time.Now().UTC().Unix() {
-			Logger(r).Warnf("claims expired %s", authHeader)
+			Logger(r).Warnf("claims expired %s", claims.Username)
 			if fromCache {
 				self.jwtCache.Remove(authHeader)
 			}
-- 
2.43.0

