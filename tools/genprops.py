#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over.split(),text=text),
      why_tests_cant=why,anchors=dict(files=files.split(),mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

# ---------------- messages
p("M01","Message kind predicates and accessors agree",
 "Every message built by a constructor or produced by decoding reports exactly the kind of its concrete type through the Is* predicates (IsRequestOrNotify and IsResultOrError being the unions). MustId, MustMethod, MustParams, MustResult and MustError return the corresponding field on the kinds that carry it and panic on every other kind; ReplaceId panics on a notify.",
 "inputs programs","every message value of the four kinds and every accessor",
 "The tests touch a handful of accessor/kind combinations on sample messages; the property is a full kind x accessor table that also must hold for every construction site.",
 "messageimpl.go types.go parse.go",[("constructors stamp the kind","messageimpl.go: New*Message, raw*Message"),("predicates and Must accessors","messageimpl.go: Is*, Must*")])
p("M02","Decoding classifies a message by the fields present",
 "A decoded object with a non-null error is an Error unless it also has a non-null result, in which case it is rejected; otherwise a non-null result makes a Result; otherwise a non-empty method makes a Request when an id is present and a Notify when it is not, and is rejected without params; otherwise an id alone makes a Result with null result; anything else is rejected. Ids are accepted only as integers or strings, a malformed id, params, result or error body is rejected, and the decoded message carries the id, method, params, result, error body and trace id taken from the fields of those names.",
 "inputs","every input document",
 "Tests decode a dozen sample documents; the classification must hold for every combination of present, absent and malformed fields.",
 "parse.go messageimpl.go",[("classification cascade","parse.go: DecodeMessage, decodeId, decodeParams"),("field names","parse.go: msgUnion tags")])
p("M03","Encoding emits every protocol field in every encoder",
 "The wire form of every message has jsonrpc \"2.0\" plus, always, id, method and params for a Request, method and params for a Notify, id and result for a Result, id and error for an Error, and traceid exactly when it is non-empty, each holding that message's own value. Params that were given as a list are emitted as a list, and a single non-list value is emitted as that value. MessageBytes, MessageString, EncodePretty and MessageMap all encode this same form.",
 "inputs","every message value and every encoder",
 "Tests compare a few literal encodings; omission of a field for zero values (null result, id 0, empty params) is not sampled.",
 "messageimpl.go types.go",[("marshalling templates","types.go: template*"),("Interface()","messageimpl.go: *.Interface"),("encoders","messageimpl.go: EncodePretty, MessageBytes, MessageString, MessageMap")])
p("M04","Re-identified copies keep everything but the id",
 "Cloning a request or replacing the id of a request, result or error yields a message of the same kind with the given id and the same method, params, list-or-single params form, result, error body and trace id. The message it was derived from is left unmodified.",
 "inputs","every request, result and error message and every new id",
 "Tests clone list-param requests only; single-value params and trace ids are not compared.",
 "messageimpl.go",[("Clone and ReplaceId","messageimpl.go")])
p("M05","Replies derived from a request carry its id and trace id",
 "Every way of deriving a result or error message from a request (result constructor, error constructor, error-code constructor, conversion of an RPC error, conversion of a schema validation error) yields a message whose id and trace id are the request's own and whose payload is exactly the given result, code, message and data. The from-id variants use exactly the id and trace id given.",
 "inputs","every request and payload",
 "Tests check ids of a few replies; swapped or dropped id/trace id/data in one of the eight constructors is not exercised.",
 "messageimpl.go schema/validator.go",[("reply constructors","messageimpl.go: NewResultMessage, NewErrorMessage, RPCErrorMessage, *FromId, RPCError.ToMessage*"),("ErrorPos.ToMessage","schema/validator.go")])
p("M06","JSON numbers are decoded without going through float64",
 "Every JSON decode performed by the library whose target can hold an untyped value (message params, results, error data, guessed command-line values, schemas, data validated from bytes) is done with number preservation switched on before decoding, and no decode has a floating-point target, so integers beyond 2^53 keep all digits, ids included.",
 "inputs programs","every decode site and every number",
 "A test decodes one big number through one path; each of the other decode sites is a separate way to lose digits.",
 "parse.go utils.go schema/builder.go schema/validator.go http/h2_server.go http/h2_client.go",[("UseNumber before Decode","parse.go, utils.go, schema/*.go")])
p("M07","Predefined errors are never modified",
 "The predefined RPC errors are shared by all goroutines and are never modified after initialisation by any library function. WithData returns a new error value with the same code and message and the given data, leaving its receiver unchanged.",
 "programs schedules histories","every library function and every interleaving of them",
 "A mutation shows only in a later, unrelated request, or as a data race.",
 "errors.go messageimpl.go",[("WithData copies","messageimpl.go: RPCError.WithData"),("package variables","errors.go")])
p("M08","Bigint decoding rejects malformed input",
 "Unmarshalling a Bigint accepts exactly the decimal integers, bare or in quotes, and returns an error for any other text except null, which leaves the value as it is. Marshalling emits the decimal digits of the value as a quoted string.",
 "inputs","every JSON token",
 "Tests decode two valid values; malformed text is silently accepted as zero if the parse result is not checked.",
 "utils.go",[("Bigint.UnmarshalJSON / MarshalJSON","utils.go")])
p("M09","Guessed command-line values are faithful and encodable",
 "GuessJson maps the empty string to \"\", true/false to booleans, null to null, decimal integers to integers, text that strconv parses as a finite float to that float, @path to the JSON document in that file, text starting with [, { or \" to the JSON list, object or string it begins with or an error if that does not parse, and any other text to itself. Every value it returns without an error can be encoded as JSON (never NaN or infinity), and GuessJsonArray applies it to every argument in order, failing if any fails.",
 "inputs","every argument string",
 "Tests try about ten strings; words such as nan or inf, which parse as non-finite floats, are not among them.",
 "utils.go",[("GuessJson, GuessJsonArray","utils.go")])
p("M10","Positional params decode field by field",
 "DecodeParams fills the exported fields of the output struct in declaration order, the n-th exported field from the n-th param, leaving fields without a param untouched and returning an error when a param does not fit its field. An output that is not a pointer to a struct is refused with an error, and a null param never makes it panic.",
 "inputs","every params list and struct type",
 "Tests use two struct types with well-formed params.",
 "utils.go",[("DecodeParams","utils.go")])
p("M11","Method name validators accept exactly the documented alphabets",
 "IsMethod accepts exactly the non-empty strings over ASCII letters, digits and - _ : + . ; IsPublicMethod accepts exactly the strings that start with an ASCII letter or digit, continue over those characters plus / \\ & #, and do not start with \"rpc.\".",
 "inputs","every string",
 "Tests try a few names; an over-wide or unanchored pattern differs only on strings not sampled.",
 "validators.go",[("IsMethod, IsPublicMethod","validators.go")])
p("M12","Cache keys identify method and params",
 "RequestMessage.CacheKey is made of the given prefix, the method and the complete JSON encoding of the params and of nothing else: requests with the same method and params get the same key whatever their id, trace id or history, and under one prefix requests that differ in method or in any param get different keys.",
 "inputs","every request and prefix",
 "Tests compare no keys; a key that leaves out or truncates a component collides only for particular pairs of requests.",
 "messageimpl.go",[("RequestMessage.CacheKey","messageimpl.go")])
p("M13","New messages carry what was given",
 "NewRequestMessage and NewNotifyMessage panic exactly when the method is empty or, for a request, the id is nil; otherwise they make a message of the stated kind whose id and method are those given and whose trace id is empty. Given a list of params the message holds and encodes exactly that list, a nil list as the empty list; given one other value it holds a list of just that value and encodes the value itself; given nil it holds and encodes an empty list.",
 "inputs","every id, method and params value",
 "Tests construct a few messages; wrong handling shows only for nil lists, single values or particular methods.",
 "messageimpl.go",[("NewRequestMessage, NewNotifyMessage","messageimpl.go")])
p("M14","Predefined errors carry JSON-RPC's codes",
 "ErrParseMessage has code -32700, ErrInvalidRequest -32600, ErrMethodNotFound -32601 and ErrInternalError -32603, and every error ParamsError makes has code -32602 and the message given to it: the codes JSON-RPC 2.0 assigns to these failures.",
 "inputs","every message given to ParamsError",
 "Tests compare against the variables themselves, so a changed code goes unnoticed; interoperating peers see it.",
 "errors.go",[("Err* variables, ParamsError","errors.go")])
p("M15","JSON text helpers give the whole text or fail",
 "MarshalJson returns the complete JSON text encoding/json makes of the value and no error when the value can be encoded, and an error when it cannot; SchemaToString returns the complete JSON text of the description the schema gives of itself, and panics only when that description cannot be encoded.",
 "inputs","every value and schema",
 "No test calls them with large or unencodable values; a helper that cuts, drops or hides something does so for particular values only.",
 "utils.go",[("MarshalJson","utils.go"),("SchemaToString","schema/schema.go")])
p("M16","Received messages are decoded, described and logged without panics",
 "No bytes given to ParseBytes or DecodeMessage, and no message, protocol error, validation error or HTTP error made from what was received, can make decoding, encoding, the error text, the log entry or any describing method of it panic. Only what is asked of a message of another kind (the Must accessors and ReplaceId) and messages made without an id or a method panic, as documented.",
 "inputs","every input and every message, error and request made from it",
 "Tests decode well-formed messages; a panic needs an empty list, a missing field or an unusual type at the one place that does not expect it.",
 "parse.go messageimpl.go utils.go http/errors.go http/server_utils.go http/auth_handler.go schema/validator.go",[("ParseBytes, DecodeMessage","parse.go"),("Log, Interface, Error","messageimpl.go"),("ErrorResponse, DecodeInterface, GuessJson","utils.go"),("Error","http/errors.go, schema/validator.go"),("Logger","http/server_utils.go"),("AuthInfoFromContext","http/auth_handler.go")])
# ---------------- schemas
p("S01","Numeric ranges are enforced exactly",
 "A number or integer schema accepts a numeric value exactly when it is not above the maximum and not below the minimum, a bound equal to the value being accepted unless the corresponding exclusive flag is set and true; an absent bound does not constrain and each flag affects only its own bound. Number accepts any JSON number, int and float64; integer accepts only JSON numbers written as 64-bit integers and int; every other type is rejected.",
 "inputs configurations","every bound/flag configuration and every value",
 "Tests sample a few values around two bounds; the four-way bound/flag matrix times two schema types times three value types is not covered.",
 "schema/schema.go",[("NumberSchema/IntegerSchema Scan and checkRange","schema/schema.go")])
p("S02","Scalar schemas accept exactly their type",
 "any accepts everything, null only null, bool only booleans, string only strings whose length is at most the maximum length and at least the minimum length when those are set (equal lengths included). Every other value is reported as an error.",
 "inputs configurations","every value and length bound",
 "Boundary lengths and wrong types are sampled only partly.",
 "schema/schema.go",[("Scan of Any/Null/Bool/StringSchema","schema/schema.go")])
p("S03","anyOf, allOf and not combine their members as named",
 "anyOf accepts a value exactly when at least one of its choices accepts it (so never with no choices), allOf exactly when every choice accepts it, and not exactly when its child rejects it; each member is applied to that same value. A rejection by allOf reports the failing choice's own error.",
 "inputs configurations","every list of choices and every value",
 "Tests use two-element choice lists; skipping a later element is invisible on them.",
 "schema/schema.go",[("Scan of AnyOf/AllOf/NotSchema","schema/schema.go")])
p("S04","Lists, tuples and params are checked element by element",
 "A list schema accepts only lists whose length is within minItems and maxItems (inclusive) and whose every element is accepted by the item schema; a tuple or a method's params accept only lists whose i-th element is accepted by the i-th schema and every further element by the additional schema, which must exist for there to be further elements; fewer elements than schemas are rejected. A method schema checks the params of a call, and otherwise the result of a reply against its returns schema when it has one. Validation never indexes outside the list, whatever its length.",
 "inputs configurations","every list length, schema arity and element",
 "Tests use short lists; an off-by-one in element coverage or the additional section needs particular lengths.",
 "schema/schema.go",[("Scan of List/Tuple/MethodSchema, ScanParams, ScanResult","schema/schema.go")])
p("S05","Objects are checked property by property",
 "An object schema accepts only objects in which every declared property that is present is accepted by its own schema, every required declared property is present, and, when additionalProperties is given, every undeclared property is accepted by it; a declared property is never judged by additionalProperties.",
 "inputs configurations","every property set and object",
 "Tests use objects with a few properties.",
 "schema/schema.go",[("ObjectSchema.Scan","schema/schema.go")])
p("S06","Validation errors name the failing position",
 "The path of a validation error is the concatenation of the steps from the root to the failing element: .name for an object property (also for a missing required one), [index] with the element's index in the whole list for list and tuple elements and params, .params before a param and .result before a result. The path stack is empty again after any validation, successful or not, so reusing a validator reports correct paths.",
 "inputs histories","every nesting of schemas and every failing element",
 "Tests check five paths.",
 "schema/validator.go schema/schema.go",[("pushPath/popPath balanced by Scan and ScanParams","schema/validator.go, schema/schema.go")],
 [("path stack","current position","schema/types.go SchemaValidator.paths")])
p("S07","The schema builder honours every well-formed keyword",
 "Building a schema description yields the schema kind named by its type (or, where no type is given, implied by params, properties, anyOf, allOf or not; a string is shorthand for a description with that type; absent returns means anything), with every well-formed constraint keyword of that kind (bounds, exclusive flags, lengths, item counts, choices, items, properties, requires, additional schemas, params, returns, name, description) stored as given in the corresponding constraint and every nested schema built from its own description. An unknown type, or a missing one that nothing implies, a missing or malformed child, a required name that is not declared, or a non-string name yields an error and no schema. A name or description set on a schema is the one read back from it.",
 "inputs","every schema description",
 "Tests build some schemas and look at few fields; a swapped or dropped keyword or swallowed child error is not sampled.",
 "schema/builder.go schema/convert.go",[("buildNodeMap dispatch and build*Schema","schema/builder.go"),("attribute conversion","schema/convert.go")])
p("S08","Exported schema descriptions carry every constraint",
 "The map exported from a schema has the type the builder would need to rebuild it, the name and description when non-empty, and every constraint in effect under the keyword from which the builder reads it, holding that constraint's own value: bounds with their flags, lengths, item counts, items, additional schemas, choices, child, properties, requires, params and returns.",
 "inputs configurations","every schema value",
 "Tests export a few schemas; constraints not present in them may be lost, which loosens validation after re-import.",
 "schema/schema.go schema/builder.go",[("Map methods","schema/schema.go"),("keywords read by the builder","schema/builder.go")])
p("S09","Schema equality compares every constraint",
 "Two schemas are Equal exactly when they have the same concrete kind and the same name, description and every constraint of that kind, compared by value (absent equals only absent, lists by length and element order, maps by size and per key). Equality never panics on an absent or shorter counterpart.",
 "inputs","every pair of schemas",
 "Tests compare a few pairs; a field left out of the comparison shows only for pairs that differ in just that field.",
 "schema/schema.go",[("Equal methods and helpers","schema/schema.go")])
p("S10","Validation never modifies the schema or the data",
 "Validating a value modifies neither the schema nor the validated value, so one schema can be shared by concurrent requests; the only state a validation changes is its own validator. Each message validated by the server uses a validator of its own.",
 "schedules histories programs","every schema, value and interleaving of validations",
 "A write to shared schema state shows only as a race or a changed verdict on a later message.",
 "schema/schema.go schema/validator.go http/request.go",[("Scan methods write no schema or data","schema/schema.go"),("fresh validator per message","http/request.go: Actor.Feed")])
p("S11","Property names are never read as schema keywords",
 "In an object schema description every key under properties is a property name, whatever its text, and its schema applies to the property of that name: names equal to schema keywords (type, params, properties, anyOf, allOf, not, items) neither change nor break the schema being built.",
 "inputs","every property name",
 "No test has a property named like a keyword.",
 "schema/convert.go schema/builder.go",[("properties conversion","schema/convert.go: convertAttrMapOfMap; schema/builder.go: buildObjectSchema")])
p("S12","YAML maps with non-string keys are refused at any depth",
 "Converting YAML data turns every map with string keys into a JSON-like map with the same keys and converted values and every list into a list of its converted elements in order, and returns an error when any map at any depth has a non-string key; scalars pass unchanged.",
 "inputs","every YAML tree",
 "Tests have one bad key at one place.",
 "schema/builder.go",[("FixYamlMaps","schema/builder.go")])
p("S13","Schema build errors name the failing description",
 "Every error of building a schema names the position of the description it is about: its path is that of the description around it followed by the keyword it was found under (properties, anyOf, allOf, not, params, additionalParams, returns, additionalItems, additionalProperties; items adds no step) and, inside a list or map, its own [index] or .name; an error about one keyword of a description (name, description, requires, returns) adds that keyword, and a missing required property its name. An error of a nested description is returned as it is. A refused YAML key is named the same way, and the text of both errors contains the whole path.",
 "inputs","every schema description and YAML document",
 "Tests look at the paths of one or two errors; a path that drops or repeats a step shows only for a particular nesting.",
 "schema/builder.go",[("buildNodeMap and build*Schema, FixYamlMaps","schema/builder.go")])
# ---------------- actor
p("A01","Requests get one reply, other messages none",
 "Feeding a request to an actor returns exactly one reply message or an error, never neither; feeding a notify never returns a reply, whether a handler, a child, the missing handler or nobody takes it; feeding a result or error never invokes a method handler. At most one method handler or missing handler is invoked per fed message.",
 "inputs configurations programs","every message, handler outcome and actor tree",
 "Tests feed well-behaved requests; notifies answered on an error path, or doubly dispatched messages, need particular handler outcomes.",
 "http/request.go",[("Feed and wrapResult","http/request.go")])
p("A02","Replies made by the actor answer the request they were made for",
 "Every reply an actor builds itself (result of a handler, RPC error, internal error, method not found, schema violation) carries the id and trace id of the request being served. A handler's plain return value becomes the result unchanged, and a message returned by a handler is passed on unchanged.",
 "inputs programs","every request and handler outcome",
 "Tests check ids of ordinary results only.",
 "http/request.go messageimpl.go",[("wrapResult, Feed","http/request.go")])
p("A03","Nothing invalid reaches a handler with a schema",
 "When a method was registered with a schema and validation is on, its handler runs only after the encoded form of this very message was validated against this handler's schema without error. A request that fails validation is answered with an error of code -32633 for its id, and a notify that fails is reported as an error, both without running the handler.",
 "inputs configurations","every message and schema",
 "Tests try a few bad params; a path that skips validation is what matters.",
 "http/request.go schema/validator.go",[("schema gate in Feed","http/request.go")])
p("A04","Dispatch order is own handler, children, missing, not-found",
 "A request or notify goes to the actor's own handler of exactly that method if registered; otherwise to the first child that has the method, whose outcome is returned as is; otherwise to the missing handler; otherwise a request is answered with -32601 for its id and a notify is dropped without error. Results and errors go only to the missing handler, if any.",
 "inputs configurations","every actor tree and message",
 "Tests have at most one child level and no competing handlers.",
 "http/request.go",[("Feed","http/request.go")])
p("A05","Panicking handlers do not take the server down",
 "While recovery is switched on (the default of a new actor), an error value that a method handler or the missing handler panics with while serving a request or notify is turned into the outcome the same returned error would have given, and does not propagate out of the actor; a panic with a non-error value propagates unchanged. With recovery switched off panics propagate.",
 "inputs programs","every handler panic",
 "One test panics in one handler; the missing-handler path, children and non-error values are not exercised.",
 "http/request.go",[("deferred recover","http/request.go: recoverCallHandler, recoverCallMissingHandler")])
p("A06","Handler errors map to the right error reply",
 "For a request, an error that is or wraps an RPC error is answered with that error's code, message and data; an error that is or wraps a wrapped HTTP response is returned to the transport as that response; any other error is answered with -32603 and no details of the error. For a notify the error itself is returned and no reply is made.",
 "inputs programs","every error value a handler can return",
 "Tests return two kinds of error.",
 "http/request.go",[("wrapResult","http/request.go")])
p("A07","Registration and lookup of methods agree",
 "Registering a method name already registered on the same actor is refused and leaves the first handler in place, and a second missing or close handler is likewise refused. Has, MethodList and GetSchema report exactly the methods and schemas of the actor's own handlers and of its children (own first), and Off removes exactly the named method.",
 "histories programs","every sequence of registrations",
 "Tests register distinct names once.",
 "http/request.go",[("OnRequest, OnMissing, OnClose, Off, Has, MethodList, GetSchema","http/request.go")])
p("A08","Typed handlers see only well-typed arguments",
 "A typed handler is called with exactly one argument per declared parameter, the i-th converted from the i-th param to the declared type, after the optional leading request or context argument; when there are too few params or one does not convert, it is not called and the outcome is an RPC error of code -32602. A null param never crashes the call, the handler's error is returned as is, and registering something that is not a function of the right shape, including a leading parameter that is not the request or a context, is refused without a panic.",
 "inputs programs","every handler signature and params list",
 "Tests use a handful of signatures with matching params.",
 "http/typewrap.go",[("wrapTyped, interfaceToValue","http/typewrap.go")])
p("A09","Close handlers run exactly once per streaming session",
 "For every streaming session that was established, whatever ends it (peer, error, panic, server shutdown), the close handlers of the handler's actor and of every descendant actor are called exactly once, with the HTTP request and session of that connection, after the session loop ended; a refused connection attempt calls none.",
 "schedules fault_sequences histories","every way a session ends",
 "Tests close sessions in one orderly way.",
 "http/ws_server.go http/h2_server.go http/request.go",[("deferred HandleClose","http/ws_server.go, http/h2_server.go"),("HandleClose recursion","http/request.go")])
p("A10","HTTP/1 handler answers every exchange with one correct response",
 "Anything but POST gets 405, an unreadable or unparsable body gets 400, both without reaching the actor; otherwise a trace id in the X-Trace-Id request header becomes that of a message that has none, the actor is fed exactly once and exactly one status is written: 200 with the encoded reply and Content-Type application/json (and X-Trace-Id when there is one), 200 with an empty body when there is no reply, the given response for simple and wrapped-response errors, 500 for other errors. Response headers are always set before the status is written, and a reply that cannot be encoded is replaced by an internal error for the same id.",
 "inputs fault_sequences","every HTTP request and actor outcome",
 "Tests look at bodies of ordinary exchanges; header order, double writes and the error branches are not observed.",
 "http/h1_server.go utils.go",[("H1Handler.ServeHTTP","http/h1_server.go")])
p("A11","Streaming sessions answer on the connection that asked",
 "In a WebSocket or HTTP/2 session every received text message that parses is fed to the handler's actor exactly once with that session and HTTP request attached, a reply is queued on that same session, and a parse error or an actor error ends the session. Nothing a session goroutine needs is cleared while it may still run, so late messages cannot crash the server, and no session is made over a connection that cannot be written to as a stream.",
 "schedules inputs histories","every message and every interleaving with session end",
 "Tests run orderly sessions; a late message after session end needs an interleaving.",
 "http/ws_server.go http/h2_server.go",[("recvLoop, msgBytesReceived, msgReceived","http/ws_server.go, http/h2_server.go")])
p("A12","Each streaming connection has one writer and one reader",
 "On every streaming connection, server and client side, messages are written by a single goroutine started once per connection and read by a single goroutine started once per connection; all other code hands messages over through the send queue. On the HTTP/2 server nothing is written to the response once its handler has returned.",
 "schedules","every interleaving of senders",
 "Concurrent writes corrupt frames only under load; a write after the handler returned needs a particular interleaving.",
 "http/ws_server.go http/h2_server.go http/streaming_client.go http/ws_client.go http/h2_client.go",[("sendLoop/recvLoop own the connection","http/*.go")])
p("A13","An unencodable reply is answered and does not wedge the session",
 "When a reply queued on a streaming session cannot be encoded, an internal-error reply for the same id is sent instead and the session goes on sending; every queued message is encoded and written in queue order, one text frame (or newline-terminated line) each. Sending to a session that has ended does not block forever.",
 "inputs histories schedules","every handler result and later traffic",
 "No test returns an unencodable value.",
 "http/ws_server.go http/h2_server.go",[("sendLoop, Send","http/ws_server.go, http/h2_server.go")])
p("A14","The gateway routes by protocol to one shared actor",
 "The gateway hands every request to exactly one of its handlers: HTTP/2 requests to the HTTP/2 handler, otherwise Upgrade: websocket to the WebSocket handler, Upgrade: h2c to the HTTP/2 handler, and everything else to the HTTP/1 handler, with the request and response writer unchanged; the HTTP/2 handler speaks cleartext HTTP/2 exactly when the gateway was made insecure. All of its handlers, including the HTTP/2 handler's HTTP/1 fallback, serve the same actor that the gateway exposes, and a nil actor gives a fresh one. An HTTP/2 handler serves a request as a stream exactly when the request is HTTP/2 or the handler was set up for cleartext HTTP/2, and gives every other request, once, to its HTTP/1 fallback.",
 "inputs configurations","every request",
 "Tests use the gateway with few protocols.",
 "http/gateway_handler.go http/h2_server.go http/h1_server.go http/ws_server.go",[("GatewayHandler.ServeHTTP, NewGatewayHandler, FallbackHandler","http/gateway_handler.go, http/h2_server.go")])
p("A15","Servers stop with their context and use TLS when told to",
 "ListenAndServe listens on the given address and serves the given handler, over TLS with the given certificate and key files whenever a TLS configuration is given and in clear only when none is; it returns an error when it cannot listen, and otherwise serves until serving ends and returns why. Its listener is closed when the context is cancelled, and its watcher goroutine ends when serving ends.",
 "configurations fault_sequences","every configuration and cancellation",
 "Tests never use TLS nor inspect shutdown.",
 "http/server_utils.go",[("ListenAndServe","http/server_utils.go")])
p("A16","Session goroutines end with their session",
 "Every goroutine a WebSocket or HTTP/2 server session starts ends once the session has ended and its handlers have returned: none waits for ever to hand over an error, a reply or a message, and the connection they read from is closed whichever way the session ended.",
 "schedules histories","every way a session ends and every number of messages in flight",
 "A leaked goroutine fails no test; it needs more late errors than the channel buffers hold.",
 "http/ws_server.go http/h2_server.go",[("wait, finish, Send, recvLoop, sendLoop","http/ws_server.go, http/h2_server.go")])
# ---------------- auth
p("A17","One slow request does not hold up its session",
 "Unless a WebSocket or HTTP/2 handler is told to serve one message at a time (SpawnGoroutine off), every message of a session is handled in a goroutine of its own, so that reading never waits for a handler; when it is told to, messages are handled in place, one after the other, in the order they arrive. Handlers made by the constructors and by the gateway are concurrent, and nothing changes that option of a handler behind its owner's back.",
 "schedules configurations","every session, message and handler duration",
 "Tests use fast handlers one at a time; a session blocked behind a slow or mutually waiting handler needs a particular interleaving.",
 "http/ws_server.go http/h2_server.go http/gateway_handler.go",[("WSSession.recvLoop, H2Session.recvLoop, NewWSHandler, NewH2Handler","http/ws_server.go, http/h2_server.go")])
p("A18","The server shares its state without races or deadlocks",
 "Requests on all connections are handled at the same time. Whatever handling them writes in handlers, the actor, sessions, the authorisation cache, package variables or variables captured by registered callbacks is protected by one common lock (or a sync.Once, an atomic or otherwise concurrency-safe type), or is set before other goroutines can see it; a typed handler's wrapper keeps nothing between calls. Locks are taken in one order and never twice. Registering handlers is done before serving.",
 "schedules","every interleaving of requests, sessions and closing",
 "Tests send one request at a time; shared state that is only sometimes written at once goes unnoticed.",
 "http/request.go http/auth_handler.go http/gateway_handler.go http/h1_server.go http/h2_server.go http/ws_server.go http/typewrap.go",[("ServeHTTP, Actor.Feed, Actor.HandleClose, RPCSession","http/request.go, http/auth_handler.go, http/h2_server.go, http/ws_server.go")])
p("A19","Sessions are told apart and requests give back what they carry",
 "Every WebSocket and HTTP/2 session has an id of its own: SessionID gives a random UUID made for that session, the same for as long as the session lives. A request handed to a handler gives, from Msg, Session, HttpRequest and Context, exactly the message, session, HTTP request and context it was made with, changing nothing, and has no session unless a streaming session attached itself.",
 "histories inputs","every session of every connection, and every request",
 "Tests open one session at a time; ids that are only sometimes shared (one per client address, per handler, a few digits long) or that change during a session need several.",
 "http/ws_server.go http/h2_server.go http/request.go utils.go",[("SessionID, ServeHTTP","http/ws_server.go, http/h2_server.go"),("NewRPCRequest, RPCRequest accessors","http/request.go"),("NewUuid","utils.go")])
p("A20","Streaming connections have no time or size limits of their own",
 "An established WebSocket or HTTP/2 connection lasts, however long it is idle, until one end closes it, its context or the server's ends, or it fails: neither server nor client puts a deadline on it, and ListenAndServe sets no timeout that covers a whole request. Messages are accepted whatever their size, on streaming connections and in HTTP/1 bodies. The only time limits are those of single calls: the HTTP/1 client's configured timeout and the expiry of a streaming call.",
 "histories inputs configurations","every connection, however long it lives and however large its messages",
 "Tests keep connections for milliseconds and send messages of a few bytes.",
 "http/ws_server.go http/h2_server.go http/h1_server.go http/server_utils.go http/streaming_client.go http/ws_client.go http/h2_client.go",[("ServeHTTP, session loops","http/ws_server.go, http/h2_server.go, http/h1_server.go"),("ListenAndServe","http/server_utils.go"),("Connect and transports","http/streaming_client.go, http/ws_client.go, http/h2_client.go")])
p("A21","Nothing a client sends can crash the server",
 "Whatever a client sends - requests without a header, empty frames, messages without params, malformed credentials, cleartext requests, results nobody asked for - no goroutine of the server panics because of it: outside the handlers users register, the serving path never indexes or slices beyond what is there, asserts a type or a message kind it has not checked, or goes through a value that may be missing.",
 "inputs histories","every request, message and connection",
 "A panic in a session's goroutine ends the whole process; it takes one unusual frame or header no test sends.",
 "http/h1_server.go http/ws_server.go http/h2_server.go http/gateway_handler.go http/auth_handler.go http/request.go",[("ServeHTTP, session loops","http/h1_server.go, http/ws_server.go, http/h2_server.go"),("ServeHTTP","http/gateway_handler.go, http/auth_handler.go"),("Feed, RPCRequest.Log","http/request.go")])
p("U01","Protected handlers run only for authorised requests",
 "The auth handler passes a request on only when authorisation succeeded, otherwise it answers 401 and does not run the protected handler. Without an auth configuration every request passes; with one, a request passes only if a configured JWT secret, basic entry or bearer entry accepts it.",
 "inputs configurations","every request and configuration",
 "Tests try one good and one bad credential per scheme.",
 "http/auth_handler.go",[("ServeHTTP, TryAuth","http/auth_handler.go")])
p("U02","Basic and bearer credentials must match one configured entry",
 "Basic authorisation succeeds only when user name and password both equal those of the same configured entry, and bearer authorisation only when the Authorization header is exactly Bearer followed by the token of a configured entry; every configured entry is tried.",
 "inputs configurations","every credential and entry list",
 "Cross-entry matches (user of one entry, password of another), prefixes and later entries are not sampled.",
 "http/auth_handler.go",[("TryAuth","http/auth_handler.go")])
p("U03","JWT claims are trusted only when verified and unexpired",
 "JWT authorisation succeeds only with claims that came from verifying the presented token's signature with the configured secret, now or earlier for the very same Authorization header, one that names the Bearer scheme, and whose expiry is not in the past at this request, cached or not. Only verified claims are ever cached, under the header they were verified for.",
 "inputs histories","every token and request history",
 "Expiry of a cached token needs a history with time passing.",
 "http/auth_handler.go",[("jwtAuth","http/auth_handler.go")],
 [("jwtCache","verified claims by header","http/auth_handler.go")])
p("U04","The attached identity is that of the accepted credential",
 "The user name and settings attached to an authorised request are those of the accepted credential: the claims of the verified token, or the matched basic entry's, or the matched bearer entry's (its token when it names no user). They reach the protected handler through the request's context, from which AuthInfoFromContext returns them, and are absent when no authorisation is configured.",
 "inputs configurations","every accepted credential",
 "Tests read one identity.",
 "http/auth_handler.go",[("TryAuth, ServeHTTP, AuthInfoFromContext","http/auth_handler.go")])
p("U05","Auth and TLS configurations with empty secrets are refused",
 "Validating a configuration fails when any bearer entry has an empty token, any basic entry has an empty user name or password, or a JWT section has an empty secret, at any position in the lists, and when a TLS configuration lacks a certificate or key file. Otherwise it succeeds, also for no configuration.",
 "configurations","every configuration",
 "Tests validate few configurations.",
 "http/auth_handler.go http/server_utils.go",[("ValidateValues","http/auth_handler.go, http/server_utils.go")])
p("U06","Credentials are not logged, echoed or put into errors",
 "No configured password, token or JWT secret and no credential of a request (its Authorization header, basic password or JWT, valid, expired or wrong) is ever written to a log, a response, an error or a panic by the authorisation, the handlers or the validation of an auth configuration.",
 "inputs","every configuration and every request",
 "Tests do not read logs; a leak sits on the refusal paths only.",
 "http/auth_handler.go http/server_utils.go http/h1_server.go http/ws_server.go http/h2_server.go",[("AuthHandler.TryAuth, AuthHandler.ServeHTTP, AuthConfig.ValidateValues, Logger","http/auth_handler.go, http/server_utils.go")])
# ---------------- client
p("K01","The client type follows the URL scheme",
 "NewClient returns an HTTP/1 client for http and https, a WebSocket client for ws and wss, an HTTP/2 client for h2 and h2c, and an error for any other scheme or an unparsable URL. h2 connects over https and h2c over cleartext http, without modifying the URL passed in.",
 "inputs","every URL",
 "Only some schemes are used in tests.",
 "http/client_factory.go http/h2_client.go",[("NewClient, NewH2Client","http/client_factory.go, http/h2_client.go")])
p("K02","An HTTP/1 call returns the server's reply or an error",
 "A call POSTs exactly the encoded request once and returns a result or error message parsed from a 200 response; a transport failure, any other status (with its response attached), an unreadable or unparsable body, or a body that is not a result or error message gives an error, never a message that is not a reply. A failure is reported with the status of a timeout only when it is one. The response body is closed on every path and the caller's message, trace id included, is the same afterwards; the trace id travels in X-Trace-Id and not in the body, and is restored on the reply.",
 "inputs fault_sequences","every server behaviour",
 "Tests meet cooperative servers only.",
 "http/h1_client.go",[("request, Send","http/h1_client.go")])
p("K03","Headers, TLS settings and timeout reach the transport",
 "Every extra header value and the TLS configuration set on a client are applied to each connection it makes (the TLS configuration set before its first use), whatever the transport, and affect no other client in the process; the HTTP/1 timeout option bounds each exchange, five seconds when not given. Cleartext h2c is used only for h2c URLs.",
 "configurations","every client configuration",
 "Tests set headers on one transport and TLS on none.",
 "http/h1_client.go http/ws_client.go http/h2_client.go http/streaming_client.go",[("Connect, connect, HTTPClient","http/*_client.go")])
p("K04","Streaming replies go to the call that sent the request",
 "A streaming call registers itself before its request is sent, under an id no other pending call uses (a fresh one replacing the caller's if needed, without losing the method, params or trace id); a reply is delivered to the pending call registered under its id and to no other, at most once, carrying the id the caller used.",
 "schedules histories","every interleaving of calls and replies",
 "Tests issue calls one after another; clashes of concurrent equal ids need interleavings.",
 "http/streaming_client.go",[("request, handleResult","http/streaming_client.go")],
 [("pendingRequests","calls waiting for a reply, by id sent","http/streaming_client.go")])
p("K05","Streaming calls end and leave nothing behind",
 "Once its request is queued, a streaming call ends when its reply arrives, when its timeout passes (with a timeout error for its id), or when its context is done; queueing itself ends when the context is done or the connection is closed, and when sending fails the call returns that error. In each case nothing of it stays registered as pending once its timeout has passed, and delivering a late reply never blocks.",
 "schedules fault_sequences","every interleaving of reply, expiry and cancellation",
 "Tests always get a reply.",
 "http/streaming_client.go",[("request, expire, Send","http/streaming_client.go")])
p("K06","UnwrapCall yields the result or the error reply",
 "On every client UnwrapCall decodes exactly the result of the reply into the output and returns nil only if that succeeded; an error reply is returned as that RPC error and a failed call as its error, in both cases without touching the output.",
 "inputs","every reply",
 "Tests unwrap two results.",
 "http/h1_client.go http/streaming_client.go",[("UnwrapCall","http/h1_client.go, http/streaming_client.go")])
p("K07","Streaming clients connect once and report close once",
 "Connecting an already connected client does nothing, and concurrent connects establish one connection with one sender and one receiver; queues exist before the goroutines that use them start. User callbacks are never called while the client's connection lock is held, the close handler is called at most once per registration, and a second handler of a kind is refused. The queue, close channel and close handler are only read or replaced under that lock, and a transport counts as connected exactly from a successful connect until it is closed.",
 "schedules histories","every interleaving of connects, sends and failures",
 "Tests connect once.",
 "http/streaming_client.go",[("Connect, handleError, Reset, On*","http/streaming_client.go")])
p("K08","Transport failures end the connection instead of crashing",
 "A write or read on a streaming transport that was closed meanwhile returns an error and never dereferences a missing connection. A failed read or a failed write resets the client (its waiter gets the error and the transport is closed) and stops the loop; non-text frames are skipped.",
 "schedules fault_sequences","every interleaving of close with reads and writes",
 "A close between check and use needs an interleaving.",
 "http/ws_client.go http/h2_client.go http/streaming_client.go",[("WriteMessage, ReadMessage, sendLoop, recvLoop, handleError","http/*_client.go")])
p("K09","Server-initiated messages reach the message handler",
 "A streaming client passes every received request or notify to its message handler, once and in the order received, and also every result or error that matches no pending call; a reply that matches a pending call is not passed to it.",
 "schedules inputs histories","every message sequence from the server",
 "Tests push one notify.",
 "http/streaming_client.go",[("recvLoop, handleResult","http/streaming_client.go")])
p("K10","Streaming clients frame messages exactly",
 "Each message a streaming client writes goes onto its connection as exactly its encoding in one text frame (WebSocket) or followed by one newline (HTTP/2), and is written only if encoding it succeeded; each message it reads is exactly one frame, respectively one JSON value, of its connection, parsed by the message parser and passed on unchanged.",
 "inputs","every message and frame",
 "Tests exchange a few well-formed messages.",
 "http/ws_client.go http/h2_client.go",[("WriteMessage, ReadMessage","http/ws_client.go, http/h2_client.go")])
p("K11","Streaming clients connect only to servers that accept",
 "Connecting a streaming client opens one connection to the client's URL and succeeds exactly when the server accepted it: the WebSocket handshake completed, or the HTTP/2 stream was answered with status 200. An attempt ends with an error when the context it was given is done first; a refused HTTP/2 response is closed, and a connect, send or call that cannot connect returns an error. Afterwards messages are written to and read from the two directions of that very connection, which nothing but the client, its context or a failure ends.",
 "inputs fault_sequences","every answer and failure of the server while connecting",
 "Tests connect to servers that accept at once; refusals other than by the handshake and servers that never answer are not sampled.",
 "http/ws_client.go http/h2_client.go http/streaming_client.go",[("Connect","http/ws_client.go, http/h2_client.go: Connect"),("establish","http/streaming_client.go: Connect, Send, Call")])
p("K12","The end of a streaming connection is reported as what it was",
 "Wait returns nil at once on a client that is not connected, and otherwise exactly the error that ended the connection, once; CloseChannel returns the channel it comes from. Reading or writing a connection the peer ended (end of input, a websocket close) or that is not there reports TransportClosed, a websocket server that cannot be reached TransportConnectFailed; neither is reported for an error not recognised as such, and every other error stays in the chain of the error returned.",
 "faults schedules","every error of the connection",
 "Tests close connections in one orderly way; the errors differ by how and when the peer goes away.",
 "http/streaming_client.go http/ws_client.go http/h2_client.go parse.go",[("StreamingClient.Wait, wsTransport, h2Transport","http/streaming_client.go, http/ws_client.go, http/h2_client.go")])
p("K13","A streaming connection ends with its context",
 "The context given to Connect, its deadline included, bounds the connection made with it: when it ends, the goroutine that writes and the one that reads notice before they use the transport again, end that connection (closing the transport and releasing what waits on it, with no error to report) and stop, and neither ever writes to or reads from a connection made later. They stop for no other reason than that, a failure, a closed queue or a transport that is not connected; a read that yields neither a message nor an error does not end the reading.",
 "schedules","every way and moment a context ends",
 "Tests cancel nothing while messages are under way; the goroutines outlive a context only in unlucky schedules.",
 "http/streaming_client.go",[("StreamingClient.Connect, sendLoop, recvLoop","http/streaming_client.go")])
p("K14","Clients share their state without races or deadlocks",
 "Clients may be used from several goroutines at once: whatever their exported methods (other than setters called before use), their transports and the goroutines they start write is only read and written with one common lock held, inside a sync.Once or through atomic types, so the state of a connection (socket, decoder, writer, queue, channels, handlers to be called once, the HTTP client made on demand) has no data race. Locks are always taken in the same order and never twice, and none is held while a message is read, written or waited for.",
 "schedules","every interleaving of calls, closing and the connection's goroutines",
 "A race shows only under the race detector and in an unlucky schedule; the tests use a client from one goroutine.",
 "http/streaming_client.go http/ws_client.go http/h2_client.go http/h1_client.go",[("StreamingClient, wsTransport, h2Transport, H1Client","http/streaming_client.go, http/ws_client.go, http/h2_client.go, http/h1_client.go")])
# ---------------- tools / examples
p("K15","Nothing a server sends can crash a client",
 "Whatever a server answers - an unusual status, a response without headers or body, frames that are empty or of another kind, messages nobody asked for - and however connecting fails, no call of a client and no goroutine it starts panics because of it: results of failed operations are not used, and nothing is indexed, asserted or gone through that was not seen to be there.",
 "inputs histories faults","every response, message and failure",
 "Tests talk to this library's own server, which sends none of that.",
 "http/h1_client.go http/streaming_client.go http/ws_client.go http/h2_client.go",[("request, Send","http/h1_client.go"),("sendLoop, recvLoop, handleResult","http/streaming_client.go"),("Connect, ReadMessage, WriteMessage","http/ws_client.go, http/h2_client.go")])
p("X01","Command-line tools send what was asked and fail loudly",
 "jsonrpc-call and jsonrpc-notify send exactly one message, a request respectively a notify, with the method and parsed params given on the command line and the given headers, to the server given by flag, else environment, else default. Any failure (bad usage, params, header, URL, transport) is reported and ends the process with a non-zero status without printing a reply.",
 "inputs fault_sequences","every command line",
 "The tools have no tests.",
 "cli/call/main.go cli/notify/main.go",[("main","cli/call/main.go, cli/notify/main.go")])
p("X02","Header flags parse exactly or fail",
 "Parsing header flags yields every name=value flag in order with surrounding blanks trimmed from name and value and the value keeping any further equals signs; a flag without an equals sign makes it fail.",
 "inputs","every flag list",
 "No test parses header flags.",
 "http/client_util.go",[("HeaderFlags.Parse","http/client_util.go")])
p("X03","The FIFO example guards its shared state",
 "In the FIFO example every access by a request or close handler to the shared queue and to the subscriber table happens while holding the service's lock (exclusively for modifications), and no handler returns a value sharing memory that a later request modifies. Index and emptiness checks precede every element access.",
 "schedules","every interleaving of handlers",
 "The example has no tests; races need interleavings.",
 "examples/fifo/main.go",[("lock around handlers","examples/fifo/main.go")])
p("X04","The benchmark command makes and measures exactly the calls asked for",
 "jsonrpc-benchmark creates m clients for the server given by flag, environment variable JSONRPC_CONNECT or default, each with the given headers, and makes exactly n calls on each of them, every call with the given method and parsed params and a fresh id, reporting failed calls on stderr. It then prints the average, minimum, 95th percentile and maximum, in seconds, of exactly the times those calls took. Bad usage, params, headers, a client that cannot be made or nothing to measure end it reported with a non-zero status.",
 "inputs schedules","every command line, every order in which calls finish",
 "The command has no tests.",
 "cli/benchmark/main.go",[("main, RunCallBenchmark, callNTimes","cli/benchmark/main.go")])
p("X05","The watch command prints what it receives and reconnects within its retry limit",
 "jsonrpc-watch connects to the server given by flag, environment variable JSONRPC_CONNECT or the default, with the given headers, and prints every message received. After every successful connection it sends the request given on the command line, if any, exactly once, with a fresh id, and prints the reply. Unusable params, headers or a URL that cannot stream end it with a non-zero status before it connects. When connecting fails or the connection is lost or closed it reconnects after a pause and gives up once the failures since the last successful connection reach the retry limit; any other error ends it, reported.",
 "inputs fault_sequences","every command line and sequence of connection results",
 "The command has no tests; reconnecting needs faults.",
 "cli/watch/main.go",[("main, jsonrpcWatcher","cli/watch/main.go")])
# ---------------- declined
p("N01","Decoding an encoded message gives an equal message",
 "Decoding the encoding of any message whose values are JSON values yields a message with equal kind, id, method, params, result, error and trace id.",
 "inputs","every message value","Tests round-trip samples.",
 "parse.go messageimpl.go",[("encode/decode","messageimpl.go, parse.go")])
p("N02","Timeouts fire within a bounded delay",
 "A call whose reply never arrives returns its timeout no earlier than its time limit and not much later, and each client stays within its configured limits under load.",
 "schedules","every load and schedule","Timing is not sampled.",
 "http/streaming_client.go http/h1_client.go",[("expire","http/streaming_client.go")])
p("N03","Messages pushed to a session arrive in order and none is lost",
 "The messages a server pushes to a session arrive at its client in the order pushed and without loss as long as the connection lives.",
 "schedules histories","every history of sends on a connection","Tests push one message.",
 "http/ws_server.go http/h2_server.go http/streaming_client.go",[("send queues","http/*.go")])
p("N04","Memory and goroutines per connection stay bounded",
 "The memory and the number of goroutines a peer can make the server or client hold per connection are bounded by configuration, whatever the peer sends.",
 "inputs schedules","every peer behaviour","Tests do not measure resources.",
 "http/ws_server.go http/h2_server.go",[("SpawnGoroutine, queues","http/*.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
ids=[d["id"] for d in P]; assert len(set(ids))==len(ids)
for d in P: assert len(d["title"])<=80,d["id"]
print(len(P))
