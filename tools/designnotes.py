NOTES.update({
"M02":"`decodeId` and the like are followed by type, the JSON decoder itself is a library.",
"M03":"that encoding/json encodes struct tags and maps as documented.",
"M06":"targets are judged by their static type; a decoder that escapes to code outside the module would be an alarm.",
"M08":"math/big's parser is modelled as accepting exactly what its text tests on the path allow.",
"M09":"strconv, json and file reading are opaque; their error results decide the category.",
"M10":"reflect.VisibleFields order is declaration order.",
"K12":"errors are recognised by errors.Is, errors.As, comparison with io.EOF and tests on their text; the HTTP/2 client reports every failed exchange (a *url.Error) as TransportClosed, which the property allows.",
"K13":"a check that the context lives and the use of the transport after it are not atomic: a context that ends in between is noticed at the next round.",
"M16":"fields of a message or error built by the caller are taken to be filled in as its constructors do; text formatting and logging of library types is trusted; run-time exhaustion of memory or stack by huge or deeply nested documents is outside.",
"A21":"what users' handlers do is outside (A05 is about them); pointers a constructor sets are taken to be set; that the actor replies only to messages with an id is A01's, and values got from a cache have the only type put into one.",
"K15":"as A21; making a request without a method or id panics at its maker; UnwrapCall's accessors are K06's.",
"K14":"objects are told apart by type, not identity: a lock of one client would pass for the same lock of another; user handlers are not analysed.",
"A19":"that random UUIDs differ is assumed; an id is accepted when it has the whole of one in it.",
"A20":"limits are recognised by the calls and fields that set them (websocket, net, net/http, io, context), not by arithmetic on message lengths, which A11, A13, K10 and A10 exclude by requiring what is read to be handed on.",
"A18":"as K14; decoded messages and requests belong to the goroutine handling them and are not tracked; library types (lru.Cache, sync.Map, websocket.Conn) are trusted with their documented concurrency.",
"U06":"values are followed through strings, maps, slices and printing; errors made by libraries are taken not to contain credentials; a bearer entry without a user name makes its token the identity of the request, as documented there, and what an application does with that identity is its own matter.",
"A17":"that a handler run in its own goroutine makes progress is the scheduler's matter and is assumed.",
"M12":"the key must be a plain concatenation of the three parts (a digest of them would be reported as undecided). That the concatenation of a method and a JSON list is injective is argued by hand: a proper suffix of a JSON list is never a JSON list, since the quotes before it would be unbalanced or its last bracket would close the outer list.",
"M11":"regular expressions, prefix and equality tests on the argument; any other test on it is reported as undecided.",
"S01":"comparisons in float64 are taken as Go performs them; ints beyond 2^53 compare as their float64 conversions.",
"S05":"map iteration order is arbitrary.",
"S07":"over every keyword of every kind; the dispatcher's recursion is opaque (induction on the description).",
"S08":"decided against the builder's own terms, so both sides may be rewritten together.",
"S11":"as S07.",
"A02":"a message returned by a handler is the handler's own business.",
"A05":"panics raised by library code in handlers are panics of the handler.",
"A08":"reflect calls are modelled by their documented panics; mapstructure is opaque.",
"A09":"that net/http runs deferred calls of handlers when it kills a connection; a process exit runs none.",
"A10":"paths where a message that is no request got a reply are excluded, A01 shows there are none.",
"A12":"single-writer is per connection object; the library's own control frames are its business.",
"A13":"the queue's capacity is not judged; a full queue blocks until the session ends.",
"A15":"http.Server's own behaviour on Serve.",
"A16":"an operation blocking inside a user's handler is outside.",
"U01":"constant-time comparison is not claimed.",
"U03":"the clock is opaque; leeway is none.",
"K02":"redirects are net/http's; the caller's ResponseWriter is not involved.",
"K03":"settings made after the first use of an HTTP client are not claimed.",
"K04":"ids are compared as sync.Map compares interface values.",
"K05":"the expiry time is any positive constant; that timers fire is N02.",
"K07":"`Connected()` reads are unsynchronised (see above).",
"K08":"a write that blocks for ever in the network is not a failure.",
"K11":"redirects followed by net/http count as the one attempt.",
"X01":"usage errors found by the flag package end the process with its status 2.",
"X03":"the three findings are listed below; anything else is reported.",
"X04":"the finding is listed below; anything else is reported. Goroutine scheduling does not matter because results are counted.",
"X05":"the pause is any positive constant.",
})
