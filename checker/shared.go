package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
)

// Some properties rest on what another one states about a function they
// use: a call that keeps its params rests on Clone keeping them. Those
// obligations are decided by the other property's rule, on the same source,
// and count here as well.
type share struct {
	from, keys string // the property and the keys of its obligations
	why        string
}

var shares = map[string][]share{
	"A01": {
		{"M01", "IsRequest|IsNotify", "which messages get a reply rests on the kind predicates"},
	},
	"A03": {
		{"A07", "WithSchema|NewActor:ValidateSchema", "a handler is guarded only if its schema is kept and validation is on"},
		{"M05", "ErrorPos", "the refusal is the reply made from the validation error"},
		{"M03", "MessageMap", "what is validated is the map of the message"},
	},
	"A04": {
		{"A07", "AddChild|Has|OnMissing|On|OnRequest|Off", "dispatch looks up what registration left"},
		{"M14", "ErrMethodNotFound", "the not-found reply carries the predefined error"},
		{"M05", "RPCError.ToMessageFromId", "the not-found reply is made from the predefined error"},
	},
	"A09": {
		{"A07", "AddChild|OnClose", "the close handlers that run are those that were registered"},
	},
	"A10": {
		{"M02", "ParseBytes|DecodeMessage", "the request is what its body decodes to"},
		{"M03", "MessageBytes", "the response is the encoded reply"},
	},
	"A11": {
		{"M02", "ParseBytes|DecodeMessage", "the message handed on is what its frame decodes to"},
		{"A19", "Msg|Session|HttpRequest|Context|new", "a handler gets the message, session and request attached"},
	},
	"A13": {
		{"M03", "MessageBytes", "the reply that is written is the encoded one"},
	},
	"A20": {
		{"A13", "(WS|H2):stops", "the writer of a session goes on until the session ends"},
		{"K13", "stops", "the writer of a client goes on until the connection ends"},
	},
	"K02": {
		{"M02", "ParseBytes|DecodeMessage", "the reply is what its body decodes to"},
		{"M03", "MessageBytes", "the request that is sent is the encoded one"},
		{"M01", "IsResultOrError", "which messages are replies rests on the kind predicates"},
	},
	"K04": {
		{"M04", "", "a call travels under a fresh id and its reply gets the caller's back"},
	},
	"K05": {
		{"M05", "RPCError.ToMessage", "a timeout is reported as the error reply made from it"},
	},
	"K09": {
		{"M01", "IsResultOrError|IsRequestOrNotify", "which messages go to the handler rests on the kind predicates"},
	},
	"K10": {
		{"M02", "ParseBytes|DecodeMessage", "a received frame is what it decodes to"},
		{"M03", "MessageBytes", "a frame that is sent is the encoded message"},
	},
	"K11": {
		{"K01", "url", "the transport connects to the URL the client was made with"},
	},
	"K12": {
		{"K08", "report", "what is reported is what Reset was told"},
	},
	"U04": {
		{"A19", "Context|new:ctx|new:context", "a registered handler reads the identity from the context of its request"},
	},
	"X01": {
		{"X02", "", "the header flags are what the header parser makes of them"},
		{"M09", "array", "the params are what the command-line values are taken for"},
	},
	"X04": {
		{"X02", "", "the header flags are what the header parser makes of them"},
		{"M09", "array", "the params are what the command-line values are taken for"},
	},
	"X05": {
		{"X02", "", "the header flags are what the header parser makes of them"},
		{"M09", "array", "the params are what the command-line values are taken for"},
	},
}

func (c *Ctx) shared() {
	for _, s := range shares[c.id] {
		re := regexp.MustCompile("^" + s.from + ":(" + s.keys + ")|^anchor:|^undecided")
		o := &Ctx{w: c.w, id: s.from, tier: c.tier, seen: map[string]bool{}, funcs: map[string]bool{}, counts: map[string]int{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); ok {
						return
					}
					o.violS("undecided:panic", "-", fmt.Sprintf("the checker could not decide: %v", r))
				}
			}()
			checks[s.from].run(o)
		}()
		n := 0
		for k, m := range o.obs {
			if re.MatchString(k) {
				n += m
			}
		}
		c.oblig += n
		c.discharg += n
		for _, v := range o.viols {
			if re.MatchString(v.Key) {
				c.discharg--
				c.violS(c.id+":"+v.Key, v.Pos, s.why+": "+v.Msg)
			}
		}
		if n == 0 && len(o.viols) == 0 {
			c.violS(c.id+":vacuous:"+s.from, "-", "no obligation of "+s.from+" ("+s.keys+") was found")
		}
		for f := range o.funcs {
			c.funcs[f] = true
		}
		c.count("shared_obligations", n)
		c.rule("%s: the obligations %s of property %s", s.why, s.keys, s.from)
	}
	if os.Getenv("JLIB_KEYS") != "" {
		var ks []string
		for k, n := range c.obs {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("KEY", k)
		}
	}
}
