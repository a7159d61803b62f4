SEEDS=[
dict(id="m15-hidden-failure",property="M15",dir="",
 needs="a value that encoding/json cannot encode, such as a structure holding NaN or a channel",
 breaks="MarshalJson turns every value it cannot encode into null and reports no error",
 edits=[("utils.go",'''	marshaled, err := json.Marshal(data)
	if err != nil {
		return "", err
	}
	return string(marshaled), nil
''','''	marshaled, err := json.Marshal(data)
	if _, isMarshaler := data.(json.Marshaler); err != nil && isMarshaler {
		return "", err
	}
	if len(marshaled) == 0 {
		marshaled = []byte("null")
	}
	return string(marshaled), nil
''')],
 demo='''
package jlib

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	if s, err := MarshalJson(map[string]interface{}{"a": 1}); err != nil || s != `{"a":1}` {
		t.Fatal(s, err)
	}
	if s, err := MarshalJson(map[string]interface{}{"a": math.NaN()}); err == nil {
		t.Fatalf("encoded as %s", s)
	}
}
'''),
]
