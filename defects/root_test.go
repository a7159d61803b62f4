package jlib

// Demonstrations of the defects repaired by the fix: commits in /repo (root
// package).  Run through defects/run.sh, which overlays them into /repo.

import (
	"encoding/json"
	"testing"
)

func TestDefectCloneParamsForm(t *testing.T) {
	m, _ := ParseBytes([]byte(`{"jsonrpc":"2.0","id":1,"method":"m","params":"one"}`))
	if s := MessageString(m.ReplaceId(2)); s != `{"jsonrpc":"2.0","method":"m","id":2,"params":"one"}` {
		t.Fatal(s)
	}
}

func TestDefectDecodeParamsNull(t *testing.T) {
	var s struct {
		A interface{}
		B int
	}
	if err := DecodeParams([]interface{}{nil, 3}, &s); err != nil || s.B != 3 {
		t.Fatal(err, s)
	}
}

func TestDefectDecodeParamsNilOutput(t *testing.T) {
	if err := DecodeParams([]interface{}{1}, nil); err == nil {
		t.Fatal("nil accepted")
	}
	var p *struct{ A int }
	if err := DecodeParams([]interface{}{1}, p); err == nil {
		t.Fatal("nil pointer accepted")
	}
}

func TestDefectGuessNonFinite(t *testing.T) {
	for _, s := range []string{"nan", "inf", "-Infinity"} {
		v, err := GuessJson(s)
		if err != nil {
			continue
		}
		if _, err := json.Marshal(v); err != nil {
			t.Fatal(s, err)
		}
	}
}

func TestDefectBigint(t *testing.T) {
	for _, s := range []string{`"12x"`, `""`, `1.5`, `true`, `{}`} {
		b := Bigint{}
		b.Load("7")
		if err := json.Unmarshal([]byte(s), &b); err == nil {
			t.Fatal(s, b.String())
		}
	}
	b := Bigint{}
	b.Load("7")
	if err := b.UnmarshalJSON([]byte("null")); err != nil || b.String() != "7" {
		t.Fatal(err, b.String())
	}
}
