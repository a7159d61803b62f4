T="""package {p}

import (
{i}
)
"""
def H(p,*imps): return T.format(p=p,i="\n".join('\t"%s"'%x for x in imps))
P="parse.go"; U="utils.go"; SC="schema/schema.go"; V="schema/validator.go"
SEEDS=[
dict(id="m06-float-id",property="M06",dir="",
 needs="a message whose id is a whole number above 2^53",
 breaks="the id goes through float64 and comes out as a neighbouring number",
 edits=[(P,'''	var intId int
	if err := json.Unmarshal(*un.Id, &intId); err == nil {
		return intId, nil
	}
''','''	var numId float64
	if err := json.Unmarshal(*un.Id, &numId); err == nil && numId == math.Trunc(numId) {
		return int(numId), nil
	}
'''),(P,'''	"encoding/json"
''','''	"encoding/json"
	"math"
''')],
 demo=H("jlib","testing")+'''
func TestDemo(t *testing.T) {
	m, err := ParseBytes([]byte(`{"jsonrpc":"2.0","id":9007199254740993,"method":"a","params":[]}`))
	if err != nil || m.MustId() != 9007199254740993 {
		t.Fatal(m.MustId(), err)
	}
}
'''),
dict(id="m02-error-with-method",property="M02",dir="",
 needs="a message with both an error and a method",
 breaks="the message kind follows the method before the error, so a message with both is taken for a request",
 edits=[(P,'''	if un.Error != nil {
		// senity check''','''	if un.Error != nil && un.Method == "" {
		// senity check''')],
 demo=H("jlib","testing")+'''
func TestDemo(t *testing.T) {
	m, err := ParseBytes([]byte(`{"jsonrpc":"2.0","id":1,"method":"a","params":[],"error":{"code":1,"message":"x"}}`))
	if err != nil {
		return
	}
	if !m.IsError() {
		t.Fatal("a message with an error field is not an error message")
	}
}
'''),
dict(id="m10-null-param",property="M10",dir="",
 needs="a null param that is not the last one",
 breaks="a null param is not used up by its field, so every later field is left alone",
 edits=[(U,'''		param := params[idx]
		idx++
''','''		param := params[idx]
		if param == nil {
			continue
		}
		idx++
''')],
 demo=H("jlib","testing")+'''
func TestDemo(t *testing.T) {
	var v struct {
		A *int
		C string
	}
	if err := DecodeParams([]interface{}{nil, "x"}, &v); err != nil || v.A != nil || v.C != "x" {
		t.Fatal(v, err)
	}
}
'''),
dict(id="m09-octal",property="M09",dir="",
 needs="a whole number argument with a leading zero",
 breaks="the number is read in base 8",
 edits=[(U,'''	iv, err := strconv.ParseInt(input, 10, 64)
''','''	iv, err := strconv.ParseInt(input, 0, 64)
''')],
 demo=H("jlib","testing")+'''
func TestDemo(t *testing.T) {
	v, err := GuessJson("0755")
	if err != nil || v != int64(755) {
		t.Fatal(v, err)
	}
}
'''),
dict(id="s06-shared-path",property="S06",dir="schema",
 needs="an error kept while the same validator goes on to another value",
 breaks="errors share the memory of the validator's path, so a later scan changes what an earlier error names",
 edits=[(V,'''	var newPaths []string
	for _, path := range self.paths {
		newPaths = append(newPaths, path)
	}
	return &ErrorPos{paths: newPaths, hint: hint}
''','''	newPaths := self.paths
	return &ErrorPos{paths: newPaths, hint: hint}
''')],
 demo=H("jlibschema","testing")+'''
func TestDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"list","items":"string"}`))
	if err != nil {
		t.Fatal(err)
	}
	v := NewSchemaValidator()
	e1 := v.ValidateBytes(s, []byte(`["a",1]`))
	e2 := v.ValidateBytes(s, []byte(`["a","b",2]`))
	if e1 == nil || e2 == nil || e1.Path() != "[1]" || e2.Path() != "[2]" {
		t.Fatal(e1, e2)
	}
}
'''),
dict(id="s05-null-property",property="S05",dir="schema",
 needs="an optional property that is present with a null value its schema refuses",
 breaks="a null property is taken for an absent one and not checked",
 edits=[(SC,'''		if v, found := obj[prop]; found {''','''		if v, found := obj[prop]; found && v != nil {''')],
 demo=H("jlibschema","testing")+'''
func TestDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"object","properties":{"a":"string"}}`))
	if err != nil {
		t.Fatal(err)
	}
	if e := NewSchemaValidator().ValidateBytes(s, []byte(`{"a":null}`)); e == nil {
		t.Fatal("null accepted as a string")
	}
}
'''),
dict(id="s09-prefix-equal",property="S09",dir="schema",
 needs="comparing a choice list with a longer one that starts with it",
 breaks="a list of schemas equals every longer list it is a prefix of",
 edits=[(SC,'''func SchemaListEqual(l1 []Schema, l2 []Schema) bool {
	if l1 != nil && l2 != nil {
		if len(l1) != len(l2) {''','''func SchemaListEqual(l1 []Schema, l2 []Schema) bool {
	if l1 != nil && l2 != nil {
		if len(l1) > len(l2) {''')],
 demo=H("jlibschema","testing")+'''
func TestDemo(t *testing.T) {
	b := NewSchemaBuilder()
	x, e1 := b.BuildBytes([]byte(`{"anyOf":["string"]}`))
	y, e2 := b.BuildBytes([]byte(`{"anyOf":["string","number"]}`))
	if e1 != nil || e2 != nil || x.Equal(y) || y.Equal(x) {
		t.Fatal(e1, e2, x.Equal(y), y.Equal(x))
	}
}
'''),
dict(id="s01-large-minimum",property="S01",dir="schema",
 needs="an integer schema with a minimum above 2^53 and a value just below it",
 breaks="integers are compared after a conversion to float64, so neighbours of large bounds are not told apart",
 edits=[(SC,'''		if !exmin && *self.Minimum > v {
			return validator.NewErrorPos("value < minimum")
		}

		if exmin && *self.Minimum >= v {''','''		if !exmin && float64(*self.Minimum) > float64(v) {
			return validator.NewErrorPos("value < minimum")
		}

		if exmin && *self.Minimum >= v {''')],
 demo=H("jlibschema","testing")+'''
func TestDemo(t *testing.T) {
	s := NewIntegerSchema()
	m := int64(9007199254740993)
	s.Minimum = &m
	if e := NewSchemaValidator().ValidateBytes(s, []byte(`9007199254740992`)); e == nil {
		t.Fatal("value below the minimum accepted")
	}
}
'''),
]
