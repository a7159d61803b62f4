package jlibschema

import "testing"

func build(t *testing.T, s string) Schema {
	sc, err := NewSchemaBuilder().BuildBytes([]byte(s))
	if err != nil {
		t.Fatal(s, err)
	}
	return sc
}

func TestDefectMapDropsConstraints(t *testing.T) {
	for _, s := range []string{
		`{"type":"string","maxLength":3,"minLength":1}`,
		`{"type":"list","items":{"type":"any"},"maxItems":3,"minItems":1}`,
		`{"type":"list","items":[{"type":"any"}],"additionalItems":{"type":"number"}}`,
	} {
		sc := build(t, s)
		back := build(t, SchemaToString(sc))
		if !sc.Equal(back) {
			t.Fatal(s, SchemaToString(sc))
		}
	}
}

func TestDefectPropertyNamedLikeKeyword(t *testing.T) {
	sc := build(t, `{"type":"object","properties":{"params":{"type":"number"},"not":{"type":"string"}}}`).(*ObjectSchema)
	if len(sc.Properties) != 2 {
		t.Fatal(sc.Properties)
	}
}

func TestDefectMalformedSections(t *testing.T) {
	for _, s := range []string{
		`{"type":"object","properties":5}`,
		`{"type":"method","params":[],"returns":5}`,
	} {
		if sc, err := NewSchemaBuilder().BuildBytes([]byte(s)); err == nil {
			t.Fatal(s, SchemaToString(sc))
		}
	}
}

func TestDefectYamlDeepNonStringKey(t *testing.T) {
	_, err := NewSchemaBuilder().FixYamlMaps(map[string]interface{}{"a": map[interface{}]interface{}{1: 2}})
	if err == nil {
		t.Fatal("accepted")
	}
	_, err = NewSchemaBuilder().BuildYamlBytes([]byte("type: object\nproperties:\n  a:\n    type: any\n    x: {1: 2}\n"))
	if err == nil {
		t.Fatal("accepted")
	}
}
