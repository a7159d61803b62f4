A="http/auth_handler.go"
HEAD='''
package jlibhttp

import (
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"github.com/golang-jwt/jwt"
)

var _ = jwt.New
var _ = time.Now

func try(h *AuthHandler, set func(r *http.Request)) (*AuthInfo, bool) {
	r := httptest.NewRequest("POST", "/", nil)
	set(r)
	return h.TryAuth(r)
}
'''
SEEDS=[
dict(id="u02-mixed-entries",property="U02",dir="http",
 needs="a request that combines the user name of one basic entry with the password of another entry",
 breaks="user name and password are matched against different entries of the configured list",
 edits=[(A,'''			for _, basicCfg := range self.authConfig.Basic {
				if basicCfg.Username == username && basicCfg.Password == password {
''','''			userKnown := false
			for _, basicCfg := range self.authConfig.Basic {
				userKnown = userKnown || basicCfg.Username == username
				if userKnown && basicCfg.Password == password {
''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Basic: []BasicAuthConfig{{Username: "a", Password: "pa"}, {Username: "b", Password: "pb"}}}, nil)
	if _, ok := try(h, func(r *http.Request) { r.SetBasicAuth("a", "pb") }); ok {
		t.Fatal("accepted mixed credentials")
	}
	if _, ok := try(h, func(r *http.Request) { r.SetBasicAuth("b", "pb") }); !ok {
		t.Fatal("refused right credentials")
	}
}
'''),
dict(id="u03-cached-expiry",property="U03",dir="http",
 needs="a token presented once while valid and again after its expiry",
 breaks="the expiry is only checked when the token is verified, cached claims are accepted for ever",
 edits=[(A,'''		if claims.ExpiresAt < time.Now().UTC().Unix() {
''','''		if !fromCache && claims.ExpiresAt < time.Now().UTC().Unix() {
''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Jwt: &JwtAuthConfig{Secret: "s"}}, nil)
	tok := jwt.NewWithClaims(jwt.SigningMethodHS256, &jwtClaims{Username: "u", StandardClaims: jwt.StandardClaims{ExpiresAt: time.Now().Unix() + 1}})
	s, err := tok.SignedString([]byte("s"))
	if err != nil {
		t.Fatal(err)
	}
	set := func(r *http.Request) { r.Header.Set("Authorization", "Bearer "+s) }
	if _, ok := try(h, set); !ok {
		t.Fatal("refused a valid token")
	}
	time.Sleep(2500 * time.Millisecond)
	if _, ok := try(h, set); ok {
		t.Fatal("accepted an expired token")
	}
}
'''),
dict(id="u04-identity-of-earlier-entry",property="U04",dir="http",
 needs="several bearer entries, an earlier one naming a user and a later one, without a name, whose token is presented",
 breaks="the identity attached for a nameless bearer entry is that of an earlier entry",
 edits=[(A,'''		for _, bearerCfg := range self.authConfig.Bearer {
			expect := fmt.Sprintf("Bearer %s", bearerCfg.Token)
			if authHeader == expect {
				username := bearerCfg.Username
				if username == "" {
''','''		username := ""
		for _, bearerCfg := range self.authConfig.Bearer {
			if bearerCfg.Username != "" {
				username = bearerCfg.Username
			}
			expect := fmt.Sprintf("Bearer %s", bearerCfg.Token)
			if authHeader == expect {
				if username == "" {
''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Bearer: []BearerAuthConfig{{Token: "t1", Username: "alice"}, {Token: "t2"}}}, nil)
	info, ok := try(h, func(r *http.Request) { r.Header.Set("Authorization", "Bearer t2") })
	if !ok || info.Username != "t2" {
		t.Fatal("wrong identity", info)
	}
}
'''),
dict(id="u05-only-first-bearer",property="U05",dir="http",
 needs="a configuration whose empty token is not in the first entry",
 breaks="validation stops at the first bearer entry that has a token",
 edits=[(A,'''			if bearerCfg.Token == "" {
				return errors.New("bearer token is empty")
			}
''','''			if bearerCfg.Token == "" {
				return errors.New("bearer token is empty")
			}
			if bearerCfg.Username == "" {
				break
			}
''')],
 demo=HEAD+'''
func TestDemo(t *testing.T) {
	c := &AuthConfig{Bearer: []BearerAuthConfig{{Token: "t1"}, {Token: ""}}}
	if c.ValidateValues() == nil {
		t.Fatal("an empty token is accepted")
	}
}
'''),
]
