package harness

// A server authenticator with a scripted user, the client side of every
// authentication method, and independent computations of the proofs.

import (
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"

	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

var methodNames = []string{"anonymous", "ticket", "wampcra", "cryptosign"}

// User is one principal and what the server knows about it.
type User struct {
	AuthID   string `json:"authid"`
	Role     string `json:"role"`
	GrantID  string `json:"grantid"` // authid the authenticator grants
	Ticket   string `json:"ticket"`
	Secret   string `json:"secret"`
	Salt     string `json:"salt,omitempty"`
	Iter     int    `json:"iter,omitempty"`
	KeyLen   int    `json:"keylen,omitempty"`
	Seed     string `json:"seed"` // hex of the 32 bytes
	Realm    string `json:"realm"`
	Extra    V      `json:"extra"`
	Disabled bool   `json:"disabled,omitempty"` // the authenticator refuses this user
}

func genUser(t *rapid.T, format string) User {
	u := User{
		AuthID: genString(t), Role: genShortString(t), Ticket: genString(t), Secret: genString(t),
		Seed:  hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(t, "seed")),
		Realm: genShortString(t), Extra: vNil(),
	}
	u.GrantID = u.AuthID
	if chance(t, "othergrant", 30) {
		u.GrantID = genString(t)
	}
	if chance(t, "salted", 50) {
		u.Salt = pick(t, "salt", "salt", "x", "some longer salt", "é\x00", "0123456789abcdef0123456789abcdef")
		u.Iter = pick(t, "iter", 0, 1, 2, 10, 100, 1000, 1001)
		u.KeyLen = pick(t, "keylen", 0, 1, 16, 31, 32, 33, 64, 100)
	}
	switch between(t, "extra", 0, 2) {
	case 1:
		u.Extra = V{K: "map"}
	case 2:
		u.Extra = genMap(t, format, 2)
		for i, k := range u.Extra.M {
			if k == "pubkey" {
				u.Extra.M[i] = "pubkey2"
			}
		}
		if chance(t, "pubkey", 25) { // an application may put it there itself
			u.Extra.M, u.Extra.L = append(u.Extra.M, "pubkey"), append(u.Extra.L, vStr(u.pubkey()))
		}
	}
	return u
}

func (u User) pubkey() string {
	return hex.EncodeToString(ed25519.NewKeyFromSeed(must(hex.DecodeString(u.Seed)))[32:])
}

// craKey is the key both sides use for WAMP-CRA.
func (u User) craKey() []byte {
	if u.Salt == "" {
		return []byte(u.Secret)
	}
	iter, n := u.Iter, u.KeyLen
	if iter <= 0 {
		iter = 1000
	}
	if n <= 0 {
		n = 32
	}
	return []byte(base64.StdEncoding.EncodeToString(pbkdf2Own([]byte(u.Secret), []byte(u.Salt), iter, n)))
}

// client builds the library's client authenticator.
func (u User) client(method string) (auth.ClientAuthenticator, error) {
	switch method {
	case "anonymous":
		return auth.NewAnonymousAuthenticator(u.AuthID, u.Extra.Map()), nil
	case "ticket":
		return auth.NewTicketAuthenticator(u.AuthID, u.Ticket, u.Extra.Map()), nil
	case "wampcra":
		return auth.NewWAMPCRAAuthenticator(u.AuthID, u.Secret, u.Extra.Map()), nil
	case "cryptosign":
		return auth.NewCryptoSignAuthenticator(u.AuthID, u.Seed, u.Extra.Map())
	}
	panic("HARNESS-ERROR: method " + method)
}

type asked struct {
	method, realm, authid string
	extra                 map[string]any
	ticket, pubkey        string
}

// server is an authenticator that grants what its user's data says.
type server struct {
	methods []auth.Method
	user    User
	log     []asked
	// lenient grants tickets and keys without looking at them
	lenient bool
	// mixed refusals come with a response next to the error
	mixed bool
}

// refuse is the answer to a request that is refused.
func (s *server) refuse(why string) (auth.Response, error) {
	if s.mixed {
		r, _ := auth.NewResponse(s.user.GrantID, s.user.Role, 0)
		return r, errors.New(why)
	}
	return nil, errors.New(why)
}

func (s *server) Methods() []auth.Method { return s.methods }

func (s *server) Authenticate(req auth.Request) (auth.Response, error) {
	a := asked{method: string(req.AuthMethod()), realm: req.Realm(), authid: req.AuthID(), extra: req.AuthExtra()}
	if t, ok := req.(*auth.TicketRequest); ok {
		a.ticket = t.Ticket()
	}
	if k, ok := req.(*auth.RequestCryptoSign); ok {
		a.pubkey = k.PublicKey()
	}
	s.log = append(s.log, a)
	if s.user.Disabled {
		return s.refuse("refused")
	}
	if !s.lenient && a.authid != s.user.AuthID {
		return s.refuse("unknown user")
	}
	switch a.method {
	case "ticket":
		if !s.lenient && a.ticket != s.user.Ticket {
			return s.refuse("wrong ticket")
		}
	case "wampcra":
		if s.user.Salt != "" {
			return auth.NewCRAResponseSalted(s.user.GrantID, s.user.Role, s.user.Secret, s.user.Salt, s.user.Iter,
				s.user.KeyLen, 0), nil
		}
		return auth.NewCRAResponse(s.user.GrantID, s.user.Role, s.user.Secret, 0), nil
	case "cryptosign":
		if !s.lenient && a.pubkey != s.user.pubkey() {
			return s.refuse("unknown key")
		}
	}
	return auth.NewResponse(s.user.GrantID, s.user.Role, 0)
}

func newServer(u User, methods ...string) *server {
	s := &server{user: u}
	for _, m := range methods {
		s.methods = append(s.methods, auth.Method(m))
	}
	return s
}

// hello is the HELLO of a user for some methods.
func (u User) hello(methods ...string) *messages.Hello {
	extra := u.Extra.Map()
	if extra == nil {
		extra = map[string]any{}
	}
	extra["pubkey"] = u.pubkey()
	return messages.NewHello(u.Realm, u.AuthID, extra, map[string]any{"caller": map[string]any{}}, methods)
}

// proof computes the genuine AUTHENTICATE signature for a challenge.
func (u User) proof(method string, challenge string) string {
	switch method {
	case "ticket":
		return u.Ticket
	case "wampcra":
		return base64.StdEncoding.EncodeToString(hmacOwn(u.craKey(), []byte(challenge)))
	case "cryptosign":
		return hex.EncodeToString(ed25519.Sign(ed25519.NewKeyFromSeed(must(hex.DecodeString(u.Seed))), must(hex.DecodeString(challenge)))) + challenge
	}
	return ""
}

// genuine says whether a signature proves the user's secret over a challenge.
func (u User) genuine(method, challenge, sig string) bool {
	switch method {
	case "ticket":
		return sig == u.Ticket
	case "wampcra":
		raw, err := base64.StdEncoding.DecodeString(sig)
		return err == nil && string(raw) == string(hmacOwn(u.craKey(), []byte(challenge)))
	case "cryptosign":
		raw, err := hex.DecodeString(sig)
		if err != nil || len(raw) != 96 || hex.EncodeToString(raw[64:]) != challenge {
			return false
		}
		return ed25519.Verify(must(hex.DecodeString(u.pubkey())), raw[64:], raw[:64])
	}
	return false
}

func challengeOf(m messages.Message) (string, bool) {
	c, ok := m.(*messages.Challenge)
	if !ok {
		return "", false
	}
	s, _ := c.Extra()["challenge"].(string)
	return s, true
}

// ------------------------------------------------ HMAC and PBKDF2 (RFC 2104, 8018)

func hmacOwn(key, msg []byte) []byte {
	if len(key) > 64 {
		h := sha256.Sum256(key)
		key = h[:]
	}
	var ipad, opad [64]byte
	copy(ipad[:], key)
	copy(opad[:], key)
	for i := range ipad {
		ipad[i] ^= 0x36
		opad[i] ^= 0x5c
	}
	inner := sha256.Sum256(append(ipad[:], msg...))
	outer := sha256.Sum256(append(opad[:], inner[:]...))
	return outer[:]
}

func pbkdf2Own(password, salt []byte, iter, n int) []byte {
	var out []byte
	for block := uint32(1); len(out) < n; block++ {
		u := hmacOwn(password, append(append([]byte{}, salt...),
			byte(block>>24), byte(block>>16), byte(block>>8), byte(block)))
		sum := append([]byte{}, u...)
		for i := 1; i < iter; i++ {
			u = hmacOwn(password, u)
			for j := range sum {
				sum[j] ^= u[j]
			}
		}
		out = append(out, sum...)
	}
	return out[:n]
}
