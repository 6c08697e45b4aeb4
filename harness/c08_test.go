package harness

import (
	"encoding/base64"
	"encoding/hex"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

type forgeCase struct {
	Format  string   `json:"format"`
	Bytes   bool     `json:"bytes"`
	Method  string   `json:"method"`
	Offered []string `json:"offered"`
	User    User     `json:"user"`
	Other   User     `json:"other"`
	Kind    string   `json:"kind"`
	Pos     int      `json:"pos"`
	Bit     int      `json:"bit"`
	Lenient bool     `json:"lenient,omitempty"`
	Mixed   bool     `json:"mixed,omitempty"` // the authenticator refuses with an error and a response
	Tries   int      `json:"tries"`           // further handshakes of the same user in between
	Extra   []string `json:"extra,omitempty"` // names the AUTHENTICATE extra claims something under
}

var forgeKinds = map[string][]string{
	"anonymous": {"disabled", "unknown"},
	"ticket": {"genuine", "disabled", "unknown", "empty", "flip", "cut", "extend", "case", "otheruser", "secret",
		"space", "challenge", "later-disabled"},
	"wampcra": {"genuine", "disabled", "unknown", "empty", "flip", "cut", "extend", "case", "otheruser", "secret",
		"unsalted", "othersalt", "othersecret", "defaults", "otheriter", "otherlen", "replay", "otherchallenge", "emptychallenge", "cutchallenge",
		"flipchallenge", "raw", "hex", "zero", "wrongtype", "emptykey", "keyless"},
	"cryptosign": {"genuine", "disabled", "unknown", "empty", "flip", "cut", "extend", "otheruser", "replay",
		"otherchallenge", "emptychallenge", "cutchallenge", "flipchallenge", "sigonly", "swapchallenge", "longmessage",
		"zero", "zerosig", "nokey", "shortkey", "otherkey", "base64", "keyless"},
}

func genForgeCase(t *rapid.T) forgeCase {
	c := forgeCase{Format: pick(t, "format", formats...), Bytes: chance(t, "bytes", 50)}
	c.Method = methodNames[max(between(t, "method", -3, 3), -3)&3]
	c.User, c.Other = genUser(t, c.Format), genUser(t, c.Format)
	c.User.Iter, c.Other.Iter = min(c.User.Iter, 10), min(c.Other.Iter, 10)
	if chance(t, "sameid", 50) {
		c.Other.AuthID, c.Other.GrantID = c.User.AuthID, c.User.GrantID
	}
	kinds := forgeKinds[c.Method]
	c.Kind = kinds[intn(t, "kind", len(kinds))]
	c.Pos, c.Bit = intn(t, "pos", 400), intn(t, "bit", 8)
	c.Lenient = chance(t, "lenient", 30) && c.Method != "ticket"
	c.Tries = between(t, "tries", 0, 2)
	c.Mixed = chance(t, "mixed", 30)
	if chance(t, "extra", 50) {
		for _, k := range authExtraKeys {
			if chance(t, "claim", 40) {
				c.Extra = append(c.Extra, k)
			}
		}
	}
	c.Offered = []string{c.Method}
	for _, m := range methodNames {
		if m != c.Method && chance(t, "offer", 20) {
			c.Offered = append(c.Offered, m)
		}
	}
	return c
}

// C08: no session without a valid proof.
func TestC08_Forged(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "handshakes up to the challenge, answered with forged proofs: other user's or " +
		"altered tickets, secrets, keys, salts and signatures, proofs of another or an earlier handshake, for altered or " +
		"chosen challenges, of wrong form; authenticators that refuse or answer with the wrong kind of response. A " +
		"WELCOME is only right if the proof is the genuine one by an independent computation; non-trivial: it is not"},
		genForgeCase, runC08)
}

var authExtraKeys = []string{"pubkey", "authid", "authrole", "challenge", "secret", "salt", "iterations", "keylen", "ticket", "signature",
	"authmethod", "channel_binding", "role"}

// claims is an AUTHENTICATE extra that speaks for the other user: their key,
// name, secret, and so on.
// nearText is a text that a careless comparison or normalisation takes for s.
func nearText(s string, how int) string {
	switch how {
	case 0:
		return s + "x"
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	case 3:
		return strings.TrimSpace(s)
	case 4:
		return s + " "
	case 5:
		return ""
	case 6:
		return strings.ToValidUTF8(s[:len(s)/2], "")
	}
	return strings.ToValidUTF8(s[:min(len(s), 8)], "")
}

func (c *forgeCase) claims(challenge string) map[string]any {
	all := map[string]any{"pubkey": c.Other.pubkey(), "authid": c.Other.AuthID, "authrole": c.Other.Role, "role": c.Other.Role,
		"challenge": challenge, "secret": c.Other.Secret, "salt": "", "iterations": 1, "keylen": 1, "ticket": c.Other.Ticket,
		"signature": c.Other.proof(c.Method, challenge), "authmethod": "anonymous", "channel_binding": nil}
	switch c.Kind {
	case "otherchallenge":
		all["challenge"] = strings.Repeat("ab", 32)
	case "emptychallenge":
		all["challenge"] = ""
	}
	extra := map[string]any{}
	for _, k := range c.Extra {
		extra[k] = all[k]
	}
	return extra
}

// step feeds one message to an acceptor, as an object or in bytes.
func step(a *wampproto.Acceptor, format string, inBytes bool, m messages.Message) (messages.Message, error) {
	if !inBytes {
		return a.ReceiveMessage(m)
	}
	s := serializer(format)
	data, err := s.Serialize(m)
	if err != nil {
		return nil, errorf("HARNESS cannot serialize: %v", err)
	}
	out, _, err := a.Receive(data)
	if err != nil {
		return nil, err
	}
	return s.Deserialize(out)
}

// wrongType answers WAMP-CRA requests with a response that has no secret.
type wrongType struct{ *server }

func (w wrongType) Authenticate(req auth.Request) (auth.Response, error) {
	if _, err := w.server.Authenticate(req); err != nil {
		return nil, err
	}
	return auth.NewResponse(w.user.GrantID, w.user.Role, 0)
}

// flipText changes one character of a text to another of the same alphabet.
func flipText(s string, pos, bit int) string {
	if s == "" {
		return "x"
	}
	b := []byte(s)
	b[pos%len(b)] ^= 1 << bit
	return strings.ToValidUTF8(string(b), "?")
}

func (c *forgeCase) forge(challenge string, old []string) string {
	u, o := c.User, c.Other
	m := c.Method
	proof := u.proof(m, challenge)
	switch c.Kind {
	case "genuine", "wrongtype", "disabled", "unknown", "later-disabled":
		return proof
	case "empty":
		return ""
	case "cut":
		if len(proof) == 0 {
			return ""
		}
		n := c.Pos % len(proof)
		if strings.ToValidUTF8(proof[:n], "") != proof[:n] {
			n = 0
		}
		return proof[:n]
	case "extend":
		return proof + []string{"0", "00", "A", "=", " ", "\x00", "AAAA", "\n"}[c.Bit]
	case "case":
		if p := strings.ToUpper(proof); p != proof {
			return p
		}
		return strings.ToLower(proof)
	case "space":
		return " " + proof
	case "challenge":
		return challenge
	case "otheruser":
		return o.proof(m, challenge)
	case "replay":
		if len(old) > 0 {
			return u.proof(m, old[c.Pos%len(old)])
		}
		return u.proof(m, strings.Repeat("00", 32))
	case "otherchallenge":
		return u.proof(m, strings.Repeat("ab", 32))
	case "emptychallenge":
		return u.proof(m, "")
	case "cutchallenge":
		return u.proof(m, challenge[:2*(c.Pos%(len(challenge)/2))])
	case "secret":
		return u.Secret
	case "zero":
		return u.zero(m)
	}
	switch m {
	case "ticket":
		return flipText(proof, c.Pos, c.Bit)
	case "wampcra":
		raw := must(base64.StdEncoding.DecodeString(proof))
		switch c.Kind {
		case "flip":
			raw[c.Pos%len(raw)] ^= 1 << c.Bit
			return base64.StdEncoding.EncodeToString(raw)
		case "raw":
			return strings.ToValidUTF8(string(raw), "?")
		case "hex":
			return hex.EncodeToString(raw)
		case "unsalted":
			u.Salt = ""
		case "othersalt":
			u.Salt = nearText(u.Salt, c.Bit)
		case "othersecret":
			u.Secret = nearText(u.Secret, c.Bit)
		case "otheriter":
			u.Iter = []int{u.Iter + 1, 0, 1, 1000, 2, 10, 100, u.Iter * 2}[c.Bit]
		case "otherlen":
			u.KeyLen = []int{u.KeyLen + 1, 0, 16, 64, 31, 1, 33, u.KeyLen * 2}[c.Bit]
		case "defaults":
			u.Iter, u.KeyLen = 0, 0
		case "emptykey":
			u.Secret = ""
		case "keyless":
			return base64.StdEncoding.EncodeToString(hmacOwn(nil, []byte(challenge)))
		case "flipchallenge":
			return u.proof(m, flipText(challenge, c.Pos, c.Bit))
		}
		return u.proof(m, challenge)
	}
	raw := must(hex.DecodeString(proof))
	switch c.Kind {
	case "flip":
		raw[c.Pos%len(raw)] ^= 1 << c.Bit
	case "sigonly":
		raw = raw[:64]
	case "swapchallenge": // the genuine signature with another message attached
		raw[64+c.Pos%32] ^= 1 << c.Bit
	case "longmessage": // a genuine signature over a message that starts with the challenge
		return u.proof(m, challenge+"00")
	case "flipchallenge":
		ch := must(hex.DecodeString(challenge))
		ch[c.Pos%len(ch)] ^= 1 << c.Bit
		return u.proof(m, hex.EncodeToString(ch))
	case "zerosig":
		copy(raw, make([]byte, 64))
	case "base64":
		return base64.StdEncoding.EncodeToString(raw)
	case "otherkey":
		return o.proof(m, challenge)
	}
	return hex.EncodeToString(raw)
}

func (u User) zero(method string) string {
	if method == "wampcra" {
		return base64.StdEncoding.EncodeToString(make([]byte, 32))
	}
	return strings.Repeat("00", 96)
}

func runC08(c *forgeCase, r *Rec) error {
	r.Label("%s %s", c.Method, c.Kind)
	u := c.User
	srv := newServer(u, methodNames...)
	srv.lenient, srv.mixed = c.Lenient, c.Mixed
	srv.user.Disabled = c.Kind == "disabled"
	var authenticator auth.ServerAuthenticator = srv
	if c.Kind == "wrongtype" {
		authenticator = wrongType{srv}
	}
	hello := func() *messages.Hello {
		h := u
		if c.Kind == "unknown" {
			h.AuthID += "x"
			srv.lenient = false
		}
		m := h.hello(c.Offered...)
		key := ""
		switch c.Kind {
		case "nokey":
		case "shortkey":
			key = u.pubkey()[:2*(c.Pos%32)]
		case "otherkey", "keyless":
			// the client proves one key and names another; the zero key for keyless
			key = strings.Repeat("00", 32)
		default:
			return m
		}
		extra := m.AuthExtra()
		if key == "" {
			delete(extra, "pubkey")
		} else {
			extra["pubkey"] = key
			if c.Kind == "otherkey" {
				extra["pubkey"] = u.pubkey()
			}
		}
		return messages.NewHello(m.Realm(), m.AuthID(), extra, m.Roles(), m.AuthMethods())
	}
	refusedFor := func(a *wampproto.Acceptor, reply messages.Message, err error) error {
		if err == nil {
			if _, ok := reply.(*messages.Abort); !ok {
				return errorf("%s %s: answered with %T", c.Method, c.Kind, reply)
			}
		}
		if d, err := a.SessionDetails(); err == nil {
			return errorf("%s %s: session %d established", c.Method, c.Kind, d.ID())
		}
		return nil
	}
	var old []string
	for i := 0; i < c.Tries && c.Kind != "disabled" && c.Kind != "unknown"; i++ {
		other := wampproto.NewAcceptor(serializer(c.Format), authenticator)
		if reply, err := step(other, c.Format, c.Bytes, u.hello(c.Method)); err == nil {
			if ch, ok := challengeOf(reply); ok && ch != "" {
				old = append(old, ch)
			}
		}
	}
	a := wampproto.NewAcceptor(serializer(c.Format), authenticator)
	reply, err := step(a, c.Format, c.Bytes, hello())
	if c.Method == "anonymous" {
		r.NonTrivial()
		return refusedFor(a, reply, err)
	}
	refuse := c.Kind == "disabled" || c.Kind == "unknown"
	challenge, challenged := "", false
	if err == nil {
		challenge, challenged = challengeOf(reply)
	}
	if !challenged {
		r.NonTrivial()
		r.Label("refused before the challenge")
		return refusedFor(a, reply, err)
	}
	if d, err := a.SessionDetails(); err == nil {
		return errorf("%s %s: session %d before the proof", c.Method, c.Kind, d.ID())
	}
	if c.Kind == "later-disabled" {
		srv.user.Disabled, refuse = true, true
	}
	sig := c.forge(challenge, old)
	genuine := !refuse && u.genuine(c.Method, challenge, sig)
	if c.Method == "cryptosign" && (c.Kind == "keyless" || c.Kind == "shortkey") || c.Kind == "nokey" ||
		c.Kind == "wrongtype" {
		genuine = false
	}
	for _, o := range old {
		if o == challenge {
			return errorf("challenge repeats: %s", o)
		}
	}
	reply, err = step(a, c.Format, c.Bytes, messages.NewAuthenticate(sig, c.claims(challenge)))
	if genuine {
		if err == nil && reply.Type() == messages.MessageTypeWelcome {
			r.Label("genuine and welcomed")
		}
		return nil
	}
	r.NonTrivial()
	if err := refusedFor(a, reply, err); err != nil {
		return errorf("%v (signature %q)", err, sig)
	}
	return nil
}
