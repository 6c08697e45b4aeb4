package harness

import (
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

type joinCase struct {
	Format  string   `json:"format"`
	Static  bool     `json:"static,omitempty"` // serializers that declare themselves static
	NilSer  int      `json:"nilser,omitempty"` // 1 client, 2 server, 3 both: no serializer given (JSON)
	NilAuth int      `json:"nilauth,omitempty"`
	Bytes   bool     `json:"bytes"`
	Method  string   `json:"method"`
	Enabled []string `json:"enabled"`
	User    User     `json:"user"`

	client auth.ClientAuthenticator // instead of a new one
}

// staticSerializer is a serializer an application provides.
type staticSerializer struct{ serializers.Serializer }

func (s *staticSerializer) Static() bool { return true }

func genJoinCase(t *rapid.T) joinCase {
	c := joinCase{Format: pick(t, "format", formats...), Static: chance(t, "static", 20), Bytes: chance(t, "bytes", 60),
		Method: pick(t, "method", methodNames...)}
	if c.Format == fmtJSON && !c.Static {
		c.NilSer = between(t, "nilser", 0, 3)
	}
	c.User = genUser(t, c.Format)
	if c.Method == "anonymous" {
		c.NilAuth = between(t, "nilauth", 0, 3)
	}
	c.Enabled = []string{c.Method}
	for _, m := range methodNames {
		if m != c.Method && chance(t, "other", 40) {
			if chance(t, "front", 50) {
				c.Enabled = append([]string{m}, c.Enabled...)
			} else {
				c.Enabled = append(c.Enabled, m)
			}
		}
	}
	return c
}

// C07: a handshake with valid credentials joins.
func TestC07_Joins(t *testing.T) {
	Check(t, Opt{Checks: 2500, Rule: "a joiner and an acceptor with a generated user (unicode names, salted and unsalted " +
		"secrets, keys, auth extra), each auth method, serializer (also none given, and static ones), order of enabled " +
		"methods, over bytes or message objects; non-trivial: a challenge-based method, or the granted authid differs"},
		genJoinCase, runC07)
}

func (c *joinCase) serializers() (client, server serializers.Serializer) {
	client, server = serializer(c.Format), serializer(c.Format)
	if c.Static {
		client, server = &staticSerializer{client}, &staticSerializer{server}
	}
	if c.NilSer&1 != 0 {
		client = nil
	}
	if c.NilSer&2 != 0 {
		server = nil
	}
	return client, server
}

func runC07(c *joinCase, r *Rec) error {
	cs, ss := c.serializers()
	r.Label("%s %s", c.Method, c.Format)
	if c.Method != "anonymous" || c.User.GrantID != c.User.AuthID {
		r.NonTrivial()
	}
	if c.Method == "wampcra" && c.User.Salt != "" {
		r.Label("salted")
	}
	srv := newServer(c.User, c.Enabled...)
	return c.join(srv, srv, cs, ss)
}

// join runs the handshake; srv is who answers for the user.
func (c *joinCase) join(srv *server, server auth.ServerAuthenticator, cs, ss serializers.Serializer) error {
	u := c.User
	wantID, wantRole := u.GrantID, u.Role
	if c.NilAuth&2 != 0 {
		server, wantID, wantRole = nil, "anonymous", "anonymous"
	}
	client, err := c.client, error(nil)
	if client == nil {
		client, err = u.client(c.Method)
	}
	if err != nil {
		return errorf("client authenticator: %v", err)
	}
	if c.NilAuth&1 != 0 {
		client = nil
		u.AuthID, u.Extra, srv.user.AuthID = "", vNil(), ""
	}
	j := wampproto.NewJoiner(u.Realm, cs, client)
	a := wampproto.NewAcceptor(ss, server)
	if _, err := j.SessionDetails(); err == nil {
		return errorf("client has session details before the handshake")
	}
	if _, err := a.SessionDetails(); err == nil {
		return errorf("server has session details before the handshake")
	}
	data, err := j.SendHello()
	if err != nil {
		return errorf("SendHello fails: %v", err)
	}
	wire := serializer(c.Format)
	sent := 0
	for {
		sent++
		// the server's turn
		msg, err := wire.Deserialize(data)
		if err != nil {
			return errorf("client message does not decode: %v", err)
		}
		want := uint64(messages.MessageTypeHello)
		if sent == 2 {
			want = messages.MessageTypeAuthenticate
		}
		if msg.Type() != want {
			return errorf("client message %d: is %T", sent, msg)
		}
		var reply messages.Message
		if c.Bytes {
			out, welcomed, err := a.Receive(data)
			if err != nil {
				return errorf("acceptor refuses message %d: %v", sent, err)
			}
			if reply, err = wire.Deserialize(out); err != nil {
				return errorf("acceptor reply does not decode: %v", err)
			}
			if welcomed != (reply.Type() == messages.MessageTypeWelcome) {
				return errorf("acceptor reports welcomed %v: with %T", welcomed, reply)
			}
			data = out
		} else {
			if reply, err = a.ReceiveMessage(msg); err != nil {
				return errorf("acceptor refuses message %d: %v", sent, err)
			}
			if data, err = wire.Serialize(reply); err != nil {
				return errorf("acceptor reply does not encode: %v", err)
			}
		}
		if abort, ok := reply.(*messages.Abort); ok {
			return errorf("acceptor aborts (%s, %s): %s %v", c.Method, c.Format, abort.Reason(), abort.Args())
		}
		welcome, done := reply.(*messages.Welcome)
		if done != (sent == 2 || c.Method == "anonymous") {
			return errorf("acceptor reply %d: is %T for %s", sent, reply, c.Method)
		}
		if _, err := a.SessionDetails(); (err == nil) != done {
			return errorf("server session details: %v after %T", err, reply)
		}
		if ch, ok := reply.(*messages.Challenge); ok && ch.AuthMethod() != c.Method {
			return errorf("challenge method: %s for %s", ch.AuthMethod(), c.Method)
		}
		// the client's turn
		var answer []byte
		if c.Bytes {
			answer, err = j.Receive(data)
		} else {
			var m messages.Message
			if m, err = j.ReceiveMessage(reply); err == nil && m != nil {
				answer, err = wire.Serialize(m)
			}
		}
		if err != nil {
			return errorf("joiner refuses %T: %v", reply, err)
		}
		if _, err := j.SessionDetails(); (err == nil) != done {
			return errorf("client session details: %v after %T", err, reply)
		}
		if !done {
			if len(answer) == 0 {
				return errorf("joiner does not answer %T", reply)
			}
			data = answer
			continue
		}
		if len(answer) != 0 {
			return errorf("joiner answers WELCOME: %x", answer)
		}
		return c.agree(u, srv, j, a, welcome, wantID, wantRole)
	}
}

func (c *joinCase) agree(u User, srv *server, j *wampproto.Joiner, a *wampproto.Acceptor, w *messages.Welcome, authid, role string) error {
	cd, err := j.SessionDetails()
	if err != nil {
		return errorf("client session details: %v", err)
	}
	sd, err := a.SessionDetails()
	if err != nil {
		return errorf("server session details: %v", err)
	}
	if w.SessionID() < 1 || w.SessionID() > uint64(maxSafe) {
		return errorf("session id out of range: %d", w.SessionID())
	}
	for who, d := range map[string]*wampproto.SessionDetails{"client": cd, "server": sd} {
		if d.ID() != w.SessionID() {
			return errorf("%s session id: %d with WELCOME for %d", who, d.ID(), w.SessionID())
		}
		for _, f := range [][3]string{{"realm", d.Realm(), u.Realm}, {"authid", d.AuthID(), authid},
			{"authrole", d.AuthRole(), role}, {"authmethod", d.AuthMethod(), c.Method}} {
			if f[1] != f[2] {
				return errorf("%s %s: is %q instead of %q (%s)", who, f[0], f[1], f[2], c.Method)
			}
		}
	}
	for k, want := range map[string]string{"realm": u.Realm, "authid": authid, "authrole": role, "authmethod": c.Method} {
		if canon(w.Details()[k]) != canon(want) {
			return errorf("WELCOME %s: is %s instead of %q (%s)", k, canon(w.Details()[k]), want, c.Method)
		}
	}
	if c.NilAuth&2 != 0 || srv == nil {
		return nil
	}
	if len(srv.log) == 0 {
		return errorf("authenticator not asked: %s", c.Method)
	}
	for _, q := range srv.log {
		if q.method != c.Method || q.realm != u.Realm || q.authid != u.AuthID {
			return errorf("authenticator asked about another request: %q %q %q instead of %q %q %q", q.method, q.realm,
				q.authid, c.Method, u.Realm, u.AuthID)
		}
		for k, v := range u.Extra.Map() {
			if canon(q.extra[k]) != canon(v) {
				return errorf("authenticator asked with other authextra: %q is %s instead of %s", k, canon(q.extra[k]), canon(v))
			}
		}
		if c.Method == "cryptosign" && q.pubkey != u.pubkey() || c.Method == "ticket" && q.ticket != u.Ticket {
			return errorf("authenticator asked with other credentials: %s", c.Method)
		}
	}
	return nil
}
