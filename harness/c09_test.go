package harness

import (
	"encoding/hex"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

type orderEvent struct {
	K string `json:"k"`
	S string `json:"s,omitempty"`
	N int    `json:"n,omitempty"`
}

type orderCase struct {
	Format string       `json:"format"`
	Bytes  bool         `json:"bytes"`
	Method string       `json:"method"`
	User   User         `json:"user"`
	Mixed  bool         `json:"mixed,omitempty"` // refusals come with a response
	Events []orderEvent `json:"events"`
}

var otherTypes = func() []string {
	var out []string
	for _, s := range specs {
		switch s.name {
		case "HELLO", "AUTHENTICATE", "WELCOME", "CHALLENGE", "ABORT":
		default:
			out = append(out, s.name)
		}
	}
	return out
}()

var abortReasons = []string{"wamp.error.authentication_failed", "a.b", "", "wamp.close.normal", "wamp.close.system_shutdown",
	"wamp.error.no_such_realm", "wamp.error.protocol_violation", "wamp.error.no_such_role", "wamp.close.goodbye_and_out",
	"wamp.error.no_matching_auth_method", "wamp.close.close_realm", "wamp.error.no_such_principal", "wamp.error.not_authorized",
	"wamp.error.authentication_denied", "wamp.error.authentication_required", "wamp.close.killed", "wamp.error.canceled"}

func genOrderCase(t *rapid.T, kinds ...string) orderCase {
	c := orderCase{Format: pick(t, "format", formats...), Bytes: chance(t, "bytes", 40), Method: pick(t, "method", methodNames...)}
	c.User = genUser(t, c.Format)
	c.Mixed = chance(t, "mixed", 40)
	c.User.Iter = min(c.User.Iter, 10)
	n := between(t, "n", 1, 9)
	for i := 0; i < n; i++ {
		e := orderEvent{K: kinds[intn(t, "kind", len(kinds))], N: intn(t, "param", 8)}
		if e.K == "other" {
			e.S = otherTypes[intn(t, "type", len(otherTypes))]
		}
		c.Events = append(c.Events, e)
	}
	return c
}

// simple is some message of a type.
func simple(name string, n int) messages.Message {
	m := Msg{T: name}
	for _, k := range specOf(name).valueKinds() {
		switch k {
		case fID:
			m.F = append(m.F, vUint(uint64(n)))
		case fStr:
			m.F = append(m.F, vStr("a.b"))
		default:
			m.F = append(m.F, vNil())
		}
	}
	return m.build()
}

// C09: the server side keeps to the protocol order.
func TestC09_Acceptor(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "sequences of up to 9 messages of any type (acceptable and unacceptable HELLO, genuine " +
		"and wrong AUTHENTICATE, server-side and unrelated messages, malformed bytes) to an acceptor with a given auth " +
		"method, judged by a state model; non-trivial: a message in a state it does not belong to, after a HELLO"},
		func(t *rapid.T) orderCase {
			return genOrderCase(t, "hello", "hello", "hello", "auth", "auth", "wrongauth", "badhello", "other", "welcome",
				"challenge", "abort", "garbage")
		}, runAcceptorOrder)
}

func runAcceptorOrder(c *orderCase, r *Rec) error {
	u := c.User
	srv := newServer(u, c.Method)
	srv.mixed = c.Mixed
	a := wampproto.NewAcceptor(serializer(c.Format), srv)
	state, challenge := "start", ""
	violated := false
	var id uint64
	s := serializer(c.Format)
	for i, e := range c.Events {
		var m messages.Message
		acceptable := false
		switch e.K {
		case "hello":
			m = u.hello(c.Method)
			acceptable = state == "start"
		case "badhello":
			h := u.hello(c.Method)
			switch e.N % 4 {
			case 0:
				h = u.hello("scram")
			case 1:
				h = u.hello()
				if c.Method == "anonymous" {
					h = u.hello("ticket", "wampcra")
				}
			case 2:
				x := u
				x.AuthID += "?"
				h = x.hello(c.Method)
			default:
				if c.Method == "cryptosign" {
					h = messages.NewHello(h.Realm(), h.AuthID(), map[string]any{}, h.Roles(), h.AuthMethods())
				} else {
					h = u.hello("")
				}
			}
			m = h
			// the ticket method asks the authenticator only after the challenge
			if c.Method == "ticket" && e.N%4 == 2 && state == "start" {
				state = "hopeless"
			}
		case "auth":
			m = messages.NewAuthenticate(u.proof(c.Method, orSome(challenge)), map[string]any{})
			acceptable = state == "challenged"
		case "wrongauth":
			sig := u.proof(c.Method, orSome(challenge))
			switch {
			case e.N%4 == 0 || len(sig) < 12:
				sig = sig + "A"
			case e.N%4 == 1:
				sig = ""
			case c.Method == "wampcra":
				sig = u.proof(c.Method, challenge+" ")
			default:
				sig = u.proof(c.Method, strings.Repeat("cd", 32)) + "x"
			}
			m = messages.NewAuthenticate(sig, map[string]any{})
		case "welcome":
			m = messages.NewWelcome(uint64(e.N+1), map[string]any{})
		case "challenge":
			m = messages.NewChallenge(c.Method, map[string]any{"challenge": "x"})
		case "abort":
			m = messages.NewAbort(map[string]any{}, abortReasons[(e.N+i)%len(abortReasons)], nil, nil)
		case "garbage":
		default:
			m = simple(e.S, e.N+1)
		}
		var reply messages.Message
		var err error
		welcomed := false
		if m == nil || c.Bytes {
			var data, out []byte
			if m == nil {
				data = must(hex.DecodeString([]string{"", "00", "9101", "8101", "5b315d", "ff", "93c0c0c0", "5b5d"}[e.N]))
			} else {
				data = must(s.Serialize(m))
			}
			if out, welcomed, err = a.Receive(data); err == nil {
				if reply, err = s.Deserialize(out); err != nil {
					return errorf("acceptor reply does not decode: %v", err)
				}
				if welcomed != (reply.Type() == messages.MessageTypeWelcome) {
					return errorf("acceptor reports welcomed %v: with %T", welcomed, reply)
				}
			} else if welcomed {
				return errorf("acceptor reports an error and welcomed: %v", err)
			}
		} else {
			reply, err = a.ReceiveMessage(m)
			if err == nil && reply == nil {
				return errorf("acceptor: neither reply nor error for %s in state %s", e.K, state)
			}
		}
		r.Label("%s %s", state, e.K)
		if state != "start" && !acceptable {
			r.NonTrivial()
		}
		at := e.K + " in state " + state
		switch {
		case err != nil || reply.Type() == messages.MessageTypeAbort:
			if acceptable && !violated {
				return errorf("acceptor refuses %s: message %d: %v %v", at, i, reply, err)
			}
			if state == "welcomed" || state == "aborted" {
				break
			}
			if err == nil {
				state = "aborted"
			} else {
				violated = true
			}
			if state == "hopeless" && e.K == "badhello" {
				state = "start"
			}
		case reply.Type() == messages.MessageTypeWelcome:
			if !acceptable || e.K == "hello" && c.Method != "anonymous" {
				return errorf("acceptor welcomes after %s: message %d", at, i)
			}
			state, id = "welcomed", reply.(*messages.Welcome).SessionID()
			r.Label("welcomed")
		case reply.Type() == messages.MessageTypeChallenge:
			hopeless := state == "hopeless" && e.K == "badhello"
			if !hopeless && (!acceptable || e.K != "hello" || c.Method == "anonymous") {
				return errorf("acceptor challenges after %s: message %d", at, i)
			}
			if !hopeless {
				state = "challenged"
			}
			challenge, _ = challengeOf(reply)
		default:
			return errorf("acceptor answers with %T: to %s", reply, at)
		}
		d, err := a.SessionDetails()
		if (err == nil) != (state == "welcomed") {
			return errorf("server session details: %v in state %s after %s", err, state, e.K)
		}
		if err == nil && d.ID() != id {
			return errorf("server session details change: id %d after WELCOME for %d", d.ID(), id)
		}
	}
	return nil
}

func orSome(challenge string) string {
	if challenge == "" {
		return strings.Repeat("ab", 32)
	}
	return challenge
}

// C09: the client side keeps to the protocol order.
func TestC09_Joiner(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "sequences of up to 9 messages of any type (genuine and unusable CHALLENGE, WELCOME with " +
		"and without details, ABORT, client-side and unrelated messages, malformed bytes) to a joiner before and after its " +
		"HELLO, judged by a state model; non-trivial: a message in a state it does not belong to, after the HELLO"},
		func(t *rapid.T) orderCase {
			c := genOrderCase(t, "challenge", "challenge", "welcome", "welcome", "abort", "badchallenge", "otherchallenge",
				"other", "clienthello", "authenticate", "garbage")
			at := 0
			if chance(t, "later", 30) {
				at = intn(t, "hello at", len(c.Events)+1)
			}
			c.Events = append(c.Events[:at], append([]orderEvent{{K: "hello"}}, c.Events[at:]...)...)
			return c
		}, runJoinerOrder)
}

func runJoinerOrder(c *orderCase, r *Rec) error {
	u := c.User
	client, err := u.client(c.Method)
	if err != nil {
		return errorf("client authenticator: %v", err)
	}
	s := serializer(c.Format)
	j := wampproto.NewJoiner(u.Realm, s, client)
	state := "start"
	violated, answered := false, 0
	var id uint64
	for i, e := range c.Events {
		var m messages.Message
		expect := "" // join or answer, when acceptable
		either := false
		switch e.K {
		case "hello":
			data, err := j.SendHello()
			if err != nil {
				return errorf("SendHello fails: %v", err)
			}
			if m, err := s.Deserialize(data); err != nil || m.Type() != messages.MessageTypeHello {
				return errorf("SendHello gives no HELLO: %v", err)
			}
			// SendHello of a dead joiner starts nothing here: violated messages may have ended it
			state = "hello"
			if _, err := j.SessionDetails(); err == nil {
				return errorf("client has session details after SendHello")
			}
			continue
		case "challenge":
			extra := map[string]any{"challenge": strings.Repeat("0123456789abcdef", 4)}
			if c.Method == "wampcra" && e.N%2 == 1 {
				extra["salt"], extra["iterations"], extra["keylen"] = "salt", 3, 32
			}
			m = messages.NewChallenge(c.Method, extra)
			if state == "hello" {
				expect = "answer"
			}
			either = c.Method == "anonymous"
		case "badchallenge": // may be refused; ticket and anonymous need nothing of it
			m = messages.NewChallenge(c.Method, []map[string]any{{}, {"challenge": 5}, {"challenge": "zz"}, nil,
				{"challenge": "00"}, {"challenge": nil}, {"challenge": ""}, {"salt": "x"}}[e.N])
			either = state == "hello"
		case "otherchallenge":
			m = messages.NewChallenge([]string{"scram", "ticket", "", "wampcra"}[e.N%4],
				map[string]any{"challenge": strings.Repeat("0123456789abcdef", 4)})
			either = state == "hello"
		case "welcome":
			details := map[string]any{"authid": "x", "authrole": "y", "authmethod": c.Method, "roles": map[string]any{}}
			if e.N == 0 {
				details = map[string]any{}
			}
			m = messages.NewWelcome(uint64(i*10+e.N+1), details)
			if state == "hello" || state == "authenticated" {
				expect = "join"
			}
		case "abort":
			m = messages.NewAbort(map[string]any{}, abortReasons[(e.N+3*i)%len(abortReasons)], [][]any{nil, {"x"}, {1, nil}}[e.N%3], nil)
		case "clienthello":
			m = u.hello(c.Method)
		case "authenticate":
			m = messages.NewAuthenticate("x", nil)
		case "garbage":
		default:
			m = simple(e.S, e.N+1)
		}
		var reply messages.Message
		if m == nil || c.Bytes {
			var data, out []byte
			if m == nil {
				data = must(hex.DecodeString([]string{"", "00", "9102", "8102", "5b325d", "ff", "93c0c0c0", "5b5d"}[e.N]))
			} else {
				data = must(s.Serialize(m))
			}
			if out, err = j.Receive(data); err == nil && len(out) > 0 {
				if reply, err = s.Deserialize(out); err != nil {
					return errorf("joiner reply does not decode: %v", err)
				}
			}
		} else {
			reply, err = j.ReceiveMessage(m)
		}
		r.Label("%s %s", state, e.K)
		if state != "start" && expect == "" {
			r.NonTrivial()
		}
		at := e.K + " in state " + state
		switch {
		case err != nil:
			if reply != nil {
				return errorf("joiner gives an answer and an error: %T to %s", reply, at)
			}
			if expect != "" && !violated && !either {
				return errorf("joiner refuses %s: message %d: %v", at, i, err)
			}
			if e.K == "abort" {
				if state == "start" {
					violated = true // an ABORT before HELLO may or may not end it
				} else if state != "joined" {
					state = "aborted"
				}
			} else {
				violated = true
			}
		case reply != nil:
			if expect != "answer" && !either {
				return errorf("joiner answers %s: message %d with %T", at, i, reply)
			}
			if reply.Type() != messages.MessageTypeAuthenticate {
				return errorf("joiner answers with %T: to %s", reply, at)
			}
			if answered++; answered > 1 {
				return errorf("joiner answers a second challenge: %s", at)
			}
			state = "authenticated"
		default:
			if expect != "join" {
				return errorf("joiner accepts %s: message %d", at, i)
			}
			state, id = "joined", m.(*messages.Welcome).SessionID()
			r.Label("joined")
		}
		d, err := j.SessionDetails()
		if (err == nil) != (state == "joined") {
			return errorf("client session details: %v in state %s after %s", err, state, e.K)
		}
		if err == nil && d.ID() != id {
			return errorf("client session details change: id %d after WELCOME for %d", d.ID(), id)
		}
	}
	return nil
}
