package harness

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

// what the two sides announce, as it was before anything ran
var clientRoles, routerRoles = canonMap(wampproto.ClientRoles), canonMap(wampproto.RouterRoles)

type announceCase struct {
	Join joinCase `json:"join"`
	Own  bool     `json:"own"`  // a client authenticator of the application's own
	Auth V        `json:"auth"` // the extra of its AUTHENTICATE
}

// ownClient is an authenticator an application provides.
type ownClient struct {
	method string
	user   User
	extra  map[string]any
	reply  map[string]any
}

func (o *ownClient) AuthMethod() string        { return o.method }
func (o *ownClient) AuthID() string            { return o.user.AuthID }
func (o *ownClient) AuthExtra() map[string]any { return o.extra }
func (o *ownClient) Authenticate(c messages.Challenge) (*messages.Authenticate, error) {
	s, _ := c.Extra()["challenge"].(string)
	return messages.NewAuthenticate(o.user.proof(o.method, s), o.reply), nil
}

// C28: what goes with HELLO, AUTHENTICATE and WELCOME gets to the other side.
func TestC28_Handshake(t *testing.T) {
	Check(t, Opt{Checks: 2000, Rule: "a handshake of every auth method and serializer with generated realm, authid and auth extras, with the library's " +
		"client authenticators and ones of the application that send other extras with AUTHENTICATE, over bytes or messages; HELLO and WELCOME are read by " +
		"an independent decoder; non-trivial: some auth extra is not empty"},
		func(t *rapid.T) announceCase {
			c := announceCase{Join: genJoinCase(t), Own: chance(t, "own", 50), Auth: vNil()}
			c.Join.NilAuth = 0
			if chance(t, "auth", 80) {
				c.Auth = genMap(t, c.Join.Format, 2)
			}
			return c
		},
		func(c *announceCase, r *Rec) error {
			cs, ss := c.Join.serializers()
			u, method, format := c.Join.User, c.Join.Method, c.Join.Format
			extra := u.Extra.Map()
			if method == "cryptosign" {
				if extra == nil {
					extra = map[string]any{}
				}
				extra["pubkey"] = u.pubkey()
			}
			client, err := u.client(method)
			if err != nil {
				return errorf("client authenticator: %v", err)
			}
			// the library's authenticators send the same extras twice, or none
			reply := ""
			if c.Own {
				client = &ownClient{method, u, extra, c.Auth.Map()}
				if reply = canonMap(c.Auth.Map()); len(c.Auth.L) > 0 {
					r.NonTrivial()
				}
			}
			if len(u.Extra.L) > 0 {
				r.NonTrivial()
			}
			r.Label("%s own %v", method, c.Own)
			srv := newServer(u, c.Join.Enabled...)
			a := wampproto.NewAcceptor(ss, srv)
			j := wampproto.NewJoiner(u.Realm, cs, client)
			data, err := j.SendHello()
			if err != nil {
				return errorf("SendHello fails: %v", err)
			}
			hello, err := decodeWire(format, data)
			if err != nil {
				return errorf("HELLO is not %s: %v", format, err)
			}
			h, _ := hello.([]any)
			if len(h) != 3 || canon(h[0]) != "1" || canon(h[1]) != canon(u.Realm) {
				return errorf("HELLO: is %s for realm %q", canon(hello), u.Realm)
			}
			hd, _ := h[2].(map[string]any)
			for _, f := range [][3]string{{"authid", canon(hd["authid"]), canon(u.AuthID)}, {"authmethods", canon(hd["authmethods"]), canon([]any{method})},
				{"authextra", canonMapOf(hd["authextra"]), canonMap(extra)}, {"roles", canonMapOf(hd["roles"]), clientRoles}} {
				if f[1] != f[2] {
					return errorf("HELLO %s: is %s instead of %s", f[0], f[1], f[2])
				}
			}
			var welcome []byte
			for i := 0; i < 4 && welcome == nil; i++ {
				var out []byte
				var done bool
				if c.Join.Bytes {
					out, done, err = a.Receive(data)
				} else {
					var m, reply messages.Message
					if m, err = serializer(format).Deserialize(data); err != nil {
						return errorf("client message does not decode: %v", err)
					}
					if reply, err = a.ReceiveMessage(m); err == nil {
						done = reply.Type() == messages.MessageTypeWelcome
						out, err = serializer(format).Serialize(reply)
					}
				}
				if err != nil {
					return errorf("acceptor: %v", err)
				}
				if done {
					welcome = out
				} else if method == "wampcra" {
					if err := challengeNames(format, out, u); err != nil {
						return err
					}
				}
				if data, err = j.Receive(out); err != nil {
					return errorf("joiner: %v", err)
				}
				if !done {
					auth, err := decodeWire(format, data)
					l, _ := auth.([]any)
					if err != nil || len(l) != 3 || canon(l[0]) != "5" {
						return errorf("AUTHENTICATE: is %s, %v", canon(auth), err)
					}
					if reply != "" && canonMapOf(l[2]) != reply {
						return errorf("AUTHENTICATE extra: is %s instead of %s", canonMapOf(l[2]), reply)
					}
					reply = canonMapOf(l[2])
				}
			}
			if welcome == nil {
				return errorf("no WELCOME: %s", method)
			}
			w, err := decodeWire(format, welcome)
			wl, _ := w.([]any)
			if err != nil || len(wl) != 3 {
				return errorf("WELCOME: is %s, %v", canon(w), err)
			}
			wd, _ := wl[2].(map[string]any)
			if canonMapOf(wd["roles"]) != routerRoles {
				return errorf("WELCOME roles: %s instead of %s", canonMapOf(wd["roles"]), routerRoles)
			}
			cd, err1 := j.SessionDetails()
			sd, err2 := a.SessionDetails()
			if err := errors.Join(err1, err2); err != nil {
				return errorf("session details: %v", err)
			}
			if got := canonMap(cd.RouterRoles()); got != routerRoles {
				return errorf("client router roles: %s instead of %s", got, routerRoles)
			}
			if got := canonMap(sd.RouterRoles()); got != routerRoles {
				return errorf("server router roles: %s instead of %s", got, routerRoles)
			}
			if method == "anonymous" {
				reply = "{}"
			}
			if got := canonMap(sd.AuthExtra()); got != reply {
				return errorf("server auth extra: %s instead of %s", got, reply)
			}
			if cd.StaticSerializer() != c.Join.Static || sd.StaticSerializer() != c.Join.Static {
				return errorf("session kind: static %v, %v instead of %v", cd.StaticSerializer(), sd.StaticSerializer(), c.Join.Static)
			}
			if len(srv.log) == 0 {
				return errorf("authenticator not asked: %s", method)
			}
			for _, q := range srv.log {
				if canonMap(q.extra) != canonMap(extra) {
					return errorf("authenticator asked with auth extra: %s instead of %s", canonMap(q.extra), canonMap(extra))
				}
				if q.realm != u.Realm || q.authid != u.AuthID || q.method != method {
					return errorf("authenticator asked about another request: %q %q %q", q.realm, q.authid, q.method)
				}
			}
			return nil
		})
}

// challengeNames says whether a WAMP-CRA challenge names the session it is for.
func challengeNames(format string, data []byte, u User) error {
	x, err := decodeWire(format, data)
	l, _ := x.([]any)
	if err != nil || len(l) != 3 || canon(l[0]) != "4" || l[1] != "wampcra" {
		return errorf("CHALLENGE: is %s, %v", canon(x), err)
	}
	extra, _ := l[2].(map[string]any)
	text, _ := extra["challenge"].(string)
	var names map[string]any
	if err := json.Unmarshal([]byte(text), &names); err != nil {
		return errorf("CHALLENGE: %q is no JSON: %v", text, err)
	}
	for k, want := range map[string]string{"authid": u.GrantID, "authrole": u.Role, "authmethod": "wampcra"} {
		if names[k] != want {
			return errorf("CHALLENGE %s: is %v instead of %q", k, names[k], want)
		}
	}
	// a client which derives the key from the challenge gets the one of the router
	salt, _ := extra["salt"].(string)
	if salt != u.Salt {
		return errorf("CHALLENGE salt: is %q instead of %q", salt, u.Salt)
	}
	if salt != "" {
		iter, err1 := strconv.Atoi(canon(extra["iterations"]))
		n, err2 := strconv.Atoi(canon(extra["keylen"]))
		if err1 != nil || err2 != nil || iter > 5000 || n > 5000 {
			return errorf("CHALLENGE key: iterations %v, keylen %v", extra["iterations"], extra["keylen"])
		}
		if iter <= 0 { // the values for clients which are told none
			iter = 1000
		}
		if n <= 0 {
			n = 32
		}
		if key := base64.StdEncoding.EncodeToString(pbkdf2Own([]byte(u.Secret), []byte(salt), iter, n)); key != string(u.craKey()) {
			return errorf("CHALLENGE key: %d iterations and %d bytes give another key", iter, n)
		}
	}
	return nil
}

func canonMapOf(x any) string {
	m, ok := x.(map[string]any)
	if !ok && x != nil {
		return canon(x)
	}
	return canonMap(m)
}

// C28: the joiner reports what a router's WELCOME says.
func TestC28_Welcome(t *testing.T) {
	type c28 struct {
		Format string   `json:"format"`
		Bytes  bool     `json:"bytes"`
		Method string   `json:"method"`
		User   User     `json:"user"`
		ID     uint64   `json:"id"`
		Roles  V        `json:"roles"`
		Fields []string `json:"fields"` // realm (of the WELCOME), authid, authrole, authmethod
		More   V        `json:"more"`
	}
	Check(t, Opt{Checks: 2000, Rule: "WELCOMEs of another router, written by an independent encoder, with generated roles, features and further details, some " +
		"absent, received by a joiner; non-trivial: roles are given"},
		func(t *rapid.T) c28 {
			f := pick(t, "format", formats...)
			c := c28{Format: f, Bytes: chance(t, "bytes", 70), Method: pick(t, "method", methodNames...), User: genUser(t, f), ID: genID(t), More: genMap(t, f, 2)}
			c.User.Iter = min(c.User.Iter, 10)
			switch between(t, "roles", 0, 3) {
			case 0:
				c.Roles = vNil()
			case 1:
				c.Roles = genMap(t, f, 3)
			default:
				c.Roles = V{K: "map"}
				for _, role := range []string{"dealer", "broker"} {
					if chance(t, "role", 80) {
						feats := V{K: "map"}
						for _, name := range []string{"progressive_call_invocations", "x_custom", "call_canceling"} {
							if chance(t, "feature", 50) {
								feats.M, feats.L = append(feats.M, name), append(feats.L, vBool(chance(t, "on", 80)))
							}
						}
						c.Roles.M = append(c.Roles.M, role)
						c.Roles.L = append(c.Roles.L, V{K: "map", M: []string{"features"}, L: []V{feats}})
					}
				}
			}
			for i := 0; i < 4; i++ {
				c.Fields = append(c.Fields, genShortString(t))
			}
			return c
		},
		func(c *c28, r *Rec) error {
			client, err := c.User.client(c.Method)
			if err != nil {
				return errorf("client authenticator: %v", err)
			}
			id := max(c.ID, 1)
			details := c.More.Map()
			delete(details, "roles")
			for i, k := range []string{"realm", "authid", "authrole", "authmethod"} {
				details[k] = c.Fields[i]
			}
			if c.Roles.K == "map" {
				details["roles"] = c.Roles.Go()
				r.NonTrivial()
			}
			ser := serializer(c.Format)
			j := wampproto.NewJoiner(c.User.Realm, ser, client)
			if _, err := j.SendHello(); err != nil {
				return errorf("SendHello fails: %v", err)
			}
			data := encodeWire(c.Format, []any{2, id, details}, nil)
			if c.Bytes {
				_, err = j.Receive(data)
			} else {
				_, err = j.ReceiveMessage(messages.NewWelcome(id, details))
			}
			if err != nil {
				return errorf("joiner refuses WELCOME: %v", err)
			}
			d, err := j.SessionDetails()
			if err != nil {
				return errorf("session details: %v", err)
			}
			for _, f := range [][3]string{{"session id", fmt.Sprint(d.ID()), fmt.Sprint(id)}, {"realm", d.Realm(), c.User.Realm}, {"authid", d.AuthID(), c.Fields[1]},
				{"authrole", d.AuthRole(), c.Fields[2]}, {"authmethod", d.AuthMethod(), c.Fields[3]}, {"router roles", canonMap(d.RouterRoles()), canonMap(c.Roles.Map())}} {
				if f[1] != f[2] {
					return errorf("client %s: is %q instead of %q", f[0], f[1], f[2])
				}
			}
			return nil
		})
}

// C28: what a router says in ABORT is in the error of the client.
func TestC28_Abort(t *testing.T) {
	type c28 struct {
		Format string `json:"format"`
		Bytes  bool   `json:"bytes"`
		Method string `json:"method"`
		User   User   `json:"user"`
		State  int    `json:"state"`
		Refuse string `json:"refuse,omitempty"` // the words with which the authenticator refuses
		Wrong  bool   `json:"wrong,omitempty"`  // the client's proof is wrong
		Reason string `json:"reason"`
		Args   V      `json:"args"`
		KwArgs V      `json:"kwargs"`
	}
	Check(t, Opt{Checks: 2500, Rule: "ABORTs with generated reason, args and kwargs received by a joiner after HELLO or after AUTHENTICATE, and ABORTs made by an " +
		"acceptor whose authenticator refuses with generated words, or that gets a wrong proof; non-trivial: the ABORT has args or kwargs, or is a refusal"},
		func(t *rapid.T) c28 {
			f := pick(t, "format", formats...)
			c := c28{Format: f, Bytes: chance(t, "bytes", 70), Method: pick(t, "method", methodNames...), User: genUser(t, f), State: between(t, "state", 0, 2),
				Reason: pick(t, "reason", "wamp.error.no_such_realm", "wamp.error.authentication_failed", "com.x", "é"), Args: genArgs(t, f), KwArgs: genKwargs(t, f)}
			c.User.Iter = min(c.User.Iter, 10)
			if chance(t, "short", 50) {
				c.Args = vList(vStr(genShortString(t)), vStr(genShortString(t)))
				if chance(t, "said twice", 30) {
					word := vStr(pick(t, "word", "no", "aa", "x1"))
					c.Args = vList(word, word, c.Args.L[0], word)
				}
			}
			if chance(t, "refuse", 40) {
				c.Refuse = "words-" + genShortString(t)
			} else if c.Method != "anonymous" {
				c.Wrong = chance(t, "wrong", 30)
			}
			return c
		},
		func(c *c28, r *Rec) error {
			ser := serializer(c.Format)
			client, err := c.User.client(c.Method)
			if err != nil {
				return errorf("client authenticator: %v", err)
			}
			j := wampproto.NewJoiner(c.User.Realm, ser, client)
			data, err := j.SendHello()
			if err != nil {
				return errorf("SendHello fails: %v", err)
			}
			if c.Refuse != "" || c.Wrong {
				r.NonTrivial()
				r.Label("refused %s", c.Method)
				a := wampproto.NewAcceptor(ser, newServer(c.User, c.Method))
				if c.Refuse != "" {
					a = wampproto.NewAcceptor(ser, &refuser{newServer(c.User, c.Method), c.Refuse})
				}
				for i := 0; i < 3; i++ {
					if c.Wrong && i > 0 {
						data = encodeWire(c.Format, []any{5, strings.Repeat("0b", 96), map[string]any{}}, nil)
					}
					out, done, err := a.Receive(data)
					if err != nil || done {
						return errorf("acceptor: error %v, welcomed %v who is to be refused", err, done)
					}
					x, err := decodeWire(c.Format, out)
					if l, _ := x.([]any); err != nil || len(l) < 3 {
						return errorf("acceptor: sends %s, %v", canon(x), err)
					} else if canon(l[0]) == "3" && l[2] != "wamp.error.authentication_failed" {
						return errorf("ABORT of one who is refused: says %v", l[2])
					}
					if data, err = j.Receive(out); err != nil {
						if !strings.Contains(err.Error(), c.Refuse) {
							return errorf("the authenticator's words %q are lost: %v", c.Refuse, err)
						}
						return nil
					}
				}
				return errorf("no end of the handshake: %s", c.Method)
			}
			if c.State > 0 && c.Method != "anonymous" {
				extra := map[string]any{"challenge": strings.Repeat("0a", 32)}
				out, err := j.ReceiveMessage(messages.NewChallenge(c.Method, extra))
				if err != nil || out == nil {
					return errorf("no answer to CHALLENGE: %v", err)
				}
			}
			args, kwargs := c.Args.List(), c.KwArgs.Map()
			if len(args)+len(kwargs) > 0 {
				r.NonTrivial()
			}
			if c.Bytes {
				arr := []any{3, map[string]any{}, c.Reason}
				if args != nil || kwargs != nil {
					arr = append(arr, append([]any{}, args...))
				}
				if kwargs != nil {
					arr = append(arr, kwargs)
				}
				_, err = j.Receive(encodeWire(c.Format, arr, nil))
			} else {
				_, err = j.ReceiveMessage(messages.NewAbort(nil, c.Reason, args, kwargs))
			}
			if err == nil {
				return errorf("no error: ABORT %s", c.Reason)
			}
			words := []string{c.Reason}
			for _, v := range args {
				if s, ok := v.(string); ok {
					words = append(words, s)
				}
			}
			for k, v := range kwargs {
				words = append(words, k)
				if s, ok := v.(string); ok {
					words = append(words, s)
				}
			}
			for _, w := range words {
				if !strings.Contains(err.Error(), w) {
					return errorf("ABORT's words %q are lost: %v", w, err)
				}
				n := 0
				for _, v := range args {
					if v == any(w) {
						n++
					}
				}
				if word := strings.Trim(w, "abcnox1") == ""; word && strings.Count(err.Error(), w) < n {
					return errorf("ABORT's words %q are reported less than %d times: %v", w, n, err)
				}
			}
			if _, err := j.SessionDetails(); err == nil {
				return errorf("session details after ABORT: %s", c.Reason)
			}
			return nil
		})
}

// refuser refuses everybody with some words.
type refuser struct {
	*server
	words string
}

func (s *refuser) Authenticate(auth.Request) (auth.Response, error) { return nil, errors.New(s.words) }

// probes try a feature that a role announces.
var probes = map[string]func(n uint64) error{
	"dealer progressive_call_invocations": func(n uint64) error {
		d, err := probeDealer(n)
		if err != nil {
			return err
		}
		var ids []uint64
		for i := 0; i < 3; i++ {
			out, err := d.ReceiveMessage(1, messages.NewCall(n, map[string]any{"progress": i < 2}, "a.b", []any{i}, nil))
			if err != nil {
				return err
			}
			inv, ok := out.Message.(*messages.Invocation)
			if !ok || out.Recipient != 2 {
				return errorf("part %d: %s", i, show(out, err))
			}
			if p, _ := inv.Details()["progress"].(bool); p != (i < 2) {
				return errorf("part %d: progress %v", i, inv.Details())
			}
			ids = append(ids, inv.RequestID())
		}
		if ids[0] != ids[1] || ids[1] != ids[2] {
			return errorf("parts with invocation ids: %v", ids)
		}
		return nil
	},
	"dealer progressive_call_results": func(n uint64) error {
		d, err := probeDealer(n)
		if err != nil {
			return err
		}
		out, err := d.ReceiveMessage(1, messages.NewCall(n, map[string]any{"receive_progress": true}, "a.b", nil, nil))
		if err != nil {
			return err
		}
		inv, ok := out.Message.(*messages.Invocation)
		if !ok {
			return errorf("call: %s", show(out, err))
		}
		for i := 0; i < 3; i++ {
			out, err := d.ReceiveMessage(2, messages.NewYield(inv.RequestID(), map[string]any{"progress": i < 2}, []any{i}, nil))
			if err != nil {
				return err
			}
			res, ok := out.Message.(*messages.Result)
			if !ok || out.Recipient != 1 || res.RequestID() != n {
				return errorf("yield %d: %s", i, show(out, err))
			}
			if p, _ := res.Details()["progress"].(bool); p != (i < 2) {
				return errorf("yield %d: progress %v", i, res.Details())
			}
		}
		return nil
	},
	"dealer call_canceling": func(n uint64) error {
		d, err := probeDealer(n)
		if err == nil {
			_, err = d.ReceiveMessage(1, messages.NewCall(n, nil, "a.b", nil, nil))
		}
		if err == nil {
			_, err = d.ReceiveMessage(1, messages.NewCancel(n, map[string]any{"mode": "kill"}))
		}
		return err
	},
	"dealer shared_registration": func(n uint64) error {
		d, err := probeDealer(n)
		if err != nil {
			return err
		}
		for _, s := range []uint64{1, 2} {
			out, err := d.ReceiveMessage(s, messages.NewRegister(n, map[string]any{"invoke": "roundrobin"}, "x.y"))
			if err != nil || refuses(out, err, s) {
				return errorf("second callee: %s", show(out, err))
			}
		}
		return nil
	},
	"dealer pattern_based_registration": func(n uint64) error {
		d, err := probeDealer(n)
		if err == nil {
			_, err = d.ReceiveMessage(2, messages.NewRegister(n, map[string]any{"match": "prefix"}, "x."))
		}
		if err != nil {
			return err
		}
		out, err := d.ReceiveMessage(1, messages.NewCall(n, nil, "x.y", nil, nil))
		if err != nil || refuses(out, err, 1) {
			return errorf("call: %s", show(out, err))
		}
		return nil
	},
	"dealer caller_identification": func(n uint64) error {
		d, err := probeDealer(n)
		if err != nil {
			return err
		}
		out, err := d.ReceiveMessage(1, messages.NewCall(n, map[string]any{"disclose_me": true}, "a.b", nil, nil))
		if err != nil {
			return err
		}
		if inv, ok := out.Message.(*messages.Invocation); !ok || canon(inv.Details()["caller"]) != "1" {
			return errorf("call: %s", show(out, err))
		}
		return nil
	},
	"broker publisher_exclusion": func(n uint64) error {
		b, err := probeBroker(n)
		if err != nil {
			return err
		}
		for _, opts := range []map[string]any{nil, {"exclude_me": true}, {"exclude_me": false}} {
			p, err := b.ReceivePublish(1, messages.NewPublish(n, opts, "a.b", nil, nil))
			if err != nil {
				return err
			}
			want := 1
			if x, ok := opts["exclude_me"].(bool); ok && !x {
				want = 2
			}
			if len(p.Recipients) != want {
				return errorf("recipients with %v: %v", opts, p.Recipients)
			}
		}
		return nil
	},
	"broker subscriber_blackwhite_listing": func(n uint64) error {
		b, err := probeBroker(n)
		if err != nil {
			return err
		}
		p, err := b.ReceivePublish(1, messages.NewPublish(n, map[string]any{"exclude": []any{2}}, "a.b", nil, nil))
		if err == nil && len(p.Recipients) > 0 {
			err = errorf("recipients: %v", p.Recipients)
		}
		return err
	},
	"broker publisher_identification": func(n uint64) error {
		b, err := probeBroker(n)
		if err != nil {
			return err
		}
		p, err := b.ReceivePublish(1, messages.NewPublish(n, map[string]any{"disclose_me": true}, "a.b", nil, nil))
		if err == nil && (p.Event == nil || canon(p.Event.Details()["publisher"]) != "1") {
			err = errorf("not disclosed")
		}
		return err
	},
	"broker pattern_based_subscription": func(n uint64) error {
		b, err := probeBroker(n)
		if err == nil {
			_, err = b.ReceiveMessage(2, messages.NewSubscribe(n, map[string]any{"match": "prefix"}, "x."))
		}
		if err != nil {
			return err
		}
		p, err := b.ReceivePublish(1, messages.NewPublish(n, nil, "x.y", nil, nil))
		if err == nil && len(p.Recipients) != 1 {
			err = errorf("recipients: %v", p.Recipients)
		}
		return err
	},
	"caller progressive_call_invocations": func(n uint64) error {
		s := wampproto.NewSession(nil)
		for i := 0; i < 3; i++ {
			if _, err := s.SendMessage(messages.NewCall(n, map[string]any{"progress": i < 2}, "a.b", nil, nil)); err != nil {
				return err
			}
		}
		_, err := s.ReceiveMessage(messages.NewResult(n, nil, nil, nil))
		return err
	},
	"caller progressive_call_results": func(n uint64) error {
		s := wampproto.NewSession(nil)
		_, err := s.SendMessage(messages.NewCall(n, map[string]any{"receive_progress": true}, "a.b", nil, nil))
		for i := 0; i < 3 && err == nil; i++ {
			_, err = s.ReceiveMessage(messages.NewResult(n, map[string]any{"progress": i < 2}, nil, nil))
		}
		return err
	},
	"caller call_canceling": func(n uint64) error {
		s := wampproto.NewSession(nil)
		_, err := s.SendMessage(messages.NewCall(n, nil, "a.b", nil, nil))
		if err == nil {
			_, err = s.SendMessage(messages.NewCancel(n, nil))
		}
		return err
	},
	"callee progressive_call_invocations": func(n uint64) error {
		s, err := probeCallee(n)
		for i := 0; i < 3 && err == nil; i++ {
			_, err = s.ReceiveMessage(messages.NewInvocation(n, n, map[string]any{"progress": i < 2}, nil, nil))
		}
		if err == nil {
			_, err = s.SendMessage(messages.NewYield(n, nil, nil, nil))
		}
		return err
	},
	"callee progressive_call_results": func(n uint64) error {
		s, err := probeCallee(n)
		if err == nil {
			_, err = s.ReceiveMessage(messages.NewInvocation(n, n, map[string]any{"receive_progress": true}, nil, nil))
		}
		for i := 0; i < 3 && err == nil; i++ {
			_, err = s.SendMessage(messages.NewYield(n, map[string]any{"progress": i < 2}, nil, nil))
		}
		return err
	},
	"callee call_canceling": func(n uint64) error {
		s, err := probeCallee(n)
		if err == nil {
			_, err = s.ReceiveMessage(messages.NewInvocation(n, n, nil, nil, nil))
		}
		if err == nil {
			_, err = s.ReceiveMessage(messages.NewInterrupt(n, nil))
		}
		return err
	},
	"publisher publisher_exclusion": func(n uint64) error {
		s := wampproto.NewSession(nil)
		data, err := s.SendMessage(messages.NewPublish(n, map[string]any{"exclude_me": false}, "a.b", nil, nil))
		if err == nil && !strings.Contains(string(data), `"exclude_me":false`) {
			err = errorf("the option is lost: %s", data)
		}
		return err
	},
}

// probeDealer has session 1, and session 2 with a procedure.
func probeDealer(n uint64) (*wampproto.Dealer, error) {
	d := wampproto.NewDealer()
	_ = d.AddSession(wampproto.NewSessionDetails(1, "r", "a", "b", "anonymous", false, nil, nil))
	_ = d.AddSession(wampproto.NewSessionDetails(2, "r", "c", "d", "anonymous", false, nil, nil))
	_, err := d.ReceiveMessage(2, messages.NewRegister(n, nil, "a.b"))
	return d, err
}

// probeBroker has sessions 1 and 2, both with a subscription.
func probeBroker(n uint64) (*wampproto.Broker, error) {
	b := wampproto.NewBroker()
	_ = b.AddSession(wampproto.NewSessionDetails(1, "r", "a", "b", "anonymous", false, nil, nil))
	_ = b.AddSession(wampproto.NewSessionDetails(2, "r", "c", "d", "anonymous", false, nil, nil))
	_, err := b.ReceiveMessage(2, messages.NewSubscribe(n, nil, "a.b"))
	if err == nil {
		_, err = b.ReceiveMessage(1, messages.NewSubscribe(n, nil, "a.b"))
	}
	return b, err
}

// probeCallee has a registration.
func probeCallee(n uint64) (*wampproto.Session, error) {
	s := wampproto.NewSession(nil)
	_, err := s.SendMessage(messages.NewRegister(n, nil, "a.b"))
	if err == nil {
		_, err = s.ReceiveMessage(messages.NewRegistered(n, n))
	}
	return s, err
}

// announced lists the roles, and the features, each with its role.
func announced() []string {
	var out []string
	for _, roles := range []map[string]any{wampproto.ClientRoles, wampproto.RouterRoles} {
		for role, v := range roles {
			out = append(out, role)
			m, _ := v.(map[string]any)
			f, _ := m["features"].(map[string]any)
			for name, on := range f {
				if b, ok := on.(bool); !ok || b {
					out = append(out, role+" "+name)
				}
			}
		}
	}
	return out
}

// C28: the announced features are there.
func TestC28_Features(t *testing.T) {
	type c28 struct {
		N uint64 `json:"n"`
	}
	Check(t, Opt{Checks: 100, Rule: "every feature that HELLO and WELCOME announce (from a table of those of the WAMP specification) is used once with a generated " +
		"request id, and the roles and features that there are must be announced; non-trivial: always; call_canceling is a listed finding"},
		func(t *rapid.T) c28 { return c28{max(genID(t), 1)} },
		func(c *c28, r *Rec) error {
			r.NonTrivial()
			all := announced()
			for _, f := range []string{"caller", "callee", "publisher", "subscriber", "dealer", "broker", "caller progressive_call_invocations",
				"callee progressive_call_invocations", "callee progressive_call_results", "publisher publisher_exclusion",
				"dealer progressive_call_invocations", "broker publisher_exclusion"} {
				if !slices.Contains(all, f) {
					return errorf("not announced: %s", f)
				}
			}
			for _, f := range all {
				probe := probes[f]
				if probe == nil && !strings.Contains(f, " ") {
					continue
				}
				if probe == nil {
					r.Label("not judged: %s", f)
					continue
				}
				if strings.HasSuffix(f, " call_canceling") {
					continue
				}
				r.Label("%s", f)
				if err := probe(c.N); err != nil {
					return errorf("announced feature does not work: %s: %v", f, err)
				}
			}
			return nil
		})
}

func TestC28_KnownCancel(t *testing.T) {
	Known(t, "call-canceling", func() bool {
		for _, f := range announced() {
			if strings.HasSuffix(f, " call_canceling") && probes[f](7) != nil {
				return true
			}
		}
		return false
	})
}
