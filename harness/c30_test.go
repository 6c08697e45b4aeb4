package harness

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	"pgregory.net/rapid"
)

// exactText writes a value with its Go types, nil told from empty, and what lies in
// the spare room of its slices.
func exactText(x any) string {
	var b strings.Builder
	exactTo(&b, x)
	return b.String()
}

func exactTo(b *strings.Builder, x any) {
	switch v := x.(type) {
	case []any:
		if v == nil {
			b.WriteString("nil-list")
			return
		}
		fmt.Fprintf(b, "list%d[", len(v))
		for _, e := range v[:cap(v)] {
			exactTo(b, e)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case map[string]any:
		if v == nil {
			b.WriteString("nil-map")
			return
		}
		b.WriteByte('{')
		for _, k := range sortedKeys(v) {
			fmt.Fprintf(b, "%q:", k)
			exactTo(b, v[k])
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case []byte:
		if v == nil {
			b.WriteString("nil-bytes")
			return
		}
		fmt.Fprintf(b, "bytes%d %x", len(v), v[:cap(v)])
	case []string:
		fmt.Fprintf(b, "strings%d %q", len(v), v[:cap(v)])
	case []auth.Method:
		fmt.Fprintf(b, "methods%d %q", len(v), v[:cap(v)])
	default:
		fmt.Fprintf(b, "%T(%#v)", x, x)
	}
}

// exactMsg writes the fields of a message.
func exactMsg(m messages.Message) string {
	s, ok := specOfCode(m.Type())
	if !ok {
		return fmt.Sprintf("%T", m)
	}
	fields, ok := s.get(m)
	if !ok {
		return fmt.Sprintf("%T", m)
	}
	var b strings.Builder
	b.WriteString(s.name)
	for _, f := range fields {
		b.WriteByte(' ')
		exactTo(&b, f)
	}
	if p, ok := m.(messages.BinaryPayload); ok {
		fmt.Fprintf(&b, " binary %v %d %x", p.PayloadIsBinary(), p.PayloadSerializer(), p.Payload())
	}
	return b.String()
}

// watch keeps what the application handed in or was given, next to what it was
// at that moment.
type watch struct{ list []watched }

type watched struct {
	what string
	now  func() string
	then string
}

func (w *watch) add(what string, now func() string) {
	if w != nil {
		w.list = append(w.list, watched{what, now, now()})
	}
}

func (w *watch) message(what string, m messages.Message) {
	if w != nil && m != nil {
		w.add(what, func() string { return exactMsg(m) })
	}
}

func (w *watch) value(what string, x any) {
	w.add(what, func() string { return exactText(x) })
}

func (w watched) check(when string) *mismatch {
	if now := w.now(); now != w.then {
		return bad("C30", "%s changed %s: from %s to %s", w.what, when, short(w.then), short(now))
	}
	return nil
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// last checks what was added last.
func (w *watch) last() *mismatch {
	if w == nil || len(w.list) == 0 {
		return nil
	}
	return w.list[len(w.list)-1].check("while it was handled")
}

func (w *watch) all() *mismatch {
	if w == nil {
		return nil
	}
	for _, x := range w.list {
		if m := x.check("later"); m != nil {
			return m
		}
	}
	return nil
}

func (w *watch) err() error {
	if m := w.all(); m != nil {
		return m.err
	}
	return nil
}

// spareRoom says that lists and byte strings are to be made with spare room.
var spareRoom bool

func withRoom[T any](x T) T {
	if spareRoom {
		if r, ok := roomy(x).(T); ok {
			return r
		}
	}
	return x
}

// roomy gives every list spare room with something in it that is not ours to write.
func roomy(x any) any {
	switch v := x.(type) {
	case []any:
		if v == nil {
			return v
		}
		out := make([]any, 0, len(v)+3)
		for _, e := range v {
			out = append(out, roomy(e))
		}
		for i := 0; i < 3; i++ {
			_ = append(out[:len(v)+i:len(v)+3], "spare")
		}
		return out
	case map[string]any:
		if v == nil {
			return v
		}
		out := make(map[string]any, len(v))
		for k, e := range v {
			out[k] = roomy(e)
		}
		return out
	case []byte:
		if v == nil {
			return v
		}
		return append(bytes.Clone(v), 0x5a, 0x5a, 0x5a)[: len(v) : len(v)+3]
	}
	return x
}

func roomyList(v V) []any {
	l, _ := roomy(v.List()).([]any)
	return l
}

// C30: routers leave messages as they are.
func TestC30_Dealer(t *testing.T) {
	spareRoom = true
	defer func() { spareRoom = false }()
	mix := rpcMix{ops: "RRRRUCCCCCCYYYYEELJDFW", uris: 3, policies: allPolicies, matches: allMatches, min: 3, max: 60, sessions: 5, toggle: true, oneWild: true}
	Check(t, Opt{Checks: 5000, Repeat: 20, Rule: "history on a dealer in which every message handed in or given out is compared, with its exact Go types, with " +
		"what it was, right after it was handled and at the end; non-trivial: a call was answered"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error {
			m, mm := newDealerRun(c, r)
			m.watch = &watch{}
			if mm == nil {
				mm = m.run(c.Ops)
			}
			if m.hist["answered"] > 0 {
				r.NonTrivial()
			}
			if mm == nil || !strings.Contains(mm.tags, "C30") {
				if also := m.watch.all(); also != nil {
					mm = also
				}
			}
			return mm.of("C30", r)
		})
}

func TestC30_Broker(t *testing.T) {
	spareRoom = true
	defer func() { spareRoom = false }()
	mix := pubMix{ops: "SSSSUPPPPPPPPLJD", topics: 3, matches: []string{"", "prefix", "wildcard"}, toggle: true, min: 3, max: 50, sessions: 5, disjoint: 50}
	Check(t, Opt{Checks: 5000, Repeat: 20, Rule: "history on a broker in which every message handed in or given out is compared, with its exact Go types, with " +
		"what it was, right after it was handled and at the end; non-trivial: an event was delivered"},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error {
			m, mm := newBrokerRun(c, r)
			m.watch = &watch{}
			if mm == nil {
				mm = m.run(c.Ops)
			}
			if m.hist["delivered"] > 0 {
				r.NonTrivial()
			}
			if mm == nil || !strings.Contains(mm.tags, "C30") {
				if also := m.watch.all(); also != nil {
					mm = also
				}
			}
			return mm.of("C30", r)
		})
}

type handCase struct {
	Format string   `json:"format"`
	Msgs   []Msg    `json:"msgs"`
	How    []int    `json:"how"`
	Args   V        `json:"args"`
	KwArgs V        `json:"kwargs"`
	Blob   []byte   `json:"blob"`
	Ser    uint64   `json:"ser"`
	Names  []string `json:"names"`
}

func genHand(t *rapid.T) handCase {
	c := handCase{Format: pick(t, "format", formats...), Ser: uint64(between(t, "ser", 0, 4)), Blob: rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "blob")}
	for i := between(t, "n", 1, 5); i > 0; i-- {
		c.Msgs = append(c.Msgs, genMsg(t, c.Format))
		c.How = append(c.How, intn(t, "how", 8))
	}
	c.Args, c.KwArgs = genArgs(t, c.Format), genKwargs(t, c.Format)
	for i := between(t, "n", 0, 5); i > 0; i-- {
		c.Names = append(c.Names, pick(t, "method", "anonymous", "ticket", "wampcra", "cryptosign", "", "x"))
	}
	return c
}

// build makes a message from fields with room, and watches the fields.
func (m Msg) buildWatched(w *watch) messages.Message {
	s := specOf(m.T)
	msg := m.build()
	fields, _ := s.get(msg)
	// messages hold what they were given, so this is the application's own data
	for i, x := range fields {
		switch v := x.(type) {
		case []any, map[string]any:
			w.value(fmt.Sprintf("field %d of %s", i, m.T), v)
		}
	}
	w.message(m.T, msg)
	return msg
}

// C30: serializers, payload codecs and constructors leave their arguments alone.
func TestC30_Codecs(t *testing.T) {
	spareRoom = true
	defer func() { spareRoom = false }()
	Check(t, Opt{Checks: 5000, Rule: "1-5 generated messages built, serialized, deserialized and parsed, payloads encoded and decoded, the New...Binary and " +
		"authenticator constructors, method selection and the raw-socket functions called with generated maps, lists with spare room and byte strings; " +
		"afterwards everything handed in or given out is compared, with its exact Go types, with what it was; non-trivial: some map or list is not empty"},
		genHand,
		func(c *handCase, r *Rec) error {
			w := &watch{}
			ser := serializer(c.Format)
			var buffers [][]byte
			for i, m := range c.Msgs {
				r.Label("%s", m.T)
				for _, f := range m.F {
					if len(f.L) > 0 {
						r.NonTrivial()
					}
				}
				msg := m.buildWatched(w)
				data, err := ser.Serialize(msg)
				if err != nil {
					continue // another property's matter
				}
				w.value("serialized "+m.T, data)
				in := append(bytes.Clone(data), 0x5a, 0x5a)[:len(data)]
				before := exactText(in)
				got, err := ser.Deserialize(in)
				if now := exactText(in); now != before {
					return errorf("Deserialize changes its input: from %s to %s", short(before), short(now))
				}
				buffers = append(buffers, in)
				if err == nil {
					w.message("deserialized "+m.T, got)
				}
				if c.How[i]%2 == 0 {
					_, _ = ser.Deserialize(in[:len(in)*c.How[i]/8])
				}
				arr := msg.Marshal()
				if l, ok := roomy(arr).([]any); ok {
					w.value("array of "+m.T, l)
					if got, err := serializers.ToMessage(l); err == nil {
						w.message("parsed "+m.T, got)
					}
				}
			}
			args := roomyList(c.Args)
			kwargs := c.KwArgs.Map()
			w.value("payload args", args)
			w.value("payload kwargs", kwargs)
			for id := uint64(0); id < 5; id++ {
				data, err := serializers.SerializePayload(id, args, kwargs)
				if err != nil {
					continue
				}
				if id == 0 { // the argument itself
					w.value("plain payload", data)
					continue
				}
				w.value("encoded payload", data)
				in := append(bytes.Clone(data), 0x5a, 0x5a)[:len(data)]
				before := exactText(in)
				a, k, err := serializers.DeserializePayload(id, in)
				if now := exactText(in); now != before {
					return errorf("DeserializePayload changes its input: from %s to %s", short(before), short(now))
				}
				if err == nil {
					w.value("decoded args", a)
					w.value("decoded kwargs", k)
				}
				buffers = append(buffers, in)
			}
			blob := append(bytes.Clone(c.Blob), 0x5a, 0x5a)[:len(c.Blob)]
			w.value("binary payload", blob)
			for _, opts := range []map[string]any{nil, {}, kwargs} {
				w.value("options", opts)
				for _, m := range []messages.Message{messages.NewCallBinary(1, opts, "a.b", blob, c.Ser), messages.NewYieldBinary(1, opts, blob, c.Ser),
					messages.NewInvocationBinary(1, 2, opts, blob, c.Ser), messages.NewResultBinary(1, opts, blob, c.Ser)} {
					w.message("binary message", m)
				}
			}
			names := append(append([]string{}, c.Names...), "spare")[:len(c.Names)]
			var allowed []auth.Method
			for i := range names {
				allowed = append(allowed, auth.Method(names[len(names)-1-i]))
			}
			w.value("proposed methods", names)
			w.value("allowed methods", allowed)
			_, _ = auth.SelectAuthMethod(allowed, names)
			_, _ = transports.ReceiveHandshake(blob)
			_, _ = transports.ReceiveMessageHeader(blob)
			// buffers are used again
			for _, b := range buffers {
				for i := range b {
					b[i] = 0xff
				}
			}
			for i := range c.Msgs {
				_, _ = ser.Serialize(c.Msgs[len(c.Msgs)-1-i].build())
			}
			return w.err()
		})
}

// C30: sessions leave messages alone.
func TestC30_Session(t *testing.T) {
	spareRoom = true
	defer func() { spareRoom = false }()
	Check(t, Opt{Checks: 5000, Rule: "1-5 generated messages of all types sent and received by a client session, as objects and bytes, accepted or not, with " +
		"the requests they answer sent before; everything handed in or given out is compared with what it was; non-trivial: some map or list is not empty"},
		genHand,
		func(c *handCase, r *Rec) error {
			w := &watch{}
			ser := serializer(c.Format)
			s := wampproto.NewSession(ser)
			for i, m := range c.Msgs {
				for _, f := range m.F {
					if len(f.L) > 0 {
						r.NonTrivial()
					}
				}
				msg := m.buildWatched(w)
				if len(m.F) > 0 && m.F[0].K == "uint64" {
					id := m.F[0].Uint()
					var req messages.Message
					switch m.T {
					case "RESULT":
						req = messages.NewCall(id, nil, "a.b", nil, nil)
					case "REGISTERED":
						req = messages.NewRegister(id, nil, "a.b")
					case "SUBSCRIBED":
						req = messages.NewSubscribe(id, nil, "a.b")
					case "EVENT":
						_, _ = s.SendMessage(messages.NewSubscribe(1, nil, "a.b"))
						_, _ = s.ReceiveMessage(messages.NewSubscribed(1, id))
					case "INVOCATION":
						_, _ = s.SendMessage(messages.NewRegister(1, nil, "a.b"))
						_, _ = s.ReceiveMessage(messages.NewRegistered(1, m.F[1].Uint()))
					case "PUBLISHED":
						req = messages.NewPublish(id, map[string]any{"acknowledge": true}, "a.b", nil, nil)
					}
					if req != nil {
						w.message("request", req)
						_, _ = s.SendMessage(req)
					}
				}
				if c.How[i] < 4 {
					if data, err := s.SendMessage(msg); err == nil {
						w.value("data of "+m.T, data)
						r.Label("sent %s", m.T)
					}
				}
				if c.How[i]%2 == 0 {
					got, err := s.ReceiveMessage(msg)
					if err == nil {
						w.message("received "+m.T, got)
						r.Label("received %s", m.T)
					}
				} else if data, err := ser.Serialize(msg); err == nil {
					in := append(bytes.Clone(data), 0x5a, 0x5a)[:len(data)]
					before := exactText(in)
					got, err := s.Receive(in)
					if now := exactText(in); now != before {
						return errorf("Receive changes its input: from %s to %s", short(before), short(now))
					}
					if err == nil {
						w.message("received "+m.T, got)
						r.Label("received %s", m.T)
					}
					for i := range in {
						in[i] = 0xff
					}
				}
			}
			return w.err()
		})
}

// C30: authenticators and handshakes leave what they are given alone, so that it
// can be used for the next one.
func TestC30_Handshakes(t *testing.T) {
	spareRoom = true
	defer func() { spareRoom = false }()
	type c30 struct {
		Joins []joinCase `json:"joins"`
		Extra V          `json:"extra"`
	}
	Check(t, Opt{Checks: 1200, Rule: "2-4 handshakes of different users and methods one after another that share one map of auth extras, one serializer and the " +
		"roles, as objects or bytes; every map, message and session detail is compared with what it was; non-trivial: the map is given"},
		func(t *rapid.T) c30 {
			var c c30
			j := genJoinCase(t)
			for i := between(t, "n", 2, 4); i > 0; i-- {
				next := genJoinCase(t)
				next.Format, next.NilAuth, next.NilSer, next.User.Iter = j.Format, 0, 0, min(next.User.Iter, 10)
				c.Joins = append(c.Joins, next)
			}
			c.Extra = pick(t, "kind", vNil(), V{K: "map"}, genMap(t, j.Format, 2))
			for i, k := range c.Extra.M {
				if k == "pubkey" {
					c.Extra.M[i] = "pubkey2"
				}
			}
			return c
		},
		func(c *c30, r *Rec) error {
			w := &watch{}
			extra, _ := roomy(c.Extra.Map()).(map[string]any)
			if extra != nil {
				r.NonTrivial()
			}
			w.value("auth extra", extra)
			w.value("client roles", wampproto.ClientRoles)
			w.value("router roles", wampproto.RouterRoles)
			format := c.Joins[0].Format
			ser := serializer(format)
			for _, join := range c.Joins {
				u := join.User
				u.Extra = vNil()
				client, err := shared(u, join.Method, extra)
				if err != nil {
					return errorf("client authenticator for the same extras: %v", err)
				}
				w.value("extras of the authenticator", client.AuthExtra())
				srv := newServer(u, join.Enabled...)
				w.value("methods", srv.methods)
				a, j := wampproto.NewAcceptor(ser, srv), wampproto.NewJoiner(u.Realm, ser, client)
				data, err := j.SendHello()
				for i := 0; i < 3 && err == nil && data != nil; i++ {
					w.value("client data", data)
					if join.Bytes {
						data, _, err = a.Receive(data)
						w.value("server data", data)
						if err == nil {
							data, err = j.Receive(data)
						}
						continue
					}
					var m, reply messages.Message
					if m, err = ser.Deserialize(data); err == nil {
						w.message("message to the acceptor", m)
						reply, err = a.ReceiveMessage(m)
					}
					if err == nil {
						w.message("message to the joiner", reply)
						m, err = j.ReceiveMessage(reply)
						data = nil
					}
					if err == nil && m != nil {
						w.message("message from the joiner", m)
						data, err = ser.Serialize(m)
					}
				}
				cd, err1 := j.SessionDetails()
				sd, err2 := a.SessionDetails()
				r.Label("%s joined %v", join.Method, err1 == nil && err2 == nil)
				if err != nil || err1 != nil || err2 != nil {
					return errorf("handshake with the same extras fails: %s: %v, %v, %v", join.Method, err, err1, err2)
				}
				for _, d := range []*wampproto.SessionDetails{cd, sd} {
					w.add("session details", func() string {
						return fmt.Sprintf("%d %q %q %q %q %v %s %s %s", d.ID(), d.Realm(), d.AuthID(), d.AuthRole(), d.AuthMethod(), d.StaticSerializer(), d.CreatedAt(),
							exactText(d.RouterRoles()), exactText(d.AuthExtra()))
					})
				}
				for _, q := range srv.log {
					w.value("extras the authenticator saw", q.extra)
				}
			}
			if got := canonMap(wampproto.ClientRoles); got != clientRoles {
				return errorf("ClientRoles changed: %s", got)
			}
			if got := canonMap(wampproto.RouterRoles); got != routerRoles {
				return errorf("RouterRoles changed: %s", got)
			}
			return w.err()
		})
}

// shared is a client authenticator that is given a map others have too.
func shared(u User, method string, extra map[string]any) (auth.ClientAuthenticator, error) {
	switch method {
	case "anonymous":
		return auth.NewAnonymousAuthenticator(u.AuthID, extra), nil
	case "ticket":
		return auth.NewTicketAuthenticator(u.AuthID, u.Ticket, extra), nil
	case "wampcra":
		return auth.NewWAMPCRAAuthenticator(u.AuthID, u.Secret, extra), nil
	}
	return auth.NewCryptoSignAuthenticator(u.AuthID, u.Seed, extra)
}

// C30: joiners and acceptors leave the messages of foreign peers alone.
func TestC30_Foreign(t *testing.T) {
	spareRoom = true
	defer func() { spareRoom = false }()
	type c30 struct {
		Format string `json:"format"`
		User   User   `json:"user"`
		Method string `json:"method"`
		Msgs   []Msg  `json:"msgs"`
		Roles  []V    `json:"roles"` // for the details of HELLO and WELCOME
		Keys   []int  `json:"keys"`
	}
	Check(t, Opt{Checks: 4000, Rule: "generated handshake messages of a foreign peer, with details that are usual, made up or absent, handed as objects to a " +
		"joiner or acceptor one after another; every message and all session details are compared with what they were; non-trivial: some map or list is not empty"},
		func(t *rapid.T) c30 {
			c := c30{Format: pick(t, "format", formats...), Method: pick(t, "method", methodNames...)}
			c.User = genUser(t, c.Format)
			c.User.Iter = min(c.User.Iter, 10)
			for i := between(t, "n", 1, 3); i > 0; i-- {
				c.Msgs = append(c.Msgs, genMsgOf(t, specOf(pick(t, "type", "HELLO", "HELLO", "CHALLENGE", "WELCOME", "WELCOME", "ABORT", "AUTHENTICATE")), c.Format))
				roles := V{K: "map"}
				for _, role := range []string{"dealer", "broker", "caller", "callee", "publisher", "subscriber"} {
					if chance(t, "role", 50) {
						roles.M = append(roles.M, role)
						roles.L = append(roles.L, pick(t, "features", V{K: "map"}, vNil(), genMap(t, c.Format, 1), V{K: "map", M: []string{"features"}, L: []V{vNil()}},
							V{K: "map", M: []string{"features"}, L: []V{genMap(t, c.Format, 1)}}))
					}
				}
				c.Roles = append(c.Roles, roles)
				c.Keys = append(c.Keys, intn(t, "keys", 256))
			}
			return c
		},
		func(c *c30, r *Rec) error {
			w := &watch{}
			client, err := c.User.client(c.Method)
			if err != nil {
				return errorf("client authenticator: %v", err)
			}
			ser := serializer(c.Format)
			j := wampproto.NewJoiner(c.User.Realm, ser, client)
			a := wampproto.NewAcceptor(ser, newServer(c.User, methodNames...))
			if _, err := j.SendHello(); err != nil {
				return errorf("SendHello fails: %v", err)
			}
			for i, m := range c.Msgs {
				msg := m.build()
				usual := func(x map[string]any, more map[string]any) {
					n := 0
					for _, k := range sortedKeys(more) {
						if x != nil && c.Keys[i]>>n&1 == 1 {
							x[k] = more[k]
						}
						n++
					}
				}
				for _, f := range m.F {
					if len(f.L) > 0 {
						r.NonTrivial()
					}
				}
				roles := c.Roles[i].Map()
				switch x := msg.(type) {
				case *messages.Welcome:
					usual(x.Details(), map[string]any{"roles": roles, "authid": c.User.AuthID, "authrole": "a", "authmethod": c.Method, "realm": "b", "authextra": map[string]any{}})
				case *messages.Hello:
					extra := x.AuthExtra()
					if extra != nil && c.Keys[i]&1 == 1 {
						extra["pubkey"] = c.User.pubkey()
					}
					methods := append([]string{c.Method, "", "x", "anonymous"}, "spare")[:1+c.Keys[i]%4]
					x = messages.NewHello(x.Realm(), c.User.AuthID, extra, roles, methods)
					w.value("auth methods", methods)
					msg = x
				case *messages.Challenge:
					extra := map[string]any{"challenge": strings.Repeat("0", 64), "salt": "a", "iterations": 3, "keylen": 20, "more": []any{"a"}}
					usual(x.Extra(), extra)
					msg = messages.NewChallenge(c.Method, x.Extra())
				}
				w.message(m.T, msg)
				var out messages.Message
				if m.T == "HELLO" || m.T == "AUTHENTICATE" {
					out, err = a.ReceiveMessage(msg)
				} else {
					out, err = j.ReceiveMessage(msg)
				}
				r.Label("%s %v", m.T, err == nil)
				if err == nil && out != nil {
					w.message("answer to "+m.T, out)
				}
				for _, details := range []func() (*wampproto.SessionDetails, error){j.SessionDetails, a.SessionDetails} {
					if d, err := details(); err == nil {
						w.value("roles of the session", d.RouterRoles())
						w.value("extra of the session", d.AuthExtra())
					}
				}
			}
			return w.err()
		})
}
