package harness

import (
	"fmt"
	"runtime"
	"slices"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

type leakOp struct {
	K string `json:"k"`
	S int    `json:"s"`           // session
	U int    `json:"u,omitempty"` // URI
	N int    `json:"n,omitempty"` // which of several, or options
}

type leakCase struct {
	Fresh bool     `json:"fresh"` // names and ids differ from cycle to cycle
	Tidy  int      `json:"tidy"`  // what is left is answered, withdrawn or left behind by sessions that go
	Ops   []leakOp `json:"ops"`
	Join  joinCase `json:"join"`
	Msgs  []Msg    `json:"msgs,omitempty"`
	Limit int      `json:"limit"`
}

func genLeak(t *rapid.T, kinds ...string) leakCase {
	c := leakCase{Fresh: chance(t, "fresh", 60), Tidy: intn(t, "tidy", 3)}
	used := []int{intn(t, "uri", 6)}
	for k := 2; k < 4; k++ {
		if kinds[0] == "join" && chance(t, "here", 60) {
			c.Ops = append(c.Ops, leakOp{"join", k, 0, 0})
		}
	}
	for i := between(t, "n", 3, 16); i > 0; i-- {
		o := leakOp{pick(t, "kind", kinds...), intn(t, "session", 4), intn(t, "uri", 6), intn(t, "param", 12)}
		switch o.K {
		case "register", "subscribe":
			used = append(used, o.U)
		case "call", "publish":
			if chance(t, "used", 85) {
				o.U = used[intn(t, "which", len(used))]
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func heap() int {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

// grows runs cycles and says whether what they leave behind adds up.
func grows(n, limit int, cycle func(i int)) error {
	i := 0
	run := func(n int) int {
		for end := i + n; i < end; i++ {
			cycle(i)
		}
		return heap()
	}
	run(n / 16)
	before := run(n / 16)
	after := run(n)
	if after-before < limit {
		return nil
	}
	// once more, for longer: it may have been something else
	more := run(4 * n)
	if more-after < 3*limit {
		return nil
	}
	return errorf("memory is kept: %d bytes after %d cycles, %d after %d more, %d after %d more", before, n/8, after, n, more, 4*n)
}

const leakRule = "a script of 3-16 operations at the end of which everything is answered, withdrawn or gone is run 4000 times and the heap compared with what it was " +
	"before (growth is confirmed over 16000 runs more); "

type leakRPC struct {
	c       *leakCase
	d       *wampproto.Dealer
	cycle   int
	req     uint64
	ids     [4]uint64
	here    [4]bool
	regs    map[uint64][]uint64 // session -> registrations
	pending map[uint64][2]uint64
	did     map[string]bool
}

func (l *leakRPC) uri(u int) (string, string) {
	name := []string{"a.b", "a.c", "a.", "x.*", "b", "b.*.c"}[u%6]
	if l.c.Fresh {
		name = fmt.Sprintf("u%d.", l.cycle) + name
	}
	return name, []string{"exact", "exact", "prefix", "wildcard", "", "wildcard"}[u%6]
}

// concrete is a URI that the pattern matches.
func concrete(uri, match string) string {
	switch match {
	case "prefix":
		return uri + "z"
	case "wildcard":
		return strings.ReplaceAll(uri, "*", "q")
	}
	return uri
}

func (l *leakRPC) send(s uint64, m messages.Message) messages.Message {
	out, err := l.d.ReceiveMessage(s, m)
	if err != nil || out == nil {
		l.did[fmt.Sprintf("refused %T", m)] = true
		return nil
	}
	switch r := out.Message.(type) {
	case *messages.Registered:
		if !slices.Contains(l.regs[s], r.RegistrationID()) {
			l.regs[s] = append(l.regs[s], r.RegistrationID())
		}
	case *messages.Invocation:
		l.pending[r.RequestID()] = [2]uint64{s, out.Recipient}
	}
	l.did[fmt.Sprintf("%T", out.Message)] = true
	return out.Message
}

func (l *leakRPC) drop(s uint64) {
	_ = l.d.RemoveSession(s)
	delete(l.regs, s)
	for id, p := range l.pending {
		if p[0] == s || p[1] == s {
			delete(l.pending, id)
		}
	}
}

func (l *leakRPC) nth(n int) (uint64, [2]uint64) {
	if len(l.pending) == 0 {
		return 0, [2]uint64{}
	}
	ids := sorted(l.pending)
	id := ids[n%len(ids)]
	return id, l.pending[id]
}

func (l *leakRPC) run(i int) {
	l.cycle = i
	if l.c.Fresh {
		l.ids[2], l.ids[3] = uint64(1000+2*i), uint64(1001+2*i)
	} else {
		l.req = 0
	}
	for _, o := range l.c.Ops {
		s := l.ids[o.S%4]
		uri, match := l.uri(o.U)
		l.req++
		switch o.K {
		case "join":
			l.here[o.S%4] = true
			_ = l.d.AddSession(wampproto.NewSessionDetails(s, "realm", fmt.Sprint("u", s), "r", "anonymous", false, nil, nil))
		case "leave":
			if o.S%4 >= 2 {
				l.here[o.S%4] = false
				l.drop(s)
				l.did["left"] = true
			}
		case "register":
			l.send(s, messages.NewRegister(l.req, map[string]any{"match": match, "invoke": []string{"roundrobin", "single", "first", "last", "random", ""}[o.N%6]}, uri))
		case "unregister":
			if n := len(l.regs[s]); n > 0 {
				id := l.regs[s][o.N%n]
				l.send(s, messages.NewUnregister(l.req, id))
				l.regs[s] = slices.DeleteFunc(l.regs[s], func(x uint64) bool { return x == id })
			} else {
				l.send(s, messages.NewUnregister(l.req, uint64(o.N)))
			}
		case "call":
			req := l.req
			if o.N%3 == 0 {
				req = 7 // the same call again
			}
			opts := map[string]any{}
			if o.N%4 == 1 {
				opts["progress"] = true
			}
			if o.N%5 < 2 {
				opts["receive_progress"] = true
			}
			if o.N%4 != 3 {
				uri = concrete(uri, match)
			}
			l.send(s, messages.NewCall(req, opts, uri, []any{uri, l.req}, nil))
		case "yield":
			id, p := l.nth(o.N)
			opts := map[string]any{}
			if o.N%3 == 0 {
				opts["progress"] = true
			}
			if m, ok := l.send(p[1], messages.NewYield(id, opts, []any{uri}, nil)).(*messages.Result); ok {
				if more, _ := m.Details()["progress"].(bool); !more {
					delete(l.pending, id)
				}
			}
		case "error":
			id, p := l.nth(o.N)
			if l.send(p[1], messages.NewError(messages.MessageTypeInvocation, id, nil, uri, []any{uri}, nil)) != nil {
				delete(l.pending, id)
			}
		case "junk":
			switch o.N % 4 {
			case 0:
				l.send(s, messages.NewYield(uint64(1000000+i), nil, nil, nil))
			case 1:
				l.send(uint64(5000000+i), messages.NewCall(l.req, nil, uri, nil, nil))
			case 2:
				l.send(s, messages.NewCancel(l.req, nil))
			case 3:
				l.send(uint64(5000000+i), messages.NewRegister(l.req, nil, uri))
			}
		case "look":
			l.d.HasProcedure(uri)
			l.d.AutoDiscloseCaller(o.N%2 == 0)
		}
	}
	l.end()
}

func (l *leakRPC) end() {
	if l.c.Tidy == 1 {
		l.leave()
	}
	for _, id := range sorted(l.pending) {
		p := l.pending[id]
		l.req++
		if l.c.Tidy == 2 {
			l.send(p[1], messages.NewError(messages.MessageTypeInvocation, id, nil, "x.y", nil, nil))
		} else {
			l.send(p[1], messages.NewYield(id, nil, nil, nil))
		}
		delete(l.pending, id)
	}
	for _, s := range sorted(l.regs) {
		for _, id := range l.regs[s] {
			l.req++
			l.send(s, messages.NewUnregister(l.req, id))
		}
		delete(l.regs, s)
	}
	l.leave()
}

func (l *leakRPC) leave() {
	for k := 2; k < 4; k++ {
		if l.here[k] {
			l.drop(l.ids[k])
			l.here[k] = false
		}
	}
}

func (l *leakRPC) labels(r *Rec) {
	for what := range l.did {
		r.Label("%s", what)
	}
}

// C29: a dealer keeps nothing of what is over.
func TestC29_Dealer(t *testing.T) {
	Check(t, Opt{Checks: 30, Rule: leakRule + "dealer: two sessions that stay and two that come and go register, unregister, call (also progressively), answer, and send junk; " +
		"non-trivial: some call is answered, or a session leaves"},
		func(t *rapid.T) leakCase {
			return genLeak(t, "join", "join", "leave", "register", "register", "register", "unregister", "call", "call", "call", "call", "yield", "yield", "error", "junk", "look")
		},
		func(c *leakCase, r *Rec) error {
			l := &leakRPC{c: c, d: wampproto.NewDealer(), ids: [4]uint64{1, 2, 3, 4}, regs: map[uint64][]uint64{}, pending: map[uint64][2]uint64{}, did: map[string]bool{}}
			for _, s := range []uint64{1, 2} {
				if err := l.d.AddSession(wampproto.NewSessionDetails(s, "realm", "a", "r", "anonymous", false, nil, nil)); err != nil {
					return err
				}
			}
			err := grows(4000, 40000, l.run)
			l.labels(r)
			if l.did["*messages.Result"] || l.did["*messages.Error"] || l.did["left"] {
				r.NonTrivial()
			}
			runtime.KeepAlive(l)
			return err
		})
}

// C29: a broker keeps nothing of what is over.
func TestC29_Broker(t *testing.T) {
	Check(t, Opt{Checks: 20, Rule: leakRule + "broker: two sessions that stay and two that come and go subscribe, unsubscribe, publish, and send junk; non-trivial: an event has " +
		"recipients or a session leaves"},
		func(t *rapid.T) leakCase {
			return genLeak(t, "join", "join", "leave", "subscribe", "subscribe", "subscribe", "unsubscribe", "publish", "publish", "junk", "look")
		},
		func(c *leakCase, r *Rec) error {
			b := wampproto.NewBroker()
			did := map[string]bool{}
			names := &leakRPC{c: c}
			add := func(s uint64) error {
				return b.AddSession(wampproto.NewSessionDetails(s, "realm", fmt.Sprint("u", s), "r", "anonymous", false, nil, nil))
			}
			for _, s := range []uint64{1, 2} {
				if err := add(s); err != nil {
					return err
				}
			}
			ids := [4]uint64{1, 2, 3, 4}
			var here [4]bool
			subs := map[uint64][]uint64{}
			var req uint64
			unsubscribe := func(s, id uint64) {
				_, err := b.ReceiveMessage(s, messages.NewUnsubscribe(req, id))
				did[fmt.Sprint("unsubscribed ", err == nil)] = true
				subs[s] = slices.DeleteFunc(subs[s], func(x uint64) bool { return x == id })
			}
			drop := func(k int) {
				if here[k] {
					_ = b.RemoveSession(ids[k])
					delete(subs, ids[k])
					here[k] = false
					did["left"] = true
				}
			}
			err := grows(4000, 40000, func(i int) {
				names.cycle = i
				if c.Fresh {
					ids[2], ids[3] = uint64(1000+2*i), uint64(1001+2*i)
				} else {
					req = 0
				}
				for _, o := range c.Ops {
					s := ids[o.S%4]
					uri, match := names.uri(o.U)
					req++
					switch o.K {
					case "join":
						here[o.S%4] = here[o.S%4] || o.S%4 >= 2
						_ = add(s)
					case "leave":
						drop(o.S % 4)
					case "subscribe":
						out, err := b.ReceiveMessage(s, messages.NewSubscribe(req, map[string]any{"match": match}, uri))
						if err == nil {
							if m, ok := out.Message.(*messages.Subscribed); ok && !slices.Contains(subs[s], m.SubscriptionID()) {
								subs[s] = append(subs[s], m.SubscriptionID())
							}
						}
					case "unsubscribe":
						if n := len(subs[s]); n > 0 {
							unsubscribe(s, subs[s][o.N%n])
						} else {
							unsubscribe(s, uint64(o.N))
						}
					case "publish":
						if o.N%4 != 3 {
							uri = concrete(uri, match)
						}
						p, err := b.ReceivePublish(s, messages.NewPublish(req, map[string]any{"acknowledge": o.N%3 == 0, "exclude_me": o.N%4 < 2}, uri, []any{uri}, nil))
						if err == nil && len(p.Recipients) > 0 {
							did["event"] = true
						}
					case "junk":
						switch o.N % 3 {
						case 0:
							_, _ = b.ReceiveMessage(s, messages.NewCancel(req, nil))
						case 1:
							_, _ = b.ReceiveMessage(uint64(5000000+i), messages.NewSubscribe(req, map[string]any{"match": match}, uri))
						case 2:
							_, _ = b.ReceivePublish(uint64(5000000+i), messages.NewPublish(req, nil, uri, nil, nil))
						}
					case "look":
						b.HasSubscription(uri)
						b.AutoDisclosePublisher(o.N%2 == 0)
					}
				}
				if c.Tidy == 1 {
					drop(2)
					drop(3)
				}
				for _, s := range sorted(subs) {
					for _, id := range slices.Clone(subs[s]) {
						unsubscribe(s, id)
					}
					delete(subs, s)
				}
				drop(2)
				drop(3)
			})
			for what := range did {
				r.Label("%s", what)
			}
			if did["event"] || did["left"] {
				r.NonTrivial()
			}
			runtime.KeepAlive(b)
			return err
		})
}

// C29: a client session keeps nothing of what is over.
func TestC29_Session(t *testing.T) {
	Check(t, Opt{Checks: 12, Rule: leakRule + "client session: requests of all kinds that are answered by replies or errors, events, invocations that are answered, and junk; " +
		"non-trivial: always"},
		func(t *rapid.T) leakCase {
			return genLeak(t, "CALL", "REGISTER", "REGISTER", "SUBSCRIBE", "PUBLISH", "INVOCATION", "EVENT", "UNREGISTER", "UNSUBSCRIBE", "junk", "bytes")
		},
		func(c *leakCase, r *Rec) error {
			r.NonTrivial()
			s := wampproto.NewSession(nil)
			names := &leakRPC{c: c}
			var fails error
			var req, held uint64
			recv := func(m messages.Message) {
				if _, err := s.ReceiveMessage(m); err != nil && fails == nil {
					fails = fmt.Errorf("%T: %w", m, err)
				}
			}
			send := func(m messages.Message) {
				if _, err := s.SendMessage(m); err != nil && fails == nil {
					fails = fmt.Errorf("%T: %w", m, err)
				}
			}
			var regs, subs []uint64
			serror := func(kind uint64) { recv(messages.NewError(kind, req, nil, "a.b", []any{"x"}, nil)) }
			err := grows(4000, 40000, func(i int) {
				names.cycle = i
				if !c.Fresh {
					req, held = 0, 0
				}
				for _, o := range c.Ops {
					uri, _ := names.uri(o.U)
					req++
					held++
					fine := o.N%3 != 0
					if i == 0 {
						r.Label("%s %v", o.K, fine)
					}
					switch o.K {
					case "CALL":
						send(messages.NewCall(req, map[string]any{"receive_progress": true, "progress": o.N%4 == 3}, uri, nil, nil))
						if o.N%4 == 3 {
							send(messages.NewCall(req, map[string]any{"receive_progress": true}, uri, nil, nil))
						}
						for k := o.N % 4; k > 0; k-- {
							recv(messages.NewResult(req, map[string]any{"progress": true}, nil, nil))
						}
						if fine {
							recv(messages.NewResult(req, nil, []any{uri}, nil))
						} else {
							serror(messages.MessageTypeCall)
						}
					case "REGISTER":
						send(messages.NewRegister(req, nil, uri))
						if fine {
							recv(messages.NewRegistered(req, held))
							regs = append(regs, held)
						} else {
							serror(messages.MessageTypeRegister)
						}
					case "SUBSCRIBE":
						send(messages.NewSubscribe(req, nil, uri))
						if fine {
							recv(messages.NewSubscribed(req, held))
							subs = append(subs, held)
						} else {
							serror(messages.MessageTypeSubscribe)
						}
					case "PUBLISH":
						send(messages.NewPublish(req, map[string]any{"acknowledge": o.N < 9}, uri, []any{uri}, nil))
						if o.N < 9 && fine {
							recv(messages.NewPublished(req, req))
						} else if o.N < 9 {
							serror(messages.MessageTypePublish)
						}
					case "INVOCATION":
						if len(regs) == 0 {
							continue
						}
						reg := regs[o.N%len(regs)]
						for k := o.N % 3; k >= 0; k-- {
							recv(messages.NewInvocation(req, reg, map[string]any{"progress": k > 0}, nil, nil))
						}
						for k := o.N % 3; k > 0; k-- {
							send(messages.NewYield(req, map[string]any{"progress": true}, nil, nil))
						}
						if o.N%2 == 0 {
							send(messages.NewYield(req, nil, nil, nil))
						} else {
							send(messages.NewError(messages.MessageTypeInvocation, req, nil, "a.b", nil, nil))
						}
					case "EVENT":
						if len(subs) > 0 {
							recv(messages.NewEvent(subs[o.N%len(subs)], uint64(i+1), nil, []any{uri}, nil))
						}
					case "UNREGISTER":
						if n := len(regs); n > 0 {
							send(messages.NewUnregister(req, regs[o.N%n]))
							if fine {
								recv(messages.NewUnregistered(req))
								regs = slices.Delete(regs, o.N%n, o.N%n+1)
							} else {
								serror(messages.MessageTypeUnregister)
							}
						}
					case "UNSUBSCRIBE":
						if n := len(subs); n > 0 {
							send(messages.NewUnsubscribe(req, subs[o.N%n]))
							if fine {
								recv(messages.NewUnsubscribed(req))
								subs = slices.Delete(subs, o.N%n, o.N%n+1)
							} else {
								serror(messages.MessageTypeUnsubscribe)
							}
						}
					case "junk": // nothing the session has to do with
						name := otherTypes[(o.N*7+o.U)%len(otherTypes)]
						_, _ = s.ReceiveMessage(simple(name, 1<<40+i))
						_, _ = s.SendMessage(messages.NewUnsubscribe(req, uint64(1<<40+i)))
					case "bytes":
						_, _ = s.Receive([]byte(fmt.Sprintf("[36,%d,%d,{},[%q]]", 1<<40+i, i, uri)))
					}
				}
				for _, id := range regs {
					req++
					send(messages.NewUnregister(req, id))
					recv(messages.NewUnregistered(req))
				}
				for _, id := range subs {
					req++
					send(messages.NewUnsubscribe(req, id))
					recv(messages.NewUnsubscribed(req))
				}
				regs, subs = regs[:0], subs[:0]
			})
			if fails != nil { // another property's matter
				r.Label("left: %v", fails)
				return nil
			}
			runtime.KeepAlive(s)
			return err
		})
}

// C29: neither codecs nor handshakes keep anything.
func TestC29_Codecs(t *testing.T) {
	Check(t, Opt{Checks: 6, Rule: "1-3 generated messages with other strings each time serialized and deserialized, and their arguments as payloads, 3000 times, with the heap " +
		"compared before and after (growth is confirmed over 12000 runs more); non-trivial: always"},
		func(t *rapid.T) leakCase {
			c := leakCase{Join: joinCase{Format: pick(t, "format", formats...)}}
			for i := between(t, "n", 1, 3); i > 0; i-- {
				m := genMsg(t, c.Join.Format)
				for j, f := range m.F {
					if len(f.S) > 200 || len(f.L) > 8 {
						m.F[j] = vNil()
						if f.K == "string" {
							m.F[j] = vStr("x")
						}
					}
				}
				c.Msgs = append(c.Msgs, m)
			}
			return c
		},
		func(c *leakCase, r *Rec) error {
			r.NonTrivial()
			r.Label("%s", c.Join.Format)
			ser := serializer(c.Join.Format)
			return grows(3000, 40000, func(i int) {
				for _, m := range c.Msgs {
					f := slices.Clone(m.F)
					for j := range f {
						switch f[j].K {
						case "string":
							f[j].S += fmt.Sprint(i)
						case "map":
							f[j].M = append(slices.Clone(f[j].M), fmt.Sprint("key", i))
							f[j].L = append(slices.Clone(f[j].L), vStr(fmt.Sprint("value", i)))
						case "uint64":
							f[j] = vUint(uint64(i + 1))
						}
					}
					data, err := ser.Serialize(Msg{T: m.T, F: f, Own: m.Own}.build())
					if err == nil {
						_, err = ser.Deserialize(data)
					}
					if i == 0 {
						r.Label("%s %v", m.T, err == nil)
					}
					_, _ = ser.Deserialize(data[:len(data)-1])
				}
				for id := uint64(0); id < 4; id++ {
					data, err := serializers.SerializePayload(id, []any{fmt.Sprint("arg", i), i}, map[string]any{fmt.Sprint("key", i): i})
					if err == nil {
						_, _, _ = serializers.DeserializePayload(id, data)
					}
				}
			})
		})
}

func TestC29_Handshakes(t *testing.T) {
	Check(t, Opt{Checks: 3, Rule: "a generated handshake (any method and serializer, genuine or with a proof that is wrong) with other names each time, 800 times, with the heap " +
		"compared before and after (growth is confirmed over 3200 more); non-trivial: always"},
		func(t *rapid.T) leakCase {
			c := leakCase{Join: genJoinCase(t), Fresh: chance(t, "fresh", 60), Tidy: intn(t, "wrong", 4)}
			c.Join.User.Iter, c.Join.User.Extra = min(max(c.Join.User.Iter, 1), 2), vNil()
			for _, s := range []*string{&c.Join.User.AuthID, &c.Join.User.GrantID, &c.Join.User.Ticket, &c.Join.User.Secret} {
				if len(*s) > 100 {
					*s = "x"
				}
			}
			return c
		},
		func(c *leakCase, r *Rec) error {
			r.NonTrivial()
			r.Label("%s wrong %v", c.Join.Method, c.Tidy == 0)
			return grows(800, 20000, func(i int) {
				u := c.Join.User
				if c.Fresh {
					u.AuthID, u.Realm = u.AuthID+fmt.Sprint(i), u.Realm+fmt.Sprint(i)
				}
				srv := newServer(u, c.Join.Enabled...)
				if c.Tidy == 0 {
					srv.user.Ticket, srv.user.Secret = "other", "other"
				}
				client, err := u.client(c.Join.Method)
				if err != nil {
					panic("HARNESS-ERROR: " + err.Error())
				}
				cs, ss := c.Join.serializers()
				a, j := wampproto.NewAcceptor(ss, srv), wampproto.NewJoiner(u.Realm, cs, client)
				data, err := j.SendHello()
				for k := 0; err == nil && data != nil && k < 3; k++ {
					if data, _, err = a.Receive(data); err == nil {
						data, err = j.Receive(data)
					}
				}
			})
		})
}
