package harness

// C32: values report what they were made from, message objects what was last
// parsed into them, conversions what they were given.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/util"
	"pgregory.net/rapid"
)

type valuesCase struct {
	User   User   `json:"user"`
	ID     uint64 `json:"id"`
	Method string `json:"method"`
	Static bool   `json:"static"`
	Roles  V      `json:"roles"`
	TTL    int64  `json:"ttl"`
	Iter   int    `json:"iter"`
	KeyLen int    `json:"keylen"`
	Blob   string `json:"blob"` // hex
	Ser    uint64 `json:"ser"`
	Opts   V      `json:"opts"`
}

func genDict(t *rapid.T) V {
	switch between(t, "dict", 0, 3) {
	case 0:
		return vNil()
	case 1:
		return V{K: "map"}
	}
	return genMap(t, fmtCBOR, 2)
}

type difference struct{ what, got, want string }

func differences(list ...difference) error {
	for _, d := range list {
		if d.got != d.want {
			return errorf("%s: is %s instead of %s", d.what, d.got, d.want)
		}
	}
	return nil
}

func is(what string, got, want any) difference {
	if m, ok := want.(map[string]any); ok {
		g, _ := got.(map[string]any)
		return difference{what, canonMap(g), canonMap(m)}
	}
	return difference{what, fmt.Sprintf("%T %#v", got, got), fmt.Sprintf("%T %#v", want, want)}
}

func TestC32_Values(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "session details, authentication requests and responses, client authenticators and messages with opaque payloads made from " +
		"generated ids, texts, maps, durations and bytes, every accessor compared with what went in; non-trivial: a map or the bytes are not empty"},
		func(t *rapid.T) valuesCase {
			return valuesCase{User: genUser(t, fmtCBOR), ID: genID(t), Method: pick(t, "method", append(slices.Clone(methodNames), "", "other", genShortString(t))...),
				Static: chance(t, "static", 50), Roles: genDict(t), Opts: genDict(t), Blob: hex.EncodeToString(genBytes(t)), Ser: uint64(intn(t, "ser", 5)),
				TTL:  pick(t, "ttl", 0, 1, -1, int64(time.Second), int64(time.Hour), 1<<62, -1<<63, rapid.Int64().Draw(t, "any")),
				Iter: pick(t, "iter", 0, 1, -1, 1000, 1<<31, 1<<40), KeyLen: pick(t, "keylen", 0, 1, -1, 32, 1<<31, 1<<40)}
		}, runValues)
}

func runValues(c *valuesCase, r *Rec) error {
	u := c.User
	if len(u.Extra.L)+len(c.Roles.L)+len(c.Opts.L)+len(c.Blob) > 0 {
		r.NonTrivial()
	}
	extra := u.Extra.Map()
	d := wampproto.NewSessionDetails(c.ID, u.Realm, u.AuthID, u.Role, c.Method, c.Static, c.Roles.Map(), u.Extra.Map())
	if err := differences(is("details ID", d.ID(), c.ID), is("details Realm", d.Realm(), u.Realm), is("details AuthID", d.AuthID(), u.AuthID),
		is("details AuthRole", d.AuthRole(), u.Role), is("details AuthMethod", d.AuthMethod(), c.Method), is("details StaticSerializer", d.StaticSerializer(), c.Static),
		is("details RouterRoles", d.RouterRoles(), c.Roles.Map()), is("details AuthExtra", d.AuthExtra(), extra)); err != nil {
		return err
	}
	if d.RouterRoles() == nil || d.AuthExtra() == nil {
		return errorf("details: an absent map does not read as an empty one")
	}
	hello := messages.NewHello(u.Realm, u.AuthID, u.Extra.Map(), c.Roles.Map(), []string{c.Method})
	request := func(name string, q auth.Request, method auth.Method) error {
		return differences(is(name+" Realm", q.Realm(), u.Realm), is(name+" AuthID", q.AuthID(), u.AuthID), is(name+" AuthMethod", q.AuthMethod(), method),
			is(name+" AuthExtra", q.AuthExtra(), extra))
	}
	if err := request("request", auth.NewRequest(hello, auth.Method(c.Method)), auth.Method(c.Method)); err != nil {
		return err
	}
	sign := auth.NewCryptoSignRequest(hello, u.Secret)
	if err := request("cryptosign request", sign, auth.CryptoSign); err != nil {
		return err
	}
	if s, ok := sign.(*auth.RequestCryptoSign); !ok || s.PublicKey() != u.Secret {
		return errorf("cryptosign request: is %#v for key %q", sign, u.Secret)
	}
	ticket := auth.NewTicketRequest(hello, u.Ticket)
	if err := request("ticket request", ticket, auth.Ticket); err != nil {
		return err
	}
	if s, ok := ticket.(*auth.TicketRequest); !ok || s.Ticket() != u.Ticket {
		return errorf("ticket request: is %#v for ticket %q", ticket, u.Ticket)
	}
	ttl := time.Duration(c.TTL)
	response := func(name string, p auth.Response) error {
		return differences(is(name+" AuthID", p.AuthID(), u.GrantID), is(name+" AuthRole", p.AuthRole(), u.Role), is(name+" TTL", p.TTL(), ttl))
	}
	plain, err := auth.NewResponse(u.GrantID, u.Role, ttl)
	if err != nil {
		return errorf("NewResponse fails: %v", err)
	}
	if err := response("response", plain); err != nil {
		return err
	}
	for _, salted := range []bool{false, true} {
		p := auth.NewCRAResponse(u.GrantID, u.Role, u.Secret, ttl)
		if salted {
			p = auth.NewCRAResponseSalted(u.GrantID, u.Role, u.Secret, u.Ticket, c.Iter, c.KeyLen, ttl)
		}
		if err := response("CRA response", p); err != nil {
			return err
		}
		x, ok := p.(*auth.CRAResponse)
		if !ok {
			return errorf("CRA response: is a %T", p)
		}
		if x.Secret() != u.Secret {
			return errorf("CRA response Secret: is %q instead of %q", x.Secret(), u.Secret)
		}
		if !salted && x.Salt() != "" {
			return errorf("CRA response without salt: its Salt is %q", x.Salt())
		}
		if salted {
			if err := differences(is("CRA response Salt", x.Salt(), u.Ticket), is("CRA response Iterations", x.Iterations(), c.Iter), is("CRA response KeyLen", x.KeyLen(), c.KeyLen)); err != nil {
				return err
			}
		}
	}
	for _, method := range methodNames {
		a, err := u.client(method)
		if err != nil {
			return errorf("%s authenticator: %v", method, err)
		}
		want := u.Extra.Map()
		if method == "cryptosign" {
			if want == nil {
				want = map[string]any{}
			}
			want["pubkey"] = u.pubkey()
		}
		if err := differences(is(method+" authenticator AuthMethod", a.AuthMethod(), method), is(method+" authenticator AuthID", a.AuthID(), u.AuthID),
			is(method+" authenticator AuthExtra", a.AuthExtra(), want)); err != nil {
			return err
		}
	}
	return c.payloads()
}

// payloads are the messages with and without opaque payloads.
func (c *valuesCase) payloads() error {
	blob := must(hex.DecodeString(c.Blob))
	opts := c.Opts.Map()
	if opts == nil {
		opts = map[string]any{}
	}
	opts["x_payload_serializer"] = c.Ser
	uri := c.User.Realm
	for _, m := range []messages.Message{messages.NewCallBinary(c.ID, c.Opts.Map(), uri, blob, c.Ser), messages.NewYieldBinary(c.ID, c.Opts.Map(), blob, c.Ser),
		messages.NewInvocationBinary(c.ID, c.ID/2, c.Opts.Map(), blob, c.Ser), messages.NewResultBinary(c.ID, c.Opts.Map(), blob, c.Ser)} {
		b := m.(messages.BinaryPayload)
		if !b.PayloadIsBinary() || b.PayloadSerializer() != c.Ser || !bytes.Equal(b.Payload(), blob) {
			return errorf("opaque payload of %T: binary %v serializer %d %x instead of %d %x", m, b.PayloadIsBinary(), b.PayloadSerializer(), clip(b.Payload()), c.Ser, clip(blob))
		}
		s, _ := specOfCode(m.Type())
		f, ok := s.get(m)
		if !ok {
			return errorf("opaque payload: type of %T", m)
		}
		want := map[string][]any{"CALL": {c.ID, opts, uri}, "YIELD": {c.ID, opts}, "INVOCATION": {c.ID, c.ID / 2, opts}, "RESULT": {c.ID, opts}}[s.name]
		if want == nil || canonList(f[:len(want)]) != canonList(want) {
			return errorf("opaque payload of %T: fields are %s instead of %s", m, canonList(f), canonList(want))
		}
		for _, rest := range f[len(want):] {
			if l, ok := rest.([]any); ok && len(l) > 0 {
				return errorf("opaque payload of %T: args are %s", m, canonList(l))
			}
			if k, ok := rest.(map[string]any); ok && len(k) > 0 {
				return errorf("opaque payload of %T: kwargs are %s", m, canonMap(k))
			}
		}
	}
	args, kw := []any{blob}, c.Opts.Map()
	for _, m := range []messages.Message{messages.NewCall(c.ID, c.Opts.Map(), uri, args, kw), messages.NewYield(c.ID, c.Opts.Map(), args, kw),
		messages.NewInvocation(c.ID, c.ID/2, c.Opts.Map(), args, kw), messages.NewResult(c.ID, c.Opts.Map(), args, kw), messages.NewPublish(c.ID, c.Opts.Map(), uri, args, kw),
		messages.NewEvent(c.ID, c.ID/2, c.Opts.Map(), args, kw), messages.NewError(48, c.ID, c.Opts.Map(), uri, args, kw)} {
		again, err := serializers.ToMessage(m.Marshal())
		if err != nil {
			return errorf("%T does not parse: %v", m, err)
		}
		for _, x := range []messages.Message{m, again} {
			b := x.(messages.BinaryPayload)
			if b.PayloadIsBinary() || b.PayloadSerializer() != 0 || len(b.Payload()) != 0 {
				return errorf("no opaque payload in %T: binary %v serializer %d %x", x, b.PayloadIsBinary(), b.PayloadSerializer(), clip(b.Payload()))
			}
		}
	}
	return nil
}

type reparseCase struct {
	Msgs []Msg `json:"msgs"`
	Bad  []int `json:"bad"` // 0: none, else which element of the array is spoilt
}

func TestC32_Reparse(t *testing.T) {
	Check(t, Opt{Checks: 4000, Rule: "2-5 generated arrays of one message type parsed one after another into the same message object, some of them spoilt in one element or in the methods of a HELLO: the object " +
		"states the array it last accepted and nothing of the others; non-trivial: at least two were accepted"},
		func(t *rapid.T) reparseCase {
			s := specs[intn(t, "type", len(specs))]
			var c reparseCase
			for i := between(t, "n", 2, 5); i > 0; i-- {
				c.Msgs = append(c.Msgs, genMsgOf(t, s, fmtCBOR))
				bad := 0
				if chance(t, "bad", 25) {
					bad = between(t, "element", 1, 6)
				}
				c.Bad = append(c.Bad, bad)
			}
			c.Bad[0] = 0
			return c
		},
		func(c *reparseCase, r *Rec) error {
			var m messages.Message
			var last *Msg
			accepted := 0
			for i := range c.Msgs {
				arr, need := c.Msgs[i].wire()
				if i%2 == 1 {
					arr = arr[:max(need, len(arr)-1)]
				}
				bad := c.Bad[i] > 0
				if bad {
					if d, ok := arr[min(2, len(arr)-1)].(map[string]any); ok && c.Msgs[i].T == "HELLO" && c.Bad[i] > 3 {
						d["authmethods"] = []any{"ticket", c.Bad[i]}
					} else if at := c.Bad[i]; at < len(arr) {
						arr[at] = true
					} else {
						arr = arr[:1]
					}
				}
				var err error
				if m == nil {
					m, err = serializers.ToMessage(arr)
				} else {
					err = m.Parse(arr)
				}
				if bad && err == nil {
					return errorf("spoilt array accepted: %s", canonList(arr))
				}
				if !bad && err != nil {
					return errorf("array refused: %s: %v", canonList(arr), err)
				}
				if !bad {
					last = &c.Msgs[i]
					accepted++
				}
				if err := last.sameFields(m); err != nil {
					return errorf("message object parsed again: %v (parse %d, refused %v)", err, i, bad)
				}
			}
			if accepted > 1 {
				r.NonTrivial()
			}
			r.Label("%s", c.Msgs[0].T)
			return nil
		})
}

func TestC32_Conversions(t *testing.T) {
	type c32 struct {
		V V `json:"v"`
	}
	Check(t, Opt{Checks: 4000, Rule: "generated values of every type, and lists of texts of which some are something else, through AsBool, ToBool, AsString, ToString and " +
		"AnysToStrings; non-trivial: texts, booleans and lists"},
		func(t *rapid.T) c32 {
			if chance(t, "list", 40) {
				v := V{K: "list"}
				odd := chance(t, "odd", 40)
				for i := intn(t, "n", 6); i > 0; i-- {
					x := vStr(genString(t))
					if odd && chance(t, "other", 30) {
						x = genV(t, fmtCBOR, 1)
					}
					v.L = append(v.L, x)
				}
				return c32{v}
			}
			return c32{genV(t, fmtCBOR, 2)}
		},
		func(c *c32, r *Rec) error {
			x := c.V.Go()
			s, isS := x.(string)
			b, isB := x.(bool)
			if l, ok := x.([]any); ok {
				r.NonTrivial()
				before := canonList(l)
				got, err := util.AnysToStrings(l)
				all := !slices.ContainsFunc(c.V.L, func(v V) bool { return v.K != "string" })
				if (err == nil) != all {
					return errorf("AnysToStrings: error %v for %s", err, before)
				}
				if all && (len(got) != len(l) || canonList(anys(got)) != before) {
					return errorf("AnysToStrings: %q of %s", strings.Join(got, "\",\""), before)
				}
				if canonList(l) != before {
					return errorf("AnysToStrings alters its argument: %s", before)
				}
			}
			if isS || isB {
				r.NonTrivial()
			}
			gs, okS := util.AsString(x)
			gb, okB := util.AsBool(x)
			return differences(is("AsString", gs, s), is("AsString ok", okS, isS), is("ToString", util.ToString(x), s),
				is("AsBool", gb, b), is("AsBool ok", okB, isB), is("ToBool", util.ToBool(x), b))
		})
}
