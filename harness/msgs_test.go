package harness

// The WAMP message types, from the WAMP specification: type codes, the order
// and kinds of the fields in the array, and which trailing ones are optional.

import (
	"fmt"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

const (
	fID   = "id"
	fStr  = "str"
	fMap  = "map"
	fArgs = "args"
	fKw   = "kwargs"
)

type spec struct {
	name   string
	code   uint64
	fields []string // kinds in wire order, after the type code
	build  func(f []V) messages.Message
	get    func(m messages.Message) ([]any, bool)
}

func (s spec) max() int { return len(s.fields) + 1 }

func (s spec) min() int {
	n := s.max()
	for n > 1 && (s.fields[n-2] == fArgs || s.fields[n-2] == fKw) {
		n--
	}
	return n
}

// Msg is a message: its fields in wire order. For HELLO they are realm,
// authid, authmethods, authextra and roles.
type Msg struct {
	T string `json:"t"`
	F []V    `json:"f"`
	// Own messages have fields that the application provides.
	Own bool `json:"own,omitempty"`
}

func sp[T messages.Message](name string, code uint64, build func(f []V) messages.Message,
	get func(m T) []any, fields ...string) spec {
	return spec{name, code, fields, build, func(m messages.Message) ([]any, bool) {
		x, ok := m.(T)
		if !ok {
			return nil, false
		}
		return get(x), true
	}}
}

var specs = []spec{
	sp("HELLO", 1, func(f []V) messages.Message {
		var methods []string
		if f[2].K != "nil" {
			methods = []string{}
		}
		for _, m := range f[2].List() {
			methods = append(methods, m.(string))
		}
		return messages.NewHello(f[0].S, f[1].S, f[3].Map(), f[4].Map(), methods)
	}, func(m *messages.Hello) []any {
		return []any{m.Realm(), m.AuthID(), m.AuthMethods(), m.AuthExtra(), m.Roles()}
	}, fStr, fMap),
	sp("WELCOME", 2, func(f []V) messages.Message { return messages.NewWelcome(f[0].Uint(), f[1].Map()) },
		func(m *messages.Welcome) []any { return []any{m.SessionID(), m.Details()} }, fID, fMap),
	sp("ABORT", 3, func(f []V) messages.Message {
		return messages.NewAbort(f[0].Map(), f[1].S, f[2].List(), f[3].Map())
	}, func(m *messages.Abort) []any { return []any{m.Details(), m.Reason(), m.Args(), m.KwArgs()} },
		fMap, fStr, fArgs, fKw),
	sp("CHALLENGE", 4, func(f []V) messages.Message { return messages.NewChallenge(f[0].S, f[1].Map()) },
		func(m *messages.Challenge) []any { return []any{m.AuthMethod(), m.Extra()} }, fStr, fMap),
	sp("AUTHENTICATE", 5, func(f []V) messages.Message { return messages.NewAuthenticate(f[0].S, f[1].Map()) },
		func(m *messages.Authenticate) []any { return []any{m.Signature(), m.Extra()} }, fStr, fMap),
	sp("GOODBYE", 6, func(f []V) messages.Message { return messages.NewGoodBye(f[1].S, f[0].Map()) },
		func(m *messages.GoodBye) []any { return []any{m.Details(), m.Reason()} }, fMap, fStr),
	sp("ERROR", 8, func(f []V) messages.Message {
		return messages.NewError(f[0].Uint(), f[1].Uint(), f[2].Map(), f[3].S, f[4].List(), f[5].Map())
	}, func(m *messages.Error) []any {
		return []any{m.MessageType(), m.RequestID(), m.Details(), m.URI(), m.Args(), m.KwArgs()}
	}, fID, fID, fMap, fStr, fArgs, fKw),
	sp("PUBLISH", 16, func(f []V) messages.Message {
		return messages.NewPublish(f[0].Uint(), f[1].Map(), f[2].S, f[3].List(), f[4].Map())
	}, func(m *messages.Publish) []any {
		return []any{m.RequestID(), m.Options(), m.Topic(), m.Args(), m.KwArgs()}
	}, fID, fMap, fStr, fArgs, fKw),
	sp("PUBLISHED", 17, func(f []V) messages.Message { return messages.NewPublished(f[0].Uint(), f[1].Uint()) },
		func(m *messages.Published) []any { return []any{m.RequestID(), m.PublicationID()} }, fID, fID),
	sp("SUBSCRIBE", 32, func(f []V) messages.Message {
		return messages.NewSubscribe(f[0].Uint(), f[1].Map(), f[2].S)
	}, func(m *messages.Subscribe) []any { return []any{m.RequestID(), m.Options(), m.Topic()} }, fID, fMap, fStr),
	sp("SUBSCRIBED", 33, func(f []V) messages.Message { return messages.NewSubscribed(f[0].Uint(), f[1].Uint()) },
		func(m *messages.Subscribed) []any { return []any{m.RequestID(), m.SubscriptionID()} }, fID, fID),
	sp("UNSUBSCRIBE", 34, func(f []V) messages.Message { return messages.NewUnsubscribe(f[0].Uint(), f[1].Uint()) },
		func(m *messages.Unsubscribe) []any { return []any{m.RequestID(), m.SubscriptionID()} }, fID, fID),
	sp("UNSUBSCRIBED", 35, func(f []V) messages.Message { return messages.NewUnsubscribed(f[0].Uint()) },
		func(m *messages.Unsubscribed) []any { return []any{m.RequestID()} }, fID),
	sp("EVENT", 36, func(f []V) messages.Message {
		return messages.NewEvent(f[0].Uint(), f[1].Uint(), f[2].Map(), f[3].List(), f[4].Map())
	}, func(m *messages.Event) []any {
		return []any{m.SubscriptionID(), m.PublicationID(), m.Details(), m.Args(), m.KwArgs()}
	}, fID, fID, fMap, fArgs, fKw),
	sp("CALL", 48, func(f []V) messages.Message {
		return messages.NewCall(f[0].Uint(), f[1].Map(), f[2].S, f[3].List(), f[4].Map())
	}, func(m *messages.Call) []any {
		return []any{m.RequestID(), m.Options(), m.Procedure(), m.Args(), m.KwArgs()}
	}, fID, fMap, fStr, fArgs, fKw),
	sp("CANCEL", 49, func(f []V) messages.Message { return messages.NewCancel(f[0].Uint(), f[1].Map()) },
		func(m *messages.Cancel) []any { return []any{m.RequestID(), m.Options()} }, fID, fMap),
	sp("RESULT", 50, func(f []V) messages.Message {
		return messages.NewResult(f[0].Uint(), f[1].Map(), f[2].List(), f[3].Map())
	}, func(m *messages.Result) []any {
		return []any{m.RequestID(), m.Details(), m.Args(), m.KwArgs()}
	}, fID, fMap, fArgs, fKw),
	sp("REGISTER", 64, func(f []V) messages.Message {
		return messages.NewRegister(f[0].Uint(), f[1].Map(), f[2].S)
	}, func(m *messages.Register) []any { return []any{m.RequestID(), m.Options(), m.Procedure()} }, fID, fMap, fStr),
	sp("REGISTERED", 65, func(f []V) messages.Message { return messages.NewRegistered(f[0].Uint(), f[1].Uint()) },
		func(m *messages.Registered) []any { return []any{m.RequestID(), m.RegistrationID()} }, fID, fID),
	sp("UNREGISTER", 66, func(f []V) messages.Message { return messages.NewUnregister(f[0].Uint(), f[1].Uint()) },
		func(m *messages.Unregister) []any { return []any{m.RequestID(), m.RegistrationID()} }, fID, fID),
	sp("UNREGISTERED", 67, func(f []V) messages.Message { return messages.NewUnregistered(f[0].Uint()) },
		func(m *messages.Unregistered) []any { return []any{m.RequestID()} }, fID),
	sp("INVOCATION", 68, func(f []V) messages.Message {
		return messages.NewInvocation(f[0].Uint(), f[1].Uint(), f[2].Map(), f[3].List(), f[4].Map())
	}, func(m *messages.Invocation) []any {
		return []any{m.RequestID(), m.RegistrationID(), m.Details(), m.Args(), m.KwArgs()}
	}, fID, fID, fMap, fArgs, fKw),
	sp("INTERRUPT", 69, func(f []V) messages.Message { return messages.NewInterrupt(f[0].Uint(), f[1].Map()) },
		func(m *messages.Interrupt) []any { return []any{m.RequestID(), m.Options()} }, fID, fMap),
	sp("YIELD", 70, func(f []V) messages.Message {
		return messages.NewYield(f[0].Uint(), f[1].Map(), f[2].List(), f[3].Map())
	}, func(m *messages.Yield) []any {
		return []any{m.RequestID(), m.Options(), m.Args(), m.KwArgs()}
	}, fID, fMap, fArgs, fKw),
}

func specOf(name string) spec {
	for _, s := range specs {
		if s.name == name {
			return s
		}
	}
	panic("HARNESS-ERROR: message " + name)
}

func specOfCode(code uint64) (spec, bool) {
	for _, s := range specs {
		if s.code == code {
			return s, true
		}
	}
	return spec{}, false
}

// kinds of the values that Msg.F holds
func (s spec) valueKinds() []string {
	if s.name == "HELLO" {
		return []string{fStr, fStr, "methods", fMap, fMap}
	}
	return s.fields
}

func (m Msg) build() messages.Message {
	msg := specOf(m.T).build(m.F)
	if m.Own {
		msg = own(msg)
	}
	return msg
}

func orMap(v V) any {
	if v.K == "nil" {
		return map[string]any{}
	}
	return v.Go()
}

// wire is the array of the message, all fields present (nil maps are empty
// ones), and the number of leading elements that have to be there.
func (m Msg) wire() (arr []any, need int) {
	s := specOf(m.T)
	arr = []any{s.code}
	if m.T == "HELLO" {
		methods := m.F[2].Go()
		if methods == nil {
			methods = []any{}
		}
		return append(arr, m.F[0].S, map[string]any{"authid": m.F[1].S, "authmethods": methods,
			"authextra": orMap(m.F[3]), "roles": orMap(m.F[4])}), 3
	}
	need = s.min()
	for i, k := range s.fields {
		switch k {
		case fMap:
			arr = append(arr, orMap(m.F[i]))
		case fArgs:
			l := m.F[i].List()
			if l == nil {
				l = []any{}
			}
			if len(l) > 0 {
				need = i + 2
			}
			arr = append(arr, l)
		case fKw:
			kw := m.F[i].Map()
			if len(kw) > 0 {
				need = i + 2
			}
			arr = append(arr, orMap(m.F[i]))
		default:
			arr = append(arr, m.F[i].Go())
		}
	}
	return arr, need
}

// sameFields compares a message of the code under test with the fields.
func (m Msg) sameFields(got messages.Message) error {
	s := specOf(m.T)
	if got == nil {
		return errorf("no message")
	}
	if got.Type() != s.code {
		return errorf("message type: is %d instead of %d", got.Type(), s.code)
	}
	fields, ok := s.get(got)
	if !ok {
		return errorf("message type: is %T for %s", got, m.T)
	}
	for i, k := range s.valueKinds() {
		want, have := m.F[i].Go(), fields[i]
		switch k {
		case fMap, fKw:
			h, _ := have.(map[string]any)
			want, have = any(canonMap(m.F[i].Map())), any(canonMap(h))
		case fArgs:
			h, _ := have.([]any)
			want, have = any(canonList(m.F[i].List())), any(canonList(h))
		case "methods":
			h, _ := have.([]string)
			want, have = any(canonList(m.F[i].List())), any(canonList(anys(h)))
		default:
			want, have = any(canon(want)), any(canon(have))
		}
		if want != have {
			return errorf("%s field %d (%s) differs: is %v instead of %v", m.T, i, k, have, want)
		}
	}
	return nil
}

func genMsgOf(t *rapid.T, s spec, format string) Msg {
	m := Msg{T: s.name}
	for _, k := range s.valueKinds() {
		switch k {
		case fID:
			m.F = append(m.F, vUint(genID(t)))
		case fStr:
			m.F = append(m.F, vStr(genString(t)))
		case fMap:
			switch between(t, "mapkind", 0, 3) {
			case 0:
				m.F = append(m.F, vNil())
			case 1:
				m.F = append(m.F, V{K: "map"})
			default:
				m.F = append(m.F, genMap(t, format, 2))
			}
		case fArgs:
			m.F = append(m.F, genArgs(t, format))
		case fKw:
			m.F = append(m.F, genKwargs(t, format))
		case "methods":
			if chance(t, "nomethods", 20) {
				m.F = append(m.F, vNil())
				continue
			}
			l := V{K: "list"}
			for i := between(t, "n", 0, 4); i > 0; i-- {
				l.L = append(l.L, vStr(pick(t, "method", "anonymous", "ticket", "wampcra", "cryptosign", "", "é")))
			}
			m.F = append(m.F, l)
		}
	}
	return m
}

func genMsg(t *rapid.T, format string) Msg {
	m := genMsgOf(t, specs[between(t, "type", 0, len(specs)-1)], format)
	m.Own = chance(t, "own", 15)
	return m
}

// serializer returns the serializer under test for a format.
func serializer(format string) serializers.Serializer {
	switch format {
	case fmtJSON:
		return &serializers.JSONSerializer{}
	case fmtCBOR:
		return &serializers.CBORSerializer{}
	case fmtMsgPack:
		return &serializers.MsgPackSerializer{}
	}
	panic(fmt.Sprintf("HARNESS-ERROR: format %q", format))
}

// optional says which optional fields a message sets.
func (m Msg) optional() string {
	out := ""
	for i, k := range specOf(m.T).valueKinds() {
		if k == fArgs || k == fKw {
			switch {
			case m.F[i].K == "nil":
				out += "-"
			case len(m.F[i].L) == 0:
				out += "0"
			default:
				out += "+"
			}
		}
	}
	return out
}
