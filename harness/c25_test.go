package harness

// C25: a whole system. Every client has its own serializer and authentication
// method, talks rawsocket frames over a byte stream of its own, and the streams
// are delivered in pieces in any order.

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	"pgregory.net/rapid"
)

type sysOp struct {
	K    string `json:"k"`
	C    int    `json:"c"`
	URI  int    `json:"uri,omitempty"`
	N    int    `json:"n,omitempty"`
	P    bool   `json:"p,omitempty"`
	Q    bool   `json:"q,omitempty"`
	Args V      `json:"args"`
	Kw   V      `json:"kw"`
}

type sysCase struct {
	Formats []string `json:"formats"`
	Methods []string `json:"methods"`
	Users   []User   `json:"users"`
	Start   int      `json:"start"` // who has joined to begin with
	Reveal  bool     `json:"reveal,omitempty"`
	Ops     []sysOp  `json:"ops"`
}

// what calls and publications name, and what registrations and subscriptions do
var sysConcrete = []string{"x.a", "x.b", "x.c", "x.under.one", "x.under.two", "x.any.c"}
var sysOffered = []string{"x.a", "x.b", "x.c", "x.under.", "x.under.", "x.any.*"}

func offeredMatch(i int) string { return []string{"", "exact", "", "prefix", "prefix", "wildcard"}[i] }

func genSys(t *rapid.T) sysCase {
	var c sysCase
	domain := pick(t, "domain", fmtCBOR, fmtMsgPack)
	for i := between(t, "clients", 2, 5); i > 0; i-- {
		f := formats[intn(t, "format", 3)]
		c.Formats = append(c.Formats, f)
		if f == fmtJSON {
			domain = fmtJSON
		}
		c.Methods = append(c.Methods, pick(t, "method", methodNames...))
		u := genUser(t, f)
		if u.Iter > 10 || u.Iter == 0 { // only the time it takes differs
			u.Iter = 3
		}
		c.Users = append(c.Users, u)
	}
	c.Start = pick(t, "start", 31, 31, 31, 31, 0, 3, 5)
	c.Reveal = chance(t, "reveal", 30)
	kinds := []string{"deliver", "deliver", "deliver", "deliver", "call", "call", "more", "answer", "answer", "answer", "register", "register", "register",
		"unregister", "unregister", "subscribe", "subscribe", "subscribe", "unsubscribe", "publish", "publish", "leave", "join", "join", "ping"}
	for i := between(t, "n", 10, 90); i > 0; i-- {
		o := sysOp{K: kinds[intn(t, "op", len(kinds))], C: intn(t, "client", len(c.Formats)), URI: intn(t, "uri", 6), N: intn(t, "n", 64)}
		if chance(t, "few", 60) {
			o.URI %= 2
		}
		o.P, o.Q = chance(t, "p", 50), chance(t, "q", 50)
		switch o.K {
		case "call", "more", "answer", "publish":
			o.Args, o.Kw = genArgs(t, domain), genKwargs(t, domain)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// ---------------------------------------------------------------- the streams

// pipe is one direction of a connection.
type pipe struct {
	sent []byte // not delivered
	got  []byte // delivered and not yet understood
}

func (p *pipe) frame(kind transports.Message, data []byte) {
	p.sent = append(p.sent, transports.SendMessageHeader(transports.NewMessageHeader(kind, len(data)))...)
	p.sent = append(p.sent, data...)
}

// next takes a complete handshake (first) or frame off what was delivered.
func (p *pipe) next(handshake bool) (kind transports.Message, data []byte, ok bool, err error) {
	if len(p.got) < 4 {
		return 0, nil, false, nil
	}
	if handshake {
		data, p.got = p.got[:4], p.got[4:]
		return 0, data, true, nil
	}
	h, err := transports.ReceiveMessageHeader(p.got[:4])
	if err != nil {
		return 0, nil, false, err
	}
	if len(p.got) < 4+h.Length() {
		return 0, nil, false, nil
	}
	data, p.got = p.got[4:4+h.Length()], p.got[4+h.Length():]
	return h.Kind(), data, true, nil
}

type sysClient struct {
	i        int
	up, down pipe // to and from the router
	ser      serializers.Serializer
	joiner   *wampproto.Joiner
	session  *wampproto.Session
	ids      wampproto.SessionScopeIDGenerator
	shook    bool
	left     bool
	pings    []string

	asked     map[uint64]string // requests without an answer: what about
	regs      map[uint64]string // held
	subs      map[uint64]string
	dropping  map[uint64]bool // registrations and subscriptions being given up
	calls     map[uint64]*sysCall
	todo      []*sysInvocation
	expEvents []sysEvent

	// the router's side
	routerSer serializers.Serializer
	acceptor  *wampproto.Acceptor
	details   *wampproto.SessionDetails
	gone      bool
}

type sysCall struct {
	by      *wampproto.SessionDetails
	parts   []sysPart
	open    bool // more parts to come
	progOK  bool
	inv     uint64
	callee  *sysClient
	refused bool // no such procedure when it reached the router
	routed  int
	arrived int
	results []sysPart // what the callee sent
	seen    int
	done    bool
	uri     string
}

type sysPart struct {
	token    string
	args     []any
	kw       map[string]any
	progress bool
	err      string
}

type sysInvocation struct {
	id   uint64
	call *sysCall
}

type sysEvent struct {
	topic string // as subscribed
	part  sysPart
	from  *wampproto.SessionDetails
}

type system struct {
	c       *sysCase
	r       *Rec
	dealer  *wampproto.Dealer
	broker  *wampproto.Broker
	clients []*sysClient
	byID    map[uint64]*sysClient
	tokens  map[string]*sysCall
	sent    map[string]sysPart
	n       int
	// what the router knows
	procs  map[string][]*sysClient
	policy map[string]string
	topics map[string][]*sysClient
}

// same says whether a payload is the one sent.
func (p sysPart) same(args []any, kw map[string]any) bool {
	return canonList(args) == canonList(p.args) && canonMap(kw) == canonMap(p.kw)
}

func (s *system) part(o sysOp) sysPart {
	s.n++
	p := sysPart{token: fmt.Sprintf("token %d", s.n), kw: o.Kw.Map()}
	p.args = append([]any{p.token}, o.Args.List()...)
	// what is compared is not what is sent
	s.sent[p.token] = sysPart{token: p.token, args: append([]any{p.token}, o.Args.List()...), kw: o.Kw.Map()}
	return p
}

func tokenOf(args []any) string {
	if len(args) == 0 {
		return ""
	}
	s, _ := args[0].(string)
	return s
}

var rawsocketID = map[string]transports.Serializer{fmtJSON: transports.SerializerJson, fmtMsgPack: transports.SerializerMsgpack,
	fmtCBOR: transports.SerializerCbor}

func (s *system) join(cl *sysClient) error {
	i := cl.i
	*cl = sysClient{i: i, ser: serializer(s.c.Formats[i]), asked: map[uint64]string{}, regs: map[uint64]string{}, subs: map[uint64]string{},
		dropping: map[uint64]bool{}, calls: map[uint64]*sysCall{}}
	client, err := s.c.Users[i].client(s.c.Methods[i])
	if err != nil {
		return errorf("client authenticator: %v", err)
	}
	cl.joiner = wampproto.NewJoiner(s.c.Users[i].Realm, cl.ser, client)
	hs, err := transports.SendHandshake(transports.NewHandshake(rawsocketID[s.c.Formats[i]], transports.ProtocolMaxMsgSize))
	if err != nil {
		return errorf("handshake: %v", err)
	}
	cl.up.sent = append(cl.up.sent, hs...)
	return nil
}

// send makes a client send a message of its session.
func (cl *sysClient) send(m messages.Message) error {
	data, err := cl.session.SendMessage(m)
	if err != nil {
		return errorf("client session refuses to send (%T): %v", m, err)
	}
	cl.up.frame(transports.MessageWamp, data)
	return nil
}

// deliver moves bytes and lets the receiver handle what is complete.
func (s *system) deliver(cl *sysClient, up bool, n int) error {
	p := &cl.down
	if up {
		p = &cl.up
	}
	n = min(n, len(p.sent))
	p.got = append(p.got, p.sent[:n]...)
	p.sent = p.sent[n:]
	for {
		first := !cl.shook
		if up {
			first = cl.routerSer == nil
		}
		kind, data, ok, err := p.next(first)
		if err != nil {
			return errorf("frame header: %v", err)
		}
		if !ok {
			return nil
		}
		switch {
		case up && first:
			err = s.routerHandshake(cl, data)
		case first:
			var hs *transports.Handshake
			if hs, err = transports.ReceiveHandshake(data); err == nil && hs.Serializer() != rawsocketID[s.c.Formats[cl.i]] {
				err = errorf("handshake names another serializer: %d", hs.Serializer())
			}
			cl.shook = true
			if err == nil {
				var hello []byte
				hello, err = cl.joiner.SendHello()
				cl.up.frame(transports.MessageWamp, hello)
			}
		case kind == transports.MessagePing && up:
			cl.down.frame(transports.MessagePong, data)
		case kind == transports.MessagePong && !up:
			if len(cl.pings) == 0 || cl.pings[0] != string(data) {
				return errorf("pong differs: %q", data)
			}
			cl.pings = cl.pings[1:]
		case kind != transports.MessageWamp:
			return errorf("kind of frame differs: %d", kind)
		case up:
			err = s.route(cl, data)
		default:
			err = s.receive(cl, data)
		}
		if err != nil {
			return err
		}
	}
}

func (s *system) routerHandshake(cl *sysClient, data []byte) error {
	hs, err := transports.ReceiveHandshake(data)
	if err != nil {
		return errorf("router refuses the handshake: %v", err)
	}
	switch hs.Serializer() {
	case transports.SerializerJson:
		cl.routerSer = &serializers.JSONSerializer{}
	case transports.SerializerMsgpack:
		cl.routerSer = &serializers.MsgPackSerializer{}
	case transports.SerializerCbor:
		cl.routerSer = &serializers.CBORSerializer{}
	default:
		return errorf("handshake names another serializer: %d", hs.Serializer())
	}
	if hs.MaxMessageSize() != transports.ProtocolMaxMsgSize {
		return errorf("handshake names another size: %d", hs.MaxMessageSize())
	}
	var server auth.ServerAuthenticator = newServer(s.c.Users[cl.i], s.c.Methods[cl.i])
	cl.acceptor = wampproto.NewAcceptor(cl.routerSer, server)
	back, err := transports.SendHandshake(hs)
	if err != nil {
		return errorf("router handshake: %v", err)
	}
	cl.down.sent = append(cl.down.sent, back...)
	return nil
}

// ------------------------------------------------------------------ the router

func (s *system) route(cl *sysClient, data []byte) error {
	if cl.details == nil {
		reply, welcomed, err := cl.acceptor.Receive(data)
		if err != nil {
			return errorf("acceptor refuses (%s): %v", s.c.Methods[cl.i], err)
		}
		if welcomed {
			if cl.details, err = cl.acceptor.SessionDetails(); err != nil {
				return errorf("acceptor has no details: %v", err)
			}
			if s.byID[cl.details.ID()] != nil {
				return nil // as unlikely as can be: two sessions with the same random id
			}
			if err := s.dealer.AddSession(cl.details); err != nil {
				return errorf("dealer refuses the session: %v", err)
			}
			if err := s.broker.AddSession(cl.details); err != nil {
				return errorf("broker refuses the session: %v", err)
			}
			s.byID[cl.details.ID()] = cl
		}
		cl.down.frame(transports.MessageWamp, reply)
		return nil
	}
	id := cl.details.ID()
	msg, err := cl.routerSer.Deserialize(data)
	if err != nil {
		return errorf("router cannot read (%s): %v", s.c.Formats[cl.i], err)
	}
	s.r.Label("%T", msg)
	switch m := msg.(type) {
	case *messages.GoodBye:
		if err := s.dealer.RemoveSession(id); err != nil {
			return errorf("dealer: %v", err)
		}
		if err := s.broker.RemoveSession(id); err != nil {
			return errorf("broker: %v", err)
		}
		for u, l := range s.topics {
			s.topics[u] = lacking(l, cl)
		}
		delete(s.byID, id)
		cl.gone = true
		return s.emit(cl, id, messages.NewGoodBye("wamp.close.goodbye_and_out", map[string]any{}))
	case *messages.Publish:
		out, err := s.broker.ReceivePublish(id, m)
		if err != nil {
			return errorf("broker refuses (%T): %v", msg, err)
		}
		return s.published(cl, m, out)
	case *messages.Subscribe, *messages.Unsubscribe:
		out, err := s.broker.ReceiveMessage(id, msg)
		if err != nil {
			return errorf("broker refuses (%T): %v", msg, err)
		}
		return s.emit(cl, out.Recipient, out.Message)
	}
	out, err := s.dealer.ReceiveMessage(id, msg)
	if err != nil {
		return errorf("dealer refuses (%T): %v", msg, err)
	}
	if call, ok := msg.(*messages.Call); ok {
		return s.called(cl, call, out)
	}
	if reg, ok := msg.(*messages.Register); ok {
		policy, _ := reg.Options()["invoke"].(string)
		had := s.policy[reg.Procedure()]
		refuse := len(s.procs[reg.Procedure()]) > 0 && (had != policy || had == "" || had == "single")
		if _, refused := out.Message.(*messages.Error); refused != refuse {
			return errorf("registration answered wrongly: %s (%s) by %T while %d sessions have it (%s)", reg.Procedure(), policy, out.Message,
				len(s.procs[reg.Procedure()]), had)
		}
		if !refuse {
			s.policy[reg.Procedure()] = policy
		}
	}
	return s.emit(cl, out.Recipient, out.Message)
}

func lacking(l []*sysClient, cl *sysClient) []*sysClient {
	return slices.DeleteFunc(slices.Clone(l), func(x *sysClient) bool { return x == cl })
}

func joined(l []*sysClient, cl *sysClient) []*sysClient {
	if slices.Contains(l, cl) {
		return l
	}
	return append(slices.Clone(l), cl)
}

// emit sends what the router says to a session, which has to be there.
func (s *system) emit(from *sysClient, to uint64, m messages.Message) error {
	cl := s.byID[to]
	if cl == nil {
		if cl = from; !cl.gone || cl.details.ID() != to {
			return errorf("message to nobody (%T): %d", m, to)
		}
	}
	// what the router has agreed to
	switch x := m.(type) {
	case *messages.Registered:
		uri := cl.asked[x.RequestID()]
		s.procs[uri] = joined(s.procs[uri], cl)
	case *messages.Unregistered:
		uri := cl.asked[x.RequestID()]
		s.procs[uri] = lacking(s.procs[uri], cl)
	case *messages.Subscribed:
		uri := cl.asked[x.RequestID()]
		s.topics[uri] = joined(s.topics[uri], cl)
	case *messages.Unsubscribed:
		uri := cl.asked[x.RequestID()]
		s.topics[uri] = lacking(s.topics[uri], cl)
	}
	data, err := cl.routerSer.Serialize(m)
	if err != nil {
		return errorf("router cannot write (%T, %s): %v", m, s.c.Formats[cl.i], err)
	}
	cl.down.frame(transports.MessageWamp, data)
	return nil
}

// offered is what of the registrations or subscriptions a name belongs to.
func offered(uri string) string {
	switch {
	case strings.HasPrefix(uri, "x.under."):
		return "x.under."
	case strings.HasPrefix(uri, "x.any."):
		return "x.any.*"
	}
	return uri
}

func (s *system) called(cl *sysClient, m *messages.Call, out *wampproto.MessageWithRecipient) error {
	call := cl.calls[m.RequestID()]
	if call == nil {
		return errorf("call altered: request id %d", m.RequestID())
	}
	first := call.routed == 0
	call.by = cl.details
	call.routed++
	inv, ok := out.Message.(*messages.Invocation)
	callees := s.procs[offered(call.uri)]
	if first && (len(callees) == 0) == ok {
		return errorf("call routed wrongly: %s has %d callees, dealer answers %T", call.uri, len(callees), out.Message)
	}
	if !ok {
		e, isError := out.Message.(*messages.Error)
		if !isError || !first || out.Recipient != cl.details.ID() || e.URI() != "wamp.error.no_such_procedure" || e.RequestID() != m.RequestID() {
			return errorf("call not answered: %s gives %T to %d", call.uri, out.Message, out.Recipient)
		}
		call.refused = true
		return s.emit(cl, out.Recipient, out.Message)
	}
	callee := s.byID[out.Recipient]
	if first {
		if !slices.Contains(callees, callee) {
			return errorf("call routed to another session: %s", call.uri)
		}
		call.callee, call.inv = callee, inv.RequestID()
	} else if callee != call.callee || inv.RequestID() != call.inv {
		return errorf("progressive call scattered: part %d of %s", call.routed, call.uri)
	}
	return s.emit(cl, out.Recipient, inv)
}

func (s *system) published(cl *sysClient, m *messages.Publish, out *wampproto.Publication) error {
	topic := offered(m.Topic())
	want := s.topics[topic]
	if ex, ok := m.Options()["exclude_me"].(bool); ex || !ok {
		want = lacking(want, cl)
	}
	part, ok := s.sent[tokenOf(m.Args())]
	if !ok {
		return errorf("publication altered: %s", canonList(m.Args()))
	}
	got := map[*sysClient]bool{}
	for _, to := range out.Recipients {
		if s.byID[to] == nil || got[s.byID[to]] {
			return errorf("event to nobody or twice: %d", to)
		}
		got[s.byID[to]] = true
	}
	for _, w := range want {
		if !got[w] {
			return errorf("event missed: %s by client %d", m.Topic(), w.i)
		}
		w.expEvents = append(w.expEvents, sysEvent{topic, part, cl.details})
	}
	if len(got) != len(want) {
		return errorf("event to too many: %s to %d sessions instead of %d", m.Topic(), len(got), len(want))
	}
	for _, to := range out.Recipients {
		if err := s.emit(cl, to, out.Event); err != nil {
			return err
		}
	}
	if ack, _ := m.Options()["acknowledge"].(bool); ack != (out.Ack != nil) {
		return errorf("acknowledgement: %v when asked %v", out.Ack != nil, ack)
	}
	if out.Ack != nil {
		return s.emit(cl, out.Ack.Recipient, out.Ack.Message)
	}
	return nil
}

// ----------------------------------------------------------------- the clients

func (s *system) disclosed(who string, d map[string]any, of *wampproto.SessionDetails) error {
	if !s.c.Reveal {
		if d[who] != nil || d[who+"_authid"] != nil {
			return errorf("%s disclosed: %v", who, d)
		}
		return nil
	}
	if canon(d[who]) != canon(of.ID()) || canon(d[who+"_authid"]) != canon(of.AuthID()) ||
		canon(d[who+"_authrole"]) != canon(of.AuthRole()) {
		return errorf("%s disclosed wrongly: %v", who, d)
	}
	return nil
}

func (s *system) receive(cl *sysClient, data []byte) error {
	if cl.session == nil {
		reply, err := cl.joiner.Receive(data)
		if err != nil {
			return errorf("joiner refuses (%s): %v", s.c.Methods[cl.i], err)
		}
		if reply != nil {
			cl.up.frame(transports.MessageWamp, reply)
			return nil
		}
		d, err := cl.joiner.SessionDetails()
		if err != nil {
			return errorf("joiner has no details: %v", err)
		}
		if cl.details == nil || d.ID() != cl.details.ID() || d.AuthID() != cl.details.AuthID() || d.AuthRole() != cl.details.AuthRole() ||
			d.Realm() != cl.details.Realm() || d.AuthMethod() != cl.details.AuthMethod() {
			return errorf("sides disagree about the session: %s", s.c.Methods[cl.i])
		}
		cl.session = wampproto.NewSession(cl.ser)
		return nil
	}
	msg, err := cl.session.Receive(data)
	if err != nil {
		m, _ := serializer(s.c.Formats[cl.i]).Deserialize(data)
		return errorf("client session refuses (%T): %v", m, err)
	}
	s.r.Label("%T", msg)
	answered := func(id uint64) (string, error) {
		what, ok := cl.asked[id]
		if !ok {
			return "", errorf("answer to nothing: %T %d", msg, id)
		}
		delete(cl.asked, id)
		return what, nil
	}
	switch m := msg.(type) {
	case *messages.GoodBye:
		if !cl.left {
			return errorf("router says goodbye first: %s", m.Reason())
		}
		return nil
	case *messages.Registered:
		uri, err := answered(m.RequestID())
		if err == nil {
			cl.regs[m.RegistrationID()] = uri
		}
		return err
	case *messages.Subscribed:
		uri, err := answered(m.RequestID())
		if err == nil {
			cl.subs[m.SubscriptionID()] = uri
		}
		return err
	case *messages.Unregistered:
		uri, err := answered(m.RequestID())
		for id, u := range cl.regs {
			if u == uri && cl.dropping[id] {
				delete(cl.regs, id)
				delete(cl.dropping, id)
			}
		}
		return err
	case *messages.Unsubscribed:
		uri, err := answered(m.RequestID())
		for id, u := range cl.subs {
			if u == uri && cl.dropping[id] {
				delete(cl.subs, id)
				delete(cl.dropping, id)
			}
		}
		return err
	case *messages.Published:
		_, err := answered(m.RequestID())
		return err
	case *messages.Error:
		switch m.MessageType() {
		case messages.MessageTypeRegister:
			uri, err := answered(m.RequestID())
			if err == nil && (m.URI() != "wamp.error.procedure_already_exists") {
				err = errorf("error altered: %s %s", uri, m.URI())
			}
			return err
		case messages.MessageTypeCall:
			call := cl.calls[m.RequestID()]
			if call == nil || call.done {
				return errorf("error for no call: %d", m.RequestID())
			}
			if call.refused {
				call.done = true
				if m.URI() != "wamp.error.no_such_procedure" {
					return errorf("error altered: %s", m.URI())
				}
				return nil
			}
			return s.result(call, m.Args(), m.KwArgs(), m.URI(), false)
		}
		return errorf("unexpected error: %d %s", m.MessageType(), m.URI())
	case *messages.Result:
		call := cl.calls[m.RequestID()]
		if call == nil || call.done {
			return errorf("result for no call: %d", m.RequestID())
		}
		prog, _ := m.Details()["progress"].(bool)
		return s.result(call, m.Args(), m.KwArgs(), "", prog)
	case *messages.Event:
		if len(cl.expEvents) == 0 {
			return errorf("event too many: %s", canonList(m.Args()))
		}
		e := cl.expEvents[0]
		cl.expEvents = cl.expEvents[1:]
		if cl.subs[m.SubscriptionID()] != e.topic || !e.part.same(m.Args(), m.KwArgs()) {
			return errorf("event differs: for %s %s %s instead of %s %s %s", cl.subs[m.SubscriptionID()], canonList(m.Args()), canonMap(m.KwArgs()),
				e.topic, canonList(e.part.args), canonMap(e.part.kw))
		}
		return s.disclosed("publisher", m.Details(), e.from)
	case *messages.Invocation:
		call := s.tokens[tokenOf(m.Args())]
		if call == nil || call.callee != cl || call.inv != m.RequestID() || call.arrived >= len(call.parts) {
			return errorf("invocation altered: %s", canonList(m.Args()))
		}
		p := call.parts[call.arrived]
		p.args, p.kw = s.sent[p.token].args, s.sent[p.token].kw
		call.arrived++
		if !p.same(m.Args(), m.KwArgs()) {
			return errorf("invocation altered: %s %s instead of %s %s", canonList(m.Args()), canonMap(m.KwArgs()), canonList(p.args), canonMap(p.kw))
		}
		prog, _ := m.Details()["progress"].(bool)
		want, _ := m.Details()["receive_progress"].(bool)
		if prog != p.progress || want != call.progOK {
			return errorf("invocation flags: %v for progress %v, receive_progress %v", m.Details(), p.progress, call.progOK)
		}
		if call.arrived == 1 {
			cl.todo = append(cl.todo, &sysInvocation{m.RequestID(), call})
			if offered(call.uri) != cl.regs[m.RegistrationID()] {
				return errorf("invocation of another registration: %s for %s", cl.regs[m.RegistrationID()], call.uri)
			}
		}
		return s.disclosed("caller", m.Details(), call.by)
	}
	return errorf("unexpected message: %T", msg)
}

func (s *system) result(call *sysCall, args []any, kw map[string]any, uri string, prog bool) error {
	if call.seen >= len(call.results) {
		return errorf("result too many: %s", canonList(args))
	}
	want := call.results[call.seen]
	call.seen++
	if !want.same(args, kw) || want.err != uri {
		return errorf("result altered: %s %s %s instead of %s %s %s", uri, canonList(args), canonMap(kw), want.err, canonList(want.args), canonMap(want.kw))
	}
	if prog != want.progress {
		return errorf("result's progress flag: %v instead of %v", prog, want.progress)
	}
	call.done = !prog
	return nil
}

// apply makes a client do something, if that fits what it is doing.
func (s *system) apply(o sysOp) error {
	cl := s.clients[o.C]
	if o.K == "deliver" {
		switch {
		case o.N < 12:
			return s.deliver(cl, o.P, 1+3*o.N)
		case o.N < 30:
			return s.deliver(cl, o.P, 1<<30)
		case o.N < 50:
			if err := s.deliver(cl, o.P, 1<<30); err != nil {
				return err
			}
			return s.deliver(cl, !o.P, 1<<30)
		}
		for i := range s.clients {
			if err := s.deliver(s.clients[(o.C+i)%len(s.clients)], o.P, 1<<30); err != nil {
				return err
			}
		}
		return nil
	}
	if o.K == "join" {
		if cl.joiner == nil || cl.gone && len(cl.down.sent) == 0 {
			return s.join(cl)
		}
		return nil
	}
	if o.K == "ping" && cl.shook {
		cl.pings = append(cl.pings, fmt.Sprint("ping", o.N))
		cl.up.frame(transports.MessagePing, []byte(cl.pings[len(cl.pings)-1]))
		return nil
	}
	if cl.session == nil || cl.left {
		return nil
	}
	opts := map[string]any{}
	switch o.K {
	case "call":
		id := cl.ids.NextID()
		p := s.part(o)
		call := &sysCall{uri: sysConcrete[o.URI], open: o.P, progOK: o.Q}
		if o.P {
			opts["progress"], p.progress = true, true
		} else if o.N%3 == 0 {
			opts["progress"] = false
		}
		if o.Q {
			opts["receive_progress"] = true
		} else if o.N%5 == 0 {
			opts["receive_progress"] = false
		}
		call.parts = []sysPart{p}
		cl.calls[id], s.tokens[p.token] = call, call
		return cl.send(messages.NewCall(id, opts, call.uri, p.args, p.kw))
	case "more":
		var open []uint64
		for id, c := range cl.calls {
			if c.open && c.routed > 0 && !c.done && !c.refused {
				open = append(open, id)
			}
		}
		if len(open) == 0 {
			return nil
		}
		slices.Sort(open)
		return s.more(cl, open[o.N%len(open)], o)
	case "answer":
		if len(cl.todo) == 0 {
			return nil
		}
		return s.answer(cl, o)
	case "register":
		uri := sysOffered[o.URI]
		if m := offeredMatch(o.URI); m != "" {
			opts["match"] = m
		}
		opts["invoke"] = []string{"single", "roundrobin", "random", "first", "last", ""}[o.N%6]
		if o.P {
			opts["invoke"] = "roundrobin"
		}
		id := cl.ids.NextID()
		cl.asked[id] = uri
		return cl.send(messages.NewRegister(id, opts, uri))
	case "subscribe":
		uri := sysOffered[o.URI]
		if m := offeredMatch(o.URI); m != "" {
			opts["match"] = m
		}
		id := cl.ids.NextID()
		cl.asked[id] = uri
		return cl.send(messages.NewSubscribe(id, opts, uri))
	case "unregister":
		return s.giveUp(cl, true, o.N)
	case "unsubscribe":
		return s.giveUp(cl, false, o.N)
	case "publish":
		id := cl.ids.NextID()
		p := s.part(o)
		if o.P {
			opts["acknowledge"] = true
			cl.asked[id] = "publish"
		}
		if o.N%3 > 0 {
			opts["exclude_me"] = o.N%3 == 1
		}
		return cl.send(messages.NewPublish(id, opts, sysConcrete[o.URI], p.args, p.kw))
	case "leave":
		if o.N > 16 {
			return nil
		}
		for _, c := range cl.calls {
			if !c.done {
				return nil
			}
		}
		if len(cl.regs) > 0 {
			return s.giveUp(cl, true, o.N)
		}
		if len(cl.asked) > 0 || len(cl.todo) > 0 {
			return nil
		}
		cl.left = true
		return cl.send(messages.NewGoodBye("wamp.close.close_realm", map[string]any{}))
	}
	return nil
}

func (s *system) more(cl *sysClient, id uint64, o sysOp) error {
	call := cl.calls[id]
	p := s.part(o)
	opts := map[string]any{}
	p.progress = o.P
	call.open = o.P
	if o.P {
		opts["progress"] = true
	}
	if call.progOK {
		opts["receive_progress"] = true
	}
	call.parts = append(call.parts, p)
	s.tokens[p.token] = call
	return cl.send(messages.NewCall(id, opts, call.uri, p.args, p.kw))
}

// answer sends a progressive result (when the caller takes them) or, once all
// of the call is there, the result or an error.
func (s *system) answer(cl *sysClient, o sysOp) error {
	i := o.N % len(cl.todo)
	inv := cl.todo[i]
	call := inv.call
	complete := !call.parts[call.arrived-1].progress
	p := s.part(o)
	opts := map[string]any{}
	if call.progOK && (!complete || o.P) {
		p.progress = true
		opts["progress"] = true
	} else if !complete {
		return nil
	}
	if !p.progress {
		cl.todo = slices.Delete(cl.todo, i, i+1)
	}
	if !p.progress && o.Q && o.N%3 == 0 {
		p.err = "x.error." + fmt.Sprint(o.N)
		if o.N%4 == 1 {
			p.err = knownErrors[o.N/4%len(knownErrors)]
		}
		call.results = append(call.results, p)
		return cl.send(messages.NewError(messages.MessageTypeInvocation, inv.id, map[string]any{}, p.err, p.args, p.kw))
	}
	call.results = append(call.results, p)
	return cl.send(messages.NewYield(inv.id, opts, p.args, p.kw))
}

func (s *system) giveUp(cl *sysClient, reg bool, n int) error {
	held := cl.subs
	if reg {
		held = cl.regs
	}
	var ids []uint64
	for id := range held {
		if !cl.dropping[id] {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 {
		return nil
	}
	slices.Sort(ids)
	id := ids[n%len(ids)]
	req := cl.ids.NextID()
	cl.asked[req] = held[id]
	cl.dropping[id] = true
	if reg {
		return cl.send(messages.NewUnregister(req, id))
	}
	return cl.send(messages.NewUnsubscribe(req, id))
}

// settle delivers everything, and lets callers and callees finish.
func (s *system) settle() error {
	for busy, round := true, 0; busy; round++ {
		if round > 2000 {
			return errorf("system does not settle")
		}
		busy = false
		for _, cl := range s.clients {
			for _, up := range []bool{true, false} {
				if len(cl.up.sent) > 0 && up || len(cl.down.sent) > 0 && !up {
					busy = true
					if err := s.deliver(cl, up, 1<<30); err != nil {
						return err
					}
				}
			}
			if cl.session == nil || cl.left {
				continue
			}
			var ids []uint64
			for id := range cl.calls {
				ids = append(ids, id)
			}
			slices.Sort(ids)
			for _, id := range ids {
				if c := cl.calls[id]; c.open && c.routed > 0 && !c.done && !c.refused {
					busy = true
					if err := s.more(cl, id, sysOp{}); err != nil {
						return err
					}
				}
			}
			for len(cl.todo) > 0 {
				n := len(cl.todo)
				if err := s.answer(cl, sysOp{}); err != nil {
					return err
				}
				busy = true
				if len(cl.todo) == n {
					break
				}
			}
		}
	}
	return nil
}

func (c *sysCase) run(r *Rec) error {
	s := &system{c: c, r: r, dealer: wampproto.NewDealer(), broker: wampproto.NewBroker(), byID: map[uint64]*sysClient{}, tokens: map[string]*sysCall{}, sent: map[string]sysPart{},
		procs: map[string][]*sysClient{}, policy: map[string]string{}, topics: map[string][]*sysClient{}}
	s.dealer.AutoDiscloseCaller(c.Reveal)
	s.broker.AutoDisclosePublisher(c.Reveal)
	for i := range c.Formats {
		s.clients = append(s.clients, &sysClient{i: i})
	}
	for i, cl := range s.clients {
		if c.Start>>i&1 == 1 {
			if err := s.join(cl); err != nil {
				return err
			}
		}
	}
	if err := s.settle(); err != nil {
		return err
	}
	for _, o := range c.Ops {
		if err := s.apply(o); err != nil {
			return err
		}
	}
	if err := s.settle(); err != nil {
		return err
	}
	results := 0
	for _, cl := range s.clients {
		if cl.joiner != nil && cl.session == nil {
			return errorf("client never joins: %s %s", s.c.Methods[cl.i], s.c.Formats[cl.i])
		}
		if len(cl.expEvents) > 0 && !cl.left {
			return errorf("events never reach the client: %d", len(cl.expEvents))
		}
		if len(cl.asked) > 0 {
			return errorf("requests never answered: %v", cl.asked)
		}
		if len(cl.pings) > 0 {
			return errorf("pings never answered")
		}
		for _, call := range cl.calls {
			if !call.done || call.seen != len(call.results) {
				return errorf("call never completed: %s", call.uri)
			}
			if !call.refused {
				results++
			}
		}
	}
	if results > 0 {
		r.Label("completed calls %d", min(results, 6))
		r.NonTrivial()
	}
	return nil
}

func TestC25_System(t *testing.T) {
	Check(t, Opt{Checks: 2000, Rule: "2-5 clients with their own serializer, authentication method and user, over rawsocket byte streams cut anywhere and " +
		"delivered in any order; they join, register (all match and invocation policies), call (progressive in either direction), yield, fail, subscribe, " +
		"publish, withdraw, leave and come back; non-trivial when a call was completed by a callee"},
		genSys, func(c *sysCase, r *Rec) error { return c.run(r) })
}
