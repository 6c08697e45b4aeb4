package harness

import (
	"math/rand/v2"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

func plainSession(id uint64) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(id, "realm", "authid", "role", "anonymous", false, nil, nil)
}

// sessOp is one message a client session sends or receives.
type sessOp struct {
	K  string `json:"k"`            // SEND or RECV and the message type
	ID uint64 `json:"id,omitempty"` // request id
	R  uint64 `json:"r,omitempty"`  // registration or subscription id, or the type of an ERROR
	P  bool   `json:"p,omitempty"`  // progress, acknowledge
	X  bool   `json:"x,omitempty"`  // sent with something no serializer can write
	G  bool   `json:"g,omitempty"`  // more of the call follows
}

type sessCase struct {
	Format string   `json:"format"`
	Bytes  bool     `json:"bytes"`
	Own    bool     `json:"own,omitempty"`  // messages have fields of the application's own
	Wide   bool     `json:"wide,omitempty"` // ids that agree in their low bits
	Top    int      `json:"top,omitempty"`  // ids go up to this
	Seed   uint64   `json:"seed,omitempty"` // what the operations of a crowd are drawn from
	N      int      `json:"n,omitempty"`    // and how many they are
	Waves  bool     `json:"waves,omitempty"`
	Ops    []sessOp `json:"ops"`
}

var wideIDs = []uint64{0, 1, 1<<32 + 1, 257, 1<<52 + 1, 65537}

// wide spreads the small ids of an operation.
func (o sessOp) wide(yes bool) sessOp {
	if yes {
		if o.ID < uint64(len(wideIDs)) {
			o.ID = wideIDs[o.ID]
		}
		if o.R < uint64(len(wideIDs)) {
			o.R = wideIDs[o.R]
		}
	}
	return o
}

var sendTypes = []string{"CALL", "CALL", "REGISTER", "REGISTER", "UNREGISTER", "PUBLISH", "SUBSCRIBE", "SUBSCRIBE", "UNSUBSCRIBE",
	"YIELD", "ERROR", "GOODBYE"}
var recvTypes = []string{"RESULT", "RESULT", "REGISTERED", "REGISTERED", "UNREGISTERED", "PUBLISHED", "SUBSCRIBED", "SUBSCRIBED",
	"UNSUBSCRIBED", "EVENT", "INVOCATION", "ERROR", "ERROR", "ERROR", "GOODBYE", "ABORT"}
var neverReceived = []string{"HELLO", "WELCOME", "CHALLENGE", "AUTHENTICATE", "PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE", "CALL", "CANCEL",
	"REGISTER", "UNREGISTER", "YIELD"}
var errorTypes = map[uint64]string{48: "CALL", 64: "REGISTER", 66: "UNREGISTER", 32: "SUBSCRIBE", 34: "UNSUBSCRIBE", 16: "PUBLISH"}
var errorCodes = []uint64{48, 64, 66, 32, 34, 16, 48, 64, 66, 32, 34, 16, 68, 50, 70, 0, 36, 304, 1<<32 + 48}

func genSessCase(t *rapid.T) sessCase {
	c := sessCase{Format: pick(t, "format", formats...), Bytes: chance(t, "bytes", 40), Own: chance(t, "own", 10), Wide: chance(t, "wide", 30)}
	ids := pick(t, "ids", 1, 2, 3, 4)
	m := newSessModel()
	for n := between(t, "n", 2, 30); n > 0; n-- {
		o := sessOp{ID: uint64(between(t, "id", 1, ids)), R: uint64(between(t, "ref", 1, 3)), P: chance(t, "flag", 40)}
		if chance(t, "high", 2) {
			o.ID = 1 << 53
		}
		switch between(t, "side", 0, 9) {
		case 0, 1, 2, 3:
			o.K = "SEND " + sendTypes[intn(t, "type", len(sendTypes))]
			o.X = chance(t, "unserializable", 8)
			o.G = o.K == "SEND CALL" && chance(t, "more follows", 40)
		case 4, 5, 6, 7, 8:
			o.K = "RECV " + recvTypes[intn(t, "type", len(recvTypes))]
			if o.K == "RECV ERROR" {
				o.R = errorCodes[intn(t, "errtype", len(errorCodes))]
			}
		default:
			o.K = "RECV " + neverReceived[intn(t, "type", len(neverReceived))]
		}
		m.steer(t, &o)
		c.Ops = append(c.Ops, o)
	}
	return c
}

// sessModel is what a client session has to know.
type sessModel struct {
	pending    map[string]map[uint64]uint64 // request type, request id, what it is about
	regs, subs map[uint64]bool
	unanswered map[uint64]bool // invocations
	partial    map[uint64]bool // pending calls of which more follows
}

func newSessModel() *sessModel {
	m := &sessModel{pending: map[string]map[uint64]uint64{}, regs: map[uint64]bool{}, subs: map[uint64]bool{},
		unanswered: map[uint64]bool{}, partial: map[uint64]bool{}}
	for _, k := range errorTypes {
		m.pending[k] = map[uint64]uint64{}
	}
	return m
}

var replyTo = map[string][]string{"CALL": {"RESULT", "RESULT", "ERROR"}, "REGISTER": {"REGISTERED", "REGISTERED", "ERROR"},
	"UNREGISTER": {"UNREGISTERED", "UNREGISTERED", "ERROR"}, "SUBSCRIBE": {"SUBSCRIBED", "SUBSCRIBED", "ERROR"},
	"UNSUBSCRIBE": {"UNSUBSCRIBED", "UNSUBSCRIBED", "ERROR"}, "PUBLISH": {"PUBLISHED", "ERROR"}}

// steer turns part of the generated messages into ones that fit the history,
// and follows it.
func (m *sessModel) steer(t *rapid.T, o *sessOp) {
	lowest := func(held map[uint64]bool) uint64 {
		var all []uint64
		for r := uint64(1); r <= 3; r++ {
			if held[r] {
				all = append(all, r)
			}
		}
		if len(all) == 0 {
			return o.R
		}
		return all[intn(t, "held", len(all))]
	}
	fit := chance(t, "fit", 60)
	switch {
	case !fit:
	case o.K == "SEND CALL":
		for id := uint64(1); id <= 4; id++ { // the next part of a call
			if _, ok := m.pending["CALL"][id]; ok && m.partial[id] && chance(t, "next part", 60) {
				o.ID = id
			}
		}
	case o.K == "SEND UNREGISTER" || o.K == "RECV INVOCATION":
		o.R = lowest(m.regs)
	case o.K == "SEND UNSUBSCRIBE" || o.K == "RECV EVENT":
		o.R = lowest(m.subs)
	case o.K[:4] == "RECV":
		type req struct {
			k  string
			id uint64
		}
		var all []req
		for _, code := range []uint64{48, 64, 66, 32, 34, 16} {
			k := errorTypes[code]
			for _, id := range []uint64{1, 2, 3, 4, 1 << 53} {
				if _, ok := m.pending[k][id]; ok {
					all = append(all, req{k, id})
				}
			}
		}
		if len(all) == 0 {
			break
		}
		q := all[intn(t, "reply to", len(all))]
		o.K, o.ID = "RECV "+replyTo[q.k][intn(t, "reply", len(replyTo[q.k]))], q.id
		if o.K == "RECV ERROR" {
			for code, k := range errorTypes {
				if k == q.k {
					o.R = code
				}
			}
		} else if o.R > 3 {
			o.R = 1
		}
	}
	if o.K[:4] == "SEND" {
		m.send(*o)
	} else {
		m.receive(*o)
	}
}

// send applies a message the client sends; ok is false when it is outside the
// domain of the check (an id in use, something the client does not hold).
func (m *sessModel) send(o sessOp) (ok bool) {
	k := o.K[5:]
	if o.X { // it fails, and the client has sent nothing
		return k != "UNREGISTER" && k != "UNSUBSCRIBE"
	}
	if k == "ERROR" || k == "YIELD" && !o.P {
		delete(m.unanswered, o.ID)
	}
	p, request := m.pending[k]
	if !request {
		return true
	}
	if _, used := p[o.ID]; used && !(k == "CALL" && m.partial[o.ID]) {
		return false
	}
	switch k {
	case "CALL":
		m.partial[o.ID] = o.G
	case "PUBLISH":
		if !o.P {
			return true
		}
	case "UNREGISTER", "UNSUBSCRIBE":
		held := m.regs
		if k == "UNSUBSCRIBE" {
			held = m.subs
		}
		if !held[o.R] {
			return false
		}
		for _, ref := range p {
			if ref == o.R {
				return false
			}
		}
	}
	p[o.ID] = o.R
	return true
}

// receive says whether the client has to accept a message, and applies it.
func (m *sessModel) receive(o sessOp) bool {
	take := func(k string) (uint64, bool) {
		ref, ok := m.pending[k][o.ID]
		delete(m.pending[k], o.ID)
		return ref, ok
	}
	switch o.K[5:] {
	case "RESULT":
		_, ok := m.pending["CALL"][o.ID]
		if ok && !o.P {
			delete(m.pending["CALL"], o.ID)
		}
		return ok
	case "REGISTERED":
		_, ok := take("REGISTER")
		if ok {
			m.regs[o.R] = true
		}
		return ok
	case "SUBSCRIBED":
		_, ok := take("SUBSCRIBE")
		if ok {
			m.subs[o.R] = true
		}
		return ok
	case "UNREGISTERED":
		ref, ok := take("UNREGISTER")
		if ok {
			delete(m.regs, ref)
		}
		return ok
	case "UNSUBSCRIBED":
		ref, ok := take("UNSUBSCRIBE")
		if ok {
			delete(m.subs, ref)
		}
		return ok
	case "PUBLISHED":
		_, ok := take("PUBLISH")
		return ok
	case "EVENT":
		return m.subs[o.R]
	case "GOODBYE", "ABORT": // they end the session, and are no answer to anything
		return true
	case "INVOCATION":
		// the rest of a progressive call may come after its procedure was unregistered
		ok := m.regs[o.R] || m.unanswered[o.ID]
		if ok {
			m.unanswered[o.ID] = true
		}
		return ok
	case "ERROR":
		k, known := errorTypes[o.R]
		if !known {
			return false
		}
		_, ok := take(k)
		return ok
	}
	return false
}

func (o sessOp) msg() messages.Message {
	none := map[string]any{}
	if o.X {
		none["x"] = make(chan int)
	}
	flag := func(name string) map[string]any {
		if o.X {
			return map[string]any{name: o.P, "x": make(chan int)}
		}
		if o.P {
			return map[string]any{name: true}
		}
		if o.ID%2 == 0 {
			return map[string]any{name: false}
		}
		return map[string]any{}
	}
	switch o.K[5:] {
	case "CALL":
		options := flag("receive_progress")
		if o.G {
			options["progress"] = true
		}
		return messages.NewCall(o.ID, options, "a.b", []any{1}, nil)
	case "PUBLISH":
		return messages.NewPublish(o.ID, flag("acknowledge"), "a.b", nil, nil)
	case "REGISTER":
		return messages.NewRegister(o.ID, none, "a.b")
	case "UNREGISTER":
		return messages.NewUnregister(o.ID, o.R)
	case "SUBSCRIBE":
		return messages.NewSubscribe(o.ID, none, "a.b")
	case "UNSUBSCRIBE":
		return messages.NewUnsubscribe(o.ID, o.R)
	case "YIELD":
		return messages.NewYield(o.ID, flag("progress"), nil, nil)
	case "ERROR":
		t := o.R
		if o.K[:4] == "SEND" {
			t = 68
		}
		return messages.NewError(t, o.ID, none, "a.b", nil, nil)
	case "GOODBYE":
		return messages.NewGoodBye("wamp.close.normal", none)
	case "RESULT":
		return messages.NewResult(o.ID, flag("progress"), []any{"r"}, nil)
	case "REGISTERED":
		return messages.NewRegistered(o.ID, o.R)
	case "UNREGISTERED":
		return messages.NewUnregistered(o.ID)
	case "SUBSCRIBED":
		return messages.NewSubscribed(o.ID, o.R)
	case "UNSUBSCRIBED":
		return messages.NewUnsubscribed(o.ID)
	case "PUBLISHED":
		return messages.NewPublished(o.ID, 7)
	case "EVENT":
		return messages.NewEvent(o.R, o.ID, map[string]any{}, nil, nil)
	case "INVOCATION":
		return messages.NewInvocation(o.ID, o.R, flag("progress"), nil, nil)
	}
	return simple(o.K[5:], int(o.ID))
}

// C12: a client session accepts exactly what it waits for.
func TestC12_Session(t *testing.T) {
	Check(t, Opt{Checks: 6000, Rule: "histories of up to 30 messages a client session sends and receives (all types, request, " +
		"registration and subscription ids from small sets shared by all kinds of request), in each format and as objects, " +
		"judged by a model of the pending requests and held registrations; then every possible reply is tried; " +
		"non-trivial: at least one accepted and one refused message before that"},
		genSessCase, runC12)
}

// crowd draws a long history with many requests pending and many
// registrations and subscriptions held.
func (c *sessCase) crowd() []sessOp {
	rng := rand.New(rand.NewPCG(c.Seed, 12))
	m := newSessModel()
	if c.Waves {
		return c.waves(rng, m)
	}
	id := func() uint64 { return 1 + rng.Uint64N(uint64(c.Top)) }
	var ops []sessOp
	for len(ops) < c.N {
		o := sessOp{ID: id(), R: id(), P: rng.IntN(2) == 0}
		if rng.IntN(10) < 5 {
			o.K = "SEND " + sendTypes[rng.IntN(len(sendTypes))]
			held := map[string]map[uint64]bool{"SEND UNREGISTER": m.regs, "SEND UNSUBSCRIBE": m.subs}[o.K]
			for try := 0; held != nil && !held[o.R] && try < 50; try++ {
				o.R = id()
			}
			if rng.IntN(3) > 0 && held != nil {
				continue // rather keep them
			}
			m.send(o)
		} else {
			if o.K = "RECV " + recvTypes[rng.IntN(len(recvTypes))]; o.K == "RECV ERROR" {
				o.R = errorCodes[rng.IntN(6)]
			}
			want := map[string]map[uint64]uint64{}
			for k, names := range replyTo {
				want["RECV "+names[0]] = m.pending[k]
			}
			p := want[o.K]
			if o.K == "RECV ERROR" {
				p = m.pending[errorTypes[o.R]]
			}
			held := map[string]map[uint64]bool{"RECV INVOCATION": m.regs, "RECV EVENT": m.subs}[o.K]
			for try := 0; try < 30; try++ {
				if _, ok := p[o.ID]; p != nil && !ok {
					o.ID = id()
				}
				if held != nil && !held[o.R] {
					o.R = id()
				}
			}
			m.receive(o)
		}
		ops = append(ops, o)
	}
	return ops
}

// waves are requests of one kind, one for each id, and then their replies one
// by one, so that every number of pending ones is passed through.
func (c *sessCase) waves(rng *rand.Rand, m *sessModel) []sessOp {
	var ops []sessOp
	add := func(k string, id, r uint64, p bool) {
		o := sessOp{K: k, ID: id, R: r, P: p}
		if k[:4] == "RECV" {
			m.receive(o)
		} else {
			m.send(o)
		}
		ops = append(ops, o)
	}
	order := func() []uint64 {
		l := make([]uint64, c.Top)
		for i, x := range rng.Perm(c.Top) {
			l[i] = uint64(x) + 1
		}
		return l
	}
	codes := map[string]uint64{}
	for code, k := range errorTypes {
		codes[k] = code
	}
	for len(ops) < c.N {
		k := []string{"CALL", "PUBLISH", "REGISTER", "INVOCATION", "UNREGISTER", "SUBSCRIBE", "EVENT", "UNSUBSCRIBE"}[rng.IntN(8)]
		sent := order()
		for _, id := range sent {
			switch {
			case k == "INVOCATION" || k == "EVENT":
				add("RECV "+k, id, sent[rng.IntN(len(sent))], rng.IntN(2) == 0)
			case k == "PUBLISH":
				add("SEND PUBLISH", id, 1, true)
			default:
				add("SEND "+k, id, id, false)
			}
		}
		errors := rng.IntN(3) * 20 // percent
		for _, id := range order() {
			switch {
			case k == "EVENT":
			case k == "INVOCATION":
				if rng.IntN(8) == 0 {
					add("SEND YIELD", id, 0, true)
				}
				add([]string{"SEND YIELD", "SEND YIELD", "SEND ERROR"}[rng.IntN(3)], id, 0, false)
			case rng.IntN(100) < errors:
				add("RECV ERROR", id, codes[k], false)
			default:
				if k == "CALL" && rng.IntN(8) == 0 {
					add("RECV RESULT", id, 0, true)
				}
				add("RECV "+replyTo[k][0], id, id, false)
			}
			if rng.IntN(20) == 0 {
				add("RECV EVENT", id, sent[0], false)
			}
		}
	}
	return ops
}

func TestC12_Crowd(t *testing.T) {
	Check(t, Opt{Checks: 40, Rule: "histories of 200-4000 messages with ids from 1 to 1500, so that hundreds of requests are pending and hundreds of registrations " +
		"and subscriptions held at a time, or, in waves, one request for each id and then the replies one by one, judged by the same model; then every possible reply to every id is tried; non-trivial: as above"},
		func(t *rapid.T) sessCase {
			return sessCase{Format: pick(t, "format", formats...), Bytes: chance(t, "bytes", 20), Own: chance(t, "own", 10),
				Top: pick(t, "top", 10, 100, 300, 600, 1500), N: pick(t, "n", 200, 1000, 4000), Waves: chance(t, "waves", 40),
				Seed: rapid.Uint64().Draw(t, "seed")}
		},
		func(c *sessCase, r *Rec) error {
			full := *c
			full.Ops = c.crowd()
			return runC12(&full, r)
		})
}

func runC12(c *sessCase, r *Rec) error {
	var ser serializers.Serializer
	if c.Format != fmtJSON || c.Bytes {
		ser = serializer(c.Format)
	}
	s := wampproto.NewSession(ser)
	wire := serializer(c.Format)
	m := newSessModel()
	accepted, refused := 0, 0
	receive := func(o sessOp) error {
		msg := o.wide(c.Wide).msg()
		if c.Own {
			msg = own(msg)
		}
		want := m.receive(o)
		var got messages.Message
		var err error
		if c.Bytes {
			got, err = s.Receive(must(wire.Serialize(msg)))
		} else {
			got, err = s.ReceiveMessage(msg)
		}
		if want && err != nil {
			return errorf("reply refused (%s): %+v: %v", o.K[5:], o, err)
		}
		if !want && err == nil {
			return errorf("message accepted (%s): %+v", o.K[5:], o)
		}
		if want {
			accepted++
			if got == nil || got.Type() != msg.Type() || canon(stripped(got)) != canon(stripped(msg)) {
				return errorf("message altered (%s): %+v becomes %v", o.K[5:], o, got)
			}
		} else {
			refused++
		}
		return nil
	}
	for _, o := range c.Ops {
		if o.K[:4] == "RECV" {
			if err := receive(o); err != nil {
				return err
			}
			continue
		}
		if !m.send(o) {
			continue
		}
		msg := o.wide(c.Wide).msg()
		if c.Own {
			msg = own(msg)
		}
		data, err := s.SendMessage(msg)
		if o.X {
			if err == nil {
				return errorf("message sent that cannot be serialized (%s): %q", o.K[5:], data)
			}
			r.Label("unserializable")
			continue
		}
		if err != nil {
			return errorf("request refused (%s): %+v: %v", o.K[5:], o, err)
		}
		if sent, err := wire.Deserialize(data); err != nil || canon(stripped(sent)) != canon(stripped(o.wide(c.Wide).msg())) {
			return errorf("request altered (%s): %+v becomes %v, %v", o.K[5:], o, sent, err)
		}
		r.Label("%s", o.K)
	}
	if accepted > 0 && refused > 0 {
		r.NonTrivial()
	}
	r.Label("accepted %d", min(accepted, 5))
	// what the session still waits for and holds, by trying everything
	ids, refs := []uint64{1, 2, 3, 4, 5, 1 << 53}, []uint64{1, 2, 3, 4}
	for i := uint64(5); i <= uint64(c.Top); i++ {
		ids, refs = append(ids, i+1), append(refs, i)
	}
	for _, ref := range refs {
		for _, k := range []string{"EVENT", "INVOCATION"} {
			if err := receive(sessOp{K: "RECV " + k, ID: 1, R: ref}); err != nil {
				return err
			}
		}
	}
	for _, id := range ids {
		if err := receive(sessOp{K: "RECV RESULT", ID: id, P: true}); err != nil {
			return err
		}
	}
	for _, id := range ids {
		for _, k := range []string{"UNREGISTERED", "UNSUBSCRIBED", "PUBLISHED"} {
			for twice := 0; twice < 2; twice++ {
				if err := receive(sessOp{K: "RECV " + k, ID: id}); err != nil {
					return err
				}
			}
		}
		for _, code := range []uint64{48, 64, 66, 32, 34, 16} {
			for twice := 0; twice < 2; twice++ {
				if err := receive(sessOp{K: "RECV ERROR", ID: id, R: code}); err != nil {
					return err
				}
			}
		}
	}
	for _, ref := range refs {
		for _, k := range []string{"EVENT", "INVOCATION"} {
			if err := receive(sessOp{K: "RECV " + k, ID: 1, R: ref}); err != nil {
				return err
			}
		}
	}
	return nil
}

// stripped are the fields of a message, whatever its type.
func stripped(m messages.Message) any {
	if m == nil {
		return "none"
	}
	s, ok := specOfCode(m.Type())
	if !ok {
		return "unknown"
	}
	fields, ok := s.get(m)
	if !ok {
		return "other type"
	}
	for i, f := range fields {
		switch x := f.(type) {
		case []any:
			fields[i] = canonList(x)
		case map[string]any:
			fields[i] = canonMap(x)
		}
	}
	return fields
}
