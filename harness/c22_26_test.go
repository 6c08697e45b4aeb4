package harness

// C26 and C22 on histories of arbitrary messages, hostile ones included: the
// history is run once, then again without the operations that were refused
// (C26) or without the switching of disclosure (C22), and both runs are
// compared up to the ids the router chooses.

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

type wildOp struct {
	K   string `json:"k"` // add, remove, msg, disclose
	S   int    `json:"s"`
	M   *Msg   `json:"m,omitempty"`
	Ref int    `json:"ref"` // which id the router handed out the message is about; 0: the id in it
	On  bool   `json:"on,omitempty"`
}

type wildCase struct {
	Broker bool     `json:"broker,omitempty"`
	Start  int      `json:"start"`
	Static int      `json:"static,omitempty"`
	Ops    []wildOp `json:"ops"`
}

var oddURIs = []string{"", ".", "*", "a..b", "[", "[a-", "\\", "a\x00b", "?", "wamp.error.no_such_procedure", "A.B", " a"}

func genWild(t *rapid.T, broker, hostile, toggle bool) wildCase {
	n := between(t, "sessions", 2, 5)
	c := wildCase{Broker: broker, Start: intn(t, "start", n+1), Static: intn(t, "static", 32)}
	wildcard := pick(t, "pattern", "a.*", "*", "*.b", "a.*.c")
	if hostile && chance(t, "odd pattern", 15) {
		wildcard = oddURIs[intn(t, "odd", len(oddURIs))]
	}
	odd := func() bool { return hostile && chance(t, "odd", 8) }
	oddValue := func() V {
		switch intn(t, "odd value", 6) {
		case 0:
			return vNil()
		case 1:
			return vInt(int64(intn(t, "int", 3)) - 1)
		case 2:
			return vList(vStr("x"))
		case 3:
			return V{K: "map"}
		case 4:
			return vFloat(1)
		}
		return vStr(pick(t, "string", "", "true", "EXACT", "Prefix", "multi", "all"))
	}
	options := func(kind string) V {
		m := V{K: "map"}
		set := func(k string, v V) {
			if odd() {
				v = oddValue()
			}
			m.M, m.L = append(m.M, k), append(m.L, v)
		}
		yes := func(k string, percent int) {
			if chance(t, k, percent) {
				set(k, vBool(chance(t, "yes", 75)))
			}
		}
		switch kind {
		case "REGISTER", "SUBSCRIBE":
			if chance(t, "has match", 60) {
				set("match", vStr(pick(t, "match", "exact", "prefix", "wildcard")))
			}
			if chance(t, "has invoke", 60) {
				set("invoke", vStr(pick(t, "invoke", "single", "first", "last", "roundrobin", "roundrobin")))
			}
		case "CALL":
			yes("progress", 40)
			yes("receive_progress", 40)
		case "YIELD":
			yes("progress", 40)
		case "PUBLISH":
			yes("acknowledge", 60)
			yes("exclude_me", 50)
		}
		if chance(t, "custom", 10) {
			set("x_custom", vStr("1"))
		}
		return m
	}
	uri := func() string {
		if odd() {
			return oddURIs[intn(t, "odd uri", len(oddURIs))]
		}
		return concreteURIs[intn(t, "uri", 6)]
	}
	kinds := []string{"REGISTER", "REGISTER", "REGISTER", "UNREGISTER", "CALL", "CALL", "CALL", "CALL", "YIELD", "YIELD", "YIELD", "ERROR"}
	if broker {
		kinds = []string{"SUBSCRIBE", "SUBSCRIBE", "SUBSCRIBE", "UNSUBSCRIBE", "PUBLISH", "PUBLISH", "PUBLISH"}
	}
	for i := between(t, "n", 4, 60); i > 0; i-- {
		o := wildOp{K: "msg", S: intn(t, "session", n), Ref: intn(t, "ref", 40)}
		if chance(t, "stranger", 4) {
			o.S = n
		}
		switch k := intn(t, "op", 20); {
		case k == 0:
			o.K = "remove"
		case k == 1 || k == 2:
			o.K = "add"
		case k == 3 && toggle:
			o.K, o.On = "disclose", chance(t, "on", 60)
		default:
			kind := kinds[intn(t, "kind", len(kinds))]
			if hostile && chance(t, "any kind", 10) {
				kind = specs[intn(t, "spec", len(specs))].name
			}
			m := Msg{T: kind}
			if kind == "HELLO" {
				m = genMsgOf(t, specOf(kind), fmtMsgPack)
				o.M = &m
				break
			}
			for i, f := range specOf(kind).fields {
				switch f {
				case fID:
					switch {
					case hostile && chance(t, "any id", 5):
						m.F = append(m.F, vUint(genID(t)))
					case kind == "ERROR" && i == 0 && chance(t, "invocation", 85):
						m.F = append(m.F, vUint(68))
					default:
						m.F = append(m.F, vUint(uint64(between(t, "id", 1, 6))))
					}
				case fStr:
					m.F = append(m.F, vStr(uri()))
				case fMap:
					m.F = append(m.F, options(kind))
				case fArgs:
					if m.F = append(m.F, vNil()); chance(t, "args", 60) {
						m.F[len(m.F)-1] = vList(vStr(fmt.Sprint("args", i)))
					}
				case fKw:
					if m.F = append(m.F, vNil()); chance(t, "kwargs", 30) {
						m.F[len(m.F)-1] = V{K: "map", M: []string{"k"}, L: []V{vInt(int64(i))}}
					}
				}
			}
			if len(m.F) > 1 && m.F[1].K == "map" {
				for i, k := range m.F[1].M {
					if k == "match" && m.F[1].L[i].S == "wildcard" {
						m.F[2] = vStr(wildcard) // only one, or the choice among them is open
					}
				}
			}
			o.M = &m
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type wildOut struct {
	To  uint64
	Msg messages.Message
}

// wildStep is an operation as it was run, and what came of it.
type wildStep struct {
	op      wildOp
	id      uint64
	msg     *Msg
	outs    []wildOut
	refused bool
	has     string
}

type wildRouter struct {
	b *wampproto.Broker
	d *wampproto.Dealer
}

func newWildRouter(broker bool) wildRouter {
	if broker {
		return wildRouter{b: wampproto.NewBroker()}
	}
	return wildRouter{d: wampproto.NewDealer()}
}

// add attaches a session, as one of several persons.
func (w wildRouter) add(i, static, person int) error {
	person %= 3
	details := detailsAs(i, (static>>i&1 == 1) != (person == 2), person)
	if w.b != nil {
		return w.b.AddSession(details)
	}
	return w.d.AddSession(details)
}

func (w wildRouter) remove(id uint64) error {
	if w.b != nil {
		return w.b.RemoveSession(id)
	}
	return w.d.RemoveSession(id)
}

func (w wildRouter) disclose(on bool) {
	if w.b != nil {
		w.b.AutoDisclosePublisher(on)
	} else {
		w.d.AutoDiscloseCaller(on)
	}
}

func (w wildRouter) hasOne(uri string) bool {
	if w.b != nil {
		return w.b.HasSubscription(uri)
	}
	return w.d.HasProcedure(uri)
}

func (w wildRouter) has() string {
	var s []string
	for _, list := range [][]string{concreteURIs, oddURIs, {"a.*", "*.b", "a.*.c"}} {
		for _, u := range list {
			if w.hasOne(u) {
				s = append(s, u)
			}
		}
	}
	return fmt.Sprintf("%q", s)
}

func (w wildRouter) send(id uint64, msg messages.Message) ([]wildOut, error) {
	if p, ok := msg.(*messages.Publish); ok && w.b != nil {
		out, err := w.b.ReceivePublish(id, p)
		if err != nil {
			return nil, err
		}
		var outs []wildOut
		to := slices.Clone(out.Recipients)
		slices.Sort(to)
		for _, x := range to {
			outs = append(outs, wildOut{x, out.Event})
		}
		if out.Ack != nil {
			outs = append(outs, wildOut{out.Ack.Recipient, out.Ack.Message})
		}
		return outs, nil
	}
	var out *wampproto.MessageWithRecipient
	var err error
	if w.b != nil {
		out, err = w.b.ReceiveMessage(id, msg)
	} else {
		out, err = w.d.ReceiveMessage(id, msg)
	}
	if err != nil || out == nil {
		return nil, err
	}
	return []wildOut{{out.Recipient, out.Message}}, nil
}

// refId is the field of a message that holds an id the router handed out.
func refField(name string) int {
	switch name {
	case "UNREGISTER", "UNSUBSCRIBE", "ERROR":
		return 1
	case "YIELD":
		return 0
	}
	return -1
}

const prober = 7

// first runs a history, resolving references to ids on the way.
func (c *wildCase) first(r *Rec) ([]wildStep, error) {
	w := newWildRouter(c.Broker)
	attached := map[uint64]bool{}
	var steps []wildStep
	live := map[int][]handed{} // registrations or subscriptions, and invocations (by the field that refers to them in YIELD and ERROR)
	apply := func(o wildOp, resolve bool) error {
		s := wildStep{op: o, id: sidOf(o.S)}
		var err error
		switch o.K {
		case "add":
			err = w.add(o.S, c.Static, o.Ref)
			if (err != nil) != attached[s.id] {
				return fmt.Errorf("adding a session: %d, attached %v: %v", s.id, attached[s.id], err)
			}
			attached[s.id] = true
		case "remove":
			err = w.remove(s.id)
			if (err != nil) == attached[s.id] {
				return fmt.Errorf("removing a session: %d, attached %v: %v", s.id, attached[s.id], err)
			}
			delete(attached, s.id)
		case "disclose":
			w.disclose(o.On)
		case "msg":
			m := Msg{T: o.M.T, F: slices.Clone(o.M.F), Own: o.M.Own}
			list := live[0]
			if m.T == "YIELD" || m.T == "ERROR" {
				list = live[1]
			}
			if f := refField(m.T); f >= 0 && o.Ref > 0 && len(list) > 0 {
				x := list[len(list)-1-o.Ref%len(list)]
				m.F[f] = vUint(x.id)
				if o.Ref%6 != 0 {
					s.id = x.to
				}
			}
			s.msg = &m
			s.outs, err = w.send(s.id, m.build())
			if err == nil && !attached[s.id] {
				return fmt.Errorf("%s of a session that is not attached: %d gets %s", m.T, s.id, showOuts(s.outs))
			}
			for _, x := range s.outs {
				if x.Msg == nil {
					return fmt.Errorf("no message: %s of %d", m.T, s.id)
				}
				if !attached[x.To] {
					return fmt.Errorf("addressed to a session that is not attached: %s", showOuts(s.outs))
				}
				switch y := x.Msg.(type) {
				case *messages.Error:
					s.refused = s.refused || m.T != "ERROR" && x.To == s.id
				case *messages.Registered:
					live[0] = append(live[0], handed{x.To, y.RegistrationID()})
				case *messages.Subscribed:
					live[0] = append(live[0], handed{x.To, y.SubscriptionID()})
				case *messages.Invocation:
					live[1] = append(live[1], handed{x.To, y.RequestID()})
				}
			}
			if !s.refused && err == nil {
				r.Label("%s accepted", m.T)
			} else {
				r.Label("%s refused", m.T)
			}
		}
		s.refused = s.refused || err != nil
		s.has = w.has()
		steps = append(steps, s)
		return nil
	}
	for i := 0; i < c.Start; i++ {
		if err := apply(wildOp{K: "add", S: i}, true); err != nil {
			return steps, err
		}
	}
	for i, o := range c.Ops {
		if err := apply(o, true); err != nil {
			return steps, fmt.Errorf("%w (operation %d %s)", err, i, showWild(o))
		}
	}
	probes := []wildOp{{K: "add", S: prober}}
	for i, u := range append(append([]string{}, concreteURIs...), oddURIs...) {
		m := Msg{T: "PUBLISH", F: []V{vUint(uint64(900 + i)), {K: "map", M: []string{"acknowledge", "exclude_me"}, L: []V{vBool(true), vBool(false)}},
			vStr(u), vNil(), vNil()}}
		if !c.Broker {
			m = Msg{T: "CALL", F: []V{vUint(uint64(900 + i)), vNil(), vStr(u), vNil(), vNil()}}
		}
		probes = append(probes, wildOp{K: "msg", S: prober, M: &m}, wildOp{K: "msg", S: prober, M: &m})
	}
	for _, o := range probes {
		if err := apply(o, true); err != nil {
			return steps, fmt.Errorf("%w (probe)", err)
		}
	}
	if !c.Broker {
		n := len(live[1])
		for i := 1; i <= n; i++ {
			if i%6 == 0 {
				continue
			}
			m := Msg{T: "YIELD", F: []V{vUint(0), vNil(), vNil(), vNil()}}
			if err := apply(wildOp{K: "msg", S: 0, M: &m, Ref: i}, true); err != nil {
				return steps, fmt.Errorf("%w (answering all)", err)
			}
		}
	}
	return steps, nil
}

func showWild(o wildOp) string {
	if o.M != nil {
		return fmt.Sprintf("%s of %d", o.M.T, sidOf(o.S))
	}
	return fmt.Sprintf("%s of %d", o.K, sidOf(o.S))
}

func showOuts(outs []wildOut) string {
	var s []string
	for _, x := range outs {
		if x.Msg == nil {
			s = append(s, fmt.Sprintf("nothing to %d", x.To))
			continue
		}
		s = append(s, fmt.Sprintf("%T%s to %d", x.Msg, canonStripped(x.Msg), x.To))
	}
	return strings.Join(s, ", ")
}

// bimap matches the ids of two runs, kind by kind.
type bimap struct{ there, back map[string]string }

func (b *bimap) same(kind string, x, y uint64) bool {
	kx, ky := fmt.Sprint(kind, x), fmt.Sprint(kind, y)
	if t, ok := b.there[kx]; ok {
		return t == ky
	}
	if _, ok := b.back[ky]; ok {
		return false
	}
	b.there[kx], b.back[ky] = ky, kx
	return true
}

var identityKeys = []string{"procedure", "caller", "caller_authid", "caller_authrole", "topic", "publisher", "publisher_authid", "publisher_authrole"}

func (b *bimap) sameOut(x, y wildOut, details bool) bool {
	if x.To != y.To || x.Msg.Type() != y.Msg.Type() {
		return false
	}
	fx, _ := specs[specIndex(x.Msg.Type())].get(x.Msg)
	fy, _ := specs[specIndex(y.Msg.Type())].get(y.Msg)
	ids := map[uint64]map[int]string{65: {1: "registration"}, 68: {0: "invocation", 1: "registration"}, 33: {1: "subscription"},
		36: {0: "subscription", 1: "publication"}, 17: {1: "publication"}}[x.Msg.Type()]
	for i := range fx {
		if k := ids[i]; k != "" {
			if !b.same(k, fx[i].(uint64), fy[i].(uint64)) {
				return false
			}
			continue
		}
		mx, isMap := fx[i].(map[string]any)
		my, _ := fy[i].(map[string]any)
		if isMap && !details && i == 2 && (x.Msg.Type() == 68 || x.Msg.Type() == 36) {
			if canonMap(without(mx)) != canonMap(without(my)) {
				return false
			}
			continue
		}
		if isMap {
			if canonMap(mx) != canonMap(my) {
				return false
			}
			continue
		}
		if lx, ok := fx[i].([]any); ok {
			ly, _ := fy[i].([]any)
			if canonList(lx) != canonList(ly) {
				return false
			}
			continue
		}
		if canon(fx[i]) != canon(fy[i]) {
			return false
		}
	}
	return true
}

func without(m map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		if !slices.Contains(identityKeys, k) {
			out[k] = v
		}
	}
	return out
}

func specIndex(code uint64) int {
	return slices.IndexFunc(specs, func(s spec) bool { return s.code == code })
}

// rerun runs a step of one run on another router and says how the outcome differs.
func (b *bimap) rerun(w wildRouter, c *wildCase, s *wildStep, details bool) error {
	var err error
	var outs []wildOut
	switch s.op.K {
	case "add":
		err = w.add(s.op.S, c.Static, s.op.Ref)
	case "remove":
		err = w.remove(s.id)
	case "disclose":
		w.disclose(s.op.On)
	case "has":
		if has := w.hasOne(s.op.M.F[2].S); has != (s.has == "true") {
			return fmt.Errorf("has %v in one run, %v in the other", s.has, has)
		}
	case "msg":
		m := Msg{T: s.msg.T, F: slices.Clone(s.msg.F), Own: s.msg.Own}
		if f := refField(m.T); f >= 0 {
			m.F[f] = vUint(b.translate(refKind[m.T], m.F[f].Uint()))
		}
		outs, err = w.send(s.id, m.build())
	}
	if s.refused {
		if err == nil && !slices.ContainsFunc(outs, func(o wildOut) bool { return o.Msg.Type() == 8 }) {
			return fmt.Errorf("refused in one run, %s in the other", showOuts(outs))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("gives %s in one run, error %v in the other", showOuts(s.outs), err)
	}
	ok := len(outs) == len(s.outs)
	for j := range s.outs {
		ok = ok && b.sameOut(s.outs[j], outs[j], details)
	}
	if !ok {
		return fmt.Errorf("gives %s in one run, %s in the other", showOuts(s.outs), showOuts(outs))
	}
	return nil
}

var refKind = map[string]string{"UNREGISTER": "registration", "UNSUBSCRIBE": "subscription", "YIELD": "invocation", "ERROR": "invocation"}

func (b *bimap) translate(kind string, id uint64) uint64 {
	if t, ok := b.there[fmt.Sprint(kind, id)]; ok {
		var n uint64
		_, _ = fmt.Sscan(t[len(kind):], &n)
		return n
	}
	return id
}

func newBimap() *bimap { return &bimap{map[string]string{}, map[string]string{}} }

// again runs the steps that keep says on another router and compares.
func again(c *wildCase, steps []wildStep, keep func(s wildStep) bool, details bool, what string) error {
	w := newWildRouter(c.Broker)
	b := newBimap()
	for i := range steps {
		s := &steps[i]
		if keep(*s) {
			if err := b.rerun(w, c, s, details); err != nil {
				return fmt.Errorf("%s: operation %d (%s) %w", what, i, showWild(s.op), err)
			}
			if s.refused {
				continue
			}
		}
		if has := w.has(); has != s.has {
			return fmt.Errorf("%s: after operation %d (%s) the known URIs are %s instead of %s", what, i, showWild(s.op), s.has, has)
		}
	}
	return nil
}

func runRefused(c *wildCase, r *Rec) error {
	steps, err := c.first(r)
	if err != nil {
		return err
	}
	firstRefused, accepted := -1, 0
	for i, s := range steps {
		if s.refused && firstRefused < 0 {
			firstRefused = i
		}
		if firstRefused >= 0 && !s.refused && s.op.K == "msg" && s.id != sidOf(prober) {
			accepted++
		}
	}
	if accepted > 0 {
		r.NonTrivial()
	}
	return again(c, steps, func(s wildStep) bool { return !s.refused }, true, "refused requests have an effect")
}

const refusedRule = "history of messages, many of them unacceptable (unknown sessions, ids of others, repeated and out of order), hostile option values, URIs and " +
	"message types included; run again without the refused ones, every later answer and a final probe of all URIs and invocations have to be the same up to " +
	"ids; non-trivial when a message was accepted after a refused one"

func TestC26_RefusedDealer(t *testing.T) {
	Check(t, Opt{Checks: 6000, Repeat: 5, Rule: refusedRule}, func(t *rapid.T) wildCase { return genWild(t, false, chance(t, "hostile", 60), true) }, runRefused)
}

func TestC26_RefusedBroker(t *testing.T) {
	Check(t, Opt{Checks: 6000, Repeat: 5, Rule: refusedRule}, func(t *rapid.T) wildCase { return genWild(t, true, chance(t, "hostile", 60), true) }, runRefused)
}

func TestC26_ModelDealer(t *testing.T) {
	mix := rpcMix{ops: "RRRRUUCCCCCYYYEEWFFLLLJJD", uris: 4, policies: allPolicies, matches: allMatches, min: 4, max: 60, sessions: 5}
	Check(t, Opt{Checks: 6000, Repeat: 20, Rule: "history on the dealer against its model, with sessions that come and go; non-trivial when something was refused"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error { return runRPC(c, r, "C26", "refused") })
}

func TestC26_ModelBroker(t *testing.T) {
	mix := pubMix{ops: "SSSSUUPPPPFFLLLJJD", topics: 4, matches: allMatches, min: 4, max: 60, sessions: 5, disjoint: 30}
	Check(t, Opt{Checks: 6000, Repeat: 20, Rule: "history on the broker against its model, with sessions that come and go; non-trivial when something was refused"},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error { return runPub(c, r, "C26", "refused") })
}

func runDisclosure(c *wildCase, r *Rec) error {
	steps, err := c.first(r)
	if err != nil {
		r.Label("left: %s", class(err))
		return nil
	}
	on, used := false, false
	for _, s := range steps {
		if s.op.K == "disclose" {
			on = s.op.On
		}
		if on && s.op.K == "msg" && slices.ContainsFunc(s.outs, func(o wildOut) bool { return o.Msg.Type() == 68 || o.Msg.Type() == 36 }) {
			used = true
		}
	}
	if used {
		r.NonTrivial()
	}
	return again(c, steps, func(s wildStep) bool { return s.op.K != "disclose" }, false, "disclosure changes who receives what")
}

const disclosureRule = "history with disclosure switched on and off, run again with it never on: every answer has the same recipients and content but for the " +
	"identity; non-trivial when an event or invocation was made with disclosure on"

func TestC22_SameRecipientsDealer(t *testing.T) {
	Check(t, Opt{Checks: 4000, Repeat: 5, Rule: disclosureRule}, func(t *rapid.T) wildCase { return genWild(t, false, false, true) }, runDisclosure)
}

func TestC22_SameRecipientsBroker(t *testing.T) {
	Check(t, Opt{Checks: 4000, Repeat: 5, Rule: disclosureRule}, func(t *rapid.T) wildCase { return genWild(t, true, false, true) }, runDisclosure)
}

func TestC22_Caller(t *testing.T) {
	mix := rpcMix{ops: "RRRUCCCCCCYLJDDD", uris: 4, policies: allPolicies, matches: allMatches, min: 2, max: 60, sessions: 6, toggle: true}
	Check(t, Opt{Checks: 8000, Repeat: 20, Rule: "history of calls with caller disclosure switched on and off in between, sessions leaving and coming back; every " +
		"invocation's details are compared with the caller and the procedure; non-trivial when there were invocations with and without"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error {
			m, mm := newDealerRun(c, r)
			if mm == nil {
				mm = m.run(c.Ops)
			}
			if m.hist["disclosed"] > 0 && m.hist["undisclosed"] > 0 {
				r.NonTrivial()
			}
			return mm.of("C22", r)
		})
}

func TestC22_Publisher(t *testing.T) {
	mix := pubMix{ops: "SSSUPPPPPPLJDDD", topics: 4, matches: allMatches, min: 2, max: 60, sessions: 6, toggle: true, disjoint: 50}
	Check(t, Opt{Checks: 8000, Repeat: 20, Rule: "history of publications with publisher disclosure switched on and off in between, sessions leaving and coming back; " +
		"every event's details are compared with the publisher and the topic; non-trivial when there were events with and without"},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error {
			m, mm := newBrokerRun(c, r)
			if mm == nil {
				mm = m.run(c.Ops)
			}
			if m.hist["disclosed"] > 0 && m.hist["undisclosed"] > 0 {
				r.NonTrivial()
			}
			return mm.of("C22", r)
		})
}
