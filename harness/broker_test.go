package harness

// The model of the broker, and C13-C15 on it.

import (
	"fmt"
	"maps"
	"slices"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

type pubOp struct {
	K   string `json:"k"`
	S   int    `json:"s"`
	P   string `json:"p,omitempty"`
	M   string `json:"m,omitempty"`
	Req uint64 `json:"req,omitempty"`
	Ack string `json:"ack,omitempty"` // "", "true", "false"
	Ex  string `json:"ex,omitempty"`  // exclude_me: "", "true", "false"
	Ref int    `json:"ref,omitempty"`
	How string `json:"how,omitempty"`
	By  bool   `json:"by,omitempty"`
}

type pubCase struct {
	Attached int     `json:"attached"`
	Disclose bool    `json:"disclose,omitempty"`
	Own      bool    `json:"own,omitempty"` // messages have fields of the application's own
	Spelling string  `json:"spelling,omitempty"`
	Ops      []pubOp `json:"ops"`
}

type pubMix struct {
	ops      string
	topics   int
	matches  []string
	min, max int
	sessions int
	toggle   bool
	// disjoint keeps to subscriptions of which at most one matches a topic
	disjoint int
	oneWild  bool
	crowd    bool // hundreds of sessions and topics
}

var pubKinds = map[byte]string{'J': "join", 'L': "leave", 'S': "subscribe", 'U': "unsubscribe", 'P': "publish", 'D': "disclose", 'F': "foreign"}

func genPub(t *rapid.T, mix pubMix) pubCase {
	n := between(t, "sessions", 1, mix.sessions)
	refs := 64
	if mix.crowd {
		n, refs = pick(t, "sessions", 3, 20, 60, 140, 300, 600, 1050), 1<<12
	}
	c := pubCase{Attached: n, Own: chance(t, "own", 10)}
	if mix.toggle {
		c.Disclose = chance(t, "disclose", 50)
	}
	if chance(t, "late", 20) {
		c.Attached = intn(t, "attached", n)
	}
	wide := chance(t, "wide", 30)
	numbers := 0
	if mix.crowd && chance(t, "numbers", 60) {
		numbers = pick(t, "numbers", 20, 100, manyURIs)
	}
	type decl struct{ p, m string }
	var decls []decl
	var uris []string
	disjoint := chance(t, "disjoint", mix.disjoint)
	taken := map[string]bool{}
	for i := between(t, "decls", 1, mix.topics); i > 0; i-- {
		m := mix.matches[intn(t, "match", len(mix.matches))]
		p := patternsOf[m]
		if m == "wildcard" && mix.oneWild {
			p = p[1:2]
		}
		d := decl{p[intn(t, "uri", len(p))], m}
		if len(decls) > 0 && chance(t, "same topic", 25) {
			if d.p = decls[0].p; m == "wildcard" && !strings.Contains(d.p, "*") {
				d.m = "prefix"
			}
		}
		var hit []string
		clash := false
		for _, u := range concreteURIs {
			if matches(d.m, d.p, u) {
				hit = append(hit, u)
				clash = clash || taken[u]
			}
		}
		if disjoint && clash && !slices.Contains(decls, d) {
			continue
		}
		for _, u := range hit {
			taken[u] = true
		}
		uris = append(uris, hit...)
		decls = append(decls, d)
	}
	if len(uris) == 0 || chance(t, "any topic", 20) {
		uris = concreteURIs
	}
	if mix.crowd {
		mix.max = pick(t, "max", 300, 1000, 3000)
	}
	for i := between(t, "n", mix.min, mix.max); i > 0; i-- {
		o := pubOp{K: pubKinds[mix.ops[intn(t, "op", len(mix.ops))]], S: intn(t, "session", n), Ref: intn(t, "ref", refs)}
		if chance(t, "stranger", 3) {
			o.S = n + intn(t, "stranger", 2)
		}
		number := ""
		if numbers > 0 && chance(t, "numbered", 50) {
			number = numbered(intn(t, "number", numbers))
		}
		switch o.K {
		case "subscribe":
			d := decls[intn(t, "decl", len(decls))]
			o.P, o.M, o.Req = d.p, d.m, reqOf(uint64(between(t, "req", 1, 5)), wide)
			if number != "" {
				o.P, o.M = number, ""
			}
		case "unsubscribe":
			o.How, o.By = pick(t, "how", "live", "live", "live", "live", "any", "bogus"), chance(t, "by", 20)
			o.Req = reqOf(uint64(between(t, "req", 1, 5)), wide)
		case "publish":
			o.P, o.Req = uris[intn(t, "uri", len(uris))], reqOf(uint64(between(t, "req", 1, 5)), wide)
			if number != "" {
				o.P = number
			}
			o.Ack, o.Ex = pick(t, "ack", "", "true", "true", "false"), pick(t, "ex", "", "true", "false", "false")
			o.By = chance(t, "subscriber", 40) // one of the subscribers publishes
		case "foreign":
			o.P = otherTypes[intn(t, "type", len(otherTypes))]
		}
		c.Ops = append(c.Ops, o)
	}
	if mix.crowd {
		for range between(t, "lumps", 0, 2) {
			c.lump(t, n, pubOp{K: "subscribe", P: decls[0].p, M: decls[0].m}, uris)
		}
	}
	c.Spelling = genSpelling(t)
	if slices.ContainsFunc(c.Ops, func(o pubOp) bool { return o.M == "wildcard" }) {
		c.Spelling = plain(c.Spelling)
	}
	for i, o := range c.Ops {
		if o.K == "subscribe" || o.K == "publish" {
			c.Ops[i].P = respell(c.Spelling, o.P)
		}
	}
	return c
}

// lump adds a topic that every session subscribes to, or a session that
// subscribes to hundreds of topics and leaves.
func (c *pubCase) lump(t *rapid.T, n int, first pubOp, uris []string) {
	var more []pubOp
	switch pick(t, "lump", "throng", "hoard") {
	case "throng":
		for i, s := range throng(t, n) {
			o := first
			o.S, o.Req = s, uint64(i%3+1)
			more = append(more, o)
		}
		for i := range between(t, "publications", 0, 4) {
			more = append(more, pubOp{K: "publish", S: i * 7 % n, P: uris[0], Req: uint64(i%7 + 1), Ack: []string{"true", ""}[i%2], Ref: i})
		}
		if chance(t, "withdrawn", 50) {
			// one by one, with an event now and then
			kind := pick(t, "by", "unsubscribe", "leave")
			for i, s := range throng(t, n) {
				more = append(more, pubOp{K: kind, S: s, How: "live", By: true, Ref: i})
				if i%64 == 63 {
					more = append(more, pubOp{K: "publish", S: s, P: uris[0], Req: uint64(i%7 + 1), Ref: i})
				}
			}
		}
	case "hoard":
		s := intn(t, "hoarder", n)
		for i := range pick(t, "hoard", 60, 130, manyURIs) {
			more = append(more, pubOp{K: "subscribe", S: s, P: numbered(i), Req: uint64(i%3 + 1)})
		}
		if chance(t, "leaves", 70) {
			more = append(more, pubOp{K: "leave", S: s})
		}
	}
	c.Ops = insert(t, c.Ops, more...)
}

func matches(match, pattern, uri string) bool {
	switch matchName(match) {
	case "prefix":
		return strings.HasPrefix(uri, pattern)
	case "wildcard":
		return glob(pattern, uri)
	}
	return pattern == uri
}

type mSub struct {
	topic, match string
	given        map[uint64]uint64 // subscribers and the id each was given
}

type brokerRun struct {
	own      bool
	b        *wampproto.Broker
	who      persons
	attached map[uint64]bool
	left     map[uint64]bool
	subs     []*mSub
	former   map[string]map[uint64]bool // "match topic" -> who was subscribed
	given    []uint64
	pubs     map[uint64]bool
	disclose bool
	n        int
	r        *Rec
	seen     map[string]int
	hist     map[string]int // seen before the final probes
	kept     ledger
	watch    *watch
	spelling string
}

func newBrokerRun(c *pubCase, r *Rec) (*brokerRun, *mismatch) {
	m := &brokerRun{b: wampproto.NewBroker(), own: c.Own, spelling: c.Spelling, attached: map[uint64]bool{}, left: map[uint64]bool{},
		former: map[string]map[uint64]bool{}, pubs: map[uint64]bool{}, r: r, seen: map[string]int{}}
	for i := 0; i < c.Attached; i++ {
		if mm := m.join(i); mm != nil {
			return m, mm
		}
	}
	if c.Disclose {
		m.disclose = true
		m.b.AutoDisclosePublisher(true)
	}
	return m, nil
}

func (m *brokerRun) note(what string) { m.seen[what]++ }

func (m *brokerRun) join(i int) *mismatch {
	id := sidOf(i)
	err := m.b.AddSession(m.who.next(i, false))
	if m.attached[id] {
		m.note("refused")
		if err == nil {
			return bad("C26", "attached twice: session %d", id)
		}
		return nil
	}
	if err != nil {
		return bad("C26 C15", "cannot attach: session %d: %v", id, err)
	}
	m.who.entered(i)
	m.attached[id] = true
	return nil
}

func (m *brokerRun) drop(s *mSub, id uint64) {
	delete(s.given, id)
	key := s.match + " " + s.topic
	if m.former[key] == nil {
		m.former[key] = map[uint64]bool{}
	}
	m.former[key][id] = true
	if len(s.given) == 0 {
		m.subs = slices.DeleteFunc(m.subs, func(x *mSub) bool { return x == s })
		m.note("last subscriber goes")
	} else {
		m.note("others stay subscribed")
	}
}

func (m *brokerRun) leave(i int) *mismatch {
	id := sidOf(i)
	err := m.b.RemoveSession(id)
	if !m.attached[id] {
		m.note("refused")
		if err == nil {
			return bad("C26", "removed although not attached: session %d", id)
		}
		return nil
	}
	if err != nil {
		return bad("C26 C15", "cannot leave: session %d: %v", id, err)
	}
	delete(m.attached, id)
	m.left[id] = true
	m.note("leave")
	for _, s := range slices.Clone(m.subs) {
		if s.given[id] != 0 {
			m.note("subscriber leaves")
			m.drop(s, id)
		}
	}
	return nil
}

func (m *brokerRun) subOf(match, topic string) *mSub {
	for _, s := range m.subs {
		if s.topic == topic && s.match == matchName(match) {
			return s
		}
	}
	return nil
}

func (m *brokerRun) send(id uint64, msg messages.Message) (*wampproto.MessageWithRecipient, error, *mismatch) {
	if m.own {
		msg = own(msg)
	}
	m.watch.message("message to the broker", msg)
	out, err := m.b.ReceiveMessage(id, msg)
	if mm := m.watch.last(); mm != nil {
		return out, err, mm
	}
	if err == nil && out != nil {
		m.watch.message("message from the broker", out.Message)
		m.watch.add("answer", func() string { return fmt.Sprintf("%p to %d", out.Message, out.Recipient) })
	}
	if err == nil {
		if out == nil || out.Message == nil {
			return out, err, bad("C26", "neither a message nor an error: for %T", msg)
		}
		if !m.attached[out.Recipient] {
			return out, err, bad("C26", "addressed to a session that is not attached: %s", show(out, nil))
		}
		if out.Recipient != id {
			return out, err, bad("C26 C13", "answer for another session: %s instead of %d", show(out, nil), id)
		}
	}
	return out, err, nil
}

func (m *brokerRun) step(o pubOp) *mismatch {
	m.n++
	id := sidOf(o.S)
	switch o.K {
	case "join":
		return m.join(o.S)
	case "leave":
		return m.leave(o.S)
	case "disclose":
		m.disclose = o.Ref%2 == 0
		m.b.AutoDisclosePublisher(m.disclose)
	case "subscribe":
		return m.subscribe(o, id)
	case "unsubscribe":
		return m.unsubscribe(o, id)
	case "publish":
		return m.publish(o, id)
	case "foreign":
		switch o.P {
		case "SUBSCRIBE", "UNSUBSCRIBE", "PUBLISH":
			return nil
		}
		out, err, mm := m.send(id, simple(o.P, o.Ref))
		if mm != nil {
			return mm
		}
		m.note("refused")
		if !refuses(out, err, id) {
			return bad("C26", "broker accepts a message that is not for it: %s gives %s", o.P, show(out, err))
		}
	}
	return nil
}

func (m *brokerRun) subscribe(o pubOp, id uint64) *mismatch {
	options := map[string]any{}
	if o.M != "" {
		options["match"] = o.M
	}
	out, err, mm := m.send(id, messages.NewSubscribe(o.Req, withOptions(options, "SUBSCRIBE", o.Ref), o.P))
	if mm != nil {
		return mm
	}
	if !m.attached[id] {
		m.note("refused")
		if !refuses(out, err, id) {
			return bad("C26", "subscribe of a session that is not attached: gives %s", show(out, err))
		}
		return nil
	}
	s := m.subOf(o.M, o.P)
	fresh := s == nil
	tags := "C13"
	if m.former[matchName(o.M)+" "+o.P] != nil {
		tags += " C15"
		if fresh {
			m.note("subscribed afresh")
		}
	}
	if err != nil {
		return bad(tags, "subscribe fails: %q match %q: %v", o.P, o.M, err)
	}
	x, ok := out.Message.(*messages.Subscribed)
	if !ok || x.RequestID() != o.Req {
		return bad(tags, "subscribe answered otherwise: %s for request %d", show(out, err), o.Req)
	}
	if x.SubscriptionID() < 1 || x.SubscriptionID() > uint64(maxSafe) {
		return bad("C23", "subscription id out of range: %d", x.SubscriptionID())
	}
	for _, other := range m.subs {
		if other == s {
			continue
		}
		for _, g := range other.given {
			if g == x.SubscriptionID() {
				return bad("C23 C13", "subscription id in use: %d for %q (%s) and %q (%s)", g, o.P, o.M, other.topic, other.match)
			}
		}
	}
	if fresh {
		s = &mSub{topic: o.P, match: matchName(o.M), given: map[uint64]uint64{}}
		m.subs = append(m.subs, s)
	} else if s.given[id] != 0 {
		m.note("subscribed again")
	}
	s.given[id] = x.SubscriptionID()
	m.given = append(m.given, x.SubscriptionID())
	return nil
}

func (m *brokerRun) unsubscribe(o pubOp, id uint64) *mismatch {
	sub := uint64(1<<50) + uint64(o.Ref)
	switch o.How {
	case "live":
		type held struct{ s, sub uint64 }
		var all []held
		for _, s := range m.subs {
			for _, id := range sorted(s.given) {
				all = append(all, held{id, s.given[id]})
			}
		}
		if len(all) > 0 {
			h := all[o.Ref%len(all)]
			sub = h.sub
			if !o.By {
				id = h.s
			}
		}
	case "any":
		if len(m.given) > 0 {
			sub = m.given[o.Ref%len(m.given)]
		}
	}
	var hit *mSub
	for _, s := range m.subs {
		if s.given[id] == sub {
			hit = s
		}
	}
	out, err, mm := m.send(id, messages.NewUnsubscribe(o.Req, sub))
	if mm != nil {
		return mm
	}
	if hit == nil || !m.attached[id] {
		m.note("refused")
		m.note("unsubscribe refused")
		if !refuses(out, err, id) {
			return bad("C15 C26", "unsubscribe of what the session does not hold: session %d subscription %d gives %s", id, sub, show(out, err))
		}
		return nil
	}
	if err != nil {
		return bad("C15", "unsubscribe fails: session %d subscription %d to %q: %v", id, sub, hit.topic, err)
	}
	u, ok := out.Message.(*messages.Unsubscribed)
	if !ok || u.RequestID() != o.Req {
		return bad("C15", "unsubscribe answered otherwise: session %d subscription %d to %q: %s", id, sub, hit.topic, show(out, err))
	}
	m.note("unsubscribe")
	m.drop(hit, id)
	return nil
}

func sorted[V any](m map[uint64]V) []uint64 { return slices.Sorted(maps.Keys(m)) }

// candidates lists the subscriptions a topic matches, and the groups of them
// an event may be for: the exact one, else the longest prefix, else any
// matching wildcard.
func (m *brokerRun) candidates(topic string) (all, best []*mSub) {
	var prefix *mSub
	var exact *mSub
	var wild []*mSub
	for _, s := range m.subs {
		if !matches(s.match, s.topic, topic) {
			continue
		}
		all = append(all, s)
		switch s.match {
		case "exact":
			exact = s
		case "prefix":
			if prefix == nil || len(s.topic) > len(prefix.topic) {
				prefix = s
			}
		default:
			wild = append(wild, s)
		}
	}
	switch {
	case exact != nil:
		best = []*mSub{exact}
	case prefix != nil:
		best = []*mSub{prefix}
	default:
		best = wild
	}
	return all, best
}

func (m *brokerRun) publish(o pubOp, id uint64) *mismatch {
	all, best := m.candidates(o.P)
	if o.By && len(best) > 0 {
		ids := sorted(best[0].given)
		id = ids[o.Ref%len(ids)]
	}
	options := map[string]any{}
	if o.Ack != "" {
		options["acknowledge"] = o.Ack == "true"
	}
	if o.Ex != "" {
		options["exclude_me"] = o.Ex == "true"
		if o.Ex == "true" && o.Ref%9 == 4 { // no boolean, so not set
			options["exclude_me"] = []any{0, "false", nil, uint64(0), 0.0}[o.Ref/9%5]
		}
	}
	args, kwargs := tokenArgs(m.n, o.Ref)
	request := messages.NewPublish(o.Req, withOptions(options, "PUBLISH", o.Ref), o.P, args, kwargs)
	if m.own {
		request = own(request).(*messages.Publish)
	}
	m.watch.message("message to the broker", request)
	out, err := m.b.ReceivePublish(id, request)
	if mm := m.watch.last(); mm != nil {
		return mm
	}
	if err == nil && out != nil {
		m.watch.add("publication", func() string {
			return fmt.Sprintf("to %v, event %p, acknowledgement %v", out.Recipients, out.Event, out.Ack)
		})
		if out.Event != nil {
			m.watch.message("event from the broker", out.Event)
		}
		if out.Ack != nil {
			m.watch.message("message from the broker", out.Ack.Message)
		}
	}
	args, kwargs = tokenArgs(m.n, o.Ref)
	if !m.attached[id] {
		m.note("refused")
		if err == nil {
			return bad("C26", "publish of a session that is not attached: accepted")
		}
		return nil
	}
	if err != nil || out == nil {
		return bad("C13 C14 C26", "publish fails: %q: %v", o.P, err)
	}
	for _, x := range out.Recipients {
		if !m.attached[x] {
			tags := "C26 C13"
			if m.left[x] {
				tags += " C15"
			}
			return bad(tags, "event for a session that is not attached: %d for %q", x, o.P)
		}
	}
	// who is to receive it
	expect := func(subs []*mSub) []uint64 {
		set := map[uint64]bool{}
		for _, s := range subs {
			for g := range s.given {
				if g != id || o.Ex == "false" {
					set[g] = true
				}
			}
		}
		return sorted(set)
	}
	got := slices.Clone(out.Recipients)
	slices.Sort(got)
	var via []*mSub
	for _, s := range best {
		if slices.Equal(got, expect([]*mSub{s})) {
			via = append(via, s)
		}
	}
	union := slices.Equal(got, expect(all))
	if !union && len(via) == 0 {
		tags := "C13"
		for _, g := range got {
			for _, s := range patternKeys(m.former, g, o.P) {
				_ = s
				if !slices.Contains(expect(all), g) && g != id {
					tags = "C13 C15"
				}
			}
		}
		for _, g := range expect(all) {
			if !slices.Contains(got, g) && m.touched(all) {
				tags = "C13 C15"
			}
		}
		for i := range got {
			if i > 0 && got[i] == got[i-1] {
				return bad(tags, "delivered twice: %v get %q", got, o.P)
			}
		}
		want := expect(all)
		if len(best) > 0 && len(all) > 1 {
			return bad(tags, "wrong recipients: %v get %q published by %d (exclude_me %q) instead of %v, or only %v", got, o.P, id, o.Ex,
				want, expect(best[:1]))
		}
		return bad(tags, "wrong recipients: %v get %q published by %d (exclude_me %q) instead of %v", got, o.P, id, o.Ex, want)
	}
	if len(all) > 1 {
		m.note("overlapping subscriptions")
	}
	if len(all) > 0 {
		m.note("matched " + all[0].match)
		if slices.ContainsFunc(all, func(s *mSub) bool { return s.given[id] != 0 }) {
			m.note("published by a subscriber, exclude_me " + o.Ex)
		}
		if len(got) > 1 {
			m.note("several recipients")
		}
	} else {
		m.note("nobody subscribed")
	}
	pub := uint64(0)
	if len(got) > 0 {
		if out.Event == nil {
			return bad("C13", "recipients without an event: %v", got)
		}
		e := out.Event
		m.kept.keep(e, "C14")
		for _, s := range via {
			if slices.ContainsFunc(got, func(g uint64) bool { return s.given[g] != e.SubscriptionID() }) {
				continue
			}
			via = []*mSub{s}
			break
		}
		if len(all) == 1 || !union {
			for _, g := range got {
				if !slices.ContainsFunc(via, func(s *mSub) bool { return s.given[g] == e.SubscriptionID() }) {
					tags := "C13"
					if m.touched(all) {
						tags += " C15"
					}
					return bad(tags, "subscription id: the event of %q has %d, session %d was given %v", o.P, e.SubscriptionID(), g, showSubs(best))
				}
			}
		}
		if !samePayload(e.Args(), args, e.KwArgs(), kwargs) {
			return bad("C14", "publication altered: %s %s instead of %s %s", canonList(e.Args()), canonMap(e.KwArgs()), canonList(args), canonMap(kwargs))
		}
		pub = e.PublicationID()
		if mm := m.freshPub(pub); mm != nil {
			return mm
		}
		m.note("delivered")
		if m.disclose {
			m.note("disclosed")
		} else {
			m.note("undisclosed")
		}
		if mm := disclosed(e.Details(), m.disclose, "topic", o.P, "publisher", id, m.who.of(id)); mm != nil {
			return mm
		}
	}
	if o.Ack != "true" {
		if out.Ack != nil && out.Ack.Message != nil {
			return bad("C14", "acknowledged unasked: %s", show(out.Ack, nil))
		}
		return nil
	}
	if out.Ack == nil || out.Ack.Message == nil {
		return bad("C14", "not acknowledged: publication to %q with %d recipients", o.P, len(got))
	}
	a, ok := out.Ack.Message.(*messages.Published)
	if !ok || a.RequestID() != o.Req || out.Ack.Recipient != id {
		return bad("C14", "wrong acknowledgement: %s instead of PUBLISHED for request %d of %d", show(out.Ack, nil), o.Req, id)
	}
	if pub != 0 && a.PublicationID() != pub {
		return bad("C14", "acknowledged with another publication id: %d instead of %d", a.PublicationID(), pub)
	}
	m.note("acknowledged")
	if pub == 0 {
		m.note("acknowledged without recipients")
		return m.freshPub(a.PublicationID())
	}
	return nil
}

func (m *brokerRun) freshPub(id uint64) *mismatch {
	if id < 1 || id > uint64(maxSafe) {
		return bad("C23 C14", "publication id out of range: %d", id)
	}
	if m.pubs[id] {
		return bad("C23 C14", "publication id used again: %d", id)
	}
	m.pubs[id] = true
	return nil
}

// touched: somebody left one of these subscriptions before.
func (m *brokerRun) touched(subs []*mSub) bool {
	return slices.ContainsFunc(subs, func(s *mSub) bool { return m.former[s.match+" "+s.topic] != nil })
}

func patternKeys(former map[string]map[uint64]bool, id uint64, topic string) []string {
	var keys []string
	for k, f := range former {
		match, p, _ := strings.Cut(k, " ")
		if f[id] && matches(match, p, topic) {
			keys = append(keys, k)
		}
	}
	return keys
}

func showSubs(subs []*mSub) string {
	var s []string
	for _, x := range subs {
		s = append(s, fmt.Sprintf("%s %q %v", x.match, x.topic, x.given))
	}
	return strings.Join(s, " or ")
}

func (m *brokerRun) known() *mismatch {
	for _, list := range []string{"exact", "prefix", "wildcard"} {
		for _, p := range patternsOf[list] {
			p = respell(m.spelling, p)
			want := slices.ContainsFunc(m.subs, func(s *mSub) bool { return s.topic == p })
			if has := m.b.HasSubscription(p); has != want {
				return bad("C15", "HasSubscription: %v for %q, subscriptions %s", has, p, showSubs(m.subs))
			}
		}
	}
	return nil
}

func (m *brokerRun) run(ops []pubOp) *mismatch {
	for i, o := range ops {
		mm := m.step(o)
		if mm == nil {
			mm = m.known()
		}
		if mm != nil {
			mm.err = fmt.Errorf("%w (operation %d, %+v)", mm.err, i, o)
			return mm
		}
	}
	m.hist = maps.Clone(m.seen)
	for k := range m.seen {
		m.r.Label("%s", k)
	}
	prober := len(sessionIDs) - 1
	if !m.attached[sidOf(prober)] {
		if mm := m.join(prober); mm != nil {
			return mm
		}
	}
	probed := slices.Clone(concreteURIs)
	for i := range probed {
		probed[i] = respell(m.spelling, probed[i])
	}
	for _, o := range ops {
		if o.K == "subscribe" && isNumbered(o.P) && !slices.Contains(probed, o.P) {
			probed = append(probed, o.P)
		}
	}
	for _, p := range probed {
		want := slices.ContainsFunc(m.subs, func(s *mSub) bool { return s.topic == p })
		if has := m.b.HasSubscription(p); has != want {
			return bad("C15", "HasSubscription: %v for %q, subscriptions %s", has, p, showSubs(m.subs))
		}
	}
	for i, uri := range probed {
		for again := 0; again < 2; again++ {
			o := pubOp{K: "publish", S: prober, P: uri, Req: uint64(1000 + i), Ack: []string{"true", ""}[again], Ex: "false", Ref: i + 1}
			if mm := m.step(o); mm != nil {
				mm.err = fmt.Errorf("%w (probe of %q)", mm.err, uri)
				return mm
			}
		}
	}
	if mm := m.watch.all(); mm != nil {
		return mm
	}
	return m.kept.check()
}

func runPub(c *pubCase, r *Rec, prop string, nontrivial ...string) error {
	m, mm := newBrokerRun(c, r)
	if mm == nil {
		mm = m.run(c.Ops)
	}
	for _, n := range nontrivial {
		if m.hist[n] > 0 {
			r.NonTrivial()
		}
	}
	return mm.of(prop, r)
}

func TestC13_Delivery(t *testing.T) {
	mix := pubMix{ops: "SSSSSUUPPPPPPPPLJD", topics: 6, matches: []string{"", "exact", "prefix", "prefix", "wildcard"}, min: 2, max: 60, sessions: 6,
		disjoint: 60}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history of subscribe/unsubscribe/publish/join/leave by up to 6 sessions under all match policies, then a " +
		"probe of every topic; in 60% of the cases at most one subscription matches a topic, in the others several may; non-trivial when an " +
		"event went to several sessions, or its publisher was subscribed"},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error {
			return runPub(c, r, "C13", "several recipients", "published by a subscriber, exclude_me ", "published by a subscriber, exclude_me true",
				"published by a subscriber, exclude_me false")
		})
}

func TestC13_Patterns(t *testing.T) {
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: patRule}, genPat, func(c *patCase, r *Rec) error {
		b := wampproto.NewBroker()
		regs := c.regs()
		for i := range regs {
			regs[i].s = uint64(i + 1)
			if err := b.AddSession(wampproto.NewSessionDetails(regs[i].s, "r", "x", "y", "anonymous", false, nil, nil)); err != nil {
				return err
			}
			out, err := b.ReceiveMessage(regs[i].s, messages.NewSubscribe(uint64(i+1), map[string]any{"match": regs[i].m}, regs[i].p))
			if err != nil {
				return fmt.Errorf("subscribe fails: %w", err)
			}
			x, ok := out.Message.(*messages.Subscribed)
			if !ok {
				return fmt.Errorf("subscribe refused: %s", show(out, err))
			}
			regs[i].id = x.SubscriptionID()
		}
		if err := b.AddSession(wampproto.NewSessionDetails(1000, "r", "x", "y", "anonymous", false, nil, nil)); err != nil {
			return err
		}
		for round := 0; round < 2; round++ {
			all, want := c.best(regs)
			if len(all) >= 2 {
				r.NonTrivial()
			}
			r.Label("%d match", min(len(all), 4))
			out, err := b.ReceivePublish(1000, messages.NewPublish(uint64(77+round), map[string]any{}, c.URI, []any{"x"}, nil))
			if err != nil {
				return fmt.Errorf("publish fails: %w", err)
			}
			got := slices.Clone(out.Recipients)
			slices.Sort(got)
			var union []uint64
			for _, g := range all {
				union = append(union, g.s)
			}
			slices.Sort(union)
			ok := slices.Equal(got, union)
			if !ok && len(got) == 1 {
				ok = slices.ContainsFunc(want, func(g patReg) bool { return g.s == got[0] })
			}
			if !ok {
				return fmt.Errorf("wrong recipients: %v get %q, should be %v (or %v) of %v", got, c.URI, all, want, regs)
			}
			if len(got) == 1 && out.Event.SubscriptionID() != regs[slices.IndexFunc(regs, func(g patReg) bool { return g.s == got[0] })].id {
				return fmt.Errorf("subscription id: %d for session %d of %v", out.Event.SubscriptionID(), got[0], regs)
			}
			for i := range regs {
				if c.Gone>>i&1 == 1 && regs[i].s != 0 {
					if i%2 == 0 {
						err = b.RemoveSession(regs[i].s)
					} else {
						_, err = b.ReceiveMessage(regs[i].s, messages.NewUnsubscribe(9, regs[i].id))
					}
					if err != nil {
						return fmt.Errorf("withdrawal fails: %w", err)
					}
					regs[i].s = 0
				}
			}
		}
		return nil
	})
}

// With subscriptions that overlap, an event reaches the subscribers of only
// one of them.
func TestC13_KnownOverlap(t *testing.T) {
	Known(t, "overlapping-subscriptions", func() bool {
		b := wampproto.NewBroker()
		for i := 1; i <= 3; i++ {
			_ = b.AddSession(wampproto.NewSessionDetails(uint64(i), "r", "x", "y", "anonymous", false, nil, nil))
		}
		_, _ = b.ReceiveMessage(1, messages.NewSubscribe(1, map[string]any{}, "a.b"))
		_, _ = b.ReceiveMessage(2, messages.NewSubscribe(1, map[string]any{"match": "prefix"}, "a."))
		p, err := b.ReceivePublish(3, messages.NewPublish(1, nil, "a.b", nil, nil))
		return err == nil && p != nil && slices.Equal(p.Recipients, []uint64{1})
	})
}

func TestC14_Publications(t *testing.T) {
	mix := pubMix{ops: "SSSUPPPPPPPPPPPPPLJD", topics: 3, matches: []string{"", "prefix", "wildcard"}, toggle: true, min: 2, max: 60, sessions: 4, disjoint: 50}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history of publications with and without acknowledge and exclude_me, payloads present and absent, to topics with " +
		"and without subscribers; non-trivial when an event was delivered and an acknowledgement given"},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error {
			m, mm := newBrokerRun(c, r)
			if mm == nil {
				mm = m.run(c.Ops)
			}
			if m.hist["delivered"] > 0 && m.hist["acknowledged"] > 0 {
				r.NonTrivial()
			}
			return mm.of("C14", r)
		})
}

// publishFields is a PUBLISH as another implementation of the fields gives it.
type publishFields struct {
	messages.PublishFields
	args   []any
	kwargs map[string]any
}

func (p *publishFields) Args() []any            { return p.args }
func (p *publishFields) KwArgs() map[string]any { return p.kwargs }

func TestC14_Content(t *testing.T) {
	type c14 struct {
		Args   V    `json:"args"`
		Kw     V    `json:"kw"`
		Prefix bool `json:"prefix"`
		N      int  `json:"n"`
		Fields bool `json:"fields"`
	}
	Check(t, Opt{Checks: 6000, Rule: "a publication with a generated payload (any nesting, absent, empty) to 1-4 subscribers, built by the constructor or " +
		"with other PublishFields; event and publication compared; non-trivial unless the payload is empty"},
		func(t *rapid.T) c14 {
			return c14{Prefix: chance(t, "prefix", 50), N: between(t, "n", 1, 4), Fields: chance(t, "fields", 30),
				Args: genArgs(t, fmtCBOR), Kw: genKwargs(t, fmtCBOR)}
		},
		func(c *c14, r *Rec) error {
			args, _ := c.Args.Go().([]any)
			kwargs, _ := c.Kw.Go().(map[string]any)
			if len(args)+len(kwargs) > 0 {
				r.NonTrivial()
			}
			before := canonList(args) + canonMap(kwargs)
			b := wampproto.NewBroker()
			match, topic := "exact", "a.b"
			if c.Prefix {
				match, topic = "prefix", "a"
			}
			for i := 0; i <= c.N; i++ {
				if err := b.AddSession(detailsOf(i, i%2 == 1)); err != nil {
					return err
				}
				if i == 0 {
					continue
				}
				if _, err := b.ReceiveMessage(sidOf(i), messages.NewSubscribe(1, map[string]any{"match": match}, topic)); err != nil {
					return err
				}
			}
			pub := messages.NewPublish(5, map[string]any{}, "a.b", args, kwargs)
			if c.Fields {
				inner := messages.NewPublish(5, map[string]any{}, "a.b", nil, nil)
				pub = messages.NewPublishWithFields(&publishFields{inner, args, kwargs})
			}
			out, err := b.ReceivePublish(sidOf(0), pub)
			if err != nil || out.Event == nil || len(out.Recipients) != c.N {
				return fmt.Errorf("publish fails: %+v, %v", out, err)
			}
			if got := canonList(out.Event.Args()) + canonMap(out.Event.KwArgs()); got != before {
				return fmt.Errorf("publication altered: %s instead of %s", got, before)
			}
			if (out.Event.Args() == nil) != (args == nil) && len(out.Event.KwArgs()) == 0 {
				r.Label("absent and empty differ")
			}
			return nil
		})
}

func TestC15_Withdrawal(t *testing.T) {
	mix := pubMix{ops: "SSSSSSSUUUUULLJJPPPP", topics: 4, matches: []string{"", "exact", "prefix", "wildcard"}, min: 4, max: 80, sessions: 6, disjoint: 60}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history of subscribing, unsubscribing (held, foreign, past and made-up ids), leaving and coming back, with " +
		"HasSubscription asked after every step and publications in between and at the end; non-trivial when one subscriber went and others stayed, " +
		"or a topic was subscribed again after its last subscriber had gone"},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error {
			return runPub(c, r, "C15", "others stay subscribed", "subscribed afresh")
		})
}
