package harness

// C24: operations that overlap in time are run from several goroutines (built
// with the race detector), then an order of them is searched in which a second
// instance, driven by one goroutine, gives the same results.

import (
	"fmt"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/internal"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"pgregory.net/rapid"
)

// during is when an operation ran. The clock is used and not a counter, since a
// counter would order the goroutines for the race detector.
type during struct{ call, ret time.Time }

// together runs do(g, i) for the i-th operation of each goroutine, all
// goroutines starting at once.
func together(counts []int, do func(g, i int)) [][]during {
	spans := make([][]during, len(counts))
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for g, n := range counts {
		spans[g] = make([]during, n)
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			ready.Done()
			<-start
			for i := 0; i < n; i++ {
				spans[g][i].call = time.Now()
				do(g, i)
				spans[g][i].ret = time.Now()
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	return spans
}

func overlapping(spans [][]during) int {
	n := 0
	for g := range spans {
		for h := range spans[:g] {
			for _, a := range spans[g] {
				for _, b := range spans[h] {
					if a.call.Before(b.ret) && b.call.Before(a.ret) {
						n++
					}
				}
			}
		}
	}
	return n
}

// linearizable searches an order of the operations, consistent with the order
// of those that did not overlap, that mk's fresh instance agrees with: its
// function runs the i-th operation of goroutine g and reports whether the
// outcome is as recorded; final reports on the state after all.
func linearizable(spans [][]during, mk func() (step func(g, i int) bool, final func() bool)) bool {
	next := make([]int, len(spans))
	total := 0
	for _, s := range spans {
		total += len(s)
	}
	var order [][2]int
	tried := 0
	var search func() bool
	search = func() bool {
		if tried++; tried > 60000 {
			panic("HARNESS-ERROR: too many orders")
		}
		step, final := mk()
		for _, o := range order {
			if !step(o[0], o[1]) {
				return false
			}
		}
		if len(order) == total {
			return final()
		}
		// candidates: operations that no remaining one precedes, likeliest first
		var cand []int
		for g := range spans {
			if next[g] == len(spans[g]) {
				continue
			}
			first := true
			for h := range spans {
				if h != g && next[h] < len(spans[h]) && spans[h][next[h]].ret.Before(spans[g][next[g]].call) {
					first = false
				}
			}
			if first {
				cand = append(cand, g)
			}
		}
		slices.SortFunc(cand, func(g, h int) int { return spans[g][next[g]].ret.Compare(spans[h][next[h]].ret) })
		for _, g := range cand {
			order = append(order, [2]int{g, next[g]})
			next[g]++
			if search() {
				return true
			}
			next[g]--
			order = order[:len(order)-1]
		}
		return false
	}
	return search()
}

const linRule = "a random history to set up, then 2-4 goroutines with 1-4 operations each at once (their messages pause in the middle of being handled), then a " +
	"probe of the whole state; some sequential order consistent with real time gives the same results on a second instance; non-trivial when operations " +
	"overlapped in time"

// ------------------------------------------------------------ broker, dealer

type parOp struct {
	O     wildOp `json:"o"`
	Pause int    `json:"pause,omitempty"`
}

type parCase struct {
	W   wildCase  `json:"w"`
	Par [][]parOp `json:"par"`
}

func genPar(t *rapid.T, broker bool) parCase {
	c := parCase{W: genWild(t, broker, false, true)}
	if n := intn(t, "setup", 14); n < len(c.W.Ops) {
		c.W.Ops = c.W.Ops[:n]
	}
	// all of a case's operations come from the same small world
	more := genWild(t, broker, false, true).Ops
	has := func() wildOp {
		return wildOp{K: "has", M: &Msg{T: "SUBSCRIBE", F: []V{vUint(1), vNil(), vStr(concreteURIs[intn(t, "uri", 6)])}}}
	}
	g := between(t, "goroutines", 2, 4)
	max := []int{0, 0, 4, 3, 2}[g]
	focus := pick(t, "focus", "", "", "same", "sameURI")
	var uri *V
	for i := 0; i < g; i++ {
		var l []parOp
		for n := between(t, "n", 1, max); n > 0; n-- {
			o := has()
			if len(more) > 0 && !chance(t, "has", 8) {
				o = more[0]
				if focus == "same" {
					if len(more) > 1 && chance(t, "next", 30) {
						more = more[1:]
					}
				} else {
					more = more[1:]
				}
			}
			if focus == "sameURI" && o.M != nil && len(o.M.F) > 2 && o.M.F[2].K == "string" && o.K == "msg" && !hasWildcard(o.M) {
				m := Msg{T: o.M.T, F: slices.Clone(o.M.F), Own: o.M.Own}
				if uri == nil {
					uri = &m.F[2]
				}
				m.F[2] = *uri
				o.M = &m
			}
			l = append(l, parOp{o, intn(t, "pause", 4)})
		}
		c.Par = append(c.Par, l)
	}
	// one wildcard pattern only
	pattern := ""
	each := func(o *wildOp) {
		if o.M == nil || !hasWildcard(o.M) {
			return
		}
		if pattern == "" {
			pattern = o.M.F[2].S
		}
		m := Msg{T: o.M.T, F: slices.Clone(o.M.F), Own: o.M.Own}
		m.F[2] = vStr(pattern)
		o.M = &m
	}
	for i := range c.W.Ops {
		each(&c.W.Ops[i])
	}
	for g := range c.Par {
		for i := range c.Par[g] {
			each(&c.Par[g][i].O)
		}
	}
	return c
}

func hasWildcard(m *Msg) bool {
	if len(m.F) < 3 || m.F[1].K != "map" {
		return false
	}
	for i, k := range m.F[1].M {
		if k == "match" && m.F[1].L[i].S == "wildcard" {
			return true
		}
	}
	return false
}

func (c *parCase) run(r *Rec) error {
	// set up once for the concurrent run, and record what is there to refer to
	w := newWildRouter(c.W.Broker)
	setup := wildRun{c: &c.W, w: w, live: map[int][]handed{}}
	for i := 0; i < c.W.Start; i++ {
		setup.apply(wildOp{K: "add", S: i}, 0)
	}
	for _, o := range c.W.Ops {
		setup.apply(o, 0)
	}
	pre := setup.steps
	counts := make([]int, len(c.Par))
	steps := make([][]wildStep, len(c.Par))
	runs := make([]wildRun, len(c.Par))
	for g := range c.Par {
		counts[g] = len(c.Par[g])
		runs[g] = wildRun{c: &c.W, w: w, live: map[int][]handed{0: slices.Clone(setup.live[0]), 1: slices.Clone(setup.live[1])}}
	}
	spans := together(counts, func(g, i int) {
		runs[g].apply(c.Par[g][i].O, pause(c.Par[g][i].Pause))
		// the receivers look at what they get at once
		for _, x := range runs[g].steps[i].outs {
			_ = canonStripped(x.Msg)
		}
	})
	// then everything there is, one by one
	after := wildRun{c: &c.W, w: w, live: setup.live}
	for g := range runs {
		steps[g] = runs[g].steps
		for _, s := range steps[g] {
			after.remember(s.outs)
		}
	}
	probes := []wildOp{{K: "add", S: prober}}
	for i, u := range concreteURIs {
		m := Msg{T: "PUBLISH", F: []V{vUint(uint64(900 + i)), {K: "map", M: []string{"acknowledge", "exclude_me"}, L: []V{vBool(true), vBool(false)}},
			vStr(u), vNil(), vNil()}}
		if !c.W.Broker {
			m = Msg{T: "CALL", F: []V{vUint(uint64(900 + i)), vNil(), vStr(u), vNil(), vNil()}}
		}
		probes = append(probes, wildOp{K: "msg", S: prober, M: &m}, wildOp{K: "has", M: &Msg{T: "SUBSCRIBE", F: []V{vUint(1), vNil(), vStr(u)}}})
		if !c.W.Broker {
			probes = append(probes, wildOp{K: "msg", S: prober, M: &m})
		}
	}
	for _, o := range probes {
		after.apply(o, 0)
	}
	for i := 1; i <= len(after.live[1]); i++ {
		if i%6 != 0 {
			after.apply(wildOp{K: "msg", M: &Msg{T: "YIELD", F: []V{vUint(0), vNil(), vNil(), vNil()}}, Ref: i}, 0)
		}
	}
	for s := 0; s < 5; s++ {
		after.apply(wildOp{K: "remove", S: s}, 0)
	}
	if n := overlapping(spans); n > 0 {
		r.NonTrivial()
		r.Label("overlapping")
	}
	var last error
	ok := linearizable(spans, func() (func(g, i int) bool, func() bool) {
		w := newWildRouter(c.W.Broker)
		b := newBimap()
		for i := range pre {
			if err := b.rerun(w, &c.W, &pre[i], true); err != nil {
				panic("HARNESS-ERROR: setup is not deterministic: " + err.Error())
			}
		}
		return func(g, i int) bool {
				err := b.rerun(w, &c.W, &steps[g][i], true)
				if err != nil {
					last = fmt.Errorf("goroutine %d operation %d (%s) %w", g, i, showWild(steps[g][i].op), err)
				}
				return err == nil
			}, func() bool {
				for i := range after.steps {
					if err := b.rerun(w, &c.W, &after.steps[i], true); err != nil {
						last = fmt.Errorf("afterwards %s %w", showWild(after.steps[i].op), err)
						return false
					}
				}
				return true
			}
	})
	if !ok {
		return fmt.Errorf("no sequential order explains the outcome: e.g. %w; %s", last, c.show(steps))
	}
	return nil
}

func (c *parCase) show(steps [][]wildStep) string {
	s := ""
	for g := range steps {
		for _, x := range steps[g] {
			s += fmt.Sprintf("[%d: %s -> %s refused %v %s] ", g, showWild(x.op), showOuts(x.outs), x.refused, x.has)
		}
	}
	return s
}

type handed struct{ to, id uint64 }

// wildRun runs operations without judging them.
type wildRun struct {
	c     *wildCase
	w     wildRouter
	live  map[int][]handed
	steps []wildStep
}

func (x *wildRun) remember(outs []wildOut) {
	for _, o := range outs {
		switch y := o.Msg.(type) {
		case *messages.Registered:
			x.live[0] = append(x.live[0], handed{o.To, y.RegistrationID()})
		case *messages.Subscribed:
			x.live[0] = append(x.live[0], handed{o.To, y.SubscriptionID()})
		case *messages.Invocation:
			x.live[1] = append(x.live[1], handed{o.To, y.RequestID()})
		}
	}
}

func (x *wildRun) apply(o wildOp, p pause) {
	s := wildStep{op: o, id: sidOf(o.S)}
	var err error
	switch o.K {
	case "add":
		err = x.w.add(o.S, x.c.Static, o.Ref)
	case "remove":
		err = x.w.remove(s.id)
	case "disclose":
		x.w.disclose(o.On)
	case "has":
		s.has = fmt.Sprint(x.w.hasOne(o.M.F[2].S))
	case "msg":
		m := Msg{T: o.M.T, F: slices.Clone(o.M.F), Own: o.M.Own}
		list := x.live[0]
		if m.T == "YIELD" || m.T == "ERROR" {
			list = x.live[1]
		}
		if f := refField(m.T); f >= 0 && o.Ref > 0 && len(list) > 0 {
			l := list[len(list)-1-o.Ref%len(list)]
			m.F[f] = vUint(l.id)
			if o.Ref%6 != 0 {
				s.id = l.to
			}
		}
		s.msg = &m
		s.outs, err = x.w.send(s.id, slow(m.build(), p))
		for _, y := range s.outs {
			if _, ok := y.Msg.(*messages.Error); ok && m.T != "ERROR" && y.To == s.id {
				s.refused = true
			}
		}
		if !s.refused {
			x.remember(s.outs)
		}
	}
	s.refused = s.refused || err != nil
	x.steps = append(x.steps, s)
}

func TestC24_Dealer(t *testing.T) {
	Check(t, Opt{Checks: 3000, Rule: linRule, Repeat: 400},
		func(t *rapid.T) parCase { return genPar(t, false) }, func(c *parCase, r *Rec) error { return c.run(r) })
}

func TestC24_Broker(t *testing.T) {
	Check(t, Opt{Checks: 3000, Rule: linRule, Repeat: 400},
		func(t *rapid.T) parCase { return genPar(t, true) }, func(c *parCase, r *Rec) error { return c.run(r) })
}

// ------------------------------------------------------------------- session

type parSess struct {
	Format string     `json:"format"`
	Bytes  bool       `json:"bytes"`
	Setup  []sessOp   `json:"setup"`
	Par    [][]sessOp `json:"par"`
	Pause  []int      `json:"pause"`
}

// slowSerializer pauses before and after its work.
type slowSerializer struct {
	serializers.Serializer
	p pause
}

func (s slowSerializer) Serialize(m messages.Message) ([]byte, error) {
	defer s.p.hit()
	return s.Serializer.Serialize(m)
}

func (s slowSerializer) Deserialize(b []byte) (messages.Message, error) {
	defer s.p.hit()
	return s.Serializer.Deserialize(b)
}

func genParSess(t *rapid.T) parSess {
	s := genSessCase(t)
	c := parSess{Format: s.Format, Bytes: s.Bytes}
	cut := min(intn(t, "setup", 16), len(s.Ops))
	c.Setup = s.Ops[:cut]
	rest := s.Ops[cut:]
	g := between(t, "goroutines", 2, 4)
	max := []int{0, 0, 4, 3, 2}[g]
	same := chance(t, "same", 40)
	for i := 0; i < g; i++ {
		var l []sessOp
		for n := between(t, "n", 1, max); n > 0; n-- {
			if len(rest) == 0 {
				rest = s.Ops
			}
			o := rest[0]
			if !same || chance(t, "next", 40) {
				rest = rest[1:]
			}
			l = append(l, o)
		}
		c.Par = append(c.Par, l)
		c.Pause = append(c.Pause, intn(t, "pause", 4))
	}
	return c
}

func (o sessOp) apply(s *wampproto.Session, bytes bool, wire serializers.Serializer, p pause) string {
	m := o.msg()
	if o.K[:4] == "SEND" {
		data, err := s.SendMessage(slow(m, p))
		if err != nil {
			return "refused"
		}
		sent, err := wire.Deserialize(data)
		if err != nil {
			return "unreadable: " + err.Error()
		}
		return canon(stripped(sent))
	}
	var got messages.Message
	var err error
	if bytes {
		got, err = s.Receive(must(wire.Serialize(m)))
	} else {
		got, err = s.ReceiveMessage(slow(m, p))
	}
	if err != nil {
		return "refused"
	}
	return canon(stripped(got))
}

// everyReply is what a session accepts, and still accepts after that.
func everyReply(s *wampproto.Session, wire serializers.Serializer) []string {
	var out []string
	try := func(o sessOp) { out = append(out, o.apply(s, false, wire, 0)) }
	for _, ref := range []uint64{1, 2, 3} {
		try(sessOp{K: "RECV EVENT", ID: 1, R: ref})
		try(sessOp{K: "RECV INVOCATION", ID: 1, R: ref})
	}
	for _, id := range []uint64{1, 2, 3, 4, 1 << 53} {
		try(sessOp{K: "RECV RESULT", ID: id, P: true})
		for _, k := range []string{"UNREGISTERED", "UNSUBSCRIBED", "PUBLISHED"} {
			try(sessOp{K: "RECV " + k, ID: id})
		}
		for _, code := range []uint64{48, 64, 66, 32, 34, 16} {
			try(sessOp{K: "RECV ERROR", ID: id, R: code})
		}
	}
	for _, ref := range []uint64{1, 2, 3} {
		try(sessOp{K: "RECV EVENT", ID: 1, R: ref})
		try(sessOp{K: "RECV INVOCATION", ID: 1, R: ref})
	}
	return out
}

func TestC24_Session(t *testing.T) {
	Check(t, Opt{Checks: 3000, Rule: linRule, Repeat: 400}, genParSess, func(c *parSess, r *Rec) error {
		wire := serializer(c.Format)
		make1 := func(p pause) *wampproto.Session {
			s := wampproto.NewSession(slowSerializer{wire, p})
			for _, o := range c.Setup {
				o.apply(s, c.Bytes, wire, 0)
			}
			return s
		}
		s := make1(pause(c.Pause[0]))
		counts := make([]int, len(c.Par))
		outs := make([][]string, len(c.Par))
		for g := range c.Par {
			counts[g] = len(c.Par[g])
		}
		spans := together(counts, func(g, i int) {
			outs[g] = append(outs[g], c.Par[g][i].apply(s, c.Bytes, wire, pause(c.Pause[g])))
		})
		final := everyReply(s, wire)
		if overlapping(spans) > 0 {
			r.NonTrivial()
		}
		ok := linearizable(spans, func() (func(g, i int) bool, func() bool) {
			s := make1(0)
			return func(g, i int) bool { return c.Par[g][i].apply(s, c.Bytes, wire, 0) == outs[g][i] },
				func() bool { return slices.Equal(everyReply(s, wire), final) }
		})
		if !ok {
			return fmt.Errorf("no sequential order explains the outcome: %+v give %v", c.Par, outs)
		}
		return nil
	})
}

// A reply sent to a session many times at once is accepted once.
func TestC24_SessionOnce(t *testing.T) {
	type c24 struct {
		Ops    []sessOp `json:"ops"` // the requests to answer
		G      int      `json:"g"`
		Format string   `json:"format"`
		Pause  int      `json:"pause"`
	}
	Check(t, Opt{Checks: 1500, Repeat: 200, Rule: "2-6 goroutines deliver the same replies to one session at the same " +
		"time, each reply is accepted once, and of the replies to two requests to leave one subscription or registration as many as " +
		"when they come one by one; always non-trivial"},
		func(t *rapid.T) c24 {
			c := c24{G: between(t, "goroutines", 2, 6), Format: pick(t, "format", formats...), Pause: intn(t, "pause", 4)}
			for i := between(t, "n", 1, 8); i > 0; i-- {
				c.Ops = append(c.Ops, sessOp{K: pick(t, "kind", "CALL", "REGISTER", "SUBSCRIBE", "PUBLISH", "UNSUBSCRIBE", "UNREGISTER"), ID: uint64(i), R: uint64(i),
					P: chance(t, "error", 30), G: chance(t, "twice", 30)})
			}
			return c
		},
		func(c *c24, r *Rec) error {
			r.NonTrivial()
			wire := serializer(c.Format)
			replies := map[string]string{"CALL": "RESULT", "REGISTER": "REGISTERED", "SUBSCRIBE": "SUBSCRIBED", "PUBLISH": "PUBLISHED",
				"UNSUBSCRIBE": "UNSUBSCRIBED", "UNREGISTER": "UNREGISTERED"}
			var list []sessOp
			var group []int // what each of the replies is about
			var want []int  // how many replies about that are accepted
			start := func() *wampproto.Session {
				s := wampproto.NewSession(wire)
				list, group = nil, nil
				for i, o := range c.Ops {
					switch o.K {
					case "UNSUBSCRIBE":
						sessOp{K: "SEND SUBSCRIBE", ID: 100 + o.ID}.apply(s, false, wire, 0)
						sessOp{K: "RECV SUBSCRIBED", ID: 100 + o.ID, R: o.R}.apply(s, false, wire, 0)
					case "UNREGISTER":
						sessOp{K: "SEND REGISTER", ID: 100 + o.ID}.apply(s, false, wire, 0)
						sessOp{K: "RECV REGISTERED", ID: 100 + o.ID, R: o.R}.apply(s, false, wire, 0)
					}
					ids := []uint64{o.ID}
					if o.twice() {
						ids = append(ids, 50+o.ID)
					}
					for _, id := range ids {
						sessOp{K: "SEND " + o.K, ID: id, R: o.R, P: true}.apply(s, false, wire, 0)
						reply := sessOp{K: "RECV " + replies[o.K], ID: id, R: o.R}
						if o.P {
							reply = sessOp{K: "RECV ERROR", ID: id}
							for code, k := range errorTypes {
								if k == o.K {
									reply.R = code
								}
							}
						}
						list, group = append(list, reply), append(group, i)
					}
				}
				return s
			}
			want = make([]int, len(c.Ops))
			s := start()
			for i, o := range c.Ops {
				want[i] = 1
				if o.twice() {
					want[i] = 0
					for j, reply := range list {
						if group[j] == i && reply.apply(s, false, wire, 0) != "refused" {
							want[i]++
						}
					}
				}
			}
			s = start()
			counts := make([]int, c.G)
			for g := range counts {
				counts[g] = len(list)
			}
			accepted := make([]atomic.Int32, len(c.Ops))
			together(counts, func(g, i int) {
				if g%2 == 1 { // the second of two first
					if i > 0 && group[i-1] == group[i] {
						i--
					} else if i+1 < len(list) && group[i+1] == group[i] {
						i++
					}
				}
				if list[i].apply(s, g%2 == 1, wire, pause(c.Pause)) != "refused" {
					accepted[group[i]].Add(1)
				}
			})
			for i, o := range c.Ops {
				if n := int(accepted[i].Load()); n != want[i] {
					return fmt.Errorf("reply accepted %d times, not %d: to %+v from %d goroutines", n, want[i], o, c.G)
				}
			}
			return nil
		})
}

// twice says that a session asks twice to leave, in C24_SessionOnce.
func (o sessOp) twice() bool { return o.G && (o.K == "UNSUBSCRIBE" || o.K == "UNREGISTER") }

// ----------------------------------------------------------------------- map

type mapOp struct {
	K   string `json:"k"`
	Key int    `json:"key"`
	Val int    `json:"val"`
}

type parMap struct {
	Setup []mapOp   `json:"setup"`
	Par   [][]mapOp `json:"par"`
}

func genParMap(t *rapid.T) parMap {
	var c parMap
	keys := between(t, "keys", 1, 3)
	v := 0
	gen := func() mapOp {
		v++
		return mapOp{pick(t, "op", "load", "store", "delete", "loadanddelete", "loadanddelete", "loadorstore", "loadorstore"), intn(t, "key", keys), v}
	}
	for i := intn(t, "setup", 4); i > 0; i-- {
		c.Setup = append(c.Setup, gen())
	}
	g := between(t, "goroutines", 2, 4)
	same := chance(t, "same", 40)
	for ; g > 0; g-- {
		if same && len(c.Par) > 0 {
			l := slices.Clone(c.Par[0])
			for i := range l {
				v++
				l[i].Val = v
			}
			c.Par = append(c.Par, l)
			continue
		}
		var l []mapOp
		for n := between(t, "n", 1, 3); n > 0; n-- {
			l = append(l, gen())
		}
		c.Par = append(c.Par, l)
	}
	return c
}

func (o mapOp) apply(m *internal.Map[string, int]) [2]int {
	k := fmt.Sprint("k", o.Key)
	b := func(v int, ok bool) [2]int {
		if ok {
			return [2]int{v, 1}
		}
		return [2]int{v, 0}
	}
	switch o.K {
	case "load":
		return b(m.Load(k))
	case "store":
		m.Store(k, o.Val)
	case "delete":
		m.Delete(k)
	case "loadanddelete":
		return b(m.LoadAndDelete(k))
	case "loadorstore":
		return b(m.LoadOrStore(k, o.Val))
	}
	return [2]int{}
}

func (o mapOp) model(m map[int]int) [2]int {
	v, ok := m[o.Key]
	out := [2]int{v, 0}
	if ok {
		out[1] = 1
	}
	switch o.K {
	case "load":
		return out
	case "store":
		m[o.Key] = o.Val
	case "delete":
		delete(m, o.Key)
	case "loadanddelete":
		delete(m, o.Key)
		return out
	case "loadorstore":
		if !ok {
			m[o.Key] = o.Val
			return [2]int{o.Val, 0}
		}
		return out
	}
	return [2]int{}
}

func TestC24_Map(t *testing.T) {
	Check(t, Opt{Checks: 6000, Repeat: 2000, Rule: "2-4 goroutines with 1-3 operations each on 1-3 keys of an internal.Map, " +
		"results and final content explained by some order of the operations on a plain map; non-trivial when operations overlapped in time"},
		genParMap, func(c *parMap, r *Rec) error {
			m := &internal.Map[string, int]{}
			for _, o := range c.Setup {
				o.apply(m)
			}
			counts := make([]int, len(c.Par))
			outs := make([][][2]int, len(c.Par))
			for g := range c.Par {
				counts[g] = len(c.Par[g])
			}
			spans := together(counts, func(g, i int) { outs[g] = append(outs[g], c.Par[g][i].apply(m)) })
			content := map[int]int{}
			m.Range(func(k string, v int) bool {
				content[int(k[1]-'0')] = v
				return true
			})
			if overlapping(spans) > 0 {
				r.NonTrivial()
			}
			ok := linearizable(spans, func() (func(g, i int) bool, func() bool) {
				model := map[int]int{}
				for _, o := range c.Setup {
					o.model(model)
				}
				return func(g, i int) bool { return c.Par[g][i].model(model) == outs[g][i] },
					func() bool { return fmt.Sprint(model) == fmt.Sprint(content) }
			})
			if !ok {
				return fmt.Errorf("no sequential order explains the outcome: %+v give %v, content %v", c.Par, outs, content)
			}
			return nil
		})
}

// Many rounds of the same operation on the same key by all goroutines at once:
// one of them gets it.
func TestC24_MapOnce(t *testing.T) {
	type c24 struct {
		G      int    `json:"g"`
		Rounds int    `json:"rounds"`
		Op     string `json:"op"`
	}
	Check(t, Opt{Checks: 60, Deadline: 120 * time.Second, Repeat: 40, Rule: "2-6 goroutines, in each of up to 2000 rounds, LoadAndDelete the one value " +
		"there is, or LoadOrStore into an empty map; always non-trivial"},
		func(t *rapid.T) c24 {
			return c24{between(t, "goroutines", 2, 6), between(t, "rounds", 200, 2000), pick(t, "op", "loadanddelete", "loadorstore")}
		},
		func(c *c24, r *Rec) error {
			r.NonTrivial()
			r.Evals(c.Rounds)
			m := &internal.Map[int, int]{}
			wins := make([]atomic.Int32, c.Rounds)
			if c.Op == "loadanddelete" {
				for i := range wins {
					m.Store(i, i)
				}
			}
			var at, arrived atomic.Int32
			var done sync.WaitGroup
			for g := 0; g < c.G; g++ {
				done.Add(1)
				go func() {
					defer done.Done()
					for i := 0; i < c.Rounds; i++ {
						if int(arrived.Add(1)) == c.G*(i+1) {
							at.Store(int32(i + 1))
						}
						for n := 0; int(at.Load()) <= i; n++ {
							if n > 200 {
								runtime.Gosched()
							}
						}
						if c.Op == "loadanddelete" {
							if v, ok := m.LoadAndDelete(i); ok && v == i {
								wins[i].Add(1)
							}
						} else if v, loaded := m.LoadOrStore(i, g); !loaded && v == g {
							wins[i].Add(1)
						}
					}
				}()
			}
			done.Wait()
			for i := range wins {
				if n := wins[i].Load(); n != 1 {
					return fmt.Errorf("%s succeeds %d times: of %d goroutines", c.Op, n, c.G)
				}
			}
			return nil
		})
}

// ------------------------------------------------------------------------ ids

func TestC24_IDs(t *testing.T) {
	type c24 struct {
		G int `json:"g"`
		N int `json:"n"`
	}
	Check(t, Opt{Checks: 60, Repeat: 50, Rule: "ids drawn by 2-8 goroutines from one generator are together 1..n, in order for " +
		"each goroutine and in real time, and random ids drawn at the same time are distinct; always non-trivial"},
		func(t *rapid.T) c24 { return c24{between(t, "goroutines", 2, 8), between(t, "n", 10, 1500)} },
		func(c *c24, r *Rec) error {
			r.NonTrivial()
			r.Evals(c.G * c.N)
			g := &wampproto.SessionScopeIDGenerator{}
			counts := make([]int, c.G)
			lists := make([][]uint64, c.G)
			random := make([][]uint64, c.G)
			for i := range counts {
				counts[i] = c.N
			}
			spans := together(counts, func(i, k int) { lists[i] = append(lists[i], g.NextID()) })
			together(counts, func(i, k int) { random[i] = append(random[i], wampproto.GenerateID()) })
			total := c.G * c.N
			when := make([]*during, total+1)
			for i, l := range lists {
				for k, id := range l {
					if id < 1 || id > uint64(total) || when[id] != nil {
						return fmt.Errorf("concurrent ids: %d given twice or out of 1..%d", id, total)
					}
					when[id] = &spans[i][k]
				}
			}
			// no id may be drawn entirely before a smaller one
			earliest := when[total].ret
			for id := total - 1; id >= 1; id-- {
				if earliest.Before(when[id].call) {
					return fmt.Errorf("concurrent ids: %d drawn after a greater one", id)
				}
				if when[id].ret.Before(earliest) {
					earliest = when[id].ret
				}
			}
			return checkRandom(slices.Concat(random...))
		})
}

// ----------------------------------------------------------------- whole load

// A busy router: many goroutines, each with its own sessions, at once on one
// broker and dealer, nothing shared but the router; each sees what it would
// see alone.
func TestC24_Busy(t *testing.T) {
	type c24 struct {
		G     int   `json:"g"`
		Calls int   `json:"calls"`
		Pause []int `json:"pause"`
	}
	Check(t, Opt{Checks: 60, Deadline: 120 * time.Second, Repeat: 20, Rule: "3-8 goroutines, each with its own callee, caller, subscriber and publisher on " +
		"its own URIs of a shared dealer and broker, some 50 calls and publications each, leaving and coming back: every one gets exactly its own; always non-trivial"},
		func(t *rapid.T) c24 {
			c := c24{G: between(t, "goroutines", 3, 8), Calls: between(t, "calls", 5, 60)}
			for i := 0; i < c.G; i++ {
				c.Pause = append(c.Pause, pick(t, "pause", 0, 0, 1, 1, 2))
			}
			return c
		},
		func(c *c24, r *Rec) error {
			r.NonTrivial()
			r.Evals(c.G * c.Calls)
			d, b := wampproto.NewDealer(), wampproto.NewBroker()
			errs := make([]error, c.G)
			counts := make([]int, c.G)
			for i := range counts {
				counts[i] = 1
			}
			one := func(g int) error {
				p := pause(c.Pause[g])
				callee, caller := uint64(10*g+1), uint64(10*g+2)
				uri := fmt.Sprintf("own.%d", g)
				enter := func(id uint64) error {
					if err := d.AddSession(plainSession(id)); err != nil {
						return err
					}
					return b.AddSession(plainSession(id))
				}
				if err := enter(caller); err != nil {
					return err
				}
				for n := 1; n <= c.Calls; n++ {
					if n%7 == 1 {
						if err := enter(callee); err != nil {
							return err
						}
						out, err := d.ReceiveMessage(callee, slow(messages.NewRegister(1, map[string]any{}, uri), p))
						if err != nil {
							return err
						}
						if _, ok := out.Message.(*messages.Registered); !ok {
							return fmt.Errorf("register: %s", show(out, err))
						}
						if out, err = b.ReceiveMessage(callee, slow(messages.NewSubscribe(1, map[string]any{"match": "prefix"}, uri), p)); err != nil {
							return err
						}
						if _, ok := out.Message.(*messages.Subscribed); !ok {
							return fmt.Errorf("subscribe: %s", show(out, err))
						}
					}
					tok := fmt.Sprint(g, " ", n)
					out, err := d.ReceiveMessage(caller, slow(messages.NewCall(uint64(n), map[string]any{}, uri, []any{tok}, nil), p))
					if err != nil {
						return err
					}
					inv, ok := out.Message.(*messages.Invocation)
					if !ok || out.Recipient != callee || canonList(inv.Args()) != canonList([]any{tok}) {
						return fmt.Errorf("call %s: %s", tok, show(out, err))
					}
					out, err = d.ReceiveMessage(callee, slow(messages.NewYield(inv.RequestID(), map[string]any{}, []any{"re " + tok}, nil), p))
					if err != nil {
						return err
					}
					res, ok := out.Message.(*messages.Result)
					if !ok || out.Recipient != caller || res.RequestID() != uint64(n) || canonList(res.Args()) != canonList([]any{"re " + tok}) {
						return fmt.Errorf("result %s: %s", tok, show(out, err))
					}
					pub, err := b.ReceivePublish(caller, slow(messages.NewPublish(uint64(n), map[string]any{"acknowledge": true}, uri+".x", []any{tok}, nil), p).(*messages.Publish))
					if err != nil {
						return err
					}
					if !slices.Equal(pub.Recipients, []uint64{callee}) || canonList(pub.Event.Args()) != canonList([]any{tok}) || pub.Ack == nil {
						return fmt.Errorf("publication %s: %v", tok, pub.Recipients)
					}
					if n%7 == 0 {
						if err := d.RemoveSession(callee); err != nil {
							return err
						}
						if err := b.RemoveSession(callee); err != nil {
							return err
						}
						if d.HasProcedure(uri) || b.HasSubscription(uri) {
							return fmt.Errorf("not withdrawn: %s", uri)
						}
					}
				}
				return nil
			}
			together(counts, func(g, _ int) { errs[g] = one(g) })
			for g, err := range errs {
				if err != nil {
					return fmt.Errorf("goroutine sees another's doing: %d: %w", g, err)
				}
			}
			return nil
		})
}
