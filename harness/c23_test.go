package harness

// C23: ids.

import (
	"bufio"
	"bytes"
	"fmt"
	"os"
	"runtime"
	"slices"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"unsafe"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

const top uint64 = 1 << 53

func TestC23_Sequence(t *testing.T) {
	type c23 struct {
		N int `json:"n"`
	}
	Check(t, Opt{Checks: 40, Rule: "n ids of a new generator, n up to 300000, are 1..n; non-trivial: n over 1000"},
		func(t *rapid.T) c23 { return c23{pick(t, "n", 1, 2, 10, 257, 70000, 300000) + intn(t, "more", 50)} },
		func(c *c23, r *Rec) error {
			g := &wampproto.SessionScopeIDGenerator{}
			r.Evals(c.N)
			if c.N > 1000 {
				r.NonTrivial()
			}
			for i := 1; i <= c.N; i++ {
				if id := g.NextID(); id != uint64(i) {
					return fmt.Errorf("sequential id: %d is %d", i, id)
				}
			}
			return nil
		})
}

// seek moves a generator that has given 13 ids so far to a later point, by
// finding the word of it that counts. It reports false when there is no such
// word.
func seek(g *wampproto.SessionScopeIDGenerator, to uint64) bool {
	words := unsafe.Slice((*uint64)(unsafe.Pointer(g)), unsafe.Sizeof(*g)/8)
	at := -1
	for i, w := range words {
		if w == 13 || w == 14 {
			if at >= 0 {
				return false
			}
			at = i
		}
	}
	if at < 0 {
		return false
	}
	words[at] += to - 13
	return true
}

func TestC23_Wrap(t *testing.T) {
	type c23 struct {
		From uint64 `json:"from"`
		N    int    `json:"n"`
	}
	Check(t, Opt{Checks: 3000, Rule: "a generator that has given some number of ids up to 2^53 goes on without a gap, and with 1 after 2^53; non-trivial " +
		"when it passes 2^53 (the counter is found in the generator's memory and set forward)"},
		func(t *rapid.T) c23 {
			c := c23{N: between(t, "n", 1, 40)}
			switch intn(t, "where", 3) {
			case 0:
				c.From = top - uint64(intn(t, "before", 30))
			case 1:
				c.From = uint64(1)<<between(t, "bits", 5, 53) - uint64(intn(t, "before", 4))
			case 2:
				c.From = 14 + uint64(rapid.Uint64Range(0, top-14).Draw(t, "from"))
			}
			return c
		},
		func(c *c23, r *Rec) error {
			g := &wampproto.SessionScopeIDGenerator{}
			for i := uint64(1); i <= 13; i++ {
				if id := g.NextID(); id != i {
					return fmt.Errorf("sequential id: %d is %d", i, id)
				}
			}
			if !seek(g, c.From) {
				r.Label("the counter was not found")
				return nil
			}
			want := c.From
			for i := 0; i < c.N; i++ {
				if want++; want > top {
					want = 1
					r.NonTrivial()
					r.Label("wrapped")
				}
				if id := g.NextID(); id != want {
					return fmt.Errorf("sequential id: %d after %d, instead of %d", id, want-1, want)
				}
			}
			return nil
		})
}

func TestC23_Concurrent(t *testing.T) {
	type c23 struct {
		G int `json:"g"`
		N int `json:"n"`
	}
	Check(t, Opt{Checks: 30, Repeat: 20, Rule: "ids drawn by 2-8 goroutines at once are together 1..n, increasing for each; always non-trivial"},
		func(t *rapid.T) c23 { return c23{between(t, "goroutines", 2, 8), between(t, "n", 10, 5000)} },
		func(c *c23, r *Rec) error {
			r.NonTrivial()
			r.Evals(c.G * c.N)
			g := &wampproto.SessionScopeIDGenerator{}
			lists := make([][]uint64, c.G)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range lists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for n := 0; n < c.N; n++ {
						lists[i] = append(lists[i], g.NextID())
					}
				}()
			}
			close(start)
			wg.Wait()
			seen := make([]bool, c.G*c.N+1)
			for _, l := range lists {
				for k, id := range l {
					if id < 1 || id > uint64(c.G*c.N) || seen[id] {
						return fmt.Errorf("concurrent ids: %d given twice or out of 1..%d", id, c.G*c.N)
					}
					seen[id] = true
					if k > 0 && l[k-1] >= id {
						return fmt.Errorf("concurrent ids: %d after %d", id, l[k-1])
					}
				}
			}
			return nil
		})
}

// Goroutines that are at work when the ids start again.
func TestC23_ConcurrentWrap(t *testing.T) {
	type c23 struct {
		G      int `json:"g"`
		N      int `json:"n"`
		Before int `json:"before"`
	}
	Check(t, Opt{Checks: 25, Repeat: 20, Rule: "200 times over, a generator is set to shortly before 2^53 and 2-8 goroutines draw up to 5 ids each: " +
		"together they are the next ones, each once, going on with 1 after 2^53; non-trivial when they pass 2^53"},
		func(t *rapid.T) c23 {
			c := c23{G: between(t, "goroutines", 2, 8), N: between(t, "n", 1, 5)}
			c.Before = intn(t, "before", c.G*c.N+2)
			return c
		},
		func(c *c23, r *Rec) error {
			n := c.G * c.N
			for round := 0; round < 200; round++ {
				g := &wampproto.SessionScopeIDGenerator{}
				for i := 0; i < 13; i++ {
					g.NextID()
				}
				if !seek(g, top-uint64(c.Before)) {
					r.Label("the counter was not found")
					return nil
				}
				if c.Before < n {
					r.NonTrivial()
				}
				r.Evals(n)
				lists := make([][]uint64, c.G)
				var wg sync.WaitGroup
				var ready atomic.Int32
				for i := range lists {
					lists[i] = make([]uint64, c.N)
					wg.Add(1)
					go func() {
						defer wg.Done()
						ready.Add(1)
						for spin := 0; int(ready.Load()) < c.G && spin < 100000; spin++ {
							if spin%1000 == 999 {
								runtime.Gosched()
							}
						}
						for k := range lists[i] {
							lists[i][k] = g.NextID()
						}
					}()
				}
				wg.Wait()
				got := slices.Concat(lists...)
				want := make([]uint64, n)
				for i := range want {
					if want[i] = top - uint64(c.Before) + uint64(i) + 1; want[i] > top {
						want[i] -= top
					}
				}
				slices.Sort(got)
				slices.Sort(want)
				if !slices.Equal(got, want) {
					return fmt.Errorf("concurrent ids at the end: %d goroutines are given %v instead of %v", c.G, got, want)
				}
			}
			return nil
		})
}

func checkRandom(ids []uint64) error {
	seen := map[uint64]bool{}
	var or, nor uint64
	for _, id := range ids {
		if id < 1 || id > top {
			return fmt.Errorf("random id out of range: %d", id)
		}
		if seen[id] {
			return fmt.Errorf("random id repeated: %d among %d", id, len(ids))
		}
		seen[id] = true
		or |= id
		nor |= ^id
	}
	if all := top - 1; len(ids) > 1000 && (or&all != all || nor&all != all) {
		return fmt.Errorf("random ids leave bits unused: or %x, nor %x", or&all, nor&all)
	}
	return nil
}

func TestC23_Random(t *testing.T) {
	type c23 struct {
		G int `json:"g"`
		N int `json:"n"`
	}
	Check(t, Opt{Checks: 6, Rule: "up to 80000 random ids drawn by 1-8 goroutines lie in 1..2^53, use all its bits and are distinct (a true random " +
		"generator fails that with probability under 4e-7); always non-trivial"},
		func(t *rapid.T) c23 { return c23{between(t, "goroutines", 1, 8), between(t, "n", 1000, 10000)} },
		func(c *c23, r *Rec) error {
			r.NonTrivial()
			r.Evals(c.G * c.N)
			lists := make([][]uint64, c.G)
			var wg sync.WaitGroup
			for i := range lists {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < c.N; n++ {
						lists[i] = append(lists[i], wampproto.GenerateID())
					}
				}()
			}
			wg.Wait()
			return checkRandom(slices.Concat(lists...))
		})
}

// welcomed is the id a new acceptor gives an anonymous session.
func welcomed() (uint64, error) {
	a := wampproto.NewAcceptor(nil, nil)
	m, err := a.ReceiveMessage(messages.NewHello("r", "", nil, map[string]any{}, []string{"anonymous"}))
	if err != nil {
		return 0, err
	}
	w, ok := m.(*messages.Welcome)
	if !ok {
		return 0, fmt.Errorf("not welcomed")
	}
	d, err := a.SessionDetails()
	if err != nil || d.ID() != w.SessionID() {
		return 0, fmt.Errorf("session details: %v, %v", d, err)
	}
	return w.SessionID(), nil
}

func childIDs() {
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for i := 0; i < 50; i++ {
		id, err := welcomed()
		if err != nil {
			fmt.Fprintln(w, err)
			return
		}
		fmt.Fprintln(w, id)
		fmt.Fprintln(w, wampproto.GenerateID())
	}
}

func TestC23_Processes(t *testing.T) {
	type c23 struct {
		Processes int  `json:"processes"`
		Together  bool `json:"together"`
	}
	Check(t, Opt{Checks: 6, Rule: "session ids of 2-6 fresh processes, started one after another or together, 100 each, are all distinct; always non-trivial"},
		func(t *rapid.T) c23 { return c23{between(t, "processes", 2, 6), chance(t, "together", 50)} },
		func(c *c23, r *Rec) error {
			r.NonTrivial()
			var all []uint64
			for i, out := range children("ids", c.Processes, c.Together) {
				for _, l := range bytes.Fields(out) {
					id, err := strconv.ParseUint(string(l), 10, 64)
					if err != nil {
						return fmt.Errorf("process %d: %s", i, out)
					}
					all = append(all, id)
				}
			}
			r.Evals(len(all))
			if len(all) != 100*c.Processes {
				return fmt.Errorf("ids of the processes: %d", len(all))
			}
			return checkRandom(all[:min(len(all), 1000)])
		})
}

func TestC23_Welcomes(t *testing.T) {
	type c23 struct {
		N int `json:"n"`
	}
	Check(t, Opt{Checks: 20, Rule: "n acceptors in a row welcome n sessions with distinct ids in 1..2^53; always non-trivial"},
		func(t *rapid.T) c23 { return c23{between(t, "n", 2, 800)} },
		func(c *c23, r *Rec) error {
			r.NonTrivial()
			r.Evals(c.N)
			var ids []uint64
			for i := 0; i < c.N; i++ {
				id, err := welcomed()
				if err != nil {
					return err
				}
				ids = append(ids, id)
			}
			return checkRandom(ids[:min(len(ids), 1000)])
		})
}

func TestC23_Dealer(t *testing.T) {
	mix := rpcMix{ops: "RRRRRUUCCCCCCCCYYLJ", uris: 8, policies: allPolicies, matches: allMatches, min: 10, max: 100, sessions: 6}
	Check(t, Opt{Checks: 6000, Repeat: 20, Rule: "history of registrations and calls, most left pending: registration ids of live registrations and all invocation " +
		"ids are distinct and in 1..2^53; non-trivial when something was registered afresh and calls were answered"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error {
			m, mm := newDealerRun(c, r)
			if mm == nil {
				mm = m.run(c.Ops)
			}
			if m.hist["registered afresh"] > 0 && m.hist["answered"] > 0 {
				r.NonTrivial()
			}
			return mm.of("C23", r)
		})
}

func TestC23_Broker(t *testing.T) {
	mix := pubMix{ops: "SSSSSUUPPPPPPLJ", topics: 8, matches: allMatches, min: 10, max: 100, sessions: 6, disjoint: 20}
	Check(t, Opt{Checks: 6000, Repeat: 20, Rule: "history of subscriptions and publications: ids of live subscriptions and of all publications are distinct and in " +
		"1..2^53; non-trivial when a topic was subscribed afresh and an event delivered"},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error {
			m, mm := newBrokerRun(c, r)
			if mm == nil {
				mm = m.run(c.Ops)
			}
			if m.hist["subscribed afresh"] > 0 && m.hist["delivered"] > 0 {
				r.NonTrivial()
			}
			return mm.of("C23", r)
		})
}

// Routers that live long: what they gave out long ago is still in use.
func TestC23_LongLived(t *testing.T) {
	Check(t, Opt{Checks: 12, Rule: "a dealer or a broker that hands out up to 300000 ids for registrations and calls, or subscriptions and publications, " +
		"every 2nd to 1000th of which stays in use: no two in use are the same; non-trivial: more than 1000 stay"},
		func(t *rapid.T) longCase {
			return longCase{pick(t, "n", 300, 5000, 70000, 140000, 270000) + intn(t, "more", 300), pick(t, "kind", "registrations", "calls", "subscriptions"),
				pick(t, "keep", 1, 2, 7, 100, 1000)}
		}, runLongLived)
}

type longCase struct {
	N    int    `json:"n"`
	Kind string `json:"kind"` // what the ids are of
	Keep int    `json:"keep"` // every Keep-th one stays in use
}

func runLongLived(c *longCase, r *Rec) error {
	r.Evals(c.N)
	if c.N/c.Keep > 1000 {
		r.NonTrivial()
	}
	r.Label("%s", c.Kind)
	live := map[uint64]int{}
	d, b := wampproto.NewDealer(), wampproto.NewBroker()
	for id := uint64(1); id <= 2; id++ {
		if err := d.AddSession(plainSession(id)); err != nil {
			return err
		}
		if err := b.AddSession(plainSession(id)); err != nil {
			return err
		}
	}
	ask := func(f func(uint64, messages.Message) (*wampproto.MessageWithRecipient, error), m messages.Message) (messages.Message, error) {
		out, err := f(1, m)
		if err != nil || out == nil {
			return nil, errorf("%T: refused: %v", m, err)
		}
		return out.Message, nil
	}
	if _, err := ask(d.ReceiveMessage, messages.NewRegister(1, nil, "a")); err != nil {
		return err
	}
	if _, err := ask(b.ReceiveMessage, messages.NewSubscribe(1, nil, "a")); err != nil {
		return err
	}
	published := map[uint64]bool{}
	for i := 0; i < c.N; i++ {
		var id uint64
		var drop messages.Message
		to := d.ReceiveMessage
		req := uint64(i + 2)
		switch c.Kind {
		case "registrations":
			m, err := ask(to, messages.NewRegister(req, nil, numbered(i)))
			if err != nil {
				return err
			}
			got, ok := m.(*messages.Registered)
			if !ok {
				return errorf("REGISTER: answered with %T", m)
			}
			id, drop = got.RegistrationID(), messages.NewUnregister(req, got.RegistrationID())
		case "calls":
			m, err := ask(to, messages.NewCall(req, nil, "a", nil, nil))
			if err != nil {
				return err
			}
			got, ok := m.(*messages.Invocation)
			if !ok {
				return errorf("CALL: answered with %T", m)
			}
			id, drop = got.RequestID(), messages.NewYield(got.RequestID(), nil, nil, nil)
		default:
			to = b.ReceiveMessage
			m, err := ask(to, messages.NewSubscribe(req, nil, numbered(i)))
			if err != nil {
				return err
			}
			got, ok := m.(*messages.Subscribed)
			if !ok {
				return errorf("SUBSCRIBE: answered with %T", m)
			}
			id, drop = got.SubscriptionID(), messages.NewUnsubscribe(req, got.SubscriptionID())
			p, err := b.ReceivePublish(2, messages.NewPublish(req, nil, "a", nil, nil))
			if err != nil || p.Event == nil {
				return errorf("PUBLISH: no event: %v", err)
			}
			if published[p.Event.PublicationID()] {
				return errorf("publication id twice: %d (publication %d)", p.Event.PublicationID(), i)
			}
			published[p.Event.PublicationID()] = true
		}
		if before, ok := live[id]; ok {
			return errorf("id in use given again: %d, of %s %d and %d", id, c.Kind, before, i)
		}
		if id < 1 || id > top {
			return errorf("id outside 1..2^53: %d", id)
		}
		if i%c.Keep == 0 {
			live[id] = i
		} else if _, err := ask(to, drop); err != nil {
			return err
		}
	}
	return nil
}
