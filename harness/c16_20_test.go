package harness

// C16-C20: histories of registrations, calls and answers against the model of
// the dealer in router_test.go, each with the mix of operations it is about.

import (
	"fmt"
	"slices"
	"strings"
	"testing"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

func TestC16_Routing(t *testing.T) {
	mix := rpcMix{ops: "RRRRRUUCCCCCCCCYYLJD", uris: 8, policies: allPolicies, matches: []string{"", "exact", "prefix", "prefix", "wildcard"},
		min: 2, max: 60, sessions: 5}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history of register/unregister/call/answer/join/leave by up to 5 sessions over nested exact, prefix and " +
		"wildcard registrations, then a probe of every URI; non-trivial when calls were routed through at least two match policies"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error {
			m, mm := newDealerRun(c, r)
			if mm == nil {
				mm = m.run(c.Ops)
			}
			n := 0
			for _, k := range []string{"exact", "prefix", "wildcard"} {
				if m.hist["routed "+k] > 0 {
					n++
				}
			}
			if n >= 2 {
				r.NonTrivial()
			}
			return mm.of("C16", r)
		})
}

// patCase is a URI and registrations or subscriptions, some of which match it.
type patCase struct {
	URI  string   `json:"uri"`
	Pre  []string `json:"pre"`
	Wild []string `json:"wild"`
	Ex   []string `json:"ex"`
	Gone uint64   `json:"gone"`
	Rot  int      `json:"rot"`
}

func genComponent(t *rapid.T) string {
	if chance(t, "hard", 10) {
		return pick(t, "component", "ü", "日本", "a-b", "_", "0", "x y", "#", "{}", "~")
	}
	n := between(t, "len", 1, 6)
	if chance(t, "long", 2) {
		n = pick(t, "len", 30, 64, 127, 128, 255, 256, 300, 1000)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcxyzABX019_-"[intn(t, "char", 14)]
	}
	return string(b)
}

// nearMiss changes a URI or pattern a little.
func nearMiss(t *rapid.T, p string) string {
	runes := []rune(p)
	at := intn(t, "at", len(runes))
	switch intn(t, "change", 9) {
	case 0, 1:
		return p + genComponent(t)
	case 2:
		return swapCase(p)
	case 3:
		return string(runes[:at]) + swapCase(string(runes[at])) + string(runes[at+1:])
	case 4:
		return string(runes[:at]) + string(runes[at+1:])
	case 5:
		return string(runes[:at]) + pick(t, "with", ".", " ", "_", "a", "\x00") + string(runes[at:])
	case 6:
		return string(runes[:at]) + pick(t, "with", ".", "x", "ü") + string(runes[at+1:])
	case 7:
		return p + pick(t, "end", ".", " ", "\n", "\x00")
	default:
		return pick(t, "front", ".", " ", "a") + p
	}
}

func swapCase(s string) string {
	if up := strings.ToUpper(s); up != s {
		return up
	}
	return strings.ToLower(s)
}

func genPat(t *rapid.T) patCase {
	var parts []string
	for i := between(t, "parts", 1, 6); i > 0; i-- {
		parts = append(parts, genComponent(t))
	}
	c := patCase{URI: join(parts), Gone: uint64(intn(t, "gone", 1<<12)), Rot: intn(t, "rot", 16)}
	if chance(t, "no gone", 40) {
		c.Gone = 0
	}
	used := map[string]bool{}
	add := func(list *[]string, s string) {
		if s != "" && !used[s] {
			used[s] = true
			*list = append(*list, s)
		}
	}
	runes := []rune(c.URI)
	for i := intn(t, "exact", 3); i > 0; i-- {
		switch intn(t, "kind", 3) {
		case 0:
			add(&c.Ex, c.URI)
		case 1:
			add(&c.Ex, nearMiss(t, c.URI))
		case 2:
			add(&c.Ex, string(runes[:intn(t, "cut", len(runes)+1)]))
		}
	}
	for i := intn(t, "prefix", 5); i > 0; i-- {
		p := string(runes[:between(t, "cut", 1, len(runes))])
		if chance(t, "miss", 25) {
			p = nearMiss(t, p)
		}
		add(&c.Pre, p)
	}
	for i := intn(t, "wild", 4); i > 0; i-- {
		from := intn(t, "from", len(runes)+1)
		to := between(t, "to", from, len(runes))
		p := string(runes[:from]) + "*" + string(runes[to:])
		if chance(t, "miss", 25) {
			p = nearMiss(t, p)
		}
		if chance(t, "double", 20) {
			p = "*" + p
		}
		if !strings.Contains(p, "*") { // a near miss without it is no pattern
			p += "*"
		}
		add(&c.Wild, p)
	}
	return c
}

// patReg is one registration or subscription of a patCase.
type patReg struct {
	p, m string
	s    uint64 // the session that holds it, 0 when withdrawn
	id   uint64
}

func (c *patCase) regs() []patReg {
	var regs []patReg
	for _, m := range []string{"exact", "prefix", "wildcard"} {
		for _, p := range map[string][]string{"exact": c.Ex, "prefix": c.Pre, "wildcard": c.Wild}[m] {
			regs = append(regs, patReg{p: p, m: m})
		}
	}
	if len(regs) == 0 {
		regs = append(regs, patReg{p: c.URI, m: "exact"})
	}
	sortRegs(regs, func(a, b patReg) bool { return a.p < b.p })
	k := c.Rot % len(regs)
	return append(slices.Clone(regs[k:]), regs[:k]...)
}

// best lists the registrations that match the URI, and the best of them: an
// exact one, the longest prefix, or all wildcard ones.
func (c *patCase) best(regs []patReg) (all, want []patReg) {
	best := -1
	for _, g := range regs {
		rank := -1
		switch {
		case g.s == 0:
		case g.m == "exact" && g.p == c.URI:
			rank = 1 << 20
		case g.m == "prefix" && len(c.URI) >= len(g.p) && c.URI[:len(g.p)] == g.p:
			rank = 1 + len(g.p)
		case g.m == "wildcard" && glob(g.p, c.URI):
			rank = 0
		}
		if rank < 0 {
			continue
		}
		all = append(all, g)
		if rank > best {
			best, want = rank, nil
		}
		if rank == best {
			want = append(want, g)
		}
	}
	return all, want
}

const patRule = "a generated URI of 1-6 components, prefixes cut from it (and near misses), wildcard patterns replacing any part by '*', exact " +
	"neighbours and near misses (case of letters, a character more or less, white space), each held by its own session, in different orders; some withdrawn again; non-trivial when at least two match"

// Long generated URIs, with patterns cut out of them.
func TestC16_Patterns(t *testing.T) {
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: patRule}, genPat,
		func(c *patCase, r *Rec) error {
			d := wampproto.NewDealer()
			regs := c.regs()
			if err := d.AddSession(wampproto.NewSessionDetails(1000, "r", "x", "y", "anonymous", false, nil, nil)); err != nil {
				return err
			}
			for i := range regs {
				regs[i].s = uint64(i + 1)
				if err := d.AddSession(wampproto.NewSessionDetails(regs[i].s, "r", "x", "y", "anonymous", false, nil, nil)); err != nil {
					return err
				}
				out, err := d.ReceiveMessage(regs[i].s, messages.NewRegister(uint64(i+1), map[string]any{"match": regs[i].m}, regs[i].p))
				if err != nil {
					return fmt.Errorf("register fails: %w", err)
				}
				x, ok := out.Message.(*messages.Registered)
				if !ok {
					return fmt.Errorf("register refused: %s", show(out, err))
				}
				regs[i].id = x.RegistrationID()
			}
			for round := 0; round < 2; round++ {
				all, want := c.best(regs)
				if len(all) >= 2 {
					r.NonTrivial()
				}
				out, err := d.ReceiveMessage(1000, messages.NewCall(uint64(77+round), map[string]any{}, c.URI, []any{"x"}, nil))
				if err != nil {
					return fmt.Errorf("call fails: %w", err)
				}
				switch x := out.Message.(type) {
				case *messages.Invocation:
					ok := false
					for _, g := range want {
						ok = ok || g.s == out.Recipient && g.id == x.RegistrationID()
					}
					if !ok {
						return fmt.Errorf("call misrouted: %q goes to %s, should be one of %v of %v", c.URI, show(out, nil), want, regs)
					}
					r.Label("routed %s", want[0].m)
				case *messages.Error:
					if len(want) > 0 || x.URI() != "wamp.error.no_such_procedure" || x.RequestID() != uint64(77+round) || out.Recipient != 1000 {
						return fmt.Errorf("call not routed: %q gives %s, should be one of %v of %v", c.URI, show(out, nil), want, regs)
					}
					r.Label("no match")
				default:
					return fmt.Errorf("call answered otherwise: %s", show(out, nil))
				}
				if c.Gone == 0 {
					break
				}
				for i := range regs {
					if c.Gone>>i&1 == 1 && regs[i].s != 0 {
						if i%2 == 0 {
							err = d.RemoveSession(regs[i].s)
						} else {
							_, err = d.ReceiveMessage(regs[i].s, messages.NewUnregister(9, regs[i].id))
						}
						if err != nil {
							return fmt.Errorf("withdrawal fails: %w", err)
						}
						regs[i].s = 0
					}
				}
			}
			return nil
		})
}

func TestC17_Policies(t *testing.T) {
	mix := rpcMix{ops: "RRRRRRRRUUCCCCCCCCCCLJY", uris: 3, policies: []string{"", "single", "first", "last", "roundrobin", "roundrobin", "random"},
		matches: []string{"", "exact", "prefix", "wildcard"}, min: 4, max: 80, sessions: 6, oneWild: true}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history with up to 6 sessions registering few procedures with every invocation policy (and mismatching ones), " +
		"calling them and leaving; non-trivial when a registration was shared and called, or joining was refused"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error {
			return runRPC(c, r, "C17", "shared call first", "shared call last", "shared call roundrobin", "shared call random",
				"refused: already exists")
		})
}

const fairCaller = 100000 // a session id

// fairCase: callees that come and go, and how often each is called.
type fairCase struct {
	Policy  string `json:"policy"`
	Match   string `json:"match"`
	Callees int    `json:"callees"`
	Leave   []int  `json:"leave"`
	Join    int    `json:"join"`
	Unreg   bool   `json:"unreg"`
}

// A callee of a 'random' registration gets n/k of n calls up to chance: with
// at least 300 n/k a share below half of that has a probability under 1e-15.
func TestC17_Shares(t *testing.T) {
	Check(t, Opt{Checks: 60, Rule: "2-5 (at times up to 400) callees of a registration shared under 'random' or 'roundrobin', 1500 calls (or 300 for each) before and after some left or joined; " +
		"every one gets at least half its fair share (under 'roundrobin' exactly it); always non-trivial"},
		func(t *rapid.T) fairCase {
			c := fairCase{Policy: pick(t, "policy", "random", "random", "roundrobin"), Match: pick(t, "match", "exact", "prefix", "wildcard"),
				Callees: between(t, "callees", 2, 5), Join: intn(t, "join", 2), Unreg: chance(t, "unregister", 50)}
			if chance(t, "crowd", 4) {
				c.Callees = pick(t, "crowd of", 17, 40, 70, 140, 270, 400)
			}
			for i := intn(t, "leave", min(c.Callees-1, 9)); i > 0; i-- {
				c.Leave = append(c.Leave, intn(t, "who", c.Callees))
			}
			return c
		},
		func(c *fairCase, r *Rec) error {
			r.NonTrivial()
			d := wampproto.NewDealer()
			add := func(id uint64) error {
				return d.AddSession(wampproto.NewSessionDetails(id, "r", "x", "y", "anonymous", false, nil, nil))
			}
			if err := add(fairCaller); err != nil {
				return err
			}
			reg := map[uint64]uint64{}
			enter := func(id uint64) error {
				if err := add(id); err != nil {
					return err
				}
				p := map[string]string{"exact": "a.b", "prefix": "a.", "wildcard": "a.*"}[c.Match]
				out, err := d.ReceiveMessage(id, messages.NewRegister(1, map[string]any{"match": c.Match, "invoke": c.Policy}, p))
				if err != nil {
					return err
				}
				x, ok := out.Message.(*messages.Registered)
				if !ok {
					return fmt.Errorf("joining refused: %s", show(out, err))
				}
				reg[id] = x.RegistrationID()
				return nil
			}
			req := uint64(0)
			measure := func() error {
				n := max(1500, 300*len(reg))
				count := map[uint64]int{}
				for i := 0; i < n; i++ {
					req++
					out, err := d.ReceiveMessage(fairCaller, messages.NewCall(req, map[string]any{}, "a.b", nil, nil))
					if err != nil {
						return err
					}
					inv, ok := out.Message.(*messages.Invocation)
					if !ok {
						return fmt.Errorf("call not routed: %s", show(out, err))
					}
					count[out.Recipient]++
					if i%2 == 0 { // finished calls or pending ones make no difference
						if _, err := d.ReceiveMessage(out.Recipient, messages.NewYield(inv.RequestID(), map[string]any{}, nil, nil)); err != nil {
							return err
						}
					}
				}
				for id := range reg {
					share := n / len(reg)
					if c.Policy == "roundrobin" && (count[id] < share || count[id] > share+1) || count[id] < share/2 {
						return fmt.Errorf("unfair share: %d of %d callees gets %d of %d calls under %s", id, len(reg), count[id], n, c.Policy)
					}
				}
				if len(count) != len(reg) {
					return fmt.Errorf("calls go to others: to %d instead of %d", len(count), len(reg))
				}
				return nil
			}
			for i := 1; i <= c.Callees; i++ {
				if err := enter(uint64(i)); err != nil {
					return err
				}
			}
			if err := measure(); err != nil {
				return err
			}
			for _, i := range c.Leave {
				id := uint64(i + 1)
				if reg[id] == 0 {
					continue
				}
				var err error
				if c.Unreg {
					_, err = d.ReceiveMessage(id, messages.NewUnregister(5, reg[id]))
				} else {
					err = d.RemoveSession(id)
				}
				if err != nil {
					return err
				}
				delete(reg, id)
			}
			for i := 0; i < c.Join; i++ {
				if err := enter(uint64(5000 + i)); err != nil {
					return err
				}
			}
			r.Label("%s", c.Policy)
			r.Evals(2 * max(1500, 300*c.Callees))
			return measure()
		})
}

func TestC18_Answers(t *testing.T) {
	mix := rpcMix{ops: "RRRUCCCCCCYYYYYYEEEWLJ", uris: 3, policies: []string{"", "roundrobin", "first"}, matches: []string{"", "prefix", "wildcard"},
		min: 4, max: 80, sessions: 5, oneWild: true}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history of calls and answers, progressive or not, by callee, caller or others, to live, finished and unknown " +
		"invocations, with sessions leaving in between, finally answering everything (twice); non-trivial when an answer was forwarded between " +
		"different sessions or one was refused"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error {
			return runRPC(c, r, "C18", "answered", "answer refused")
		})
}

func TestC19_Progressive(t *testing.T) {
	mix := rpcMix{ops: "RRRUCCCCCCCCYYEL", uris: 3, policies: []string{"", "roundrobin", "roundrobin", "random", "first", "last"},
		matches: []string{"", "prefix", "wildcard"}, min: 4, max: 80, sessions: 4, oneWild: true}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history of calls marked progressive or not, continued under the same request id (several callees share the " +
		"procedure), answered, and the id used again; non-trivial when a call was continued or its id used again"},
		func(t *rapid.T) rpcCase {
			c := genRPC(t, mix)
			for i := range c.Ops {
				if c.Ops[i].K == "call" && c.Ops[i].Ref%3 != 0 {
					c.Ops[i].Prog = true
				}
			}
			return c
		},
		func(c *rpcCase, r *Rec) error {
			return runRPC(c, r, "C19", "continued", "request id used again")
		})
}

func TestC20_Withdrawal(t *testing.T) {
	mix := rpcMix{ops: "RRRRRRUUUULLJJCCCCCY", uris: 4, policies: allPolicies, matches: allMatches, min: 4, max: 80, sessions: 6}
	Check(t, Opt{Checks: 12000, Repeat: 20, Rule: "history of registering, unregistering (held, foreign, past and made-up ids), leaving, coming back and calling; " +
		"non-trivial when a callee left a shared registration, a procedure was registered again after its last callee had gone, or an unregister was refused"},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error {
			return runRPC(c, r, "C20", "shared registration keeps others", "registered afresh", "unregister refused")
		})
}
