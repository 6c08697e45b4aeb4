package harness

// The histories of C13-C20 among hundreds of sessions, with hundreds of
// subscriptions, registrations and pending calls: limits, batches and small
// counters show only there.

import (
	"testing"

	"pgregory.net/rapid"
)

const crowdRule = "history of 100-3000 operations among 2 to 1050 sessions, in 60% of the cases over up to 300 URIs, with stretches in which everybody comes to one URI " +
	"or one session to all, judged by the same model; "

var crowdDeclMatches = []string{"", "exact", "prefix", "wildcard"}

func crowdPub(t *testing.T, prop, ops string, rule string, nontrivial ...string) {
	mix := pubMix{ops: ops, topics: 3, matches: crowdDeclMatches, toggle: true, min: 100, max: 700, disjoint: 70, sessions: 8, crowd: true}
	Check(t, Opt{Checks: 150, Repeat: 4, Rule: crowdRule + rule},
		func(t *rapid.T) pubCase { return genPub(t, mix) },
		func(c *pubCase, r *Rec) error { return runPub(c, r, prop, nontrivial...) })
}

func crowdRPC(t *testing.T, prop, ops string, policies []string, rule string, nontrivial ...string) {
	mix := rpcMix{ops: ops, uris: 3, policies: policies, matches: crowdDeclMatches, toggle: true, min: 100, max: 700, sessions: 8, oneWild: true, crowd: true}
	Check(t, Opt{Checks: 150, Repeat: 4, Rule: crowdRule + rule},
		func(t *rapid.T) rpcCase { return genRPC(t, mix) },
		func(c *rpcCase, r *Rec) error { return runRPC(c, r, prop, nontrivial...) })
}

func TestC13_Crowd(t *testing.T) {
	crowdPub(t, "C13", "SSSSSSSSUPPPPL", "non-trivial when an event went to several sessions", "several recipients")
}

func TestC14_Crowd(t *testing.T) {
	crowdPub(t, "C14", "SSSPPPPPPPPPPD", "non-trivial when an event was delivered", "delivered")
}

func TestC15_Crowd(t *testing.T) {
	crowdPub(t, "C15", "SSSSSSSUUUPPPLLLJ", "non-trivial when a subscriber went and others stayed", "others stay subscribed")
}

func TestC16_Crowd(t *testing.T) {
	crowdRPC(t, "C16", "RRRRRRUCCCCCCYLJD", allPolicies, "non-trivial when a call was routed", "routed exact", "routed prefix", "routed wildcard")
}

func TestC17_Crowd(t *testing.T) {
	crowdRPC(t, "C17", "RRRRRRRUCCCCCCYLJ", sharedPolicies, "non-trivial when a registration was shared and called", "shared call first", "shared call last",
		"shared call roundrobin", "shared call random")
}

func TestC18_Crowd(t *testing.T) {
	crowdRPC(t, "C18", "RRUCCCCCCCCCCCYYYYELJ", sharedPolicies, "non-trivial when an answer was forwarded between sessions", "answered")
}

func TestC19_Crowd(t *testing.T) {
	crowdRPC(t, "C19", "RRUCCCCCCCCCCYYEL", sharedPolicies, "non-trivial when a call was continued", "continued")
}

func TestC20_Crowd(t *testing.T) {
	crowdRPC(t, "C20", "RRRRRRRUUUULLJCCCY", allPolicies, "non-trivial when a callee left a shared registration or a procedure was registered again",
		"shared registration keeps others", "registered afresh")
}
