package harness

// What the checks of dealer and broker share: sessions, URI alphabets, pattern
// matching, and mismatches that name the properties they break. A check only
// reports mismatches of its own property; at another one it stops following
// the history.

import (
	"fmt"
	"maps"
	"slices"
	"strings"

	"github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"pgregory.net/rapid"
)

// sessionIDs has ids as small as those the routers hand out, and large ones,
// some of which agree in their low 8, 16 or 32 bits, or in their decimal digits.
var sessionIDs = append([]uint64{1, 2, 1<<32 + 1, 1 << 53, 257, 3, 1<<32 + 2}, manyIDs()...)

const nSessions = 1100

var indexOfID = func() map[uint64]int {
	m := map[uint64]int{}
	for i, id := range sessionIDs {
		m[id] = i
	}
	return m
}()

func manyIDs() []uint64 {
	ids := []uint64{11}
	for i := uint64(8); i < nSessions; i++ {
		ids = append(ids, []uint64{1000 + i, i<<16 | 1, i<<33 | 1}[i%3])
	}
	return ids
}

// manyURIs are the procedures or topics of a crowd.
const manyURIs = 300

func numbered(i int) string { return fmt.Sprintf("n.%d", i) }

func isNumbered(uri string) bool { return strings.HasPrefix(uri, "n.") }

// insert puts a run of operations somewhere into a history.
func insert[T any](t *rapid.T, ops []T, more ...T) []T {
	return slices.Insert(ops, intn(t, "at", len(ops)+1), more...)
}

// throng is an order in which sessions come, one after another.
func throng(t *rapid.T, n int) []int {
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	switch pick(t, "order", "up", "down", "mixed") {
	case "down":
		slices.Reverse(order)
	case "mixed":
		for i := range order { // 17 is prime to none of the sizes that matter
			order[i] = (i*17 + 5) % n
		}
	}
	return order
}

// reqOf spreads small request numbers over ids that agree in their low bits.
func reqOf(n uint64, wide bool) uint64 {
	if wide {
		return []uint64{1, 1<<32 + 1, 257, 1 << 53, 2}[n%5]
	}
	return n
}

func sidOf(i int) uint64 { return sessionIDs[i%len(sessionIDs)] }

func detailsOf(i int, static bool) *wampproto.SessionDetails { return detailsAs(i, static, 0) }

// detailsAs describes a session of which n others with the same id were there
// before.
func detailsAs(i int, static bool, n int) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(sidOf(i), "realm", authidOf(sidOf(i), n), authroleOf(sidOf(i), n), "anonymous", static, nil, nil)
}

// Two sessions each are of one user, and two of one role.
func authidOf(id uint64, n int) string { return fmt.Sprintf("user-%d-%d", indexOfID[id]/2, n/2) }

// authroleOf leaves one session without a role.
func authroleOf(id uint64, n int) string {
	if id == 257 {
		return ""
	}
	return fmt.Sprintf("role-%d-%d", (indexOfID[id]+1)/2, (n+1)/2)
}

// persons counts the sessions that came under an id, and knows which of them
// is attached.
type persons struct{ came, now map[int]int }

func (p *persons) next(i int, static bool) *wampproto.SessionDetails {
	i %= len(sessionIDs)
	if p.came == nil {
		p.came, p.now = map[int]int{}, map[int]int{}
	}
	p.came[i]++
	return detailsAs(i, static, p.came[i])
}

func (p *persons) entered(i int) { p.now[i%len(sessionIDs)] = p.came[i%len(sessionIDs)] }

func (p *persons) of(id uint64) int { return p.now[indexOfID[id]] }

type mismatch struct {
	tags string
	err  error
}

func bad(tags, format string, args ...any) *mismatch {
	return &mismatch{tags, fmt.Errorf(format, args...)}
}

// of is the mismatch as an error of a property.
func (m *mismatch) of(prop string, r *Rec) error {
	if m == nil {
		return nil
	}
	if !strings.Contains(m.tags, prop) {
		r.Label("left at a mismatch of %s", m.tags)
		return nil
	}
	return m.err
}

var concreteURIs = []string{"a", "ab", "a.b", "a.b.c", "a.c", "b.b", "b", "a.b.b"}

// exactURIs has some that read like patterns.
var exactURIs = append(slices.Clone(concreteURIs), "a.*", "*")

// patterns of each match policy; wildcard ones always have a '*', called and
// published URIs never do.
var patternsOf = map[string][]string{
	"":         exactURIs,
	"exact":    exactURIs,
	"prefix":   {"a", "a.", "a.b", "a.b.", "b", "ab", "a.b.c", "c", "", "a.*"},
	"wildcard": {"*", "a.*", "*.b", "a.*.c", "*b", "a*", "*.*", "c.*"},
}

// errorURI is the URI of the n-th error, at times one of those that the
// specification knows.
func errorURI(n, ref int) string {
	if ref%4 == 1 {
		return knownErrors[n%len(knownErrors)]
	}
	return fmt.Sprintf("some.error.%d", n)
}

var knownErrors = []string{"wamp.error.canceled", "wamp.error.no_such_procedure", "wamp.error.runtime_error", "wamp.error.invalid_argument",
	"wamp.error.procedure_already_exists", "wamp.error.no_such_registration", "wamp.error.not_authorized", "wamp.error.timeout",
	"wamp.error.no_eligible_callee", "wamp.error.unavailable", "wamp.error.network_failure", "wamp.error.no_such_session",
	"wamp.error.option_not_allowed", "wamp.error.authentication_failed", "wamp.error.protocol_violation", "wamp.close.normal", ""}

// spellings are other ways to write the URIs of a case, all of them for the
// same relations between them.
var spellings = map[string]*strings.Replacer{
	"":         strings.NewReplacer(),
	"empty":    strings.NewReplacer(".", ".."),
	"upper":    strings.NewReplacer("a", "A", "b", "B", "c", "C"),
	"mixed":    strings.NewReplacer("a", "Aa", "b", "aA", "c", "aa"),
	"slash":    strings.NewReplacer(".", "/"),
	"utf8":     strings.NewReplacer("a", "\u00e4", "b", "\u65e5", "c", "\u65e6"),
	"long":     strings.NewReplacer("a", strings.Repeat("x.", 40)+"a", "b", strings.Repeat("x.", 150)+"b", "c", strings.Repeat("y", 300)),
	"reserved": strings.NewReplacer("a", "wamp", "b", "wamp."),
	"special":  strings.NewReplacer("a", "[a-b]", "b", "\\?", "c", "{c,^}"),
	"blank":    strings.NewReplacer("a", " ", "b", "\t", "c", "\x00"),
	"digits":   strings.NewReplacer("a", "0", "b", "1", "c", "01"),
	"dashes":   strings.NewReplacer("a", "_a", "b", "-b", ".", "#."),
}

func genSpelling(t *rapid.T) string {
	if !chance(t, "spelling", 30) {
		return ""
	}
	return pick(t, "spelling of URIs", "empty", "upper", "mixed", "slash", "utf8", "long", "reserved", "special", "blank", "digits", "dashes")
}

// plain leaves out the spellings with characters that shell patterns treat
// specially, which say nothing about wildcard patterns.
func plain(spelling string) string {
	if spelling == "slash" || spelling == "special" {
		return ""
	}
	return spelling
}

// respell writes a URI in the way of the case; numbered ones stay as they are.
func respell(spelling, uri string) string {
	if isNumbered(uri) {
		return uri
	}
	return spellings[spelling].Replace(uri)
}

// glob matches '*' against any text, everything else literally.
func glob(pattern, s string) bool {
	i := strings.IndexByte(pattern, '*')
	if i < 0 {
		return pattern == s
	}
	if !strings.HasPrefix(s, pattern[:i]) {
		return false
	}
	for j := i; j <= len(s); j++ {
		if glob(pattern[i+1:], s[j:]) {
			return true
		}
	}
	return false
}

func matchName(m string) string {
	if m == "" {
		return "exact"
	}
	return m
}

// refuses says whether an answer refuses a request: a Go error, or an ERROR
// message for the requester.
func refuses(out *wampproto.MessageWithRecipient, err error, session uint64) bool {
	if err != nil {
		return true
	}
	if out == nil || out.Message == nil {
		return false
	}
	_, ok := out.Message.(*messages.Error)
	return ok && out.Recipient == session
}

func show(out *wampproto.MessageWithRecipient, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if out == nil || out.Message == nil {
		return "nothing"
	}
	return fmt.Sprintf("%T%s to %d", out.Message, canonStripped(out.Message), out.Recipient)
}

func canonStripped(m messages.Message) string {
	f, ok := stripped(m).([]any)
	if !ok {
		return fmt.Sprint(stripped(m))
	}
	s := make([]string, len(f))
	for i := range f {
		s[i] = fmt.Sprint(f[i])
	}
	return "(" + strings.Join(s, " ") + ")"
}

// tokenArgs is the payload of an operation, made afresh at every call: its
// token tells it from every other one.
func tokenArgs(n int, shape int) ([]any, map[string]any) {
	args, kwargs := tokenContent(n, shape)
	return withRoom(args), withRoom(kwargs)
}

func tokenContent(n int, shape int) ([]any, map[string]any) {
	tok := fmt.Sprintf("token-%d", n)
	switch shape % 16 {
	case 0:
		return []any{tok}, nil
	case 1:
		return nil, map[string]any{"k": tok}
	case 2:
		return []any{tok, int64(n), []any{nil, true}}, map[string]any{"k": map[string]any{"x": tok}, "n": 1.5}
	case 3:
		return []any{}, map[string]any{"a": tok, "b": tok}
	case 4:
		return nil, nil
	case 5:
		return []any{map[string]any{"a": tok}}, nil
	case 6:
		return []any{[]any{tok, nil}}, map[string]any{}
	case 7:
		return []any{nil}, nil
	case 8: // names the router uses in details
		return []any{tok}, map[string]any{"topic": tok, "publisher": n, "publisher_authid": nil, "publisher_authrole": "", "procedure": tok,
			"caller": int64(7), "caller_authid": tok, "caller_authrole": tok, "progress": true, "receive_progress": false, "args": []any{},
			"kwargs": map[string]any{}, "x_custom": 1}
	case 9:
		return []any{map[string]any{}, map[string]any{"k": []any{}}}, nil
	case 10:
		return []any{[]byte{0, 1, byte(n), 255}, []byte{}}, map[string]any{"": tok, "b": []byte(tok)}
	case 11:
		return []any{uint64(1) << 63, int64(-1) << 63, uint64(n), -1.5, float32(0.5), false, ""}, map[string]any{"nil": nil, "0": 0}
	case 12:
		return []any{}, map[string]any{}
	case 13:
		return []any{map[string]any{"message": tok}}, map[string]any{"": nil}
	case 14:
		list := make([]any, 40)
		for i := range list {
			list[i] = tok
		}
		return list, map[string]any{"deep": []any{[]any{[]any{map[string]any{"x": []any{tok}}}}}}
	}
	return []any{tok, tok, "", nil}, map[string]any{"k": nil}
}

func samePayload(a, b []any, ka, kb map[string]any) bool {
	return canonList(a) == canonList(b) && canonMap(ka) == canonMap(kb)
}

// withOptions adds options an operation does not look at: custom ones, ones
// that belong to other messages, and ones of the specification that name or
// qualify something else. Nothing may depend on them.
func withOptions(o map[string]any, kind string, n int) map[string]any {
	if n%3 != 1 {
		return o
	}
	foreign := map[string][]string{
		"REGISTER":  {"progress", "receive_progress", "acknowledge", "exclude_me", "topic", "concurrency", "force_reregister"},
		"CALL":      {"disclose_me", "match", "invoke", "acknowledge", "exclude_me", "procedure", "caller", "topic", "timeout", "rkey", "runmode"},
		"YIELD":     {"receive_progress", "match", "invoke", "acknowledge", "caller", "procedure"},
		"SUBSCRIBE": {"invoke", "progress", "receive_progress", "acknowledge", "exclude_me", "topic", "get_retained"},
		"PUBLISH":   {"disclose_me", "match", "invoke", "progress", "receive_progress", "topic", "publisher", "retain", "rkey"},
	}[kind]
	values := map[string][]any{"match": {"prefix", "wildcard", "exact"}, "invoke": {"first", "roundrobin", "single"},
		"timeout": {0, 5, 60000}, "rkey": {"a", 7}, "runmode": {"partition", "all"}, "concurrency": {1, 2},
		"caller": {uint64(99), "someone"}, "publisher": {uint64(99), "someone"}, "procedure": {"a.b", "z"}, "topic": {"a.b", "z"}}
	switch name := foreign[n/3%len(foreign)]; n / 21 {
	case 0:
		o["x_custom"] = n
	default:
		if v := values[name]; v != nil {
			o[name] = v[n%len(v)]
		} else {
			o[name] = n%2 == 0
		}
	}
	return o
}

// flagOf is a boolean option. One that is no boolean is not set.
func flagOf(yes bool, n int) any {
	if yes {
		return true
	}
	return []any{false, 1, false, "true", false, nil, uint64(1), 1.0, map[string]any{"x": true}}[n%9]
}

// forwarded keeps what a router handed out next to what it said then: later
// operations must not change it.
type forwarded struct {
	msg  messages.Message
	then string
	tags string
}

type ledger []forwarded

func (l *ledger) keep(m messages.Message, tags string) {
	*l = append(*l, forwarded{m, canonStripped(m), tags})
}

func (l ledger) check() *mismatch {
	for _, f := range l {
		if now := canonStripped(f.msg); now != f.then {
			return bad(f.tags, "forwarded message changed later: %T%s is now %s", f.msg, f.then, now)
		}
	}
	return nil
}

// --------------------------------------------------------------------- dealer

// rpcOp is one operation on a dealer. References to what the dealer handed out
// are resolved when the operation is run.
type rpcOp struct {
	K    string `json:"k"`
	S    int    `json:"s"`
	P    string `json:"p,omitempty"`
	M    string `json:"m,omitempty"`
	I    string `json:"i,omitempty"`
	Req  uint64 `json:"req,omitempty"`
	Prog bool   `json:"prog,omitempty"`
	Recv bool   `json:"recv,omitempty"`
	Ref  int    `json:"ref,omitempty"`
	How  string `json:"how,omitempty"` // live, any or bogus reference
	By   bool   `json:"by,omitempty"`  // sent by session S, whoever should send it
}

type rpcCase struct {
	Static   int     `json:"static,omitempty"` // bit i: session i has a static serializer
	Attached int     `json:"attached"`         // sessions 0..Attached-1 are there from the start
	Disclose bool    `json:"disclose,omitempty"`
	Own      bool    `json:"own,omitempty"` // messages have fields of the application's own
	Spelling string  `json:"spelling,omitempty"`
	Ops      []rpcOp `json:"ops"`
}

// rpcMix weighs what a check is about.
type rpcMix struct {
	ops      string // one letter per weight unit, see rpcKinds
	uris     int    // how many patterns a case uses
	policies []string
	matches  []string
	min, max int
	sessions int
	toggle   bool
	oneWild  bool
	crowd    bool // hundreds of sessions, procedures and calls
}

var rpcKinds = map[byte]string{'J': "join", 'L': "leave", 'R': "register", 'U': "unregister", 'C': "call", 'Y': "yield",
	'E': "error", 'D': "disclose", 'F': "foreign", 'W': "wrongerror"}

var allPolicies = []string{"", "single", "first", "last", "roundrobin", "random"}
var sharedPolicies = []string{"first", "last", "roundrobin", "random"}
var allMatches = []string{"", "exact", "prefix", "wildcard"}

func genRPC(t *rapid.T, mix rpcMix) rpcCase {
	n := between(t, "sessions", 2, mix.sessions)
	refs, reqs, stream := 64, 4, false
	if mix.crowd {
		stream = chance(t, "stream", 20) // few calls, with many parts and results
		n = pick(t, "sessions", 3, 20, 60, 140, 300, 600, 1050)
		refs, reqs = 1<<12, pick(t, "reqs", 4, 40, 1000)
		if stream {
			n, reqs, mix.uris, mix.ops = between(t, "sessions", 2, 4), 1, 1, "RRRUCCCCCCCCCCCCYYYYYYYYYYYYLJ"
		}
	}
	c := rpcCase{Attached: n, Static: intn(t, "static", 1<<3) * 5, Own: chance(t, "own", 10)}
	if mix.toggle {
		c.Disclose = chance(t, "disclose", 50)
	}
	if chance(t, "late", 20) {
		c.Attached = intn(t, "attached", n)
	}
	wide := !mix.crowd && chance(t, "wide", 30)
	type decl struct{ p, m, i string }
	var decls []decl
	numbers := 0
	if mix.crowd && !stream && chance(t, "numbers", 60) {
		numbers = pick(t, "numbers", 20, 100, manyURIs)
	}
	for i := between(t, "decls", 1, mix.uris); i > 0; i-- {
		m := mix.matches[intn(t, "match", len(mix.matches))]
		p := patternsOf[m]
		if m == "wildcard" && mix.oneWild {
			p = p[1:2]
		}
		d := decl{p[intn(t, "uri", len(p))], m, mix.policies[intn(t, "policy", len(mix.policies))]}
		decls = append(decls, d)
	}
	uris := concreteURIs[:]
	if chance(t, "few", 60) {
		// call what is declared, mostly
		uris = nil
		for _, d := range decls {
			for _, u := range concreteURIs {
				if m := matchName(d.m); m == "exact" && d.p == u || m == "prefix" && strings.HasPrefix(u, d.p) ||
					m == "wildcard" && glob(d.p, u) {
					uris = append(uris, u)
				}
			}
		}
		if len(uris) == 0 {
			uris = concreteURIs
		}
	}
	if mix.crowd {
		mix.max = pick(t, "max", 300, 1000, 3000)
	}
	for i := between(t, "n", mix.min, mix.max); i > 0; i-- {
		o := rpcOp{K: rpcKinds[mix.ops[intn(t, "op", len(mix.ops))]], S: intn(t, "session", n), Ref: intn(t, "ref", refs)}
		if chance(t, "stranger", 3) {
			o.S = n + intn(t, "stranger", 2)
		}
		switch o.K {
		case "register":
			if numbers > 0 && chance(t, "numbered", 50) {
				o.P, o.M, o.I = numbered(intn(t, "number", numbers)), pick(t, "match", "", "exact"), mix.policies[0]
				o.Req = uint64(between(t, "req", 1, reqs))
				break
			}
			d := decls[intn(t, "decl", len(decls))]
			o.P, o.M, o.I = d.p, d.m, d.i
			if chance(t, "other", 12) {
				o.I = allPolicies[intn(t, "policy", len(allPolicies))]
			}
			if chance(t, "other match", 6) {
				if o.M = "prefix"; d.m == "prefix" && !strings.Contains(d.p, "*") {
					o.M = "exact"
				}
			}
			o.Req = reqOf(uint64(between(t, "req", 1, 3)), wide)
		case "unregister":
			o.How = pick(t, "how", "live", "live", "live", "live", "any", "bogus")
			o.By = chance(t, "by", 20)
		case "call":
			o.P = uris[intn(t, "uri", len(uris))]
			o.Req = reqOf(uint64(between(t, "req", 1, reqs)), wide)
			if numbers > 0 && chance(t, "numbered", 40) {
				o.P = numbered(intn(t, "number", numbers))
			}
			o.Prog, o.Recv = chance(t, "progress", 30), chance(t, "receive", 40)
			o.How = "any"
			if chance(t, "continue", 25) {
				o.How = "live" // go on with a progressive call, if there is one
			}
			if stream {
				o.Prog, o.Recv, o.How = chance(t, "more", 98), true, "live"
			}
		case "yield", "error":
			o.How = pick(t, "how", "live", "live", "live", "live", "live", "any", "bogus")
			o.By = chance(t, "by", 15)
			o.Prog = chance(t, "progress", 40) || stream && chance(t, "more", 98)
		case "foreign":
			o.P = otherTypes[intn(t, "type", len(otherTypes))]
		}
		c.Ops = append(c.Ops, o)
	}
	if mix.crowd && !stream {
		for range between(t, "lumps", 0, 2) {
			c.lump(t, mix, n, rpcOp{K: "register", P: decls[0].p, M: decls[0].m, I: decls[0].i}, uris)
		}
	}
	c.Spelling = genSpelling(t)
	if slices.ContainsFunc(c.Ops, func(o rpcOp) bool { return o.M == "wildcard" }) {
		c.Spelling = plain(c.Spelling)
	}
	for i, o := range c.Ops {
		if o.K == "register" || o.K == "call" {
			c.Ops[i].P = respell(c.Spelling, o.P)
		}
	}
	return c
}

// lump adds a procedure that hundreds of sessions register and that is called
// more often than that, or a session that registers hundreds of procedures and
// leaves.
func (c *rpcCase) lump(t *rapid.T, mix rpcMix, n int, first rpcOp, uris []string) {
	var more []rpcOp
	switch pick(t, "lump", "throng", "hoard", "calls") {
	case "throng":
		for i, s := range throng(t, n) {
			o := first
			o.S, o.Req = s, uint64(i%3+1)
			more = append(more, o)
		}
		if chance(t, "calls", 70) {
			for i := 0; i < n+n/4; i++ {
				more = append(more, rpcOp{K: "call", S: i % n, P: uris[0], Req: uint64(i%7 + 1), How: "any", Ref: i})
			}
		}
	case "hoard":
		s := intn(t, "hoarder", n)
		for i := range pick(t, "hoard", 60, 130, manyURIs) {
			more = append(more, rpcOp{K: "register", S: s, P: numbered(i), I: mix.policies[0], Req: uint64(i%3 + 1)})
		}
		if chance(t, "leaves", 70) {
			more = append(more, rpcOp{K: "leave", S: s})
		}
	case "calls":
		// calls of one session that are answered, one by one, only when all were made
		k := pick(t, "calls", 60, 300, 700)
		s := intn(t, "caller", n)
		for i := range k {
			more = append(more, rpcOp{K: "call", S: s, P: uris[0], Req: uint64(i + 1), How: "any", Recv: i%3 == 0, Ref: i})
		}
		for i := range k {
			more = append(more, rpcOp{K: []string{"yield", "error"}[i%5/4], How: "live", Prog: i%4 == 0, Ref: i * 7})
		}
	}
	c.Ops = insert(t, c.Ops, more...)
}

type mReg struct {
	proc, match, policy string
	callees             []uint64          // in the order they registered
	given               map[uint64]uint64 // registration id each callee was given
	round               []uint64          // callees of this round since the last change
	departed            bool              // somebody was withdrawn while others stayed
	retired             map[uint64]bool
}

type mCall struct {
	inv, caller, callee, req uint64
	regID                    uint64
	progress, recv, done     bool
	proc                     string
	reg                      *mReg
	callerLeft, calleeLeft   bool
}

// dealerRun runs operations on a dealer and follows them in a model.
type dealerRun struct {
	own      bool
	d        *wampproto.Dealer
	who      persons
	static   int
	attached map[uint64]bool
	regs     []*mReg
	calls    []*mCall // every invocation ever made
	given    []uint64 // every registration id ever given
	former   map[string]map[uint64]bool
	everReg  map[string]bool
	left     map[uint64]bool
	disclose bool
	n        int
	r        *Rec
	seen     map[string]int
	hist     map[string]int // seen before the final probes
	kept     ledger
	watch    *watch
	spelling string
}

func newDealerRun(c *rpcCase, r *Rec) (*dealerRun, *mismatch) {
	m := &dealerRun{d: wampproto.NewDealer(), static: c.Static, own: c.Own, spelling: c.Spelling, attached: map[uint64]bool{},
		former: map[string]map[uint64]bool{}, everReg: map[string]bool{}, left: map[uint64]bool{}, r: r, seen: map[string]int{}}
	for i := 0; i < c.Attached; i++ {
		if mm := m.join(i); mm != nil {
			return m, mm
		}
	}
	if c.Disclose {
		m.disclose = true
		m.d.AutoDiscloseCaller(true)
	}
	return m, nil
}

func (m *dealerRun) note(what string) { m.seen[what]++ }

func (m *dealerRun) join(i int) *mismatch {
	id := sidOf(i)
	err := m.d.AddSession(m.who.next(i, m.static>>i&1 == 1))
	if m.attached[id] {
		m.note("refused")
		if err == nil {
			return bad("C26", "attached twice: session %d", id)
		}
		return nil
	}
	if err != nil {
		return bad("C26 C20", "cannot attach: session %d: %v", id, err)
	}
	m.who.entered(i)
	m.attached[id] = true
	return nil
}

func (m *dealerRun) withdraw(reg *mReg, id uint64) {
	reg.callees = slices.DeleteFunc(reg.callees, func(c uint64) bool { return c == id })
	delete(reg.given, id)
	reg.round = nil
	reg.departed = true
	if m.former[reg.proc] == nil {
		m.former[reg.proc] = map[uint64]bool{}
	}
	m.former[reg.proc][id] = true
	if len(reg.callees) == 0 {
		m.regs = slices.DeleteFunc(m.regs, func(r *mReg) bool { return r == reg })
	} else {
		m.note("shared registration keeps others")
	}
	for _, c := range m.calls {
		if !c.done && c.progress && c.callee == id && c.reg == reg {
			m.note("progressive call outlives its registration")
		}
	}
}

func (m *dealerRun) leave(i int) *mismatch {
	id := sidOf(i)
	err := m.d.RemoveSession(id)
	if !m.attached[id] {
		m.note("refused")
		if err == nil {
			return bad("C26", "removed although not attached: session %d", id)
		}
		return nil
	}
	if err != nil {
		return bad("C26 C20", "cannot leave: session %d: %v", id, err)
	}
	delete(m.attached, id)
	m.left[id] = true
	m.note("leave")
	for _, reg := range slices.Clone(m.regs) {
		if slices.Contains(reg.callees, id) {
			m.note("callee leaves")
			m.withdraw(reg, id)
		}
	}
	for _, c := range m.calls {
		if !c.done && (c.caller == id || c.callee == id) {
			c.done = true
			c.callerLeft = c.caller == id
			c.calleeLeft = c.calleeLeft || c.callee == id
			m.note("party of a pending call leaves")
		}
		c.calleeLeft = c.calleeLeft || c.callee == id
	}
	return nil
}

func (m *dealerRun) regOf(proc string) *mReg {
	for _, r := range m.regs {
		if r.proc == proc {
			return r
		}
	}
	return nil
}

// holds checks that a message goes to an attached session.
func (m *dealerRun) addressed(out *wampproto.MessageWithRecipient) *mismatch {
	if out != nil && out.Message != nil && !m.attached[out.Recipient] {
		tags := "C26"
		if m.left[out.Recipient] {
			tags += " C20 C18"
		}
		return bad(tags, "addressed to a session that is not attached: %s", show(out, nil))
	}
	return nil
}

func (m *dealerRun) send(i int, msg messages.Message) (*wampproto.MessageWithRecipient, error, *mismatch) {
	if m.own {
		msg = own(msg)
	}
	m.watch.message("message to the dealer", msg)
	out, err := m.d.ReceiveMessage(sidOf(i), msg)
	if mm := m.watch.last(); mm != nil {
		return out, err, mm
	}
	if err == nil && out != nil {
		m.watch.message("message from the dealer", out.Message)
		m.watch.add("answer", func() string { return fmt.Sprintf("%p to %d", out.Message, out.Recipient) })
	}
	if err == nil {
		if mm := m.addressed(out); mm != nil {
			return out, err, mm
		}
	}
	if err == nil && (out == nil || out.Message == nil) {
		return out, err, bad("C26", "neither a message nor an error: for %T", msg)
	}
	return out, err, nil
}

func (m *dealerRun) step(o rpcOp) *mismatch {
	m.n++
	id := sidOf(o.S)
	switch o.K {
	case "join":
		return m.join(o.S)
	case "leave":
		return m.leave(o.S)
	case "disclose":
		m.disclose = o.Ref%2 == 0
		m.d.AutoDiscloseCaller(m.disclose)
		return nil
	case "register":
		return m.register(o, id)
	case "unregister":
		return m.unregister(o, id)
	case "call":
		return m.call(o, id)
	case "yield", "error":
		return m.answer(o, id)
	case "foreign":
		switch o.P {
		case "CALL", "YIELD", "REGISTER", "UNREGISTER", "ERROR", "CANCEL", "GOODBYE":
			return nil
		}
		out, err, mm := m.send(o.S, simple(o.P, o.Ref))
		if mm != nil {
			return mm
		}
		if !refuses(out, err, id) {
			return bad("C26", "dealer accepts a message that is not for it: %s gives %s", o.P, show(out, err))
		}
	case "wrongerror":
		kinds := []uint64{48, 64, 50, 70, 0, 32}
		inv := uint64(1)
		if len(m.calls) > 0 {
			inv = m.calls[o.Ref%len(m.calls)].inv
			id = m.calls[o.Ref%len(m.calls)].callee
			o.S = indexOfID[id]
		}
		out, err, mm := m.send(o.S, messages.NewError(kinds[o.Ref%len(kinds)], inv, map[string]any{}, "a.b", nil, nil))
		if mm != nil {
			return mm
		}
		if !refuses(out, err, id) {
			return bad("C18 C26", "ERROR of another kind accepted: type %d gives %s", kinds[o.Ref%len(kinds)], show(out, err))
		}
	}
	return nil
}

func (m *dealerRun) register(o rpcOp, id uint64) *mismatch {
	reg := m.regOf(o.P)
	self := reg != nil && slices.Contains(reg.callees, id)
	if self && (reg.policy == "first" || reg.policy == "last") {
		return nil // the place of one that registers again is not specified
	}
	options := map[string]any{}
	if o.M != "" {
		options["match"] = o.M
	}
	if o.I != "" {
		options["invoke"] = o.I
	}
	out, err, mm := m.send(o.S, messages.NewRegister(o.Req, withOptions(options, "REGISTER", o.Ref), o.P))
	if mm != nil {
		return mm
	}
	if !m.attached[id] {
		m.note("refused")
		if err == nil {
			return bad("C26", "register of a session that is not attached: gives %s", show(out, err))
		}
		return nil
	}
	if err != nil {
		return bad("C17 C20 C26", "register fails: %q match %q policy %q: %v", o.P, o.M, o.I, err)
	}
	if out.Recipient != id {
		return bad("C17 C26", "answer to register for another session: %s", show(out, err))
	}
	switch x := out.Message.(type) {
	case *messages.Registered:
		if x.RequestID() != o.Req {
			return bad("C17 C23", "REGISTERED for another request: %d instead of %d", x.RequestID(), o.Req)
		}
		if self {
			if x.RegistrationID() != reg.given[id] {
				return bad("", "registered again under another id")
			}
			return nil
		}
		if reg != nil {
			if reg.policy == "" || reg.policy == "single" || reg.policy != o.I || reg.match != matchName(o.M) {
				return bad("C17", "registration joined: %q, policy %q match %q, by a callee with policy %q match %q", o.P, reg.policy,
					reg.match, o.I, o.M)
			}
			m.note("joined " + o.I)
		} else {
			if m.everReg[o.P] {
				m.note("registered afresh")
			}
			m.everReg[o.P] = true
			reg = &mReg{proc: o.P, match: matchName(o.M), policy: o.I, given: map[uint64]uint64{}}
			m.regs = append(m.regs, reg)
		}
		if mm := m.freshID(reg, x.RegistrationID()); mm != nil {
			return mm
		}
		reg.callees = append(reg.callees, id)
		reg.given[id] = x.RegistrationID()
		reg.round = nil
		m.given = append(m.given, x.RegistrationID())
		return nil
	case *messages.Error:
		m.note("refused")
		if x.MessageType() != 64 || x.RequestID() != o.Req {
			return bad("C17 C26", "ERROR for another request: %s", show(out, err))
		}
		if self {
			return nil
		}
		if reg == nil {
			tags := "C17 C20"
			return bad(tags, "register refused: %q match %q policy %q although it is not registered: %s", o.P, o.M, o.I, show(out, err))
		}
		joinable := reg.policy != "" && reg.policy != "single" && reg.policy == o.I && reg.match == matchName(o.M)
		if joinable {
			return bad("C17", "shared registration refused: %q policy %q: %s", o.P, o.I, show(out, err))
		}
		if x.URI() != "wamp.error.procedure_already_exists" {
			return bad("C17", "register refused with another error: %s", x.URI())
		}
		m.note("refused: already exists")
		return nil
	}
	return bad("C17 C26", "register answered otherwise: %s", show(out, err))
}

func (m *dealerRun) freshID(reg *mReg, id uint64) *mismatch {
	if id < 1 || id > uint64(maxSafe) {
		return bad("C23", "registration id out of range: %d", id)
	}
	for _, other := range m.regs {
		if other == reg {
			continue
		}
		for _, g := range other.given {
			if g == id {
				return bad("C23 C16", "registration id in use: %d for %q and %q", id, reg.proc, other.proc)
			}
		}
	}
	return nil
}

func (m *dealerRun) unregister(o rpcOp, id uint64) *mismatch {
	reg := uint64(1<<50) + uint64(o.Ref)
	switch o.How {
	case "live":
		type held struct{ s, reg uint64 }
		var all []held
		for _, r := range m.regs {
			for _, c := range r.callees {
				all = append(all, held{c, r.given[c]})
			}
		}
		if len(all) > 0 {
			h := all[o.Ref%len(all)]
			reg = h.reg
			if !o.By {
				id = h.s
			}
		}
	case "any":
		if len(m.given) > 0 {
			reg = m.given[o.Ref%len(m.given)]
		}
	}
	var hit *mReg
	for _, r := range m.regs {
		if g, ok := r.given[id]; ok && g == reg {
			hit = r
		}
	}
	out, err, mm := m.send(indexOfID[id], messages.NewUnregister(o.Ref64(), reg))
	if mm != nil {
		return mm
	}
	if hit == nil || !m.attached[id] {
		m.note("refused")
		m.note("unregister refused")
		if !refuses(out, err, id) {
			return bad("C20 C26", "unregister of what the session does not hold: session %d registration %d gives %s", id, reg, show(out, err))
		}
		return nil
	}
	x, ok := (messages.Message)(nil), false
	if err == nil {
		x, ok = out.Message, true
	}
	u, isU := x.(*messages.Unregistered)
	if !ok || !isU || u.RequestID() != o.Ref64() || out.Recipient != id {
		return bad("C20", "unregister fails: session %d registration %d of %q: %s", id, reg, hit.proc, show(out, err))
	}
	m.note("unregister")
	m.withdraw(hit, id)
	return nil
}

func (o rpcOp) Ref64() uint64 { return uint64(o.Ref%7 + 1) }

// route is the registration a call to uri has to go to; more than one only
// when several wildcard ones match.
func (m *dealerRun) route(uri string) []*mReg {
	var prefix *mReg
	var wild []*mReg
	for _, r := range m.regs {
		switch {
		case r.match == "exact" && r.proc == uri:
			return []*mReg{r}
		case r.match == "prefix" && strings.HasPrefix(uri, r.proc):
			if prefix == nil || len(r.proc) > len(prefix.proc) {
				prefix = r
			}
		case r.match == "wildcard" && glob(r.proc, uri):
			wild = append(wild, r)
		}
	}
	if prefix != nil {
		return []*mReg{prefix}
	}
	return wild
}

// current is the progressive call a CALL goes on with.
func (m *dealerRun) current(caller, req uint64) *mCall {
	for i := len(m.calls) - 1; i >= 0; i-- {
		c := m.calls[i]
		if c.caller == caller && c.req == req {
			if !c.done && c.progress {
				return c
			}
			return nil
		}
	}
	return nil
}

func (m *dealerRun) call(o rpcOp, id uint64) *mismatch {
	if o.How == "live" {
		var open []*mCall
		for _, c := range m.calls {
			if !c.done && c.progress {
				open = append(open, c)
			}
		}
		if len(open) > 0 {
			c := open[o.Ref%len(open)]
			id, o.Req = c.caller, c.req
			o.S = indexOfID[id]
		}
	}
	cont := m.current(id, o.Req)
	if cont != nil {
		if o.Ref%8 != 3 {
			o.P = cont.proc // else the caller and request id say which call goes on
		} else if o.P != cont.proc {
			o.How = "other procedure"
		}
		if other := m.route(o.P); len(other) != 1 || other[0] != cont.reg {
			m.note("continued although another registration fits better")
		}
	} else {
		for i := len(m.calls) - 1; i >= 0; i-- {
			c := m.calls[i]
			if c.caller == id && c.req == o.Req {
				if c.done && c.calleeLeft && c.progress {
					return nil // the rest of a progressive call whose callee left
				}
				break
			}
		}
	}
	args, kwargs := tokenArgs(m.n, o.Ref)
	options := map[string]any{}
	if o.Prog || o.Ref%5 == 0 {
		options["progress"] = flagOf(o.Prog, o.Ref/5)
	}
	if o.Recv || o.Ref%7 == 0 {
		options["receive_progress"] = flagOf(o.Recv, o.Ref/7)
	}
	out, err, mm := m.send(o.S, messages.NewCall(o.Req, withOptions(options, "CALL", o.Ref), o.P, args, kwargs))
	if mm != nil {
		return mm
	}
	if !m.attached[id] {
		m.note("refused")
		if err == nil {
			return bad("C26", "call of a session that is not attached: gives %s", show(out, err))
		}
		return nil
	}
	if cont != nil {
		inv, ok := (*messages.Invocation)(nil), false
		if err == nil {
			inv, ok = out.Message.(*messages.Invocation)
		}
		if !ok {
			return bad("C19", "progressive call not continued: %s", show(out, err))
		}
		if out.Recipient != cont.callee || inv.RequestID() != cont.inv {
			return bad("C19", "progressive call continued elsewhere: invocation %d at %d instead of %d at %d", inv.RequestID(),
				out.Recipient, cont.inv, cont.callee)
		}
		m.note("continued")
		cont.progress = o.Prog
		return m.invocation(o, id, cont.reg, cont.regID, inv, out.Recipient, " C19")
	}
	cands := m.route(o.P)
	if len(cands) == 0 {
		m.note("refused")
		m.note("no such procedure")
		if err != nil {
			return bad("C16", "call without a callee: error %v instead of no_such_procedure for %q", err, o.P)
		}
		x, ok := out.Message.(*messages.Error)
		if !ok {
			tags := "C16"
			if inv, ok := out.Message.(*messages.Invocation); ok && inv != nil && m.wasCallee(o.P, out.Recipient) {
				tags += " C20"
			}
			return bad(tags, "call without a callee answered: %q gives %s", o.P, show(out, err))
		}
		if x.MessageType() != 48 || x.RequestID() != o.Req || out.Recipient != id {
			return bad("C16 C26", "ERROR for another call: %s instead of request %d of %d", show(out, err), o.Req, id)
		}
		if x.URI() != "wamp.error.no_such_procedure" {
			return bad("C16", "call without a callee: error %s for %q", x.URI(), o.P)
		}
		return nil
	}
	var inv *messages.Invocation
	if err == nil {
		inv, _ = out.Message.(*messages.Invocation)
	}
	if inv == nil {
		tags := "C16"
		for _, r := range cands {
			if r.departed || m.everReg[r.proc] && m.former[r.proc] != nil {
				tags += " C20"
			}
			if len(r.callees) > 1 {
				tags += " C17"
			}
		}
		return bad(tags, "call not routed: %q to %s: %s", o.P, showRegs(cands), show(out, err))
	}
	var reg *mReg
	for _, r := range cands {
		if slices.Contains(r.callees, out.Recipient) && (reg == nil || r.given[out.Recipient] == inv.RegistrationID()) {
			reg = r
		}
	}
	if reg == nil {
		tags := "C16"
		if m.wasCallee(o.P, out.Recipient) {
			tags += " C20"
		}
		return bad(tags, "call routed to no callee of the best registration: %q to %d instead of %s", o.P, out.Recipient, showRegs(cands))
	}
	switch reg.policy {
	case "first":
		if out.Recipient != reg.callees[0] {
			return bad("C17", "policy first: %q goes to %d of %v", o.P, out.Recipient, reg.callees)
		}
	case "last":
		if out.Recipient != reg.callees[len(reg.callees)-1] {
			return bad("C17", "policy last: %q goes to %d of %v", o.P, out.Recipient, reg.callees)
		}
	case "roundrobin":
		if slices.Contains(reg.round, out.Recipient) {
			return bad("C17", "policy roundrobin: %q goes to %d again, of %v, after %v", o.P, out.Recipient, reg.callees, reg.round)
		}
		if reg.round = append(reg.round, out.Recipient); len(reg.round) == len(reg.callees) {
			reg.round = nil
			if len(reg.callees) > 1 {
				m.note("full round")
			}
		}
	}
	if len(reg.callees) > 1 {
		m.note("shared call " + reg.policy)
	}
	m.note("routed " + reg.match)
	if inv.RequestID() < 1 || inv.RequestID() > uint64(maxSafe) {
		return bad("C23", "invocation id out of range: %d", inv.RequestID())
	}
	for _, c := range m.calls {
		if c.inv == inv.RequestID() {
			tags := "C23 C18"
			if c.progress || c.caller == id && c.req == o.Req {
				tags += " C19"
			}
			if !c.done {
				return bad(tags, "invocation id in use: %d for request %d of %d and request %d of %d", c.inv, c.req, c.caller, o.Req, id)
			}
			return bad("C19", "request id used again: gives the old invocation %d", c.inv)
		}
	}
	m.calls = append(m.calls, &mCall{inv: inv.RequestID(), caller: id, callee: out.Recipient, req: o.Req, progress: o.Prog,
		recv: o.Recv, proc: o.P, reg: reg, regID: reg.given[out.Recipient]})
	for _, c := range m.calls[:len(m.calls)-1] {
		if c.caller == id && c.req == o.Req {
			m.note("request id used again")
		}
	}
	return m.invocation(o, id, reg, reg.given[out.Recipient], inv, out.Recipient, "")
}

func (m *dealerRun) wasCallee(uri string, id uint64) bool {
	for p, f := range m.former {
		if f[id] && (p == uri || strings.HasPrefix(uri, p) || glob(p, uri)) {
			return true
		}
	}
	return m.left[id]
}

func showRegs(regs []*mReg) string {
	var s []string
	for _, r := range regs {
		s = append(s, fmt.Sprintf("%s %q policy %q callees %v", r.match, r.proc, r.policy, r.callees))
	}
	return strings.Join(s, " or ")
}

func (m *dealerRun) invocation(o rpcOp, caller uint64, reg *mReg, regID uint64, inv *messages.Invocation, callee uint64, also string) *mismatch {
	m.kept.keep(inv, "C16 C19 C21")
	args, kwargs := tokenArgs(m.n, o.Ref)
	if inv.RegistrationID() != regID {
		return bad("C16"+also, "registration id: %d in the invocation, %d given to %d for %q", inv.RegistrationID(), regID,
			callee, reg.proc)
	}
	if !samePayload(inv.Args(), args, inv.KwArgs(), kwargs) {
		return bad("C16"+also, "call payload altered: %s %s instead of %s %s", canonList(inv.Args()), canonMap(inv.KwArgs()),
			canonList(args), canonMap(kwargs))
	}
	if p, _ := inv.Details()["progress"].(bool); p != o.Prog {
		return bad("C19", "invocation progress: %v for a call with %v", p, o.Prog)
	}
	if m.disclose {
		m.note("disclosed")
	} else {
		m.note("undisclosed")
	}
	if o.How == "other procedure" && m.disclose {
		return nil // which of the two is the actual procedure is not specified
	}
	return disclosed(inv.Details(), m.disclose, "procedure", o.P, "caller", caller, m.who.of(caller))
}

// disclosed checks the identity an event or invocation states.
func disclosed(details map[string]any, on bool, what, uri, who string, id uint64, n int) *mismatch {
	keys := map[string]any{what: uri, who: id, who + "_authid": authidOf(id, n), who + "_authrole": authroleOf(id, n)}
	for k, v := range keys {
		got, there := details[k]
		if on && (!there || canon(got) != canon(v)) {
			return bad("C22", "disclosure of %s: %v instead of %v", k, got, v)
		}
		if !on && there {
			return bad("C22", "disclosure off: %s is %v", k, got)
		}
	}
	return nil
}

func (m *dealerRun) answer(o rpcOp, id uint64) *mismatch {
	inv := uint64(1<<51) + uint64(o.Ref)
	var c *mCall
	var live []*mCall
	for _, x := range m.calls {
		if !x.done {
			live = append(live, x)
		}
	}
	switch {
	case o.How == "live" && len(live) > 0:
		c = live[o.Ref%len(live)]
	case o.How == "any" && len(m.calls) > 0:
		c = m.calls[o.Ref%len(m.calls)]
	}
	if c != nil {
		inv = c.inv
		if !o.By {
			id = c.callee
		}
		if c.calleeLeft && id == c.callee && m.attached[id] {
			return nil // it left and came back
		}
		if id == c.caller && id != c.callee {
			return nil // a caller that answers its own call
		}
	}
	args, kwargs := tokenArgs(m.n, o.Ref)
	var msg messages.Message
	uri := errorURI(m.n, o.Ref)
	if o.K == "yield" {
		options := map[string]any{}
		if o.Prog || o.Ref%5 == 0 {
			options["progress"] = flagOf(o.Prog, o.Ref/5)
		}
		msg = messages.NewYield(inv, withOptions(options, "YIELD", o.Ref), args, kwargs)
	} else {
		msg = messages.NewError(68, inv, withOptions(map[string]any{}, "YIELD", o.Ref), uri, args, kwargs)
	}
	out, err, mm := m.send(indexOfID[id], msg)
	if mm != nil {
		return mm
	}
	if c == nil || c.done || id != c.callee || !m.attached[id] {
		m.note("refused")
		m.note("answer refused")
		if !refuses(out, err, id) {
			why := "unknown"
			if c != nil && c.done {
				why = "finished"
			} else if c != nil {
				why = fmt.Sprintf("made at %d", c.callee)
			}
			tags := "C18"
			if !m.attached[id] {
				tags += " C26"
			}
			return bad(tags, "%s accepted: from %d for invocation %d, %s: gives %s", o.K, id, inv, why, show(out, err))
		}
		return nil
	}
	if err != nil {
		return bad("C18", "%s refused: from %d for invocation %d of request %d: %v", o.K, id, inv, c.req, err)
	}
	args, kwargs = tokenArgs(m.n, o.Ref)
	m.kept.keep(out.Message, "C18 C21")
	if out.Recipient != c.caller {
		return bad("C18", "%s forwarded to another session: %d instead of %d", o.K, out.Recipient, c.caller)
	}
	if c.caller != c.callee {
		m.note("answered")
	}
	if o.K == "error" {
		x, ok := out.Message.(*messages.Error)
		if !ok || x.MessageType() != 48 || x.RequestID() != c.req {
			return bad("C18", "error forwarded for another call: %s instead of request %d", show(out, err), c.req)
		}
		if x.URI() != uri || !samePayload(x.Args(), args, x.KwArgs(), kwargs) {
			return bad("C18", "error altered: %s instead of %s %s %s", show(out, err), uri, canonList(args), canonMap(kwargs))
		}
		m.note("error")
		c.done = true
		return nil
	}
	x, ok := out.Message.(*messages.Result)
	if !ok || x.RequestID() != c.req {
		return bad("C18", "result forwarded for another call: %s instead of request %d", show(out, err), c.req)
	}
	if !samePayload(x.Args(), args, x.KwArgs(), kwargs) {
		return bad("C18", "result altered: %s instead of %s %s", show(out, err), canonList(args), canonMap(kwargs))
	}
	p, _ := x.Details()["progress"].(bool)
	if p != (o.Prog && c.recv) {
		return bad("C18", "result progress: %v for a yield with %v of a call that asked for %v", p, o.Prog, c.recv)
	}
	if p {
		m.note("progressive result")
	} else {
		c.done = true
	}
	return nil
}

// known checks what the dealer says about procedures.
func (m *dealerRun) known() *mismatch {
	for _, list := range []string{"exact", "prefix", "wildcard"} {
		for _, p := range patternsOf[list] {
			p = respell(m.spelling, p)
			if has := m.d.HasProcedure(p); has != (m.regOf(p) != nil) {
				return bad("C20", "HasProcedure: %v for %q with callees %v", has, p, m.regOf(p))
			}
		}
	}
	return nil
}

// run follows a whole case, then probes every procedure and answers every call.
func (m *dealerRun) run(ops []rpcOp) *mismatch {
	for i, o := range ops {
		if mm := m.step(o); mm != nil {
			mm.err = fmt.Errorf("%w (operation %d, %+v)", mm.err, i, o)
			return mm
		}
		if mm := m.known(); mm != nil {
			mm.err = fmt.Errorf("%w (after operation %d, %+v)", mm.err, i, o)
			return mm
		}
	}
	m.hist = maps.Clone(m.seen)
	for k := range m.seen {
		m.r.Label("%s", k)
	}
	prober := len(sessionIDs) - 1
	if !m.attached[sidOf(prober)] {
		if mm := m.join(prober); mm != nil {
			return mm
		}
	}
	probed := slices.Clone(concreteURIs)
	for i := range probed {
		probed[i] = respell(m.spelling, probed[i])
	}
	for _, o := range ops {
		if o.K == "register" && isNumbered(o.P) && !slices.Contains(probed, o.P) {
			probed = append(probed, o.P)
		}
	}
	for _, p := range probed {
		if has := m.d.HasProcedure(p); has != (m.regOf(p) != nil) {
			return bad("C20", "HasProcedure: %v for %q with callees %v", has, p, m.regOf(p))
		}
	}
	for i, uri := range probed {
		for again := 0; again < 3; again++ {
			if mm := m.step(rpcOp{K: "call", S: prober, P: uri, Req: uint64(1000 + i*10 + again), How: "any", Ref: i}); mm != nil {
				mm.err = fmt.Errorf("%w (probe of %q)", mm.err, uri)
				return mm
			}
		}
	}
	for i, c := range slices.Clone(m.calls) {
		if c.done {
			continue
		}
		kind := "yield"
		if i%3 == 1 {
			kind = "error"
		}
		o := rpcOp{K: kind, How: "any", Ref: i}
		if mm := m.step(o); mm != nil {
			mm.err = fmt.Errorf("%w (answering all calls)", mm.err)
			return mm
		}
	}
	for i := range m.calls {
		if mm := m.step(rpcOp{K: "yield", How: "any", Ref: i}); mm != nil {
			mm.err = fmt.Errorf("%w (answering again)", mm.err)
			return mm
		}
	}
	if mm := m.watch.all(); mm != nil {
		return mm
	}
	return m.kept.check()
}

func runRPC(c *rpcCase, r *Rec, prop string, nontrivial ...string) error {
	m, mm := newDealerRun(c, r)
	if mm == nil {
		mm = m.run(c.Ops)
	}
	for _, n := range nontrivial {
		if m.hist[n] > 0 {
			r.NonTrivial()
		}
	}
	return mm.of(prop, r)
}

func join(parts []string) string { return strings.Join(parts, ".") }

func sortRegs[T any](list []T, less func(a, b T) bool) {
	slices.SortFunc(list, func(a, b T) int {
		if less(a, b) {
			return -1
		}
		if less(b, a) {
			return 1
		}
		return 0
	})
}
