package harness

// The frame every check runs in: a generator draws a case, the case is turned
// into JSON and back (so that a replayed case is exactly the case that was
// run), and a pure function runs it against the code in /repo and returns an
// error when the property does not hold. The last failing case of a run (after
// rapid has shrunk it, the minimal one) is what becomes the replay file.

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type replayFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// Rec collects what one case did.
type Rec struct {
	labels     map[string]int
	nontrivial bool
	weight     int
}

// NonTrivial marks the case as one that exercises the property.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// Label counts an event of a case in the distribution that evidence reports.
func (r *Rec) Label(format string, args ...any) { r.labels[fmt.Sprintf(format, args...)]++ }

// Evals says how many inputs the case really tried (default 1).
func (r *Rec) Evals(n int) { r.weight += n }

type subStats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Hashes      []uint64       `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Rule        string         `json:"rule"`
	Seconds     float64        `json:"seconds"`

	seen map[uint64]struct{}
}

var (
	outDir = os.Getenv("VERIF_OUT")
	replay = os.Getenv("VERIF_REPLAY")
	scale  = envFloat("VERIF_SCALE", 1)
	thor   = os.Getenv("VERIF_TIER") == "thorough"
	// the processes a check is spread over share the cases of an enumeration
	shards  = int(envFloat("VERIF_SHARDS", 1))
	shard   = int(envFloat("VERIF_SHARD", 0))
	statsMu sync.Mutex
	stats   = map[string]*subStats{}
	known   = map[string]bool{}
)

func envFloat(name string, def float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(name), 64); err == nil {
		return v
	}
	return def
}

func TestMain(m *testing.M) {
	switch fn := os.Getenv("VERIF_CHILD"); fn {
	case "":
	case "guidable":
		for name := range guidable {
			fmt.Println("GUIDABLE", name)
		}
		os.Exit(0)
	default:
		childMain(fn)
		os.Exit(0)
	}
	debug.SetGCPercent(200)
	flag.Parse()
	code := m.Run()
	writeStats()
	os.Exit(code)
}

func writeStats() {
	if outDir == "" {
		return
	}
	statsMu.Lock()
	defer statsMu.Unlock()
	for _, s := range stats {
		for h := range s.seen {
			s.Hashes = append(s.Hashes, h)
		}
		sort.Slice(s.Hashes, func(i, j int) bool { return s.Hashes[i] < s.Hashes[j] })
	}
	data, err := json.Marshal(map[string]any{"subs": stats, "known": known})
	if err == nil {
		err = os.WriteFile(filepath.Join(outDir, "stats"+worker()+".json"), data, 0o600)
	}
	if err != nil {
		fmt.Println("HARNESS-ERROR: cannot write stats:", err)
	}
}

// Opt configures a check.
type Opt struct {
	Checks int    // cases in the quick tier, scaled by VERIF_SCALE
	Rule   string // what the cases are and what makes one non-trivial
	// Deadline ends the process (exit status 98) when a single case runs longer
	// (default: 60 s).
	Deadline time.Duration
	// Repeat runs a replayed case this often (for checks with schedules or
	// randomness inside the code under test).
	Repeat int
}

func property(name string) string {
	return strings.TrimPrefix(strings.SplitN(name, "_", 2)[0], "Test")
}

type panicError struct {
	val   any
	stack string
}

func (p *panicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.val, p.stack) }

func safely(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = &panicError{p, string(debug.Stack())}
		}
	}()
	return f()
}

func (o Opt) stats(name string) *subStats {
	statsMu.Lock()
	defer statsMu.Unlock()
	s := stats[name]
	if s == nil {
		s = &subStats{Labels: map[string]int{}, Rule: o.Rule, seen: map[uint64]struct{}{}}
		stats[name] = s
	}
	return s
}

func (s *subStats) add(data []byte, r *Rec) {
	statsMu.Lock()
	defer statsMu.Unlock()
	if r.weight == 0 {
		r.weight = 1
	}
	s.Evaluations += r.weight
	for l, n := range r.labels {
		s.Labels[l] += n
	}
	if !r.nontrivial {
		return
	}
	s.NonTrivial++
	if len(s.seen) >= 150000 { // enough said, and the memory is better used
		return
	}
	h := fnv.New64a()
	h.Write(data)
	s.seen[h.Sum64()] = struct{}{}
	n := len(s.seen)
	if len(s.Samples) < 8 && (n == 1 || n == 10 || n == 100 || n == 1000 || n == 300 || n == 3000) && len(data) < 3000 {
		s.Samples = append(s.Samples, json.RawMessage(append([]byte(nil), data...)))
	}
}

func writeJSON(path string, v any) {
	data, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}
	if err := os.WriteFile(path, data, 0o600); err != nil {
		panic("harness: " + err.Error())
	}
}

// current is a file mapped into memory: the case that is run stays in it when
// the process dies.
var current []byte

func note(property, sub string, data []byte) {
	if outDir == "" {
		return
	}
	if current == nil {
		const size = 16 << 20
		f, err := os.OpenFile(filepath.Join(outDir, "current"+worker()+".bin"), os.O_RDWR|os.O_CREATE, 0o600)
		if err == nil {
			err = f.Truncate(size)
		}
		if err == nil {
			current, err = syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		}
		if err != nil {
			panic("HARNESS-ERROR: " + err.Error())
		}
	}
	head := fmt.Sprintf(`{"property":%q,"sub":%q,"error":"the process died while running this case","case":`, property, sub)
	if n := len(head) + len(data) + 1; n+8 <= len(current) {
		binary.LittleEndian.PutUint64(current, 0)
		copy(current[8+copy(current[8:], head):], append(data[:len(data):len(data)], '}'))
		binary.LittleEndian.PutUint64(current, uint64(n))
	}
}

type engine[T any] struct {
	t    *testing.T
	name string
	opt  Opt
	st   *subStats
	run  func(c *T, r *Rec) error
	fail bool
}

func (e *engine[T]) once(data []byte) error {
	var c T
	if err := json.Unmarshal(data, &c); err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR: case does not decode: %v: %s", err, data))
	}
	note(property(e.name), e.name, data)
	limit := e.opt.Deadline
	if limit == 0 {
		limit = time.Minute
	}
	timer := time.AfterFunc(limit, func() {
		fmt.Printf("HANG: a case of %s takes longer than %v\n", e.name, limit)
		_ = pprof.Lookup("goroutine").WriteTo(os.Stdout, 2)
		os.Exit(98)
	})
	defer timer.Stop()
	r := &Rec{labels: map[string]int{}}
	err := safely(func() error { return e.run(&c, r) })
	if pe, ok := err.(*panicError); ok && strings.HasPrefix(fmt.Sprint(pe.val), "HARNESS-ERROR") {
		fmt.Printf("%v\n%s\n", err, data)
		os.Exit(97)
	}
	if err != nil {
		e.fail = true
		if outDir != "" {
			msg := err.Error()
			if len(msg) > 4000 {
				msg = msg[:4000] + "..."
			}
			writeJSON(filepath.Join(outDir, "fail-"+e.name+".json"), replayFile{property(e.name), e.name, msg, data})
		}
	} else if !e.fail { // the cases of the shrinking phase are not counted
		e.st.add(data, r)
	}
	return err
}

func newEngine[T any](t *testing.T, opt Opt, run func(c *T, r *Rec) error) (*engine[T], bool) {
	name := t.Name()
	if guided != "" {
		name = guided
	}
	e := &engine[T]{t: t, name: name, opt: opt, run: run}
	if replay != "" {
		raw, err := os.ReadFile(replay)
		if err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		var f replayFile
		if err := json.Unmarshal(raw, &f); err != nil {
			t.Fatalf("HARNESS-ERROR: %v", err)
		}
		if f.Sub != name {
			t.Skip("replaying another check")
		}
		e.st = opt.stats(name)
		n := max(opt.Repeat, 1)
		fmt.Printf("REPLAYING %s\n", name)
		for i := 0; i < n; i++ {
			if err := e.once(f.Case); err != nil {
				fmt.Printf("REPLAY-FAILED after %d run(s): %v\n", i+1, err)
				t.Fatalf("%v", err)
			}
		}
		fmt.Printf("REPLAY-PASSED %d run(s)\n", n)
		return nil, false
	}
	e.st = opt.stats(name)
	return e, true
}

func (e *engine[T]) marshal(c *T) []byte {
	data, err := json.Marshal(c)
	if err != nil {
		panic(fmt.Sprintf("HARNESS-ERROR: case does not encode: %v", err))
	}
	return data
}

// Check searches generated cases for one that violates the property.
func Check[T any](t *testing.T, opt Opt, gen func(t *rapid.T) T, run func(c *T, r *Rec) error) {
	e, ok := newEngine(t, opt, run)
	if !ok {
		return
	}
	if guided != "" {
		guide(e, gen)
		return
	}
	checks := max(int(float64(opt.Checks)*scale), 5)
	if err := flag.Set("rapid.checks", strconv.Itoa(checks)); err != nil {
		t.Fatalf("HARNESS-ERROR: %v", err)
	}
	start := time.Now()
	defer func() { e.st.Seconds += time.Since(start).Seconds() }()
	rapid.Check(t, func(rt *rapid.T) {
		c := gen(rt)
		if err := e.once(e.marshal(&c)); err != nil {
			rt.Fatalf("%s", class(err))
		}
	})
}

// Each runs a fixed list of cases (an enumeration of a small space).
func Each[T any](t *testing.T, opt Opt, cases []T, run func(c *T, r *Rec) error) {
	e, ok := newEngine(t, opt, run)
	if !ok {
		return
	}
	start := time.Now()
	defer func() { e.st.Seconds += time.Since(start).Seconds() }()
	for i := range cases {
		if i%shards != shard {
			continue
		}
		if err := e.once(e.marshal(&cases[i])); err != nil {
			t.Fatalf("case %d: %v", i, err)
		}
	}
}

// class is a failure's message without the details of the case, so that
// shrinking stays with the failure it started from.
func class(err error) string {
	msg := err.Error()
	if i := strings.IndexByte(msg, ':'); i > 0 {
		return msg[:i]
	}
	return msg
}

// Known reproduces a listed finding; holds reports whether it still shows.
func Known(t *testing.T, key string, shows func() bool) {
	if replay != "" {
		t.Skip("replaying a case")
	}
	var ok bool
	if err := safely(func() error { ok = shows(); return nil }); err != nil {
		ok = true
	}
	statsMu.Lock()
	known[property(t.Name())+" "+key] = ok
	statsMu.Unlock()
}

func errorf(format string, args ...any) error {
	err := fmt.Errorf(format, args...)
	if s := err.Error(); len(s) > 20000 {
		return errors.New(s[:20000] + "...")
	}
	return err
}

// childMain is what a process started by a check does.
func childMain(fn string) {
	switch fn {
	case "ids":
		childIDs()
	case "challenges":
		childChallenges()
	default:
		panic("HARNESS-ERROR: no child " + fn)
	}
}
