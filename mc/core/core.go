// Package core is the bounded-exhaustive exploration engine: it enumerates the cases a sub-check
// generates, runs the real code on each (in parallel), compares with the oracle, counts what was covered
// and turns the first disagreement into a replayable artefact.
package core

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Finding is an oracle disagreement that carries a stable key, so that a recorded known finding can be
// told apart from any other violation.
type Finding struct {
	Key string
	Msg string
}

func (f *Finding) Error() string { return f.Key + ": " + f.Msg }

// KeyErr builds a keyed disagreement.
func KeyErr(key, format string, a ...any) error { return &Finding{key, fmt.Sprintf(format, a...)} }

// Counter is a worker's private tally.
type Counter struct {
	transitions int64
	traces      int64
	states      map[uint64]struct{}
	capped      bool
	outcomes    map[string]int64
}

const maxStatesPerWorker = 1 << 20

var hseed = maphash.MakeSeed()

func newCounter() *Counter {
	return &Counter{states: map[uint64]struct{}{}, outcomes: map[string]int64{}}
}

// Op counts n calls into the implementation.
func (c *Counter) Op(n int) { c.transitions += int64(n) }

// State records an observed state (its canonical bytes).
func (c *Counter) State(b []byte) { c.addState(maphash.Bytes(hseed, b)) }

// StateS records an observed state given as text.
func (c *Counter) StateS(s string) { c.addState(maphash.String(hseed, s)) }

func (c *Counter) addState(h uint64) {
	if len(c.states) >= maxStatesPerWorker {
		c.capped = true
		return
	}
	c.states[h] = struct{}{}
}

// Outcome tallies a class of observed outcome (accepted, refused, ...), to expose vacuous exploration.
func (c *Counter) Outcome(o string) { c.outcomes[o]++ }

// Trace counts extra complete traces validated inside one case.
func (c *Counter) Trace(n int) { c.traces += int64(n) }

// Run is one execution of a property's check.
type Run struct {
	Property string
	Tier     string
	Seed     int
	Dir      string // /verif
	Start    time.Time
	Deadline time.Time
	Params   map[string]any // bounds actually used, for the evidence

	mu        sync.Mutex
	known     map[string]string
	hit       map[string]bool
	subs      []subReport
	total     *Counter
	samples   []any
	truncated bool
	violation *Violation
	active    sync.Map // worker id -> *activeCase
}

type activeCase struct {
	since time.Time
	sub   string
	at    func() any // the case being run
}

type subReport struct {
	Sub         string           `json:"sub"`
	Cases       int64            `json:"cases"`
	Transitions int64            `json:"transitions"`
	States      int              `json:"states"`
	StatesCap   bool             `json:"states_capped,omitempty"`
	Outcomes    map[string]int64 `json:"outcomes,omitempty"`
	Complete    bool             `json:"complete"`
	WallS       float64          `json:"wall_s"`
}

// Violation is what a replay file holds.
type Violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Reruns   string          `json:"reruns"`
	HowTo    string          `json:"how_to_replay"`
}

// Thorough reports whether this is the deep tier.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](r *Run, q, t T) T {
	if r.Thorough() {
		return t
	}
	return q
}

// Param records a bound in the evidence.
func (r *Run) Param(name string, v any) {
	r.mu.Lock()
	r.Params[name] = v
	r.mu.Unlock()
}

// Sub is one enumerated space with its oracle.
type Sub interface {
	Name() string
	Explore(*Run)
	ReplayCase(json.RawMessage) error
}

// S is the generic Sub: Gen enumerates the space (simplest first), Check runs the real code and the oracle.
type S[T any] struct {
	N      string
	Gen    func(r *Run, yield func(T))
	Check  func(c T, n *Counter) error
	Serial bool // cases must not run concurrently with one another
	Batch  int
}

func (s S[T]) Name() string { return s.N }

func safe(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(st))
		}
	}()
	return f()
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "go-cardano-serialization/") || strings.Contains(lines[i], "/repo/") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

var errStop = errors.New("stop")

func (s S[T]) Explore(r *Run) {
	if r.violation != nil {
		return
	}
	t0 := time.Now()
	workers := runtime.GOMAXPROCS(0)
	if s.Serial {
		workers = 1
	}
	batch := s.Batch
	if batch == 0 {
		batch = 256
	}
	ch := make(chan []T, workers*2)
	var stop atomic.Bool
	var cases int64
	counters := make([]*Counter, workers)
	var wg sync.WaitGroup
	type bad struct {
		c   T
		err error
	}
	var badMu sync.Mutex
	var first *bad
	for w := 0; w < workers; w++ {
		wg.Add(1)
		cnt := newCounter()
		counters[w] = cnt
		id := fmt.Sprintf("%s/%d", s.N, w)
		go func() {
			defer wg.Done()
			defer r.active.Delete(id)
			var idx atomic.Int64
			for b := range ch {
				r.active.Store(id, &activeCase{time.Now(), s.N, func() any { return b[idx.Load()] }})
				for i, c := range b {
					if stop.Load() {
						break
					}
					idx.Store(int64(i))
					err := safe(func() error { return s.Check(c, cnt) })
					cnt.traces++
					if err == nil {
						continue
					}
					var f *Finding
					if errors.As(err, &f) && r.isKnown(f.Key) {
						continue
					}
					badMu.Lock()
					if first == nil {
						first = &bad{c, err}
					}
					badMu.Unlock()
					stop.Store(true)
				}
				// an idle worker is not a stuck one
				r.active.Delete(id)
			}
		}()
	}
	complete := true
	func() {
		defer func() {
			if p := recover(); p != nil && p != any(errStop) {
				panic(p)
			}
		}()
		cur := make([]T, 0, batch)
		nb := 0
		s.Gen(r, func(c T) {
			if stop.Load() {
				panic(errStop)
			}
			cases++
			cur = append(cur, c)
			if len(cur) >= batch || (cases < 64) {
				ch <- cur
				cur = make([]T, 0, batch)
				if nb++; nb%16 == 0 && time.Now().After(r.Deadline) {
					complete = false
					panic(errStop)
				}
			}
			if cases <= 2 {
				r.mu.Lock()
				if len(r.samples) < 24 {
					r.samples = append(r.samples, map[string]any{"sub": s.N, "case": c})
				}
				r.mu.Unlock()
			}
		})
		if len(cur) > 0 {
			ch <- cur
		}
	}()
	close(ch)
	wg.Wait()
	rep := subReport{Sub: s.N, Cases: cases, Complete: complete, Outcomes: map[string]int64{}}
	merged := newCounter()
	for _, c := range counters {
		merged.transitions += c.transitions
		merged.traces += c.traces
		merged.capped = merged.capped || c.capped
		for h := range c.states {
			merged.states[h] = struct{}{}
		}
		for k, v := range c.outcomes {
			merged.outcomes[k] += v
		}
	}
	rep.Transitions, rep.States, rep.StatesCap, rep.Outcomes = merged.transitions, len(merged.states), merged.capped, merged.outcomes
	rep.WallS = time.Since(t0).Seconds()
	r.mu.Lock()
	r.subs = append(r.subs, rep)
	r.total.transitions += merged.transitions
	r.total.traces += merged.traces
	r.total.capped = r.total.capped || merged.capped
	for h := range merged.states {
		// keep states of different subs apart
		r.total.states[h^maphash.String(hseed, s.N)] = struct{}{}
	}
	if !complete {
		r.truncated = true
	}
	r.mu.Unlock()
	if first != nil {
		r.fail(s.N, first.c, first.err, func() error {
			return safe(func() error { return s.Check(first.c, newCounter()) })
		})
	}
}

func (s S[T]) ReplayCase(raw json.RawMessage) error {
	var c T
	if err := json.Unmarshal(raw, &c); err != nil {
		return fmt.Errorf("cannot parse the replay case: %w", err)
	}
	return safe(func() error { return s.Check(c, newCounter()) })
}

func (r *Run) isKnown(key string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[key]; ok {
		r.hit[key] = true
		return true
	}
	return false
}

// envNoise matches errors of the machine the check runs on. They are set aside only when five re-runs of the case all pass.
var envNoise = regexp.MustCompile(`text file busy|resource temporarily unavailable|cannot allocate memory|too many open files|no space left on device|no buffer space`)

func (r *Run) fail(sub string, c any, err error, again func() error) {
	failed := 0
	for i := 0; i < 5; i++ {
		if again() != nil {
			failed++
		}
	}
	if failed == 0 && envNoise.MatchString(err.Error()) {
		r.mu.Lock()
		r.total.outcomes["machine trouble, gone on every re-run"]++
		r.mu.Unlock()
		return
	}
	r.report(sub, c, err.Error(), fmt.Sprintf("failed again in %d of 5 isolated re-runs", failed))
}

// Fail reports a violation found outside S (explorers that own their loop).
func (r *Run) Fail(sub string, c any, msg, reruns string) { r.report(sub, c, msg, reruns) }

// Violated reports whether a violation was already found.
func (r *Run) Violated() bool { return r.violation != nil }

func (r *Run) report(sub string, c any, msg, reruns string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.violation != nil {
		return
	}
	raw, _ := json.Marshal(c)
	r.violation = &Violation{Property: r.Property, Sub: sub, Case: raw, Message: msg, Reruns: reruns,
		HowTo: "cd /verif && ./check.sh replay <this file>   (exit 1 while the violation persists)"}
}

// AddReport merges counts of an explorer that owns its loop.
func (r *Run) AddReport(sub string, cases int64, n *Counter, complete bool, wall float64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.subs = append(r.subs, subReport{Sub: sub, Cases: cases, Transitions: n.transitions, States: len(n.states), StatesCap: n.capped, Outcomes: n.outcomes, Complete: complete, WallS: wall})
	r.total.transitions += n.transitions
	r.total.traces += n.traces + cases
	for h := range n.states {
		r.total.states[h^maphash.String(hseed, sub)] = struct{}{}
	}
	if !complete {
		r.truncated = true
	}
}

// NewCounter makes a counter for explorers that own their loop.
func NewCounter() *Counter { return newCounter() }

// Merge adds another counter's tallies.
func (c *Counter) Merge(o *Counter) {
	c.transitions += o.transitions
	c.traces += o.traces
	for h := range o.states {
		c.addState(h)
	}
	for k, v := range o.outcomes {
		c.outcomes[k] += v
	}
}

// States returns the number of distinct states seen.
func (c *Counter) States() int { return len(c.states) }

// Sample adds a sample to the evidence.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 24 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Prop is a property's check.
type Prop struct {
	ID          string
	Level       string
	Subs        []Sub
	Assumptions []string
	Exhaustive  string // what is enumerated completely
}

var registry = map[string]*Prop{}

// Register adds a property check.
func Register(p *Prop) { registry[p.ID] = p }

// Lookup finds one.
func Lookup(id string) *Prop { return registry[id] }

// IDs lists all registered properties.
func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type knownEntry struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed: ..."
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(dir, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		return out
	}
	var doc struct {
		Findings []knownEntry `json:"findings"`
	}
	if json.Unmarshal(b, &doc) != nil {
		return out
	}
	for _, e := range doc.Findings {
		if e.Property == prop && e.Status == "known" {
			out[e.Key] = e.What
		}
	}
	return out
}

// Main runs property id and returns the exit code.
func Main(id, tier, dir string, seed int, deadline time.Duration) int {
	p := Lookup(id)
	if p == nil {
		fmt.Println("unknown property", id)
		return 3
	}
	r := &Run{Property: id, Tier: tier, Seed: seed, Dir: dir, Start: time.Now(), Deadline: time.Now().Add(deadline),
		Params: map[string]any{}, known: loadKnown(dir, id), hit: map[string]bool{}, total: newCounter()}
	done := make(chan struct{})
	go r.watchdog(done)
	for _, s := range p.Subs {
		t0 := time.Now()
		s.Explore(r)
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s %s %.2fs\n", id, s.Name(), time.Since(t0).Seconds())
		}
		if r.violation != nil {
			break
		}
	}
	close(done)
	return r.finish(p)
}

func (r *Run) finish(p *Prop) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	nviol := 0
	if r.violation != nil {
		nviol = 1
	}
	cov := map[string]any{
		"states":                        len(r.total.states),
		"transitions":                   r.total.transitions,
		"traces_validated_against_impl": r.total.traces,
		"samples":                       r.samples,
		"exhaustive":                    !r.truncated && r.violation == nil,
		"rule":                          p.Exhaustive,
		"subchecks":                     r.subs,
		"bounds":                        r.Params,
		"states_meaning":                "distinct canonical observations (implementation results) reached; lower bound where states_capped",
	}
	if p.Level == "fault_enumeration" || p.Level == "exploration" {
		cov["evaluations"] = r.total.traces
		cov["distinct_nontrivial"] = len(r.total.states)
		delete(cov, "states")
		delete(cov, "traces_validated_against_impl")
	}
	ev := map[string]any{"property": r.Property, "tier": r.Tier, "seed": r.Seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(r.Start).Seconds(), "violations": nviol}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("cannot encode evidence:", err)
		return 3
	}
	edir := filepath.Join(r.Dir, "evidence")
	os.MkdirAll(edir, 0o755)
	if err := os.WriteFile(filepath.Join(edir, r.Property+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	keys := make([]string, 0, len(r.hit))
	for k := range r.hit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Property, r.known[k], k)
	}
	for _, s := range r.subs {
		fmt.Printf("  %-28s cases=%d transitions=%d states=%d complete=%v %.1fs %v\n", s.Sub, s.Cases, s.Transitions, s.States, s.Complete, s.WallS, s.Outcomes)
	}
	if r.violation != nil {
		path := filepath.Join(edir, fmt.Sprintf("%s.replay.json", r.Property))
		vb, _ := json.MarshalIndent(r.violation, "", " ")
		os.WriteFile(path, vb, 0o644)
		fmt.Printf("  %s: %s\n  case: %s\n  %s\n", r.violation.Sub, r.violation.Message, clip(string(r.violation.Case), 2000), r.violation.Reruns)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	}
	fmt.Printf("OK property=%s tier=%s states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", r.Property, r.Tier,
		len(r.total.states), r.total.transitions, r.total.traces, !r.truncated, time.Since(r.Start).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// watchdog turns non-termination and unbounded memory growth of one case (normally micro- to milliseconds)
// into a violation; the limits are far above anything legitimate.
func (r *Run) watchdog(done chan struct{}) {
	limit := 120 * time.Second
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	var ms runtime.MemStats
	for i := 0; ; i++ {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		var oldest *activeCase
		r.active.Range(func(_, v any) bool {
			a := v.(*activeCase)
			if oldest == nil || a.since.Before(oldest.since) {
				oldest = a
			}
			return true
		})
		if oldest == nil {
			continue
		}
		why := ""
		if time.Since(oldest.since) > limit {
			why = fmt.Sprintf("one case has not terminated after %v", limit)
		}
		if i%5 == 4 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 14<<30 {
				why = fmt.Sprintf("unbounded memory growth (%d MB heap)", ms.HeapAlloc>>20)
			}
		}
		if why != "" {
			r.report(oldest.sub, oldest.at(), why, "not re-run (does not terminate)")
			os.Exit(r.finish(Lookup(r.Property)))
		}
	}
}

// Replay re-executes a replay file: 1 while the violation persists, 0 when it is gone.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 3
	}
	p := Lookup(v.Property)
	if p == nil {
		fmt.Println("unknown property", v.Property)
		return 3
	}
	for _, s := range p.Subs {
		if s.Name() == v.Sub {
			if err := s.ReplayCase(v.Case); err != nil {
				fmt.Printf("still violated: %v\nVIOLATION property=%s replay=%s\n", err, v.Property, path)
				return 1
			}
			fmt.Println("the replayed case passes")
			return 0
		}
	}
	fmt.Println("unknown sub-check", v.Sub)
	return 3
}

// Equal is reflect.DeepEqual, named for readability in oracles.
func Equal(a, b any) bool { return reflect.DeepEqual(a, b) }
