// Package mon records what a run of the code under test did: events, distinct cases,
// violations and known findings, and writes evidence and replay files.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Target is the import path prefix of the code under test
const Target = "github.com/moov-io/dukpt"

type Violation struct {
	Sig    string `json:"signature"`
	Detail string `json:"detail"`
	Data   any    `json:"data,omitempty"`
}

type Run struct {
	Prop string
	Tier string
	Seed uint64

	EvidencePath string
	ReplayDir    string
	Rule         string
	Level        string
	Assumptions  []string

	start  time.Time
	evals  atomic.Int64
	ticks  atomic.Int64
	shards [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}

	mu         sync.Mutex
	counts     map[string]int64
	mins       map[string]int64
	extra      map[string]any
	samples    []any
	sampleKeys map[string]int
	viol       []Violation
	violSigs   map[string]int
	inc        []string
	known      map[string]string // signature -> description
	knownHit   map[string]int
}

func New(prop, tier string, seed uint64, known map[string]string) *Run {
	r := &Run{Prop: prop, Tier: tier, Seed: seed, Level: "exploration", start: time.Now(),
		counts: map[string]int64{}, mins: map[string]int64{}, extra: map[string]any{}, violSigs: map[string]int{},
		known: known, knownHit: map[string]int{}, sampleKeys: map[string]int{}}
	for i := range r.shards {
		r.shards[i].m = map[uint64]struct{}{}
	}
	return r
}

// Thorough reports the tier
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick chooses the size of a workload by tier
func (r *Run) Pick(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Eval counts n executions of the code under test that were judged
func (r *Run) Eval(n int) {
	r.evals.Add(int64(n))
	r.ticks.Add(1)
}

// Progress feeds the stuck-call watchdog only
func (r *Run) Progress() { r.ticks.Add(1) }

// Distinct records one distinct non-trivial case
func (r *Run) Distinct(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe, 0xff})
	}
	r.DistinctHash(h.Sum64())
}

func (r *Run) DistinctHash(k uint64) {
	s := &r.shards[k>>7&63]
	s.Lock()
	s.m[k] = struct{}{}
	s.Unlock()
}

// Count adds to a named measured counter
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += int64(n)
	r.mu.Unlock()
}

// Require makes the run inconclusive if a counter stays below min
func (r *Run) Require(name string, min int) {
	r.mu.Lock()
	r.mins[name] = int64(min)
	r.mu.Unlock()
}

func (r *Run) Extra(name string, v any) {
	r.mu.Lock()
	r.extra[name] = v
	r.mu.Unlock()
}

// Sample keeps a few actual cases per kind
func (r *Run) Sample(kind string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampleKeys[kind] >= 2 || len(r.samples) >= 40 {
		return
	}
	r.sampleKeys[kind]++
	r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
}

// WantSample tells whether Sample would keep one more case of the kind
func (r *Run) WantSample(kind string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.sampleKeys[kind] < 2 && len(r.samples) < 40
}

// Violate records a violation; a signature listed as known finding is reported as such
func (r *Run) Violate(sig, detail string, data any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.known[sig]; ok {
		r.knownHit[sig]++
		return
	}
	r.violSigs[sig]++
	if r.violSigs[sig] <= 3 && len(r.viol) < 60 {
		r.viol = append(r.viol, Violation{sig, detail, data})
	}
}

// Violated tells whether there is a violation so far
func (r *Run) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) > 0
}

// Stop tells workers that enough violations were found to end early
func (r *Run) Stop() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violSigs) >= 20 || (len(r.viol) > 0 && r.total() > 200)
}

func (r *Run) total() int {
	n := 0
	for _, v := range r.violSigs {
		n += v
	}
	return n
}

func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.inc) < 50 {
		r.inc = append(r.inc, fmt.Sprintf(format, a...))
	}
}

// Rng is a stream that depends only on the seed, the property, the name and the index
func (r *Run) Rng(name string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", r.Prop, name, i)
	return rand.New(rand.NewPCG(r.Seed, h.Sum64()))
}

// Guard runs f and turns a panic with frames of the code under test into a violation
func (r *Run) Guard(what func() any, f func()) {
	defer func() {
		if p := recover(); p != nil {
			r.panicked(p, string(debug.Stack()), what)
		}
	}()
	f()
}

func (r *Run) panicked(p any, stack string, what func() any) {
	var d any
	if what != nil {
		d = what()
	}
	if i := strings.Index(stack, "panic("); i >= 0 {
		stack = stack[i:]
	}
	if strings.Contains(stack, Target+"/") {
		r.Violate("panic:"+frame(stack), fmt.Sprintf("panic: %v", p), map[string]any{"input": d, "stack": strings.Split(stack, "\n")})
	} else {
		r.Inconclusive("harness panic: %v\n%s", p, stack)
	}
}

// frame is the innermost function of the code under test in a stack
func frame(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, Target+"/") {
			if i := strings.LastIndexByte(l, '('); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, Target+"/")
		}
	}
	return "?"
}

// Parallel runs f(i) for 0 <= i < n on several workers; the cases themselves do not depend
// on how they are distributed
func (r *Run) Parallel(n int, f func(i int)) {
	workers := runtime.GOMAXPROCS(0)
	if workers > n {
		workers = n
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || r.Stop() {
					return
				}
				r.Guard(func() any { return map[string]any{"case": i} }, func() { f(i) })
				r.ticks.Add(1)
			}
		}()
	}
	wg.Wait()
}

// Watch starts the stuck-call watchdog. It counts its own scheduled ticks, not wall time: when
// nothing was completed during limit ticks and a call is inside the code under test (or a
// goroutine waits in it), the call does not return.
func (r *Run) Watch(limit int) {
	go func() {
		last, idle := int64(-1), 0
		for {
			time.Sleep(time.Second)
			t := r.ticks.Load()
			if t != last {
				last, idle = t, 0
				continue
			}
			idle++
			if idle < limit {
				continue
			}
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			var in []string
			for _, g := range strings.Split(string(buf), "\n\n") {
				if strings.Contains(g, "\n"+Target+"/") {
					in = append(in, g)
				}
			}
			if len(in) > 0 {
				if len(in) > 6 {
					in = in[:6]
				}
				r.Violate("stuck:"+frame(in[0]), "a call does not return: nothing completed during "+fmt.Sprint(limit)+" watchdog ticks", map[string]any{"goroutines": in})
			} else {
				r.Inconclusive("no progress and no goroutine inside the code under test:\n%s", truncate(string(buf), 8000))
			}
			os.Exit(r.Finish())
		}
	}()
}

func truncate(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Finish writes evidence and replays, prints the verdict lines and returns the exit code
func (r *Run) Finish() int {
	var distinct int64
	for i := range r.shards {
		r.shards[i].Lock()
		distinct += int64(len(r.shards[i].m))
		r.shards[i].Unlock()
	}
	r.mu.Lock()
	defer r.mu.Unlock()

	cov := map[string]any{}
	for k, v := range r.extra {
		cov[k] = v
	}
	obs := map[string]int64{}
	for k, v := range r.counts {
		obs[k] = v
	}
	cov["observed"] = obs
	cov["evaluations"] = r.evals.Load()
	cov["distinct_nontrivial"] = distinct
	cov["rule"] = r.Rule
	if r.samples == nil {
		r.samples = []any{}
	}
	cov["samples"] = r.samples
	if len(r.knownHit) > 0 {
		cov["known_findings_hit"] = r.knownHit
	}
	for k, min := range r.mins {
		if r.counts[k] < min && len(r.viol) == 0 {
			r.inc = append(r.inc, fmt.Sprintf("observed only %d of at least %d: %s", r.counts[k], min, k))
		}
	}
	if len(r.inc) > 0 {
		cov["inconclusive"] = r.inc
	}
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.violSigs),
	}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	if r.EvidencePath != "" {
		if err := writeJSON(r.EvidencePath, ev); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 2
		}
	}
	var sigs []string
	for s := range r.known {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (observed %d times)\n", r.Prop, s, r.known[s], r.knownHit[s])
	}
	if len(r.viol) > 0 {
		path := filepath.Join(r.ReplayDir, fmt.Sprintf("%s-%s-%d.json", r.Prop, r.Tier, r.Seed))
		rep := map[string]any{
			"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "counts_by_signature": r.violSigs, "violations": r.viol,
			"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s bin/check %s", r.Seed, r.Tier, r.Prop),
		}
		if err := writeJSON(path, rep); err != nil {
			fmt.Fprintln(os.Stderr, "replay:", err)
		}
		for i, v := range r.viol {
			if i < 8 {
				fmt.Printf("violation: %s: %s\n", v.Sig, v.Detail)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
		return 1
	}
	if len(r.inc) > 0 {
		for i, s := range r.inc {
			if i < 5 {
				fmt.Println("inconclusive:", s)
			}
		}
		return 2
	}
	fmt.Printf("held: property=%s evaluations=%d distinct=%d\n", r.Prop, r.evals.Load(), distinct)
	return 0
}

func writeJSON(path string, v any) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

// LoadKnown reads "known: property=<id> sig=<signature> <text>" lines
func LoadKnown(path, prop string) (map[string]string, error) {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return out, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "sig=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
	}
	return out, nil
}
