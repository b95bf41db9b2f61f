package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Finding is an entry of known_findings.json.
type Finding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	Status    string `json:"status"` // "known" or "fixed"
	Commit    string `json:"commit,omitempty"`
	What      string `json:"what"`
}

// Ctx collects everything one check observes.
type Ctx struct {
	start    time.Time
	Prop     string
	Tier     string
	Seed     int64
	Replay   string // "<family>/<index>": run only that case
	VerifDir string

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []any
	counters map[string]int64
	rules    []string

	violations int
	reported   map[string]bool
	known      map[string]Finding
	knownHit   map[string]string
	assume     []string

	family   string
	progress sync.Map // goroutine-ish slot -> *caseState
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales the number of cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}

	return quick
}

// Rule documents how the cases of this check are made.
func (c *Ctx) Rule(s string) { c.rules = append(c.rules, s) }

// Assume documents an assumption.
func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }

// Case is one generated case of a family.
type Case struct {
	*Ctx
	Family string
	Index  int
	R      *rand.Rand
	notes  []string
}

type caseState struct {
	family string
	index  int
	start  time.Time
}

func mix(seed int64, family string, index int) int64 {
	h := fnv.New64a()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:8], uint64(seed))
	binary.LittleEndian.PutUint64(b[8:], uint64(index))
	_, _ = h.Write(b[:])
	_, _ = h.Write([]byte(family))

	return int64(h.Sum64() >> 1)
}

// Run executes n cases of the family in parallel. Every case has its own PRNG derived from (seed, family, index).
func (c *Ctx) Run(family string, n int, f func(t *Case)) { c.run(family, n, runtime.GOMAXPROCS(0), f) }

// RunSerial executes n cases of the family one after another (used for the concurrency workloads, which spawn their own goroutines).
func (c *Ctx) RunSerial(family string, n int, f func(t *Case)) { c.run(family, n, 1, f) }

func (c *Ctx) run(family string, n int, workers int, f func(t *Case)) {
	only := -1
	if c.Replay != "" {
		i := strings.LastIndex(c.Replay, "/")
		if c.Replay[:i] != family {
			return
		}
		fmt.Sscanf(c.Replay[i+1:], "%d", &only)
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		slot := fmt.Sprintf("%s#%d", family, w)
		go func() {
			defer wg.Done()
			defer c.progress.Delete(slot)
			for {
				i := int(atomic.AddInt64(&next, 1))
				if only >= 0 {
					if i > 0 {
						return
					}
					i = only
				} else if i >= n || c.enough() {
					return
				}
				c.progress.Store(slot, &caseState{family, i, time.Now()})
				c.runCase(family, i, f)
			}
		}()
	}
	wg.Wait()
}

// enough reports whether no further cases are worth their time: a minute after the start a violation which was found ends the run
// (each further case may run into the same time-out), and a quick run on an overloaded machine ends before its time is up.
func (c *Ctx) enough() bool {
	c.mu.Lock()
	found := c.violations > 0
	c.mu.Unlock()
	elapsed := time.Since(c.start)

	return found && elapsed > time.Minute || c.Tier == "quick" && elapsed > 13*time.Minute
}

func (c *Ctx) runCase(family string, i int, f func(t *Case)) {
	t := &Case{Ctx: c, Family: family, Index: i, R: rand.New(rand.NewSource(mix(c.Seed, family, i)))}
	t.guard(func() { f(t) })
}

// guard runs f and turns panics into violations.
func (t *Case) guard(f func()) {
	family := t.Family
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			site := panicSite(st)
			if strings.HasPrefix(site, "hive.go/") && strings.HasPrefix(family, "json/") {
				family = "json" // one site in the JSON decoder of the dependency is one finding
			}
			t.Violate("panic:"+family+":"+site, "panic: %v\n%s", r, st)
		}
	}()
	f()
}

type stopCase struct{}

// panicSite extracts the innermost function of the code under test (or its hive.go dependency) from a stack.
func panicSite(st string) string {
	seenPanic := false
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true

			continue
		}
		if seenPanic && strings.HasPrefix(l, "github.com/iotaledger/") {
			if k := strings.LastIndex(l, "("); k > 0 {
				l = l[:k]
			}

			return strings.TrimPrefix(strings.TrimPrefix(l, "github.com/iotaledger/"), "iota.go/")
		}
	}

	return "?"
}

// Eval counts one evaluation; key identifies what was exercised, for the distinctness count. Empty keys are trivial cases.
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key == "" {
		return
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(key))
	c.distinct[h.Sum64()] = struct{}{}
}

// Count increments a named counter which is shown in the evidence.
func (c *Ctx) Count(name string) { c.Add(name, 1) }

func (c *Ctx) Add(name string, n int64) {
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

// Sample records an actual case (at most 8 are kept).
func (t *Case) Sample(v any) {
	if t.Index > 3 {
		return
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.samples) < 8 {
		t.samples = append(t.samples, map[string]any{"family": t.Family, "index": t.Index, "case": v})
	}
}

// Note adds context which is written to the replay file if the case violates the property.
func (t *Case) Note(format string, args ...any) {
	t.notes = append(t.notes, fmt.Sprintf(format, args...))
}

// Stop ends the case.
func (t *Case) Stop() { panic(stopCase{}) }

// Violate reports a violation. The signature identifies the failing site / kind and is matched against known_findings.json.
func (t *Case) Violate(signature, format string, args ...any) {
	t.violate(signature, t.Family, t.Index, strings.Join(t.notes, "\n")+"\n"+fmt.Sprintf(format, args...))
}

// Check reports a violation if cond is false.
func (t *Case) Check(cond bool, signature, format string, args ...any) bool {
	if !cond {
		t.Violate(signature, format, args...)
	}

	return cond
}

func (c *Ctx) violate(signature, family string, index int, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if f, is := c.known[signature]; is {
		if _, seen := c.knownHit[signature]; !seen {
			c.knownHit[signature] = f.What
			fmt.Fprintf(realStdout, "KNOWN-FINDING: property=%s %s [%s]\n", c.Prop, f.What, signature)
		}

		return
	}
	c.violations++
	if c.reported[signature] || len(c.reported) >= 12 {
		return
	}
	c.reported[signature] = true
	dir := filepath.Join(c.VerifDir, "replays")
	_ = os.MkdirAll(dir, 0o755)
	sum := sha256.Sum256([]byte(signature))
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", c.Prop, sum[:4]))
	if len(detail) > 20000 {
		detail = detail[:20000] + "...(cut)"
	}
	data, _ := json.MarshalIndent(map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "case": fmt.Sprintf("%s/%d", family, index),
		"signature": signature, "detail": strings.Split(detail, "\n"),
		"how_to_replay": fmt.Sprintf("VERIF_SEED=%d bash /verif/run.sh %s %s -replay '%s/%d'", c.Seed, c.Prop, c.Tier, family, index),
	}, "", " ")
	_ = os.WriteFile(path, data, 0o644)
	first := detail
	if len(first) > 600 {
		first = first[:600]
	}
	fmt.Fprintf(realStdout, "VIOLATION property=%s replay=%s\n  signature: %s\n  %s\n", c.Prop, path, signature, strings.ReplaceAll(strings.TrimSpace(first), "\n", "\n  "))
}

func newCtx(prop, tier string, seed int64, verifDir string) *Ctx {
	c := &Ctx{
		Prop: prop, Tier: tier, Seed: seed, VerifDir: verifDir, start: time.Now(),
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, reported: map[string]bool{},
		known: map[string]Finding{}, knownHit: map[string]string{},
	}
	if data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		var fs []Finding
		if err := json.Unmarshal(data, &fs); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(3)
		}
		for _, f := range fs {
			if f.Property == prop && f.Status == "known" {
				c.known[f.Signature] = f
			}
		}
	}

	return c
}

func (c *Ctx) writeEvidence(start time.Time) error {
	counters := map[string]int64{}
	for k, v := range c.counters {
		counters[k] = v
	}
	rule := strings.Join(c.rules, " ")
	samples := c.samples
	if len(samples) == 0 {
		samples = []any{}
	}
	sort.SliceStable(samples, func(i, j int) bool {
		a, _ := json.Marshal(samples[i])
		b, _ := json.Marshal(samples[j])

		return string(a) < string(b)
	})
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": rule, "samples": samples,
			"observed": counters, "known_findings_seen": c.knownHit,
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  c.violations,
	}
	if ev["assumptions"] == nil || len(c.assume) == 0 {
		ev["assumptions"] = []string{}
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(c.VerifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}

	return os.WriteFile(filepath.Join(dir, c.Prop+".json"), data, 0o644)
}

// join makes a distinctness key.
func join(parts ...string) string { return strings.Join(parts, "|") }

func itoa(v int) string { return strconv.Itoa(v) }
