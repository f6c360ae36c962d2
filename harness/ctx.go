package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is one run of one check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     uint64
	Verif    string
	Work     string
	start    time.Time
	plain    string
	race     string
	conc     string
	sites    int
	binMu    sync.Mutex
	srvMu    sync.Mutex
	servers  []*Server
	covMu    sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	sets     map[string]map[uint64]struct{}
	samples  []any
	rule     string
	assume   []string
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks a size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) Rand(stream ...uint64) *rand.Rand {
	h := c.Seed*0x9E3779B97F4A7C15 + 12345
	for _, s := range stream {
		h ^= s + 0x9E3779B97F4A7C15 + (h << 6) + (h >> 2)
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 29
	}
	return rand.New(rand.NewPCG(h, uint64(len(c.ID))+hash64(c.ID)))
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (c *Ctx) track(s *Server) {
	c.srvMu.Lock()
	c.servers = append(c.servers, s)
	c.srvMu.Unlock()
}

func (c *Ctx) closeAll() {
	c.srvMu.Lock()
	l := c.servers
	c.servers = nil
	c.srvMu.Unlock()
	for _, s := range l {
		s.Close()
	}
}

// Bin is the server with the virtual clock and the lock hooks; ConcBin adds the
// statement hooks; RaceBin is ConcBin with the race detector.
func (c *Ctx) Bin() (string, error)     { return c.bin(&c.plain, "server", false) }
func (c *Ctx) ConcBin() (string, error) { return c.bin(&c.conc, "server-conc", true) }
func (c *Ctx) RaceBin() (string, error) { return c.bin(&c.race, "server-race", true, "-race") }

func (c *Ctx) bin(p *string, name string, stmts bool, flags ...string) (string, error) {
	c.binMu.Lock()
	defer c.binMu.Unlock()
	if *p != "" {
		return *p, nil
	}
	var extra map[string]string
	if stmts {
		m, n, err := instrumentModule(c.Work)
		if err != nil {
			return "", err
		}
		extra, c.sites = m, n
	}
	o, err := makeOverlay(c.Work, filepath.Join(c.Verif, "harness"), extra, name+".json")
	if err != nil {
		return "", err
	}
	b, err := buildServer(c.Work, name, o, flags...)
	if err != nil && stmts {
		// a construct the instrumenter does not handle: go without
		if o, err2 := makeOverlay(c.Work, filepath.Join(c.Verif, "harness"), nil, name+".json"); err2 == nil {
			if b2, err2 := buildServer(c.Work, name, o, flags...); err2 == nil {
				c.sites = 0
				b, err = b2, nil
			}
		}
	}
	if err != nil {
		return "", err
	}
	*p = b
	return b, nil
}

// ---- coverage --------------------------------------------------------------

func (c *Ctx) Eval(n int64) { atomic.AddInt64(&c.evals, n) }

// Case records one case that counts as non-trivial.
func (c *Ctx) Case(key string) {
	h := hash64(key)
	c.covMu.Lock()
	c.distinct[h] = struct{}{}
	c.covMu.Unlock()
}

func (c *Ctx) Count(name string, n int64) {
	c.covMu.Lock()
	c.counts[name] += n
	c.covMu.Unlock()
}

// Distinct counts distinct observations under a name.
func (c *Ctx) Distinct(name, key string) {
	h := hash64(key)
	c.covMu.Lock()
	m := c.sets[name]
	if m == nil {
		m = map[uint64]struct{}{}
		c.sets[name] = m
	}
	m[h] = struct{}{}
	c.covMu.Unlock()
}

func (c *Ctx) Sample(s any) {
	c.covMu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, s)
	}
	c.covMu.Unlock()
}

func (c *Ctx) noteServer(s *Server) {
	c.Count("lock_events_hooked", atomic.LoadInt64(&s.shm.hooks))
	c.Count("yields_injected", atomic.LoadInt64(&s.shm.yields))
	c.Count("sleeps_injected", atomic.LoadInt64(&s.shm.sleeps))
	c.Count("statement_delays_injected", atomic.LoadInt64(&s.shm.steps))
	c.Count("reads_cut_short", atomic.LoadInt64(&s.shm.shorts))
	c.Count("virtual_clock_reads", atomic.LoadInt64(&s.shm.nowSeen))
	c.Count("timers_hurried", atomic.LoadInt64(&s.shm.hurried))
}

func (c *Ctx) writeEvidence(violations int) error {
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
	}
	for k, v := range c.counts {
		if v != 0 {
			cov[k] = v
		}
	}
	for k, v := range c.sets {
		cov["distinct_"+k] = len(v)
	}
	if c.sites > 0 {
		cov["instrumented_statements"] = c.sites
	}
	if c.samples == nil {
		cov["samples"] = []any{"none: the run ended before the first complete case"}
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": violations,
		"assumptions": append([]string{"the Go toolchain, the kernel's loopback TCP and the harness's reference model are right"}, c.assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(c.Verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, c.ID+".json"), b, 0o644)
}

func (c *Ctx) writeReplay(msg string) string {
	dir := filepath.Join(c.Verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.txt", c.ID, c.Tier, c.Seed))
	os.WriteFile(p, []byte(fmt.Sprintf("property %s, tier %s, seed %d\n\n%s\n", c.ID, c.Tier, c.Seed, msg)), 0o644)
	return p
}

// ---- parallel work ---------------------------------------------------------

// Par runs f(i) for i in [0,n) on w workers and returns the first error,
// preferring violations.
func (c *Ctx) Par(n, w int, f func(i int) error) error {
	var next int64 = -1
	var stop atomic.Bool
	errs := make(chan error, w)
	for k := 0; k < w; k++ {
		go func() {
			for !stop.Load() {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					break
				}
				if err := f(i); err != nil {
					stop.Store(true)
					errs <- err
					return
				}
			}
			errs <- nil
		}()
	}
	var out error
	var cut <-chan time.Time
	for k := 0; k < w; k++ {
		var err error
		select {
		case err = <-errs:
		case <-cut: // a violation is known; the others need not be awaited
			return out
		}
		if err != nil {
			if _, v := asViol(err); v && cut == nil {
				cut = time.After(10 * time.Second)
			}
			if _, v := asViol(err); v || out == nil {
				if _, have := asViol(out); out == nil || !have {
					out = err
				}
			}
		}
	}
	return out
}

// ---- main ------------------------------------------------------------------

type checkFn func(c *Ctx) error

var checks = map[string]checkFn{}

func listChecks() string {
	var l []string
	for k := range checks {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
