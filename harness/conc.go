package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Concurrent histories and their check against the sequential model.

type Op struct {
	Client    int
	Args      []string
	Call, Ret int64 // ns since the start of the round
	R         Reply
}

func (o Op) String() string {
	return fmt.Sprintf("[%9d,%9d] client %d: %s -> %s", o.Call, o.Ret, o.Client, showCmd(o.Args), o.R)
}

// concRun lets each client i issue plan[i] (as one pipeline if pipe[i]) at the
// same time and returns the recorded operations, per client in program order.
func concRun(cls []*Client, plan [][][]string, pipe []bool, stagger []time.Duration) ([][]Op, error) {
	out := make([][]Op, len(plan))
	errs := make([]error, len(plan))
	var ready, done sync.WaitGroup
	gate := make(chan struct{})
	t0 := time.Now()
	for i := range plan {
		ready.Add(1)
		done.Add(1)
		go func(i int) {
			defer done.Done()
			cl := cls[i]
			ops := make([]Op, 0, len(plan[i]))
			ready.Done()
			<-gate
			if stagger != nil && stagger[i] > 0 {
				for t := time.Now(); time.Since(t) < stagger[i]; {
				}
			}
			if pipe[i] {
				var buf []byte
				for _, a := range plan[i] {
					buf = AppendCmd(buf, a)
				}
				call := time.Since(t0).Nanoseconds()
				if err := cl.send(buf, showCmd(plan[i][0])); err != nil {
					errs[i] = err
					return
				}
				for _, a := range plan[i] {
					cl.tick(showCmd(a))
					r, err := ReadReply(cl.r)
					ret := time.Since(t0).Nanoseconds()
					if err != nil {
						errs[i] = cl.connErr(err, showCmd(a))
						break
					}
					ops = append(ops, Op{i, a, call, ret, r})
				}
			} else {
				for _, a := range plan[i] {
					call := time.Since(t0).Nanoseconds()
					r, err := cl.Do(a...)
					ret := time.Since(t0).Nanoseconds()
					if err != nil {
						errs[i] = err
						break
					}
					ops = append(ops, Op{i, a, call, ret, r})
				}
			}
			out[i] = ops
		}(i)
	}
	ready.Wait()
	close(gate)
	done.Wait()
	for _, e := range errs {
		if e != nil {
			return out, e
		}
	}
	return out, nil
}

type linChecker struct {
	ops   [][]Op
	final []Op
	memo  map[string]struct{}
	nodes int
	limit int
	best  int
	why   string
	// due: a key whose deadline is not later than this may expire at any
	// moment of the history and has expired when the final reads are made.
	due int64
	fin int64 // the time of the final reads if due is set
}

// linearizable reports whether ops, followed by the sequential final reads,
// have a linearization from the initial model. undecided when the search is
// cut off.
func linearizable(init *Model, ops [][]Op, final []Op, due, fin int64) (ok, undecided bool, lc *linChecker) {
	lc = &linChecker{due: due, fin: fin, ops: ops, final: final, memo: map[string]struct{}{}, limit: 400_000}
	pos := make([]int, len(ops))
	ok = lc.dfs(init.Clone(), pos, 0)
	return ok, !ok && lc.nodes > lc.limit, lc
}

func (l *linChecker) dfs(m *Model, pos []int, n int) bool {
	l.nodes++
	if l.nodes > l.limit {
		return false
	}
	minRet := int64(1 << 62)
	left := false
	for c, p := range pos {
		if p < len(l.ops[c]) {
			left = true
			if r := l.ops[c][p].Ret; r < minRet {
				minRet = r
			}
		}
	}
	if !left {
		mm := m.Clone()
		if l.due > 0 {
			for k, e := range mm.M {
				if e.D != 0 && e.D <= l.due {
					delete(mm.M, k)
				}
			}
			mm.Now = l.fin
		}
		for _, o := range l.final {
			if w := mm.Apply(o.Args, o.R); w != "" {
				if n >= l.best {
					l.best, l.why = n, fmt.Sprintf("after all commands, %s: %s", showCmd(o.Args), w)
				}
				return false
			}
		}
		return true
	}
	key := fmt.Sprint(pos) + m.Canon()
	if _, seen := l.memo[key]; seen {
		return false
	}
	l.memo[key] = struct{}{}
	for c, p := range pos {
		if p >= len(l.ops[c]) {
			continue
		}
		o := l.ops[c][p]
		if o.Call > minRet {
			continue
		}
		mm := m.Clone()
		if w := mm.Apply(o.Args, o.R); w != "" {
			if n > l.best {
				l.best, l.why = n, fmt.Sprintf("%s by client %d: %s", showCmd(o.Args), o.Client, w)
			}
			continue
		}
		pos[c]++
		if l.dfs(mm, pos, n+1) {
			return true
		}
		pos[c]--
	}
	if l.due > 0 {
		for k, e := range m.M {
			if e.D != 0 && e.D <= l.due {
				mm := m.Clone()
				delete(mm.M, k)
				if l.dfs(mm, pos, n) {
					return true
				}
			}
		}
	}
	return false
}

var stmtLevels = []int64{200, 60, 400, 0}

// LinSpec describes rounds of concurrent operations.
type LinSpec struct {
	Rounds  int
	Clients [2]int
	Ops     [2]int
	Segs    []int
	Level   []int64
	// Setup issues sequential commands (through q, checked) that prepare the
	// round and may move the clock; Plan returns one client's commands.
	Setup func(q *Runner, g *Gen, r *rand.Rand) error
	Plan  func(g *Gen, client, n int) [][]string
	Keys  func(r *rand.Rand) []string
	// Noise is the probability of a further connection listing keys during
	// the round. Listing may drop expired keys but has no effect a command
	// can observe, so its replies take no part in the linearization.
	Noise float64
	// Midway, if set, is asked after Setup whether the clock jumps during the
	// round: after how many of its readings and to what time.
	Midway func(q *Runner, r *rand.Rand) (reads int, to int64)
}

func (c *Ctx) RunLin(sp LinSpec, stream uint64) error {
	workers := 12
	if len(sp.Segs) == 0 {
		sp.Segs = []int{1, 2, 3, 100}
	}
	if len(sp.Level) == 0 {
		sp.Level = []int64{4, 2, 0, 7}
	}
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	perServer := 250
	chunks := (sp.Rounds + perServer - 1) / perServer
	return c.Par(chunks, workers, func(ci int) error {
		o := ServerOpt{Bin: bin, SegNum: sp.Segs[ci%len(sp.Segs)], Level: sp.Level[(ci/len(sp.Segs))%len(sp.Level)], Stmt: stmtLevels[(ci/2)%len(stmtLevels)]}
		q, err := c.NewRunner(o)
		if err != nil {
			return err
		}
		defer q.Close()
		q.s.Perturb(false)
		var cls []*Client
		for i := 0; i <= sp.Clients[1]; i++ {
			cl, err := q.s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			cls = append(cls, cl)
		}
		for i := ci * perServer; i < (ci+1)*perServer && i < sp.Rounds; i++ {
			if err := c.linRound(q, cls, sp, stream, uint64(i)); err != nil {
				return err
			}
		}
		return nil
	})
}

func (c *Ctx) linRound(q *Runner, cls []*Client, sp LinSpec, stream, i uint64) error {
	r := c.Rand(stream, i)
	keys := sp.Keys(r)
	g := NewGen(r, q.m, 1, 2+r.IntN(4))
	g.keys = keys
	g.Aim = 0.95
	if sp.Setup != nil {
		if err := sp.Setup(q, g, r); err != nil {
			return err
		}
	}
	init := q.m.Clone()
	n := sp.Clients[0] + r.IntN(sp.Clients[1]-sp.Clients[0]+1)
	plan := make([][][]string, n)
	pipe := make([]bool, n)
	stag := make([]time.Duration, n)
	mode := r.IntN(3)
	for k := range plan {
		plan[k] = sp.Plan(g, k, sp.Ops[0]+r.IntN(sp.Ops[1]-sp.Ops[0]+1))
		pipe[k] = mode == 0 || mode == 1 && r.IntN(2) == 0
		if r.IntN(2) == 0 {
			stag[k] = time.Duration(r.IntN(60)) * time.Microsecond
		}
	}
	if r.Float64() < sp.Noise {
		pats := []string{"*", "?*", keys[0]}
		var ks [][]string
		for k := 1 + r.IntN(4); k > 0; k-- {
			ks = append(ks, []string{"KEYS", pats[r.IntN(3)]})
		}
		plan, pipe, stag = append(plan, ks), append(pipe, r.IntN(2) == 0), append(stag, time.Duration(r.IntN(60))*time.Microsecond)
		c.Count("rounds_with_listing", 1)
	}
	var due, fin int64
	if sp.Midway != nil {
		if reads, to := sp.Midway(q, r); reads > 0 {
			due, fin = to, to+1000
			init.Slack = fin - init.Now
			for k := range plan {
				for j := range plan[k] {
					plan[k][j] = longTTL(plan[k][j])
				}
			}
			q.s.JumpAfter(reads, to)
		}
	}
	q.s.Perturb(true)
	ops, err := concRun(cls[:len(plan)], plan, pipe, stag)
	q.s.Perturb(false)
	if err != nil {
		return c.withPlan(err, plan)
	}
	ops, plan = ops[:n], plan[:n]
	if due > 0 {
		jumped := atomic.LoadInt64(&q.s.shm.jumpIn) == 0
		q.s.SetNow(fin)
		q.m.Now = fin
		if jumped {
			c.Count("rounds_with_a_deadline_passing_midway", 1)
		}
	}
	// final state, read by one client after everything has returned
	var final []Op
	rd := finalReads(keys)
	rs, err := q.cl.Pipeline(rd)
	if err != nil {
		return err
	}
	for k := range rd {
		final = append(final, Op{-1, rd[k], 0, 0, rs[k]})
	}
	var total int
	overlap := 0
	for a := range ops {
		total += len(ops[a])
		for _, x := range ops[a] {
			for b := a + 1; b < len(ops); b++ {
				for _, y := range ops[b] {
					if x.Call < y.Ret && y.Call < x.Ret {
						overlap++
					}
				}
			}
		}
	}
	c.Eval(int64(total + len(final)))
	c.Count("rounds", 1)
	c.Count("overlapping_pairs", int64(overlap))
	// replies of the round: which interleaving outcome was seen
	var sb strings.Builder
	for a := range ops {
		for _, x := range ops[a] {
			sb.WriteString(x.R.String())
			sb.WriteByte('|')
		}
		sb.WriteByte('/')
	}
	outcome := fmt.Sprint(plan) + sb.String()
	if overlap > 0 {
		c.Case(outcome)
	}
	ok, undecided, lc := linearizable(init, ops, final, due, fin)
	c.Count("search_nodes", int64(lc.nodes))
	if undecided {
		c.Count("undecided_rounds", 1)
	} else if !ok {
		var h strings.Builder
		for a := range ops {
			for _, x := range ops[a] {
				fmt.Fprintf(&h, "  %s\n", x)
			}
		}
		for _, x := range final {
			fmt.Fprintf(&h, "  finally %s -> %s\n", showCmd(x.Args), x.R)
		}
		var pre strings.Builder
		for _, st := range q.hist {
			fmt.Fprintf(&pre, "  %s\n", st)
		}
		if due > 0 {
			fmt.Fprintf(&pre, "  during the round the clock moves on by %d ms\n", due-init.Now)
		}
		return viol("no sequential order of these commands explains their replies (segnum %d); furthest attempt failed at: %s\nbefore the round:\n%sround (times in ns, pipelined commands share their call time):\n%s",
			q.s.opt.SegNum, lc.why, pre.String(), h.String())
	}
	if i%500 == 0 {
		c.Sample(map[string]any{"clients": n, "plan": fmt.Sprint(len(plan[0])) + " ops each", "first_client": sampleCmds(plan[0], 6), "second_client": sampleCmds(plan[1%len(plan)], 6), "overlapping_pairs": overlap, "search_nodes": lc.nodes})
	}
	// clean up; the model is not tracked through the round
	q.m.M = map[string]*Entry{}
	q.hist = nil
	if _, err := q.cl.Do(append([]string{"DEL"}, keys...)...); err != nil {
		return err
	}
	return nil
}

// longTTL replaces times to live so that what the command gives does not run
// out within the round.
func longTTL(a []string) []string {
	const long = "1000000"
	out := append([]string(nil), a...)
	switch strings.ToLower(a[0]) {
	case "expire":
		if len(a) > 2 && !strings.HasPrefix(a[2], "-") {
			out[2] = long
		}
	case "setex":
		if len(a) > 2 && !strings.HasPrefix(a[2], "-") {
			out[2] = long
		}
	case "set":
		for i := 3; i+1 < len(a); i++ {
			switch strings.ToLower(a[i]) {
			case "ex", "px", "exat", "pxat":
				out[i], out[i+1] = "ex", long
				i++
			}
		}
	}
	return out
}

// finalReads shows keys without knowing their types.
func finalReads(keys []string) [][]string {
	var out [][]string
	for _, k := range keys {
		out = append(out, []string{"TYPE", k}, []string{"TTL", k}, []string{"GET", k}, []string{"LRANGE", k, "0", "-1"}, []string{"LLEN", k},
			[]string{"HGETALL", k}, []string{"SMEMBERS", k}, []string{"EXISTS", k})
	}
	return append(out, []string{"KEYS", "*"})
}
