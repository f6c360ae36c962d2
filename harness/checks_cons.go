package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() { checks["C13"] = checkC13 }

// conc is one server with several clients issuing commands at once.
type conc struct {
	c   *Ctx
	s   *Server
	cls []*Client
	t0  time.Time
}

func (c *Ctx) newConc(o ServerOpt, n int) (*conc, error) {
	if o.Bin == "" {
		b, err := c.ConcBin()
		if err != nil {
			return nil, err
		}
		o.Bin = b
	}
	s, err := c.StartServer(o)
	if err != nil {
		return nil, err
	}
	x := &conc{c: c, s: s, t0: time.Now()}
	for i := 0; i < n; i++ {
		cl, err := s.Dial()
		if err != nil {
			return nil, err
		}
		x.cls = append(x.cls, cl)
	}
	return x, nil
}

func (x *conc) Close() {
	x.c.noteServer(x.s)
	for _, cl := range x.cls {
		cl.Close()
	}
	x.s.Close()
}

// all runs f for every client at once.
func (x *conc) all(f func(i int, cl *Client) error) error {
	return x.c.Par(len(x.cls), len(x.cls), func(i int) error { return f(i, x.cls[i]) })
}

func (x *conc) now() int64 { return time.Since(x.t0).Nanoseconds() }

// must sends one command on the first client and wants a reply of a kind.
func (x *conc) must(kind byte, a ...string) (Reply, error) {
	r, err := x.cls[0].Do(a...)
	if err != nil {
		return r, err
	}
	if r.Kind != kind {
		return r, viol("%s answered %s", showCmd(a), r)
	}
	return r, nil
}

// concOpt varies the environment of a scenario.
func concOpt(i int) ServerOpt {
	return ServerOpt{SegNum: []int{1, 2, 100, 3}[i%4], Level: []int64{3, 0, 6}[i%3], Stmt: []int64{150, 400, 0, 60, 800}[i%5]}
}

const ruleCons = "A case is one scenario: several connections run producers, consumers and movers (or counters) at once on a few shared keys of one server with injected delays; every id ever added is accounted for from the replies and the final contents. Distinct by kind, segment count and the order in which elements were handed out, counted only if elements changed hands between connections."

func checkC13(c *Ctx) error {
	c.rule = ruleCons
	kinds := []func(x *conc, r *rand.Rand) (string, error){consLists, consFifo, consSets, consCounters, consAppend, consWinners, consFields}
	n := c.N(140, 2800)
	return c.Par(n, 10, func(i int) error {
		r := c.Rand(13, uint64(i))
		conns := 4 + r.IntN(5)
		if i/len(kinds)%10 == 4 {
			conns = 30 + r.IntN(90)
			if i%len(kinds) == 1 {
				conns = 12
			}
		}
		x, err := c.newConc(concOpt(i), conns)
		if err != nil {
			return err
		}
		defer x.Close()
		sig, err := kinds[i%len(kinds)](x, r)
		if err != nil {
			return err
		}
		c.Count("scenarios", 1)
		if i < 7 {
			c.Sample(map[string]any{"kind": []string{"lists", "fifo", "sets", "counters", "append", "competitions", "fields"}[i%len(kinds)], "connections": len(x.cls), "segnum": x.s.opt.SegNum, "order_hash": sig})
		}
		if sig != "" {
			c.Case(fmt.Sprint(i%len(kinds), x.s.opt.SegNum, sig))
		}
		return nil
	})
}

// ledger counts what happened to each id.
type ledger struct {
	mu     sync.Mutex
	added  map[string]string
	handed map[string][]string
	order  []string
}

func newLedger() *ledger {
	return &ledger{added: map[string]string{}, handed: map[string][]string{}}
}

func (l *ledger) add(id, by string) {
	l.mu.Lock()
	l.added[id] = by
	l.mu.Unlock()
}

func (l *ledger) out(id, by string) {
	l.mu.Lock()
	l.handed[id] = append(l.handed[id], by)
	l.order = append(l.order, id)
	l.mu.Unlock()
}

// settle compares with what the keys finally hold.
func (l *ledger) settle(held map[string][]string) error {
	bad := 0
	var sb strings.Builder
	say := func(f string, a ...any) {
		bad++
		if bad <= 6 {
			fmt.Fprintf(&sb, "\n  "+f, a...)
		}
	}
	ids := map[string]bool{}
	for id := range l.added {
		ids[id] = true
	}
	for id := range l.handed {
		ids[id] = true
	}
	for id := range held {
		ids[id] = true
	}
	var all []string
	for id := range ids {
		all = append(all, id)
	}
	sort.Strings(all)
	for _, id := range all {
		if _, ok := l.added[id]; !ok {
			say("%q was never added but was handed out by %v or is held by %v", id, l.handed[id], held[id])
			continue
		}
		if n := len(l.handed[id]) + len(held[id]); n != 1 {
			what := "lost"
			if n > 1 {
				what = "duplicated"
			}
			say("%q, added by %s, is %s: handed out by %v, finally held by %v", id, l.added[id], what, l.handed[id], held[id])
		}
	}
	if bad > 0 {
		return viol("%d of %d elements unaccounted for:%s", bad, len(all), sb.String())
	}
	return nil
}

func (l *ledger) sig() string {
	if len(l.order) == 0 {
		return ""
	}
	return fmt.Sprint(hash64(strings.Join(l.order, " ")))
}

// arrOf takes bulk or array or null replies of pops as a list of elements.
func arrOf(r Reply) ([]string, bool) {
	if r.Null {
		return nil, true
	}
	switch r.Kind {
	case '$':
		return []string{r.Str}, true
	case '*':
		var out []string
		for _, e := range r.Arr {
			if e.Kind != '$' || e.Null {
				return nil, false
			}
			out = append(out, e.Str)
		}
		return out, true
	}
	return nil, false
}

// batch sends commands as one pipeline and hands each reply to on.
func batch(x *conc, cl *Client, cmds [][]string, on func(i int, a []string, r Reply) error) error {
	rs, err := cl.Pipeline(cmds)
	if err != nil {
		return err
	}
	x.c.Eval(int64(len(cmds)))
	for i, r := range rs {
		if err := on(i, cmds[i], r); err != nil {
			return err
		}
	}
	return nil
}

func wrongReply(a []string, r Reply) error {
	return viol("%s answered %s", showCmd(a), r)
}

func consLists(x *conc, r0 *rand.Rand) (string, error) {
	l := newLedger()
	nl := 1 + r0.IntN(4)
	list := func(r *rand.Rand) string { return fmt.Sprintf("L%d", r.IntN(nl)) }
	seeds := make([]uint64, len(x.cls))
	for i := range seeds {
		seeds[i] = r0.Uint64()
	}
	rename := r0.IntN(2) == 0
	maxPush, maxPop, steps := 3, 4, 60
	if r0.IntN(2) == 0 {
		// whole batches, so that lists are emptied and made again all the time
		maxPush, maxPop, steps = 24, 60, 20
	}
	err := x.all(func(i int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[i], 1))
		seq, priv := 0, 0
		by := fmt.Sprintf("client %d", i)
		for step := 0; step < steps; step++ {
			var cmds [][]string
			for k := 1 + r.IntN(6); k > 0; k-- {
				ids := func(n int) []string {
					var o []string
					for ; n > 0; n-- {
						o = append(o, fmt.Sprintf("%d.%d", i, seq))
						seq++
					}
					return o
				}
				w := r.IntN(20)
				switch {
				case w < 6:
					cmds = append(cmds, append([]string{[]string{"lpush", "rpush"}[r.IntN(2)], list(r)}, ids(1+r.IntN(maxPush))...))
				case w < 7:
					cmds = append(cmds, append([]string{[]string{"lpushx", "rpushx"}[r.IntN(2)], list(r)}, ids(1)...))
				case w < 11:
					a := []string{[]string{"lpop", "rpop"}[r.IntN(2)], list(r)}
					if r.IntN(2) == 0 {
						a = append(a, itoa(int64(1+r.IntN(maxPop))))
					}
					cmds = append(cmds, a)
				case w < 17:
					d := []string{"LEFT", "RIGHT"}
					cmds = append(cmds, []string{"lmove", list(r), list(r), d[r.IntN(2)], d[r.IntN(2)]})
				case w < 18:
					cmds = append(cmds, []string{"lrem", list(r), itoa(int64(r.IntN(3) - 1)), fmt.Sprintf("%d.%d", r.IntN(len(x.cls)), r.IntN(seq+1))})
				case w < 19:
					cmds = append(cmds, []string{"linsert", list(r), []string{"before", "after"}[r.IntN(2)], fmt.Sprintf("%d.%d", r.IntN(len(x.cls)), r.IntN(seq+1)), ids(1)[0]})
				default:
					if rename {
						p := fmt.Sprintf("P%d.%d", i, priv)
						priv++
						cmds = append(cmds, []string{"rename", list(r), p}, []string{"lpop", p, "100000"})
					}
				}
			}
			if len(cmds) == 0 {
				continue
			}
			err := batch(x, cl, cmds, func(_ int, a []string, rep Reply) error {
				switch a[0] {
				case "lpush", "rpush":
					if rep.Kind != ':' || rep.Int < int64(len(a)-2) {
						return wrongReply(a, rep)
					}
					for _, id := range a[2:] {
						l.add(id, by)
					}
				case "lpushx", "rpushx":
					if rep.Kind != ':' {
						return wrongReply(a, rep)
					}
					if rep.Int > 0 {
						l.add(a[2], by)
					}
				case "linsert":
					if rep.Kind != ':' {
						return wrongReply(a, rep)
					}
					if rep.Int > 0 {
						l.add(a[4], by)
					}
				case "lpop", "rpop":
					e, ok := arrOf(rep)
					if !ok {
						return wrongReply(a, rep)
					}
					for _, id := range e {
						l.out(id, by)
					}
				case "lrem":
					if rep.Kind != ':' || rep.Int < 0 || rep.Int > 1 {
						return wrongReply(a, rep)
					}
					if rep.Int == 1 {
						l.out(a[3], by)
					}
				case "lmove":
					if rep.Kind != '$' {
						return wrongReply(a, rep)
					}
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	held := map[string][]string{}
	for k := 0; k < nl; k++ {
		key := fmt.Sprintf("L%d", k)
		rep, err := x.must('*', "LRANGE", key, "0", "-1")
		if err != nil {
			return "", err
		}
		e, _ := arrOf(rep)
		for _, id := range e {
			held[id] = append(held[id], key)
		}
		n, err := x.must(':', "LLEN", key)
		if err != nil {
			return "", err
		}
		if int(n.Int) != len(e) {
			return "", viol("after concurrent pushes, pops and moves LLEN %s is %d but LRANGE 0 -1 gives %d elements", key, n.Int, len(e))
		}
		// the same sequence from the other end
		var back []string
		for j := len(e) - 1; j >= 0; j-- {
			if len(e) > 400 && j%37 != 0 {
				continue
			}
			rep, err := x.must('$', "LINDEX", key, itoa(int64(j-len(e))))
			if err != nil {
				return "", err
			}
			back = append(back, rep.Str)
			if rep.Str != e[j] {
				return "", viol("LINDEX %s %d is %q but LRANGE shows %q there", key, j-len(e), rep.Str, e[j])
			}
		}
	}
	if err := l.settle(held); err != nil {
		return "", err
	}
	x.c.Count("elements_accounted_for", int64(len(l.added)))
	return l.sig(), nil
}

type popEv struct {
	producer, seq int
	call, ret     int64
}

// consFifo: what each producer pushed at one end comes out of the other in order.
func consFifo(x *conc, r0 *rand.Rand) (string, error) {
	push, pop, from, to := "rpush", "lpop", "LEFT", "RIGHT"
	if r0.IntN(2) == 0 {
		push, pop, from, to = "lpush", "rpop", "RIGHT", "LEFT"
	}
	stages := r0.IntN(3) // 0: one list; else elements move through more lists
	last := fmt.Sprintf("Q%d", stages)
	np := 1 + len(x.cls)/3
	var mu sync.Mutex
	var evs []popEv
	var stop sync.WaitGroup
	stop.Add(np)
	prodDone := make(chan struct{})
	go func() { stop.Wait(); close(prodDone) }()
	total := 0
	perProducer := 250
	maxBatch := 4
	if r0.IntN(2) == 0 {
		maxBatch, perProducer = 30, 300
	}
	seeds := make([]uint64, len(x.cls))
	for i := range seeds {
		seeds[i] = r0.Uint64()
	}
	snap := func(rep Reply, key string) error {
		// producers' numbers must rise along the direction of travel
		lastSeq := map[string]int{}
		e, _ := arrOf(rep)
		for k := range e {
			id := e[k]
			if push == "lpush" {
				id = e[len(e)-1-k]
			}
			p, s, _ := strings.Cut(id, ".")
			var n int
			fmt.Sscan(s, &n)
			if o, ok := lastSeq[p]; ok && n <= o {
				return viol("%s held producer %s's element %d in front of its element %d although it pushed them in the other order", key, p, n, o)
			}
			lastSeq[p] = n
		}
		return nil
	}
	err := x.all(func(i int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[i], 2))
		if i < np {
			defer stop.Done()
			for seq := 0; seq < perProducer; {
				a := []string{push, "Q0"}
				for k := 1 + r.IntN(maxBatch); k > 0 && seq < perProducer; k-- {
					a = append(a, fmt.Sprintf("%d.%d", i, seq))
					seq++
				}
				rep, err := cl.Do(a...)
				if err != nil {
					return err
				}
				if rep.Kind != ':' {
					return wrongReply(a, rep)
				}
				x.c.Eval(1)
			}
			return nil
		}
		consumer := stages == 0 || i%2 == 0 || i == len(x.cls)-1
		idle := 0
		for {
			done := false
			select {
			case <-prodDone:
				done = true
			default:
			}
			if consumer {
				a := []string{pop, last}
				if r.IntN(2) == 0 {
					a = append(a, itoa(int64(1+r.IntN(maxBatch))))
				}
				call := x.now()
				rep, err := cl.Do(a...)
				if err != nil {
					return err
				}
				ret := x.now()
				e, ok := arrOf(rep)
				if !ok {
					return wrongReply(a, rep)
				}
				x.c.Eval(1)
				if len(e) == 0 {
					idle++
				} else {
					idle = 0
				}
				mu.Lock()
				total += len(e)
				for k, id := range e {
					var p, s int
					fmt.Sscanf(id, "%d.%d", &p, &s)
					evs = append(evs, popEv{p, s, call, ret})
					// elements of one reply are ordered among themselves
					for q := len(evs) - 1 - k; q < len(evs)-1; q++ {
						if evs[q].producer == p && evs[q].seq >= s {
							mu.Unlock()
							return viol("%s returned producer %d's element %d before its element %d", showCmd(a), p, evs[q].seq, s)
						}
					}
				}
				fin := total == np*perProducer
				mu.Unlock()
				if fin {
					return nil
				}
			} else {
				st := r.IntN(stages)
				a := []string{"lmove", fmt.Sprintf("Q%d", st), fmt.Sprintf("Q%d", st+1), from, to}
				rep, err := cl.Do(a...)
				if err != nil {
					return err
				}
				if rep.Kind != '$' {
					return wrongReply(a, rep)
				}
				x.c.Eval(1)
				if rep.Null {
					idle++
				} else {
					idle = 0
				}
				if r.IntN(8) == 0 {
					key := fmt.Sprintf("Q%d", r.IntN(stages+1))
					rep, err := cl.Do("LRANGE", key, "0", "-1")
					if err != nil {
						return err
					}
					if err := snap(rep, key); err != nil {
						return err
					}
				}
				mu.Lock()
				fin := total == np*perProducer
				mu.Unlock()
				if fin {
					return nil
				}
			}
			if done && idle > 200 {
				return nil
			}
		}
	})
	if err != nil {
		return "", err
	}
	// whatever is left, stage by stage, in order
	left := 0
	for st := 0; st <= stages; st++ {
		rep, err := x.must('*', "LRANGE", fmt.Sprintf("Q%d", st), "0", "-1")
		if err != nil {
			return "", err
		}
		left += len(rep.Arr)
		if err := snap(rep, fmt.Sprintf("Q%d", st)); err != nil {
			return "", err
		}
	}
	if total+left != np*perProducer {
		return "", viol("%d elements were pushed, %d came out and %d are left", np*perProducer, total, left)
	}
	// pops that do not overlap must come in order
	sort.Slice(evs, func(a, b int) bool { return evs[a].call < evs[b].call })
	for p := 0; p < np; p++ {
		type re struct {
			ret int64
			seq int
		}
		var done []re
		for _, e := range evs {
			if e.producer == p {
				done = append(done, re{e.ret, e.seq})
			}
		}
		sort.Slice(done, func(a, b int) bool { return done[a].ret < done[b].ret })
		k, maxSeq := 0, -1
		for _, e := range evs {
			if e.producer != p {
				continue
			}
			for k < len(done) && done[k].ret < e.call {
				if done[k].seq > maxSeq {
					maxSeq = done[k].seq
				}
				k++
			}
			if maxSeq >= e.seq {
				return "", viol("%s returned producer %d's element %d although its later element %d had already been returned to another connection", pop, p, e.seq, maxSeq)
			}
		}
	}
	x.c.Count("elements_in_fifo_order", int64(total))
	var sb strings.Builder
	for _, e := range evs {
		fmt.Fprint(&sb, e.producer, ".", e.seq, " ")
	}
	return fmt.Sprint(hash64(sb.String())), nil
}

func consSets(x *conc, r0 *rand.Rand) (string, error) {
	l := newLedger()
	ns := 1 + r0.IntN(4)
	set := func(r *rand.Rand) string { return fmt.Sprintf("S%d", r.IntN(ns)) }
	seeds := make([]uint64, len(x.cls))
	for i := range seeds {
		seeds[i] = r0.Uint64()
	}
	rename := r0.IntN(2) == 0
	maxAdd, maxPop, steps := 3, 4, 60
	if r0.IntN(2) == 0 {
		maxAdd, maxPop, steps = 24, 60, 20
	}
	err := x.all(func(i int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[i], 3))
		seq, priv := 0, 0
		by := fmt.Sprintf("client %d", i)
		for step := 0; step < steps; step++ {
			var cmds [][]string
			for k := 1 + r.IntN(6); k > 0; k-- {
				some := fmt.Sprintf("%d.%d", r.IntN(len(x.cls)), r.IntN(seq+1))
				w := r.IntN(20)
				switch {
				case w < 6:
					a := []string{"sadd", set(r)}
					for n := 1 + r.IntN(maxAdd); n > 0; n-- {
						a = append(a, fmt.Sprintf("%d.%d", i, seq))
						seq++
					}
					cmds = append(cmds, a)
				case w < 10:
					a := []string{"spop", set(r)}
					if r.IntN(2) == 0 {
						a = append(a, itoa(int64(1+r.IntN(maxPop))))
					}
					cmds = append(cmds, a)
				case w < 16:
					cmds = append(cmds, []string{"smove", set(r), set(r), some})
				case w < 18:
					cmds = append(cmds, []string{"srem", set(r), some})
				case w < 19:
					cmds = append(cmds, []string{"srandmember", set(r), "3"})
				default:
					if rename {
						p := fmt.Sprintf("P%d.%d", i, priv)
						priv++
						cmds = append(cmds, []string{"rename", set(r), p}, []string{"spop", p, "100000"})
					}
				}
			}
			if len(cmds) == 0 {
				continue
			}
			err := batch(x, cl, cmds, func(_ int, a []string, rep Reply) error {
				switch a[0] {
				case "sadd":
					if rep.Kind != ':' || rep.Int != int64(len(a)-2) {
						return viol("%s answered %s although none of these members had ever been added before", showCmd(a), rep)
					}
					for _, id := range a[2:] {
						l.add(id, by)
					}
				case "spop":
					e, ok := arrOf(rep)
					if !ok {
						return wrongReply(a, rep)
					}
					for _, id := range e {
						l.out(id, by)
					}
				case "srem":
					if rep.Kind != ':' || rep.Int < 0 || rep.Int > 1 {
						return wrongReply(a, rep)
					}
					if rep.Int == 1 {
						l.out(a[2], by)
					}
				case "smove":
					if rep.Kind != ':' {
						return wrongReply(a, rep)
					}
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	held := map[string][]string{}
	for k := 0; k < ns; k++ {
		key := fmt.Sprintf("S%d", k)
		rep, err := x.must('*', "SMEMBERS", key)
		if err != nil {
			return "", err
		}
		e, _ := arrOf(rep)
		for _, id := range e {
			held[id] = append(held[id], key)
		}
		n, err := x.must(':', "SCARD", key)
		if err != nil {
			return "", err
		}
		if int(n.Int) != len(e) {
			return "", viol("SCARD %s is %d but SMEMBERS gives %d members", key, n.Int, len(e))
		}
	}
	if err := l.settle(held); err != nil {
		return "", err
	}
	x.c.Count("elements_accounted_for", int64(len(l.added)))
	return l.sig(), nil
}

func consCounters(x *conc, r0 *rand.Rand) (string, error) {
	// each counter has one kind of operation, so that its replies are known
	// to be distinct
	type ctr struct {
		key, field string
		kind       int
	}
	ctrs := []ctr{{"n0", "", 0}, {"n1", "", 1}, {"n2", "", 2}, {"h", "f0", 3}, {"h", "f1", 4}, {"h", "f2", 5}, {"n3", "", 6}}
	var mu sync.Mutex
	sum := make([]float64, len(ctrs))
	seen := make([]map[string]string, len(ctrs))
	for i := range seen {
		seen[i] = map[string]string{}
	}
	var order []byte
	seeds := make([]uint64, len(x.cls))
	for i := range seeds {
		seeds[i] = r0.Uint64()
	}
	if r0.IntN(2) == 0 {
		if _, err := x.must('+', "SET", "n0", "1000000"); err != nil {
			return "", err
		}
		sum[0] = 1000000
	}
	distinct := func(k int) bool { return ctrs[k].kind == 0 || ctrs[k].kind == 3 || ctrs[k].kind == 2 }
	err := x.all(func(i int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[i], 4))
		for step := 0; step < 80; step++ {
			var cmds [][]string
			var which []int
			var by []float64
			for k := 1 + r.IntN(8); k > 0; k-- {
				w := r.IntN(len(ctrs))
				ct := ctrs[w]
				d := int64(r.IntN(41) - 20)
				var a []string
				v := float64(d)
				switch ct.kind {
				case 0:
					a, v = []string{"incr", ct.key}, 1
				case 1:
					a = []string{"incrby", ct.key, itoa(d)}
					if r.IntN(2) == 0 {
						a = []string{"decrby", ct.key, itoa(-d)}
					}
				case 2:
					a, v = []string{"decr", ct.key}, -1
				case 3:
					a, v = []string{"hincrby", ct.key, ct.field, "1"}, 1
				case 4:
					a = []string{"hincrby", ct.key, ct.field, itoa(d)}
				case 5:
					v = float64(d) / 4
					a = []string{"hincrbyfloat", ct.key, ct.field, fmt.Sprint(v)}
				case 6:
					v = float64(d) / 2
					a = []string{"incrbyfloat", ct.key, fmt.Sprint(v)}
				}
				cmds, which, by = append(cmds, a), append(which, w), append(by, v)
			}
			err := batch(x, cl, cmds, func(k int, a []string, rep Reply) error {
				if rep.Kind != ':' && rep.Kind != '$' {
					return wrongReply(a, rep)
				}
				mu.Lock()
				defer mu.Unlock()
				sum[which[k]] += by[k]
				order = append(order, byte(i))
				if distinct(which[k]) {
					s := rep.String()
					if o, dup := seen[which[k]][s]; dup {
						return viol("%s answered %s to connection %d, which connection %s had been answered before: one of the two steps is lost", showCmd(a), s, i, o)
					}
					seen[which[k]][s] = fmt.Sprint(i)
				}
				return nil
			})
			if err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	for k, ct := range ctrs {
		a := []string{"GET", ct.key}
		if ct.field != "" {
			a = []string{"HGET", ct.key, ct.field}
		}
		rep, err := x.must('$', a...)
		if err != nil {
			return "", err
		}
		var got float64
		if !rep.Null {
			if _, err := fmt.Sscan(rep.Str, &got); err != nil {
				return "", wrongReply(a, rep)
			}
		}
		if got != sum[k] {
			return "", viol("%s is %v after concurrent steps that add up to %v", showCmd(a), rep, sum[k])
		}
	}
	x.c.Count("counter_steps", int64(len(order)))
	return fmt.Sprint(hash64(string(order))), nil
}

func consAppend(x *conc, r0 *rand.Rand) (string, error) {
	const w = 10
	var mu sync.Mutex
	pos := map[int64]string{}
	nk := 1 + r0.IntN(2)
	seeds := make([]uint64, len(x.cls))
	for i := range seeds {
		seeds[i] = r0.Uint64()
	}
	type put struct {
		key, tok string
		end      int64
	}
	var puts []put
	err := x.all(func(i int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[i], 5))
		for step, seq := 0, 0; step < 60; step++ {
			var cmds [][]string
			for k := 1 + r.IntN(6); k > 0; k-- {
				key := fmt.Sprintf("A%d", r.IntN(nk))
				if r.IntN(6) == 0 {
					cmds = append(cmds, []string{"get", key})
					continue
				}
				cmds = append(cmds, []string{"append", key, fmt.Sprintf("<%03d-%04d>", i, seq)})
				seq++
			}
			err := batch(x, cl, cmds, func(k int, a []string, rep Reply) error {
				if a[0] == "get" {
					if rep.Kind != '$' || len(rep.Str)%w != 0 {
						return viol("GET %s shows a string of %d bytes while only tokens of %d bytes are appended", a[1], len(rep.Str), w)
					}
					for j := 0; j < len(rep.Str); j += w {
						if rep.Str[j] != '<' || rep.Str[j+w-1] != '>' {
							return viol("GET %s shows %q at offset %d, which nobody appended", a[1], rep.Str[j:j+w], j)
						}
					}
					return nil
				}
				if rep.Kind != ':' {
					return wrongReply(a, rep)
				}
				mu.Lock()
				puts = append(puts, put{a[1], a[2], rep.Int})
				mu.Unlock()
				return nil
			})
			if err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	var sig strings.Builder
	for k := 0; k < nk; k++ {
		key := fmt.Sprintf("A%d", k)
		rep, err := x.must('$', "GET", key)
		if err != nil {
			return "", err
		}
		n := 0
		for _, p := range puts {
			if p.key != key {
				continue
			}
			n++
			if p.end%w != 0 || p.end > int64(len(rep.Str)) || p.end < w || rep.Str[p.end-w:p.end] != p.tok {
				return "", viol("APPEND %s %s answered %d, but the final string does not have the token there", key, p.tok, p.end)
			}
			if o, dup := pos[p.end*2+int64(k)]; dup {
				return "", viol("APPEND %s answered %d for both %s and %s", key, p.end, o, p.tok)
			}
			pos[p.end*2+int64(k)] = p.tok
		}
		if n*w != len(rep.Str) {
			return "", viol("%d tokens of %d bytes were appended to %s, which finally has %d bytes", n, w, key, len(rep.Str))
		}
		sig.WriteString(rep.Str)
	}
	x.c.Count("appends", int64(len(puts)))
	return fmt.Sprint(hash64(sig.String())), nil
}

// consWinners: of several competing conditional writes or removals exactly one wins.
func consWinners(x *conc, r0 *rand.Rand) (string, error) {
	rounds := 60
	var sig strings.Builder
	for k := 0; k < rounds; k++ {
		kind := r0.IntN(8)
		key := fmt.Sprintf("w%d", k)
		want := func(rep Reply) bool { return rep.Kind == ':' && rep.Int == 1 }
		var mk func(i int) []string
		var setup []string
		val := func(i int) string { return fmt.Sprintf("v%d", i) }
		var check []string
		switch kind {
		case 0:
			mk, check = func(i int) []string { return []string{"setnx", key, val(i)} }, []string{"GET", key}
		case 1:
			mk, check = func(i int) []string { return []string{"set", key, val(i), "nx"} }, []string{"GET", key}
			want = func(rep Reply) bool { return rep.Kind == '+' }
		case 2:
			mk, check = func(i int) []string { return []string{"hsetnx", key, "f", val(i)} }, []string{"HGET", key, "f"}
		case 3:
			setup, mk = []string{"set", key, "x"}, func(i int) []string { return []string{"del", key} }
		case 4:
			setup, mk = []string{"sadd", key, "m", "n"}, func(i int) []string { return []string{"srem", key, "m"} }
		case 5:
			setup, mk = []string{"hset", key, "m", "1", "n", "2"}, func(i int) []string { return []string{"hdel", key, "m"} }
		case 6:
			mk = func(i int) []string { return []string{"sadd", key, "m"} }
		case 7:
			setup, mk = []string{"set", key, "x", "ex", "100"}, func(i int) []string { return []string{"persist", key} }
		}
		if setup != nil {
			if rep, err := x.cls[0].Do(setup...); err != nil {
				return "", err
			} else if rep.Kind == '-' {
				return "", wrongReply(setup, rep)
			}
		}
		plan := make([][][]string, len(x.cls))
		for i := range plan {
			plan[i] = [][]string{mk(i)}
		}
		ops, err := concRun(x.cls, plan, make([]bool, len(plan)), nil)
		if err != nil {
			return "", err
		}
		x.c.Eval(int64(len(plan)))
		win := []int{}
		for i, o := range ops {
			if want(o[0].R) {
				win = append(win, i)
			}
		}
		if len(win) != 1 {
			return "", viol("%d connections at once sent %s and alike; the connections that were told they succeeded: %v", len(plan), showCmd(mk(0)), win)
		}
		if check != nil {
			rep, err := x.cls[0].Do(check...)
			if err != nil {
				return "", err
			}
			if rep.Kind != '$' || rep.Str != val(win[0]) {
				return "", viol("connection %d won %s, but %s shows %s", win[0], showCmd(mk(win[0])), showCmd(check), rep)
			}
		}
		fmt.Fprint(&sig, kind, win[0], " ")
	}
	x.c.Count("competitions", int64(rounds))
	return fmt.Sprint(hash64(sig.String())), nil
}

// consFields: writers on their own fields, members and ranges of one shared key.
func consFields(x *conc, r0 *rand.Rand) (string, error) {
	n := len(x.cls)
	last := make([]string, n)
	fields := make([]map[string]string, n)
	for i := range fields {
		fields[i] = map[string]string{}
	}
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = r0.Uint64()
	}
	mem := make([]map[string]bool, n)
	for i := range mem {
		mem[i] = map[string]bool{}
	}
	err := x.all(func(i int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[i], 6))
		for step := 0; step < 120; step++ {
			var a []string
			var want string
			f := fmt.Sprintf("%d.%d", i, r.IntN(6))
			switch r.IntN(6) {
			case 0:
				v := fmt.Sprintf("%04d", step)
				a = []string{"setrange", "str", itoa(int64(4 * i)), v}
				last[i] = v
			case 1:
				v := fmt.Sprint(step)
				_, had := fields[i][f]
				a, want = []string{"hset", "hash", f, v}, ":1"
				if had {
					want = ":0"
				}
				fields[i][f] = v
			case 2:
				_, had := fields[i][f]
				a, want = []string{"hdel", "hash", f}, ":0"
				if had {
					want = ":1"
				}
				delete(fields[i], f)
			case 3:
				a, want = []string{"sadd", "set", f}, ":1"
				if mem[i][f] {
					want = ":0"
				}
				mem[i][f] = true
			case 4:
				a, want = []string{"srem", "set", f}, ":0"
				if mem[i][f] {
					want = ":1"
				}
				delete(mem[i], f)
			case 5:
				v, had := fields[i][f]
				a, want = []string{"hget", "hash", f}, "(nil)"
				if had {
					want = fmt.Sprintf("%q", v)
				}
			}
			rep, err := cl.Do(a...)
			if err != nil {
				return err
			}
			x.c.Eval(1)
			if want != "" && rep.String() != want || rep.Kind == '-' {
				return viol("connection %d, the only one to use this field, member or range, was answered %s to %s instead of %s", i, rep, showCmd(a), want)
			}
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	for i := range last {
		if last[i] == "" {
			continue
		}
		rep, err := x.must('$', "GETRANGE", "str", itoa(int64(4*i)), itoa(int64(4*i+3)))
		if err != nil {
			return "", err
		}
		if rep.Str != last[i] {
			return "", viol("connection %d's last SETRANGE wrote %q at its own offset %d, but %q is stored there", i, last[i], 4*i, rep.Str)
		}
	}
	rep, err := x.must('*', "HGETALL", "hash")
	if err != nil {
		return "", err
	}
	got := map[string]string{}
	e, _ := arrOf(rep)
	for k := 0; k+1 < len(e); k += 2 {
		got[e[k]] = e[k+1]
	}
	cnt := 0
	for i := range fields {
		for f, v := range fields[i] {
			cnt++
			if got[f] != v {
				return "", viol("field %s was last set to %q but finally holds %q", f, v, got[f])
			}
		}
	}
	if cnt != len(got) {
		return "", viol("%d fields are in use but HGETALL shows %d", cnt, len(got))
	}
	cnt = 0
	for i := range mem {
		cnt += len(mem[i])
	}
	rep, err = x.must(':', "SCARD", "set")
	if err != nil {
		return "", err
	}
	if int(rep.Int) != cnt {
		return "", viol("%d members are in the set but SCARD says %d", cnt, rep.Int)
	}
	return fmt.Sprint(last, cnt, len(got)), nil
}
