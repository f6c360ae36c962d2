package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	checks["C15"] = checkC15
	checks["C16"] = checkC16
}

var allCmds = strings.Fields("set get getrange setrange mget mset setex setnx strlen incr incrby decr decrby incrbyfloat append " +
	"lpush rpush lpushx rpushx lpop rpop llen lindex lset linsert lrange ltrim lrem lpos lmove " +
	"hset hmset hsetnx hget hmget hgetall hkeys hvals hlen hexists hstrlen hdel hincrby hincrbyfloat hrandfield " +
	"sadd srem scard sismember smembers smove sunion sinter sdiff sunionstore sinterstore sdiffstore spop srandmember " +
	"del exists type rename expire persist ttl keys")

// raceVerdict turns the detector's reports into a violation.
func (c *Ctx) raceVerdict(s *Server, what string) error {
	n, uniq := s.RaceReports()
	if n == 0 {
		return nil
	}
	var sigs []string
	for k := range uniq {
		sigs = append(sigs, k)
	}
	sort.Strings(sigs)
	return viol("the race detector made %d reports (%d different) while %s; first:\n%s", n, len(uniq), what, clip(uniq[sigs[0]], 3500))
}

func checkC15(c *Ctx) error {
	c.rule = "A case is one pair of commands sent at once by several connections on the same keys to the server built with the Go race detector (distinct by the two commands and the type of the keys), or one mixed scenario with connection set-up and tear-down, SELECT, KEYS and a moving clock (distinct by seed); counted only if requests of different connections overlapped. The oracle is the detector's report log."
	c.assume = []string{"the race detector sees only the accesses of executed schedules"}
	bin, err := c.RaceBin()
	if err != nil {
		return err
	}
	type pair struct {
		a, b string
		bad  bool // mostly requests that are refused
	}
	var pairs []pair
	for i, a := range allCmds {
		for _, b := range allCmds[i:] {
			ta, tb := typeOfCmd(a), typeOfCmd(b)
			if ta != 0 && tb != 0 && ta != tb {
				continue // mixed types are left to the scenarios
			}
			pairs = append(pairs, pair{a, b, false})
		}
	}
	for _, a := range allCmds {
		pairs = append(pairs, pair{a, a, true}, pair{a, a, true})
	}
	r0 := c.Rand(15)
	r0.Shuffle(len(pairs), func(i, j int) { pairs[i], pairs[j] = pairs[j], pairs[i] })
	reps := c.N(2, 30)
	const per = 60
	chunks := (len(pairs) + per - 1) / per
	err = c.Par(chunks*reps, 10, func(ci int) error {
		o := ServerOpt{Bin: bin, Race: true, SegNum: []int{100, 1, 2}[(ci+ci/chunks)%3], Level: []int64{0, 3}[ci%2], Stmt: []int64{200, 800, 40}[ci%3]}
		q, err := c.NewRunner(o)
		if err != nil {
			return err
		}
		defer q.Close()
		var cls []*Client
		for i := 0; i < 4; i++ {
			cl, err := q.s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			cls = append(cls, cl)
		}
		k := ci % chunks
		var done []string
		for i := k * per; i < (k+1)*per && i < len(pairs); i++ {
			p := pairs[i]
			r := c.Rand(151, uint64(ci), uint64(i))
			g := NewGen(r, q.m, 2, 6)
			g.Aim = 0.97
			t := typeOfCmd(p.a)
			if t == 0 {
				t = typeOfCmd(p.b)
			}
			if t == 0 {
				t = []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]
			}
			if p.bad && r.IntN(3) == 0 {
				t = []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]
			}
			q.s.Perturb(false)
			for _, key := range g.keys {
				if err := q.Do(g.creator(key, t)); err != nil {
					return err
				}
				if r.IntN(4) == 0 {
					if err := q.Do([]string{"expire", key, "100"}); err != nil {
						return err
					}
				}
			}
			if t == 's' && r.IntN(2) == 0 {
				// something large enough for a copy to take a while
				if err := q.Do([]string{"setrange", g.keys[0], "20000", "x"}); err != nil {
					return err
				}
			}
			plan := make([][][]string, len(cls))
			pipe := make([]bool, len(cls))
			for w := range plan {
				name := p.a
				if w%2 == 1 {
					name = p.b
				}
				for n := 0; n < 6; n++ {
					plan[w] = append(plan[w], planCmd(g, name, w, n))
				}
				for n := 0; n < 30 && p.bad; n++ {
					plan[w] = append(plan[w], spoil(g, planCmd(g, name, w, n)))
				}
				pipe[w] = r.IntN(2) == 0
			}
			q.s.Perturb(true)
			ops, err := concRun(cls, plan, pipe, nil)
			q.s.Perturb(false)
			if err != nil {
				return err
			}
			overlap := false
			for _, x := range ops[0] {
				for _, y := range ops[1] {
					if x.Call < y.Ret && y.Call < x.Ret {
						overlap = true
					}
				}
			}
			c.Eval(int64(len(cls) * len(plan[0])))
			if overlap {
				c.Case(fmt.Sprint(p, t))
			}
			done = append(done, p.a+"|"+p.b)
			q.m.M = map[string]*Entry{}
			q.hist = nil
			left := g.keys
			if p.bad {
				rep, err := q.cl.Do("KEYS", "*")
				if err != nil {
					return err
				}
				for _, k := range rep.Arr {
					left = append(left, k.Str)
				}
			}
			if _, err := q.cl.Do(append([]string{"DEL"}, left...)...); err != nil {
				return err
			}
			if i%10 == 9 {
				if err := c.raceVerdict(q.s, "running the command pairs "+strings.Join(done, " ")); err != nil {
					return err
				}
				done = done[:0]
			}
		}
		c.Count("command_pairs", int64(per))
		return c.raceVerdict(q.s, "running the command pairs "+strings.Join(done, " "))
	})
	if err != nil {
		return err
	}
	n := c.N(24, 600)
	return c.Par(n, 8, func(i int) error { return c.raceMix(bin, i) })
}

func anyProfile() []wcmd {
	var w []wcmd
	for _, n := range allCmds {
		w = append(w, wcmd{n, 1})
	}
	return w
}

// raceMix: everything at once.
func (c *Ctx) raceMix(bin string, i int) error {
	r0 := c.Rand(152, uint64(i))
	o := ServerOpt{Bin: bin, Race: true, SegNum: []int{1, 100, 2, 3}[i%4], DbNum: 3, Level: []int64{0, 3}[i%2], Stmt: []int64{100, 400, 20}[i%3]}
	x, err := c.newConc(o, 5+r0.IntN(4))
	if err != nil {
		return err
	}
	defer x.Close()
	stop := make(chan struct{})
	clock := make(chan struct{})
	go func() {
		defer close(clock)
		for {
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Millisecond):
				x.s.SetNow(x.s.Now() + 700)
			}
		}
	}()
	// connections come and go meanwhile, logging as they do
	churn := make(chan error, 1)
	go func() {
		r := rand.New(rand.NewPCG(uint64(i), 77))
		for {
			select {
			case <-stop:
				churn <- nil
				return
			default:
			}
			cl, err := x.s.Dial()
			if err != nil {
				churn <- err
				return
			}
			switch r.IntN(4) {
			case 0:
				cl.Do("SELECT", itoa(int64(r.IntN(4))))
			case 1:
				cl.c.Write([]byte("*2\r\n$3\r\nget\r\n$1"))
			case 2:
				cl.c.Write([]byte("*x\r\n"))
			}
			cl.Close()
		}
	}()
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	nk := 1 + r0.IntN(3)
	keys := someKeys(r0, nk, nk)
	prof := anyProfile()
	err = x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 8))
		g := NewGen(r, NewModel(x.s.Now()), 1, 4)
		g.keys = keys
		for step := 0; step < 40; step++ {
			var cmds [][]string
			for n := 1 + r.IntN(8); n > 0; n-- {
				g.keys = keys
				if r.IntN(4) == 0 {
					// names, long and short, that the server has not seen before, the
					// same ones on all connections at about the same time
					g.keys = []string{strings.Repeat("fresh", 1+step%3*30) + itoa(int64(step))}
				}
				switch r.IntN(14) {
				case 0:
					cmds = append(cmds, []string{"keys", "*"})
				case 1:
					cmds = append(cmds, []string{"select", itoa(int64(r.IntN(3)))})
				case 2:
					cmds = append(cmds, []string{"expire", g.anyKey(), "1"})
				case 3:
					cmds = append(cmds, g.creator(g.anyKey(), []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]))
				case 4:
					cmds = append(cmds, spoil(g, g.cmd(pickW(g, prof))))
				default:
					cmds = append(cmds, g.cmd(pickW(g, prof)))
				}
			}
			if _, err := cl.Pipeline(cmds); err != nil {
				return err
			}
			c.Eval(int64(len(cmds)))
		}
		return nil
	})
	close(stop)
	<-clock
	if e := <-churn; err == nil {
		err = e
	}
	if err != nil {
		return err
	}
	c.Case(fmt.Sprint("mix", i, x.s.opt.SegNum, keys))
	c.Count("mixed_scenarios", 1)
	if i < 3 {
		c.Sample(map[string]any{"mixed scenario": i, "connections": len(x.cls), "segnum": o.SegNum, "keys": fmt.Sprintf("%q", keys)})
	}
	if i%2 == 0 {
		// stop with connections open: shutting down must not race either
		x.s.cmd.Process.Signal(syscall.SIGTERM)
		select {
		case <-x.s.exited:
		case <-time.After(20 * time.Second):
		}
	}
	return c.raceVerdict(x.s, fmt.Sprintf("serving %d connections with mixed commands on keys %q", len(x.cls), keys))
}

// ---- progress --------------------------------------------------------------

const ruleProg = "A case is one round in which several connections send commands that name the same keys in different orders, repeatedly or as both source and destination, or that fail; every request must be answered and afterwards every key must still accept reads and writes. Distinct by commands and replies. A missing reply is judged by watching the process: dead, quiescent for good (all threads asleep, no CPU for 12 s of samples), or burning CPU without end."

func checkC16(c *Ctx) error {
	c.rule = ruleProg
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	multi := weights("mset:6 mget:6 del:5 exists:5 rename:8 lmove:8 smove:8 sunion:4 sinter:4 sdiff:4 sunionstore:5 sinterstore:5 sdiffstore:5 keys:1 set:2 get:2 rpush:2 sadd:2 append:1 hset:1 expire:2 ttl:1 persist:1 type:1")
	all := anyProfile()
	rounds := c.N(9000, 300000)
	const per = 150
	err = c.Par((rounds+per-1)/per, 12, func(ci int) error {
		o := ServerOpt{Bin: bin, SegNum: []int{1, 2, 1, 3, 100}[ci%5], Level: []int64{6, 3, 0, 9}[ci%4], Stmt: []int64{150, 0, 400}[ci%3]}
		q, err := c.NewRunner(o)
		if err != nil {
			return err
		}
		defer q.Close()
		var cls []*Client
		for i := 0; i < 6; i++ {
			cl, err := q.s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			cls = append(cls, cl)
		}
		for i := 0; i < per; i++ {
			prof, most := multi, 5
			if i%3 == 2 {
				prof, most = all, 2
			}
			if err := c.progressRound(q, cls, prof, most, uint64(ci*per+i)); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	if err := c.failThenUse(); err != nil {
		return err
	}
	if err := c.workScales(); err != nil {
		return err
	}
	return c.workBounded()
}

// workScales counts the statements a command executes on data of one size and
// of eight times that size: eight times the work and some, never sixty-four.
func (c *Ctx) workScales() error {
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	program := func(n int) (list [][]string) {
		num := strconv.Itoa
		args := func(head []string, k int, f func(i int) []string) []string {
			out := append([]string{}, head...)
			for i := 0; i < k; i++ {
				out = append(out, f(i)...)
			}
			return out
		}
		one := func(p string) func(i int) []string {
			return func(i int) []string { return []string{p + strconv.Itoa(i)} }
		}
		two := func(p string) func(i int) []string {
			return func(i int) []string { return []string{p + strconv.Itoa(i), strconv.Itoa(i)} }
		}
		same := func(i int) []string { return []string{"same"} }
		add := func(a ...string) { list = append(list, a) }
		list = append(list, args([]string{"MSET"}, n, two("k")), args([]string{"MGET"}, n, one("k")), args([]string{"EXISTS"}, n, one("k")), args([]string{"EXISTS"}, n, func(i int) []string { return []string{"k0"} }))
		add("KEYS", "*")
		add("KEYS", "k*1*1")
		add("KEYS", "nothing")
		list = append(list, args([]string{"DEL"}, n, one("k")), args([]string{"RPUSH", "l"}, n, one("e")), args([]string{"LPUSH", "l"}, n, one("f")), args([]string{"LPUSHX", "d"}, n, same), args([]string{"RPUSH", "d"}, n, same), args([]string{"RPUSHX", "d"}, n, same))
		for _, a := range []string{"LRANGE l 0 -1", "LRANGE l -" + num(n) + " -1", "LRANGE l 1 " + num(n), "LINDEX l " + num(n), "LINDEX l -" + num(n), "LSET l " + num(n) + " x", "LSET l -" + num(n) + " y", "LPOS l e" + num(n-1), "LPOS l none",
			"LPOS d same COUNT 0", "LPOS d same RANK -" + num(n) + " COUNT 0", "LPOS d same RANK " + num(n), "LPOS d same COUNT 0 MAXLEN " + num(n), "LPOS d same COUNT " + num(n) + " RANK -2 MAXLEN 0", "LINSERT l BEFORE e" + num(n-1) + " n1", "LINSERT l AFTER e" + num(n-1) + " n2", "LINSERT l AFTER none n3",
			"LREM d " + num(n/2) + " same", "LREM d -" + num(n/2) + " same", "LREM d 0 none", "LMOVE l l LEFT RIGHT", "LMOVE l m RIGHT LEFT", "LLEN l", "LTRIM l 3 -3", "LPOP l " + num(n/3), "RPOP l " + num(n/3), "LTRIM l " + num(n/4) + " -1", "LREM d 0 same", "RENAME l l2", "DEL l2"} {
			list = append(list, strings.Fields(a))
		}
		list = append(list, args([]string{"SADD", "s"}, n, one("m")), args([]string{"SADD", "t"}, n, func(i int) []string { return []string{"m" + strconv.Itoa(2*i)} }), args([]string{"SADD", "s"}, n, one("m")))
		for _, a := range []string{"SMEMBERS s", "SCARD s", "SISMEMBER s m1", "SUNION s t", "SINTER s t", "SINTER t s s t", "SDIFF s t", "SDIFF t s none", "SUNIONSTORE u s t", "SINTERSTORE v s t", "SDIFFSTORE w s t", "SUNIONSTORE s s w", "SMOVE u v m1", "SRANDMEMBER s " + num(n/2), "SRANDMEMBER s -" + num(n), "SRANDMEMBER s", "SPOP u " + num(n/2), "SPOP u"} {
			list = append(list, strings.Fields(a))
		}
		list = append(list, args([]string{"SREM", "s"}, n, one("m")))
		for i := 0; i < 3; i++ {
			add("SADD", "z"+num(i), "a", "b")
		}
		many := func(i int) []string { return []string{"z" + strconv.Itoa(i%7)} }
		list = append(list, args([]string{"SUNION"}, n, many), args([]string{"SINTER"}, n, func(i int) []string { return []string{"z0"} }), args([]string{"SDIFF"}, n, many), args([]string{"SUNIONSTORE", "z9"}, n, many), args([]string{"SINTERSTORE", "z9"}, n, many), args([]string{"SDIFFSTORE", "z9"}, n, many))
		list = append(list, args([]string{"HSET", "h"}, n, two("f")), args([]string{"HMSET", "h"}, n, two("f")), args([]string{"HMGET", "h"}, n, one("f")))
		for _, a := range []string{"HGETALL h", "HKEYS h", "HVALS h", "HLEN h", "HGET h f1", "HEXISTS h f1", "HSTRLEN h f1", "HINCRBY h f1 3", "HINCRBYFLOAT h f2 1.5", "HSETNX h new 1", "HRANDFIELD h", "HRANDFIELD h " + num(n/2), "HRANDFIELD h -" + num(n), "HRANDFIELD h " + num(n/2) + " WITHVALUES", "HRANDFIELD h -" + num(n) + " WITHVALUES"} {
			list = append(list, strings.Fields(a))
		}
		list = append(list, args([]string{"HDEL", "h"}, n, one("f")))
		v := strings.Repeat("v", n)
		list = append(list, []string{"SET", "str", v}, []string{"APPEND", "str", v}, []string{"GET", "str"}, []string{"GETRANGE", "str", "1", "-2"}, []string{"SETRANGE", "str", num(n), v}, []string{"SETRANGE", "str", num(4 * n), "x"}, []string{"STRLEN", "str"}, []string{"SET", "str", "1", "GET"}, []string{"PING", v}, []string{"NOSUCH", v}, []string{"TYPE", v}, []string{"KEYS", v}, []string{"KEYS", "*" + v}, []string{"SET", v, v}, []string{"KEYS", "v*"}, []string{"KEYS", "*z"}, []string{"KEYS", "v*v*?[a-z]*"})
		return list
	}
	const n, times = 700, 8
	measure := func(n int) ([]int64, [][]string, error) {
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 5})
		if err != nil {
			return nil, nil, err
		}
		defer func() { c.noteServer(s); s.Close() }()
		cl, err := s.Dial()
		if err != nil {
			return nil, nil, err
		}
		defer cl.Close()
		atomic.StoreInt64(&s.shm.stmt, -1)
		list := program(n)
		var out []int64
		for _, a := range list {
			b := atomic.LoadInt64(&s.shm.steps)
			if _, err := cl.Do(a...); err != nil {
				return nil, nil, err
			}
			out = append(out, atomic.LoadInt64(&s.shm.steps)-b)
		}
		return out, list, nil
	}
	small, list, err := measure(n)
	if err != nil {
		return err
	}
	large, _, err := measure(n * times)
	if err != nil {
		return err
	}
	worst := int64(0)
	for i, a := range list {
		c.Eval(1)
		c.Case(fmt.Sprint("scale", i))
		if large[i] > 3*times*small[i]+20000 {
			return viol("%s executes %d statements on data of size %d and %d on data %d times that size", showCmd(a[:min(len(a), 6)]), small[i], n, large[i], times)
		}
		worst = max(worst, large[i]*100/(small[i]+1))
	}
	c.Count("statements_counted_for_scaling", sum(large))
	c.Count("commands_whose_work_was_scaled", int64(len(list)))
	c.Count("worst_ratio_of_work_times_100", worst)
	return nil
}

func sum(l []int64) (t int64) {
	for _, x := range l {
		t += x
	}
	return
}

func (c *Ctx) progressRound(q *Runner, cls []*Client, prof []wcmd, most int, i uint64) error {
	r := c.Rand(16, i)
	keys := someKeys(r, 1, most)
	g := NewGen(r, q.m, 1, 4)
	g.keys = keys
	if most > 2 && r.IntN(8) == 0 {
		g.Widen()
		keys = g.keys
	}
	q.s.Perturb(false)
	types := []byte{'s', 'l', 'h', 'z'}
	t := types[r.IntN(4)]
	var pre [][]string
	expired := r.IntN(3) == 0
	for _, k := range keys {
		if r.IntN(3) > 0 {
			kt := t
			if r.IntN(4) == 0 {
				kt = types[r.IntN(4)]
			}
			pre = append(pre, g.creator(k, kt))
			if expired && r.IntN(2) == 0 {
				pre = append(pre, []string{"expire", k, "1"})
			}
		}
	}
	if len(pre) > 0 {
		if _, err := q.cl.Pipeline(pre); err != nil {
			return err
		}
	}
	midway := expired && r.IntN(2) == 0
	if expired {
		q.m.Now = q.s.Now() + 3000
		if midway {
			q.s.JumpAfter(1+r.IntN(12), q.m.Now)
		} else {
			q.s.SetNow(q.m.Now)
		}
	}
	n := 2 + r.IntN(len(cls)-1)
	plan := make([][][]string, n)
	pipe := make([]bool, n)
	for w := range plan {
		pipe[w] = r.IntN(2) == 0
		for k := 1 + r.IntN(6); k > 0; k-- {
			a := planCmd(g, pickW(g, prof), w, k)
			switch {
			case r.IntN(4) == 0:
				a = repeatKeys(r, a, keys)
			case r.IntN(12) == 0:
				a = spoil(g, a)
			}
			plan[w] = append(plan[w], a)
		}
	}
	q.s.Perturb(true)
	ops, err := concRun(cls[:n], plan, pipe, nil)
	q.s.Perturb(false)
	if err != nil {
		return c.withPlan(err, plan)
	}
	if midway {
		q.s.SetNow(q.m.Now)
		c.Count("rounds_with_a_deadline_passing_midway", 1)
	}
	var sb strings.Builder
	for _, o := range ops {
		for _, x := range o {
			sb.WriteString(x.R.String())
		}
		c.Eval(int64(len(o)))
	}
	c.Case(fmt.Sprint(plan) + sb.String())
	c.Count("rounds", 1)
	if i%1500 == 0 {
		c.Sample(map[string]any{"connections": n, "segnum": q.s.opt.SegNum, "first": sampleCmds(plan[0], 6), "second": sampleCmds(plan[1], 6)})
	}
	// all keys must still be usable
	var after [][]string
	for _, k := range keys {
		after = append(after, []string{"TYPE", k}, []string{"SET", k, "x"}, []string{"GET", k})
	}
	after = append(after, append([]string{"MSET"}, interleave(keys, "y")...), append([]string{"DEL"}, keys...))
	rs, err := q.cl.Pipeline(after)
	if err != nil {
		return c.withPlan(err, plan)
	}
	for k := range keys {
		if r := rs[3*k+2]; r.Kind != '$' || r.Str != "x" {
			return c.withPlan(viol("after the round SET %q x is followed by GET answering %s", keys[k], r), plan)
		}
	}
	return nil
}

func (c *Ctx) withPlan(err error, plan [][][]string) error {
	msg, ok := asViol(err)
	if !ok {
		return err
	}
	var sb strings.Builder
	for w := range plan {
		fmt.Fprintf(&sb, "\n  client %d:", w)
		for _, a := range plan[w] {
			fmt.Fprintf(&sb, "\n    %s", showCmd(a))
		}
	}
	return viol("%s\nround:%s", msg, sb.String())
}

func interleave(keys []string, v string) []string {
	var out []string
	for _, k := range keys {
		out = append(out, k, v)
	}
	return out
}

// repeatKeys names keys repeatedly or as both source and destination.
func repeatKeys(r *rand.Rand, a, keys []string) []string {
	k := func() string { return keys[r.IntN(len(keys))] }
	one := k()
	switch a[0] {
	case "mget", "del", "exists", "sunion", "sinter", "sdiff", "sunionstore", "sinterstore", "sdiffstore":
		out := []string{a[0], one, one}
		for n := r.IntN(6); n > 0; n-- {
			out = append(out, k())
		}
		return out
	case "mset":
		out := []string{"mset", one, "1", one, "2"}
		for n := r.IntN(4); n > 0; n-- {
			out = append(out, k(), "3")
		}
		return out
	case "rename":
		return []string{"rename", one, one}
	case "smove":
		return []string{"smove", one, one, a[len(a)-1]}
	case "lmove":
		return []string{"lmove", one, one, a[len(a)-2], a[len(a)-1]}
	}
	return a
}

// failThenUse: after any failing command its keys can be written and read by
// another connection: nothing stays locked.
func (c *Ctx) failThenUse() error {
	return c.Par(len(allCmds), 8, func(ci int) error {
		q, err := c.NewRunner(ServerOpt{SegNum: []int{1, 3}[ci%2]})
		if err != nil {
			return err
		}
		defer q.Close()
		other, err := q.s.Dial()
		if err != nil {
			return err
		}
		defer other.Close()
		name := allCmds[ci]
		r := c.Rand(161, uint64(ci))
		for n := 0; n < c.N(150, 3000); n++ {
			g := NewGen(r, q.m, 3, 4)
			g.Aim = []float64{0.9, 0.2}[n%2]
			var pre [][]string
			for _, k := range g.keys {
				if r.IntN(3) > 0 {
					t := typeOfCmd(name)
					if t == 0 || r.IntN(3) == 0 {
						t = []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]
					}
					pre = append(pre, g.creator(k, t))
				}
			}
			if err := q.Do(pre...); err != nil {
				return err
			}
			a := g.cmd(name)
			switch {
			case n%3 > 0:
				a = spoil(g, a)
			case r.IntN(2) == 0 && len(a) > 2:
				// something that is not there
				a[2+r.IntN(len(a)-2)] = fmt.Sprintf("absent%d", n)
			}
			if n%4 == 0 {
				// a deadline passes in the middle of the command
				var ex [][]string
				for _, k := range g.keys {
					if r.IntN(2) == 0 {
						ex = append(ex, []string{"EXPIRE", k, "1"})
					}
				}
				if err := q.Do(ex...); err != nil {
					return err
				}
				q.s.JumpAfter(1+r.IntN(6), q.m.Now+3000)
				if _, err := q.cl.Do(a...); err != nil {
					return err
				}
				q.m.Now += 3000
				q.s.SetNow(q.m.Now)
			} else if err := q.Do(a); err != nil {
				return err
			}
			used := append(append([]string(nil), g.keys...), g.elems...)
			for _, k := range a[1:] {
				if len(k) < 400 {
					used = append(used, k)
				}
			}
			var after [][]string
			for _, k := range used {
				after = append(after, []string{"SET", k, "x"}, []string{"GET", k})
			}
			after = append(after, append([]string{"DEL"}, used...))
			rs, err := other.Pipeline(after)
			if err != nil {
				if msg, ok := asViol(err); ok {
					return viol("%s\nafter another connection had sent: %s", msg, showCmd(a))
				}
				return err
			}
			for k := range used {
				if rs[2*k].Kind != '+' || rs[2*k+1].Str != "x" {
					return viol("after %s another connection's SET %q x was answered %s and GET %s", showCmd(a), used[k], rs[2*k], rs[2*k+1])
				}
			}
			q.m.M = map[string]*Entry{}
			q.hist = nil
			c.Eval(1)
			c.Case("fail" + showCmd(a))
		}
		return nil
	})
}

// workBounded: commands with extreme arguments on small data, and ordinary
// commands on large data, use CPU time in proportion to the data.
func (c *Ctx) workBounded() error {
	big := func(n int, f func(i int) string) []string {
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, f(i))
		}
		return out
	}
	num := func(i int) string { return fmt.Sprintf("e%d", i) }
	const m, M = "-9223372036854775808", "9223372036854775807"
	small := [][]string{
		{"lrange", "l", m, M}, {"lrange", "l", M, m}, {"lrange", "l", "0", M}, {"lindex", "l", m}, {"lindex", "l", M}, {"lindex", "l", "-4"},
		{"ltrim", "l", m, M}, {"lrem", "l", m, "zz"}, {"lrem", "l", M, "zz"}, {"lpos", "l", "zz", "rank", M}, {"lpos", "l", "zz", "rank", "-" + M}, {"lpos", "l", "zz", "rank", m},
		{"lpos", "l", "e1", "count", M}, {"lpos", "l", "e1", "maxlen", M}, {"lset", "l", m, "x"}, {"lset", "l", M, "x"}, {"lpop", "l2", M}, {"rpop", "l3", M},
		{"getrange", "s", m, M}, {"getrange", "s", M, m}, {"setrange", "s", M, "x"}, {"setrange", "s", m, "x"}, {"spop", "z2", M}, {"srandmember", "z", M}, {"srandmember", "z", m}, {"srandmember", "z", "-" + M},
		{"hrandfield", "h", M}, {"hrandfield", "h", m}, {"hrandfield", "h", "-" + M, "withvalues"}, {"hrandfield", "h", m, "withvalues"}, {"expire", "s", M}, {"expire", "s", m}, {"setex", "s", M, "x"}, {"set", "s", "x", "ex", M}, {"set", "s", "x", "px", M}, {"set", "s", "x", "pxat", M},
		{"keys", strings.Repeat("*", 200)}, {"keys", strings.Repeat("*a", 40) + "b"}, {"keys", strings.Repeat("?*", 60)}, {"keys", strings.Repeat("[a-z]*", 25) + "!"}, {"keys", strings.Repeat("[", 3000)},
		{"incrbyfloat", "f", "1e308"}, {"incrbyfloat", "f", "1e-308"}, {"hincrbyfloat", "h", "f", "1e308"}, {"select", M}, {"select", m},
	}
	setup := [][]string{
		append([]string{"rpush", "l"}, big(5, num)...), append([]string{"rpush", "l2"}, big(5, num)...), append([]string{"rpush", "l3"}, big(5, num)...),
		append([]string{"sadd", "z"}, big(5, num)...), append([]string{"sadd", "z2"}, big(5, num)...), {"hset", "h", "a", "1", "b", "2"}, {"set", "s", "hello"},
		{"set", strings.Repeat("a", 120), "x"}, {"set", strings.Repeat("ab", 100), "x"}, {"set", strings.Repeat("xyz", 60), "x"},
	}
	n := c.N(20000, 200000)
	large := [][]string{
		append([]string{"rpush", "L"}, big(n, num)...), append([]string{"lpush", "L"}, big(n, num)...), {"lrange", "L", "0", "-1"}, {"lindex", "L", itoa(int64(n))}, {"lindex", "L", itoa(int64(-n))},
		{"lpos", "L", "e1", "rank", "-1", "count", "0"}, {"lrem", "L", "0", "e5"}, {"linsert", "L", "before", num(n - 1), "x"}, {"ltrim", "L", "10", "-10"}, {"lpop", "L", itoa(int64(n / 2))}, {"rpop", "L", itoa(int64(n / 2))},
		append([]string{"sadd", "Z"}, big(n, num)...), append([]string{"sadd", "Y"}, big(n/2, num)...), {"sunion", "Z", "Y"}, {"sinter", "Z", "Y"}, {"sdiff", "Z", "Y"}, {"sdiffstore", "W", "Z", "Y"}, {"sunionstore", "W", "W", "Z"}, {"spop", "Z", itoa(int64(n / 2))}, {"srandmember", "Y", itoa(int64(n / 4))}, {"srandmember", "Y", itoa(int64(-n))},
		{"smembers", "Y"}, {"hset", "H"}, {"hgetall", "H"}, {"hrandfield", "H", itoa(int64(n / 4)), "withvalues"}, {"hrandfield", "H", itoa(int64(-n)), "withvalues"}, {"hkeys", "H"},
		{"setrange", "S", "5000000", "x"}, {"append", "S", "y"}, {"get", "S"}, {"getrange", "S", "100", "4000000"}, {"incr", "ctr"}, {"keys", "*"}, {"del", "L", "Z", "Y", "W", "H", "S"},
	}
	for i := range large {
		if large[i][0] == "hset" {
			for k := 0; k < n; k++ {
				large[i] = append(large[i], num(k), "v")
			}
		}
	}
	s, err := c.StartServer(ServerOpt{Bin: c.plainOr(), SegNum: 2})
	if err != nil {
		return err
	}
	defer s.Close()
	cl, err := s.Dial()
	if err != nil {
		return err
	}
	defer cl.Close()
	if _, err := cl.Pipeline(setup); err != nil {
		return err
	}
	var maxCPU time.Duration
	run := func(list [][]string, budget time.Duration) error {
		for _, a := range list {
			b, err := readProc(s.cmd.Process.Pid)
			if err != nil {
				return err
			}
			if _, err := cl.Do(a...); err != nil {
				return err
			}
			e, err := readProc(s.cmd.Process.Pid)
			if err != nil {
				return err
			}
			used := e.cpu - b.cpu
			if used > maxCPU {
				maxCPU = used
			}
			if used > budget {
				return viol("%s took %v of CPU time, far out of proportion to its data", showCmd(a[:min(len(a), 8)]), used)
			}
			if e.rss > 3<<30 {
				return viol("%s drove the server to %d MB of memory", showCmd(a[:min(len(a), 8)]), e.rss>>20)
			}
			c.Eval(1)
			c.Case("bounded" + strings.Join(a[:min(len(a), 8)], " "))
		}
		return nil
	}
	if err := run(small, 15*time.Second); err != nil {
		return err
	}
	if err := run(large, 30*time.Second); err != nil {
		return err
	}
	c.Count("max_cpu_ms_of_one_command", maxCPU.Milliseconds())
	return nil
}

func (c *Ctx) plainOr() string {
	b, err := c.Bin()
	if err != nil {
		return filepath.Join(os.TempDir(), "missing")
	}
	return b
}
