package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
)

func init() {
	checks["C21"] = checkC21
	checks["C22"] = checkC22
}

// ---- C21: databases --------------------------------------------------------

var badIndexes = []string{"-1", "abc", "", "1.0", " 0", "0 ", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "0x0", "zero", "1e0", "\x00", "4294967296", "-0.5", "--1"}

func checkC21(c *Ctx) error {
	c.rule = "A case is one command of a seeded interleaving of several connections, each with its own selected database, checked against one reference model per database (distinct by connection's database, command and reply), or one scenario in which connections own one database each and run at once, switching back and forth."
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	nums := []int{1, 2, 3, 5, 16, 40}
	hist := c.N(1080, 12000)
	err = c.Par(hist/6, 8, func(ci int) error {
		n := nums[ci%len(nums)]
		s, err := c.StartServer(ServerOpt{Bin: bin, DbNum: n, SegNum: []int{1, 3, 100}[ci%3]})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		for h := 0; h < 6; h++ {
			if err := c.dbHistory(s, n, uint64(ci*6+h)); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	if err := c.Par(c.N(2, 12), 4, func(i int) error { return c.dbMany(i) }); err != nil {
		return err
	}
	if err := c.Par(c.N(3, 12), 3, func(i int) error { return c.dbLots(i) }); err != nil {
		return err
	}
	return c.Par(c.N(48, 480), 8, func(i int) error { return c.dbOwners(bin, i) })
}

// dbLots: hundreds to tens of thousands of databases, each told from all others.
func (c *Ctx) dbLots(i int) error {
	bin, err := c.Bin()
	if err != nil {
		return err
	}
	r := c.Rand(213, uint64(i))
	n := []int{257, 1025, 65600}[i%3] + r.IntN(70)
	s, err := c.StartServer(ServerOpt{Bin: bin, DbNum: n, SegNum: 1 + r.IntN(2)})
	if err != nil {
		return err
	}
	defer func() { c.noteServer(s); s.Close() }()
	cl, err := s.Dial()
	if err != nil {
		return err
	}
	defer cl.Close()
	// twice over, in different orders: written once, then read and written again
	for round := 0; round < 2; round++ {
		order := r.Perm(n)
		for len(order) > 0 {
			part := order[:min(500, len(order))]
			order = order[len(part):]
			var cmds [][]string
			for _, d := range part {
				cmds = append(cmds, []string{"SELECT", fmt.Sprint(d)}, []string{"GET", "name"}, []string{"SET", "name", fmt.Sprint("db", d)}, []string{"KEYS", "*"})
			}
			rs, err := cl.Pipeline(cmds)
			if err != nil {
				return err
			}
			for k, d := range part {
				c.Eval(4)
				sel, get, keys := rs[4*k], rs[4*k+1], rs[4*k+3]
				switch {
				case sel.Kind != '+':
					return viol("SELECT %d of %d databases is answered %s", d, n, sel)
				case round == 0 && !get.Null:
					return viol("database %d of %d is new, yet GET name is answered %s, written in another one", d, n, get)
				case round == 1 && get.Str != fmt.Sprint("db", d):
					return viol("GET name in database %d of %d is answered %s, yet db%d was written there", d, n, get, d)
				case len(keys.Arr) != 1:
					return viol("database %d of %d holds one key, KEYS * is answered %s", d, n, keys)
				}
			}
		}
		// what lies outside changes nothing
		at := r.IntN(n)
		if rep, err := cl.Do("SELECT", fmt.Sprint(at)); err != nil || rep.Kind != '+' {
			if err == nil {
				err = viol("SELECT %d of %d databases is answered %s", at, n, rep)
			}
			return err
		}
		for _, d := range []int64{int64(n), int64(n) + 1, -1, -2, 1 << 16, 1<<16 + 1, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 62, -1 << 31, -1 << 62, int64(n) + 255, int64(n) + 256, int64(n) + 65536} {
			if d >= 0 && d < int64(n) {
				continue
			}
			rs, err := cl.Pipeline([][]string{{"SELECT", fmt.Sprint(d)}, {"GET", "name"}})
			if err != nil {
				return err
			}
			c.Eval(2)
			if rs[0].Kind != '-' || rs[1].Str != fmt.Sprint("db", at) {
				return viol("in database %d of %d, SELECT %d is answered %s and GET name then %s", at, n, d, rs[0], rs[1])
			}
		}
	}
	c.Case(fmt.Sprint("lots", n))
	c.Count("databases_told_apart", int64(n))
	return nil
}

// dbMany: thousands of connections one after another and side by side, each
// starting in database 0 whatever the earlier ones selected.
func (c *Ctx) dbMany(i int) error {
	bin, err := c.Bin()
	if err != nil {
		return err
	}
	r := c.Rand(212, uint64(i))
	n := []int{16, 3}[i%2]
	s, err := c.StartServer(ServerOpt{Bin: bin, DbNum: n, SegNum: 1 + r.IntN(5)})
	if err != nil {
		return err
	}
	defer func() { c.noteServer(s); s.Close() }()
	type open struct {
		cl *Client
		db int
	}
	var keep []open
	defer func() {
		for _, x := range keep {
			x.cl.Close()
		}
	}()
	cl, err := s.Dial()
	if err != nil {
		return err
	}
	defer cl.Close()
	for d := 0; d < n; d++ {
		if _, err := cl.Pipeline([][]string{{"SELECT", fmt.Sprint(d)}, {"SET", "name", fmt.Sprint("db", d)}}); err != nil {
			return err
		}
	}
	in := func(x *Client, d int, what string) error {
		rep, err := x.Do("GET", "name")
		if err != nil {
			return err
		}
		c.Eval(1)
		if rep.Str != fmt.Sprint("db", d) {
			return viol("%s works on database %d, yet GET name, which holds its number, is answered %s", what, d, rep)
		}
		return nil
	}
	for k := 0; k < c.N(2600, 20000); k++ {
		x, err := s.Dial()
		if err != nil {
			return err
		}
		if err := in(x, 0, fmt.Sprintf("connection %d, just opened,", k)); err != nil {
			x.Close()
			return err
		}
		d := r.IntN(n)
		if rep, err := x.Do("SELECT", fmt.Sprint(d)); err != nil || rep.Kind != '+' {
			x.Close()
			if err == nil {
				err = viol("SELECT %d of %d databases on connection %d is answered %s", d, n, k, rep)
			}
			return err
		}
		if err := in(x, d, fmt.Sprintf("connection %d, after SELECT %d,", k, d)); err != nil {
			x.Close()
			return err
		}
		if r.IntN(50) == 0 && len(keep) < 100 {
			keep = append(keep, open{x, d})
		} else {
			x.Close()
		}
		if len(keep) > 0 {
			o := keep[r.IntN(len(keep))]
			if err := in(o.cl, o.db, fmt.Sprintf("a connection kept open while %d others came and went", k)); err != nil {
				return err
			}
		}
	}
	c.Count("connections_in_a_row", int64(c.N(2600, 20000)))
	return nil
}

type dbConn struct {
	cl *Client
	db int
}

func (c *Ctx) dbHistory(s *Server, n int, h uint64) error {
	r := c.Rand(21, h)
	models := make([]*Model, n)
	for i := range models {
		models[i] = NewModel(s.Now())
	}
	var conns []*dbConn
	defer func() {
		for _, x := range conns {
			x.cl.Close()
		}
	}()
	var log []string
	fail := func(err error) error {
		if msg, ok := asViol(err); ok {
			return viol("%s\ndatabases: %d; history:\n  %s", msg, n, strings.Join(log[max(0, len(log)-60):], "\n  "))
		}
		return err
	}
	g := NewGen(r, models[0], 3, 4)
	keys := g.keys
	prof := anyProfile()
	for step := 0; step < 120; step++ {
		if len(conns) == 0 || len(conns) < 6 && r.IntN(12) == 0 {
			cl, err := s.Dial()
			if err != nil {
				return fail(err)
			}
			conns = append(conns, &dbConn{cl, 0})
			log = append(log, fmt.Sprintf("connection %d opens", len(conns)-1))
		}
		k := r.IntN(len(conns))
		x := conns[k]
		if r.IntN(40) == 0 && len(conns) > 1 {
			x.cl.Close()
			conns = append(conns[:k], conns[k+1:]...)
			log = append(log, fmt.Sprintf("connection %d closes; later ones move down", k))
			continue
		}
		g.m = models[x.db]
		g.keys = keys
		switch w := r.IntN(10); {
		case w < 3:
			var idx string
			valid := -1
			switch r.IntN(4) {
			case 0:
				idx = badIndexes[r.IntN(len(badIndexes))]
			case 1:
				idx = itoa(int64(n + r.IntN(3)))
			default:
				valid = r.IntN(n)
				if r.IntN(4) == 0 {
					valid = n - 1
				}
				idx = itoa(int64(valid))
			}
			a := []string{g.casing("select"), idx}
			if r.IntN(15) == 0 {
				valid = -1
				if r.IntN(2) == 0 {
					a = a[:1]
				} else {
					a = append(a, "0")
				}
			}
			rep, err := x.cl.Do(a...)
			if err != nil {
				return fail(err)
			}
			log = append(log, fmt.Sprintf("connection %d: %s -> %s", k, showCmd(a), rep))
			c.Eval(1)
			c.Case(fmt.Sprint("select", n, a, rep))
			if valid >= 0 && (rep.Kind != '+' || rep.Str != "OK") || valid < 0 && rep.Kind != '-' {
				return fail(viol("%s is answered %s with %d databases", showCmd(a), rep, n))
			}
			if valid >= 0 {
				x.db = valid
			}
		default:
			a := g.Cmd(pickW(g, prof))
			if r.IntN(8) == 0 {
				a = g.creator(g.anyKey(), []byte{'s', 'l', 'h', 'z'}[r.IntN(4)])
			}
			rep, err := x.cl.Do(a...)
			if err != nil {
				return fail(err)
			}
			log = append(log, fmt.Sprintf("connection %d (database %d): %s -> %s", k, x.db, showCmd(a), rep))
			c.Eval(1)
			c.Case(fmt.Sprint("cmd", x.db, a, rep))
			if w := models[x.db].Apply(a, rep); w != "" {
				return fail(viol("connection %d in database %d: %s: %s", k, x.db, showCmd(a), w))
			}
		}
	}
	// every database holds exactly its own keys; new connections see 0
	cl, err := s.Dial()
	if err != nil {
		return fail(err)
	}
	defer cl.Close()
	for d := 0; d < n; d++ {
		if d > 0 {
			if rep, err := cl.Do("SELECT", itoa(int64(d))); err != nil {
				return fail(err)
			} else if rep.Kind != '+' {
				return fail(viol("SELECT %d is answered %s with %d databases", d, rep, n))
			}
		}
		rd := append(stateReads(models[d], keys, true), []string{"KEYS", "*"})
		rs, err := cl.Pipeline(rd)
		if err != nil {
			return fail(err)
		}
		for i, rep := range rs {
			c.Eval(1)
			if w := models[d].Apply(rd[i], rep); w != "" {
				return fail(viol("at the end, in database %d, %s: %s", d, showCmd(rd[i]), w))
			}
		}
		if _, err := cl.Do(append([]string{"DEL"}, keys...)...); err != nil {
			return fail(err)
		}
	}
	c.Count("histories", 1)
	if h < 3 {
		c.Sample(log[:min(len(log), 20)])
	}
	return nil
}

// dbOwners: one connection per database at a time, all using the same key names.
func (c *Ctx) dbOwners(bin string, i int) error {
	r0 := c.Rand(211, uint64(i))
	nc := 3 + r0.IntN(4)
	o := concOpt(i)
	o.DbNum = nc * 2
	o.Bin = bin
	x, err := c.newConc(o, nc+2)
	if err != nil {
		return err
	}
	defer x.Close()
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	prof := anyProfile()
	keys := someKeys(r0, 2, 2)
	var stop sync.WaitGroup
	stop.Add(nc)
	done := make(chan struct{})
	go func() { stop.Wait(); close(done) }()
	err = x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 21))
		if k >= nc {
			// these only switch, and read in databases nobody uses
			for {
				select {
				case <-done:
					return nil
				default:
				}
				rs, err := cl.Pipeline([][]string{{"SELECT", itoa(int64(r.IntN(nc * 2)))}, {"SELECT", "99"}, {"PING"}})
				if err != nil {
					return err
				}
				if rs[0].Kind != '+' || rs[1].Kind != '-' {
					return viol("SELECT of an existing and a missing database answered %s and %s", rs[0], rs[1])
				}
				c.Eval(3)
			}
		}
		defer stop.Done()
		// databases 2k and 2k+1 belong to this connection
		ms := []*Model{NewModel(x.s.Now()), NewModel(x.s.Now())}
		cur := -1
		for step := 0; step < 60; step++ {
			var cmds [][]string
			var on []int
			for n := 1 + r.IntN(5); n > 0; n-- {
				if cur < 0 || r.IntN(4) == 0 {
					cur = r.IntN(2)
					cmds, on = append(cmds, []string{"SELECT", itoa(int64(2*k + cur))}), append(on, -1)
				}
				g := NewGen(r, ms[cur], 1, 3)
				g.keys = keys
				cmds, on = append(cmds, g.cmd(pickW(g, prof))), append(on, cur)
			}
			rs, err := cl.Pipeline(cmds)
			if err != nil {
				return err
			}
			for j, rep := range rs {
				c.Eval(1)
				if on[j] < 0 {
					if rep.Kind != '+' {
						return wrongReply(cmds[j], rep)
					}
					continue
				}
				if w := ms[on[j]].Apply(cmds[j], rep); w != "" {
					return viol("connection %d is the only one to use database %d, yet %s: %s", k, 2*k+on[j], showCmd(cmds[j]), w)
				}
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	c.Case(fmt.Sprint("owners", i))
	c.Count("concurrent_scenarios", 1)
	return nil
}

// ---- C22: KEYS under load --------------------------------------------------

// life is the recorded existence of one key, changed by one owner only.
type life struct {
	mu  sync.Mutex
	evs []lifeEv
}
type lifeEv struct {
	call, ret int64
	exists    bool // after the event
}

func (l *life) add(call, ret int64, exists bool) {
	l.mu.Lock()
	l.evs = append(l.evs, lifeEv{call, ret, exists})
	l.mu.Unlock()
}

// during says whether the key certainly existed, or certainly was missing,
// throughout [call, ret]. Keys start missing. open is the call time of an
// event still in flight when the history was read (0: none).
func (l *life) during(call, ret int64) (existed, missing bool) {
	state := false
	for _, e := range l.evs {
		if e.ret < call {
			state = e.exists
			continue
		}
		if e.call > ret {
			break
		}
		// overlaps: certain only if it changes nothing
		if e.exists != state {
			return false, false
		}
	}
	return state, !state
}

func checkC22(c *Ctx) error {
	c.rule = "A case is one KEYS reply obtained while other connections create, delete, rename, expire and re-create keys they own; each key's owner records when it changed, and the reply is judged against those intervals after the run. Distinct by scenario and reply, counted only if some key changed during the call."
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	return c.Par(c.N(96, 2400), 8, func(i int) error { return c.keysScenario(bin, i) })
}

type keysObs struct {
	call, ret int64
	pattern   string
	got       []string
}

func (c *Ctx) keysScenario(bin string, i int) error {
	r0 := c.Rand(22, uint64(i))
	o := concOpt(i)
	o.Bin = bin
	if i%4 == 3 {
		o.SegNum = 1000
	}
	crowded := i%32 == 9
	if crowded {
		// many keys; the delays are per statement and there are many of those
		o.Stmt, o.Level = 0, 0
	}
	churners, listers := 3, 2
	x, err := c.newConc(o, churners+listers)
	if err != nil {
		return err
	}
	defer x.Close()
	// stable keys, of all types, with and without a time to live
	x.s.Perturb(false)
	stable := map[string]bool{}
	ns := []int{0, 5, 5, 40, 40, 400}[r0.IntN(6)]
	if crowded {
		ns = 30000
	}
	g := NewGen(r0, NewModel(x.s.Now()), 1, 3)
	var pre [][]string
	for k := 0; k < ns; k++ {
		key := fmt.Sprintf("s:%d:%d", k%10, k)
		stable[key] = true
		pre = append(pre, g.creator(key, []byte{'s', 'l', 'h', 'z'}[k%4]))
		if k%5 == 0 {
			pre = append(pre, []string{"expire", key, "100000"})
		}
	}
	// keys that expire during the run, at known moments
	lives := map[string]*life{}
	var expiring []string
	for k := 0; k < 30; k++ {
		key := fmt.Sprintf("e:%d:%d", k%10, k)
		expiring = append(expiring, key)
		lives[key] = &life{}
		pre = append(pre, []string{"set", key, "x", "ex", "50"})
	}
	call := x.now()
	if _, err := x.cls[0].Pipeline(pre); err != nil {
		return err
	}
	ret := x.now()
	for _, k := range expiring {
		lives[k].add(call, ret, true)
	}
	nk := []int{4, 20, 80}[r0.IntN(3)]
	own := make([][]string, churners)
	for w := range own {
		for k := 0; k < nk; k++ {
			key := fmt.Sprintf("c:%d:%d:%d", k%10, w, k)
			own[w] = append(own[w], key)
			lives[key] = &life{}
		}
	}
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	var stop sync.WaitGroup
	stop.Add(churners)
	done := make(chan struct{})
	go func() { stop.Wait(); close(done) }()
	var mu sync.Mutex
	var obs []keysObs
	x.s.Perturb(true)
	patterns := []string{"*", "*", "c:*", "s:*", "?:3:*", "[ce]:*", "*1", "s:[0-4]:*7", "e:*", "c:*:0:*"}
	err = x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 22))
		if k >= churners {
			last := false
			for n := 0; ; n++ {
				select {
				case <-done:
					last = true
				default:
				}
				if crowded && n == 40 {
					<-done
					last = true
				}
				p := patterns[r.IntN(len(patterns))]
				call := x.now()
				rep, err := cl.Do("KEYS", p)
				if err != nil {
					return err
				}
				ret := x.now()
				e, ok := arrOf(rep)
				if !ok || rep.Kind != '*' {
					return viol("KEYS %s is answered %s", p, rep)
				}
				mu.Lock()
				obs = append(obs, keysObs{call, ret, p, e})
				mu.Unlock()
				c.Eval(1)
				if last {
					return nil
				}
			}
		}
		defer stop.Done()
		g := NewGen(r, NewModel(x.s.Now()), 1, 3)
		exists := map[string]bool{}
		for step := 0; step < 120; step++ {
			// a few changes of different keys, sent together
			var cmds [][]string
			type ch struct {
				key    string
				exists bool
			}
			var chs [][]ch
			used := map[string]bool{}
			for n := 1 + r.IntN(6); n > 0; n-- {
				key := own[k][r.IntN(len(own[k]))]
				if used[key] {
					continue
				}
				used[key] = true
				if !exists[key] {
					cmds = append(cmds, g.creator(key, []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]))
					chs = append(chs, []ch{{key, true}})
					exists[key] = true
					continue
				}
				switch r.IntN(4) {
				case 0:
					// rewrite in place: existence does not change
					re := [][]string{{"set", key, "again"}, {"set", key, "again", "ex", "100000"}, {"rename", key, key}, {"expire", key, "90000"}, {"persist", key}, {"mset", key, "1"}}
					if ns > 0 {
						re = append(re, []string{"sunionstore", key, "s:3:3"}, []string{"sdiffstore", key, "s:3:3", "s:none"})
					}
					cmds = append(cmds, re[r.IntN(len(re))])
					chs = append(chs, nil)
				case 1:
					to := own[k][r.IntN(len(own[k]))]
					if used[to] || to == key {
						continue
					}
					used[to] = true
					cmds = append(cmds, []string{"rename", key, to})
					chs = append(chs, []ch{{key, false}, {to, true}})
					exists[key], exists[to] = false, true
				case 2:
					cmds = append(cmds, []string{"expire", key, "-5"})
					chs = append(chs, []ch{{key, false}})
					exists[key] = false
				default:
					cmds = append(cmds, []string{"del", key})
					chs = append(chs, []ch{{key, false}})
					exists[key] = false
				}
			}
			if len(cmds) == 0 {
				continue
			}
			call := x.now()
			rs, err := cl.Pipeline(cmds)
			if err != nil {
				return err
			}
			ret := x.now()
			for j, rep := range rs {
				if rep.Kind == '-' {
					return viol("%s, a valid change of an own key, is answered %s", showCmd(cmds[j]), rep)
				}
				for _, e := range chs[j] {
					lives[e.key].add(call, ret, e.exists)
				}
			}
			if k == 0 && step == 60 {
				call := x.now()
				x.s.SetNow(x.s.Now() + 60_000)
				lt := x.now()
				for _, key := range expiring {
					lives[key].add(call, lt, false)
				}
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	c.Count("scenarios", 1)
	for _, ob := range obs {
		seen := map[string]bool{}
		toks, _ := globParse(ob.pattern)
		for _, k := range ob.got {
			if seen[k] {
				return viol("KEYS %s lists %q twice", ob.pattern, k)
			}
			seen[k] = true
			if !stable[k] && lives[k] == nil {
				return viol("KEYS %s lists %q, which nobody ever created", ob.pattern, k)
			}
			if !globMatch(toks, k) {
				return viol("KEYS %s lists %q, which does not match", ob.pattern, k)
			}
		}
		for k := range stable {
			if !seen[k] && globMatch(toks, k) {
				return viol("KEYS %s leaves out %q, which existed all along (%d keys listed; segnum %d)", ob.pattern, k, len(ob.got), o.SegNum)
			}
		}
		unsure := 0
		for k, l := range lives {
			existed, missing := l.during(ob.call, ob.ret)
			if !existed && !missing {
				unsure++
				continue
			}
			if existed && !seen[k] && globMatch(toks, k) {
				return viol("KEYS %s, called at %d and answered at %d ns, leaves out %q, which existed throughout; its changes: %v", ob.pattern, ob.call, ob.ret, k, l.evs)
			}
			if missing && seen[k] {
				return viol("KEYS %s, called at %d and answered at %d ns, lists %q, which did not exist at any time during the call; its changes: %v", ob.pattern, ob.call, ob.ret, k, l.evs)
			}
			c.Count("key_verdicts", 1)
		}
		if unsure > 0 {
			sort.Strings(ob.got)
			c.Case(fmt.Sprint(i, ob.pattern, hash64(strings.Join(ob.got, " "))))
			c.Count("keys_calls_with_changes_in_flight", 1)
		}
	}
	if i < 4 {
		c.Sample(map[string]any{"stable_keys": ns, "keys_per_churner": nk, "segnum": o.SegNum, "keys_calls": len(obs)})
	}
	return nil
}
