package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
)

func init() {
	checks["C05"] = checkC05
	checks["C06"] = checkC06
	checks["C07"] = checkC07
	checks["C08"] = checkC08
	checks["C09"] = checkC09
	checks["C10"] = checkC10
	checks["C28"] = checkC28
}

// ---- C05 keyspace ----------------------------------------------------------

func checkC05(c *Ctx) error {
	c.rule = ruleSeq
	make_ := "set:4 mset:2 rpush:3 lpush:2 hset:3 sadd:4 "
	coll := collidingKeys()
	if err := c.Par(c.N(4, 40), 4, func(i int) error {
		return c.population(c.Rand(51, uint64(i)), []int{16, 1, 3, 100}[i%4], coll, i)
	}); err != nil {
		return err
	}
	return c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights(make_ + "del:8 exists:6 type:6 rename:10 keys:4 expire:4 ttl:4 persist:1 get:1 llen:1 hlen:1 scard:1"),
			weights(make_ + "rename:20 type:4 exists:4 ttl:4 expire:6 del:3"),
			weights(make_ + "del:16 exists:8 keys:4 type:4 expire:3 lpop:3 srem:3 hdel:3 sunionstore:3"),
		},
		Hist: c.N(7200, 60000), Steps: 60, Clock: 0.08, Deep: true, Aim: 0.9, Elems: [2]int{1, 4}, Keys: [2]int{1, 6},
		Each: func(q *Runner, g *Gen) error {
			if !g.p(0.25) {
				return nil
			}
			return q.CheckState(g.keys, false)
		},
	})
}

// ---- C06 errors change nothing ---------------------------------------------

var badInts = []string{"abc", "", "1.5", " 5", "5 ", "9223372036854775808", "-9223372036854775809", "0x10", "1e3", "--1", "1 2", "٣", "\x00", "-", "99999999999999999999999"}
var badFloats = []string{"abc", "", "1.5.5", " 1.5", "nan", "inf", "-inf", "+Inf", "1e400", "0x", "1,5", "\x00"}
var badWords = []string{"foo", "", "nxx", "e x", "withvalue", "befor", "\r\n", "before ", "0"}
var badCmds = []string{"", "GETX", "ge t", "get\r\n", "flushall", "\x00", "SE", "config", "multi", "*", "$3", strings.Repeat("c", 500), "del\x00", "ѕet"}

// argKinds says what each argument of a command after the name is:
// k key, i integer, f float, o option word, v free, trailing * repeats the last.
var argKinds = map[string]string{
	"getrange": "kii", "setrange": "kiv", "setex": "kiv", "incrby": "ki", "decrby": "ki", "incrbyfloat": "kf",
	"lindex": "ki", "linsert": "kovv", "lmove": "kkoo", "lpop": "ki", "rpop": "ki", "lrange": "kii", "lrem": "kiv",
	"lset": "kiv", "ltrim": "kii", "hincrby": "kvi", "hincrbyfloat": "kvf", "hrandfield": "kio", "spop": "ki",
	"srandmember": "ki", "expire": "kio", "lpos": "kv", "set": "kv",
}

// spoil turns a valid command into one that is likely to be refused. The model
// decides whether it must be.
func spoil(g *Gen, a []string) []string {
	a = append([]string(nil), a...)
	name := strings.ToLower(a[0])
	kinds := argKinds[name]
	switch g.n(10) {
	case 0: // too few
		if len(a) > 1 {
			a = a[:1+g.n(len(a)-1)]
		}
	case 1: // too many
		for i := 1 + g.n(2); i > 0; i-- {
			a = append(a, oneOf(g, "x", "", "1", g.anyKey()))
		}
	case 2: // unknown command
		a[0] = oneOf(g, badCmds...)
	case 3, 4: // key of another type
		if len(a) > 1 {
			pos := 1
			switch name {
			case "lmove", "smove", "rename":
				pos = 1 + g.n(2)
			case "sunion", "sinter", "sdiff", "sunionstore", "sinterstore", "sdiffstore", "mget", "del", "exists":
				pos = 1 + g.n(len(a)-1)
			}
			if pos < len(a) {
				var c []string
				for _, k := range g.keys {
					if g.m.get(k) != nil {
						c = append(c, k)
					}
				}
				if len(c) > 0 {
					a[pos] = c[g.n(len(c))]
				}
			}
		}
	default: // a malformed argument
		var pos []int
		for i := 1; i < len(a) && i <= len(kinds); i++ {
			if kinds[i-1] != 'k' && kinds[i-1] != 'v' {
				pos = append(pos, i)
			}
		}
		if name == "set" || name == "lpos" {
			if len(a) == 3 {
				switch name {
				case "set":
					a = append(a, oneOf(g, "ex", "px", "exat", "pxat"), "10")
				case "lpos":
					a = append(a, oneOf(g, "rank", "count", "maxlen"), "1")
				}
			}
			switch g.n(4) {
			case 0:
				a[len(a)-1] = oneOf(g, badInts...)
			case 1:
				a = a[:len(a)-1]
			case 2:
				a[3+g.n(len(a)-3)] = oneOf(g, badWords...)
			case 3:
				if name == "set" {
					a = append(a[:3:3], oneOf(g,
						[]string{"nx", "xx"}, []string{"ex", "10", "px", "1000"}, []string{"ex", "10", "keepttl"},
						[]string{"xx", "nx"}, []string{"keepttl", "pxat", itoa(g.m.Now + 5000)}, []string{"ex", "0"}, []string{"px", "0"},
						[]string{"ex", "-5"}, []string{"px", "-1"}, []string{"exat", "0"}, []string{"exat", "-1"},
						[]string{"ex", itoa(math.MaxInt64)}, []string{"px", itoa(math.MaxInt64)}, []string{"ex"}, []string{"px"}, []string{"exat"},
						[]string{"pxat"}, []string{"nx", "ex", "abc"}, []string{"get", "nx", "xx"}, []string{"get", "ex", "x"})...)
				} else {
					a = append(a[:3:3], oneOf(g, []string{"rank", "0"}, []string{"count", "-1"}, []string{"maxlen", "-1"},
						[]string{"rank"}, []string{"count", "1", "maxlen", "x"}, []string{"rank", "1", "foo", "1"}, []string{"count", "1", "rank", "0"})...)
				}
			}
			return a
		}
		if len(pos) == 0 {
			return a
		}
		i := pos[g.n(len(pos))]
		switch kinds[i-1] {
		case 'i':
			a[i] = oneOf(g, badInts...)
			switch name {
			case "setrange":
				a[i] = oneOf(g, a[i], "-1", "536870912", "9223372036854775807")
			case "setex":
				a[i] = oneOf(g, a[i], "0", "-1", "9223372036854775807")
			case "lpop", "rpop", "spop":
				a[i] = oneOf(g, a[i], "-1", "-5")
			case "hincrby", "incrby", "decrby":
				a[i] = oneOf(g, a[i], "9223372036854775807", "-9223372036854775808")
			case "expire":
				a[i] = oneOf(g, a[i], "9223372036854775807", "-9223372036854775808", "9223372036854775")
			case "lset":
				a[i] = oneOf(g, a[i], "100", "-100", "-9223372036854775808")
			}
		case 'f':
			a[i] = oneOf(g, badFloats...)
		case 'o':
			a[i] = oneOf(g, badWords...)
		}
	}
	return a
}

func checkC06(c *Ctx) error {
	c.rule = "A case is one request (half of them spoiled: wrong arity, malformed or out-of-range argument, wrong type, unknown name) with its reply, checked against the reference model and followed by a comparison of the whole visible state; distinct by request, type before and reply."
	create := weights("set:3 mset:1 rpush:3 hset:3 sadd:3 expire:4 append:1 setex:2")
	return c.RunSeq(SeqSpec{
		Next: func(g *Gen) []string {
			if g.p(0.3) {
				return g.Cmd(pickW(g, create))
			}
			name := cmdNames[g.n(len(cmdNames))]
			if name == "del" && g.p(0.5) {
				name = "set"
			}
			if g.p(0.12) {
				return g.Cmd(name)
			}
			a := spoil(g, g.cmd(name))
			if g.p(0.04) {
				a[g.n(len(a))] = nullArg
			}
			if len(a) > 0 && a[0] != nullArg {
				a[0] = g.casing(a[0])
			}
			return a
		},
		Each: func(q *Runner, g *Gen) error { return q.CheckState(g.keys, false) },
		Hist: c.N(4800, 30000), Steps: 40, Aim: 0.75, Clock: 0.06, Elems: [2]int{2, 5}, Keys: [2]int{2, 5},
	})
}

// ---- C07 no empty collections ----------------------------------------------

func checkC07(c *Ctx) error {
	c.rule = ruleSeq + " After every batch EXISTS, TYPE, TTL and KEYS of every key are compared as well."
	prof := []string{
		"rpush:4 lpush:3 lpop:6 rpop:6 lrem:8 ltrim:6 lmove:8 lpushx:2 rpushx:2 linsert:2 lset:1 expire:4",
		"hset:6 hdel:14 hmset:2 hsetnx:2 hincrby:3 hincrbyfloat:2 expire:3",
		"sadd:7 srem:10 spop:8 smove:8 sinterstore:5 sdiffstore:5 sunionstore:4 expire:3",
		"rpush:3 lpop:4 ltrim:3 lmove:3 hset:3 hdel:4 sadd:3 srem:3 spop:3 smove:3 sinterstore:2 rename:2 set:2 del:1 expire:3",
	}
	var ps [][]wcmd
	for _, p := range prof {
		ps = append(ps, weights(p))
	}
	hist := c.N(7200, 50000)
	return c.RunSeq(SeqSpec{
		Next: func(g *Gen) []string {
			p := ps[g.n(len(ps))]
			// one profile per stretch: choose by the key population
			if len(g.keys) < 4 {
				p = ps[len(g.keys)%len(ps)]
			}
			a := g.Cmd(pickW(g, p))
			if g.p(0.12) {
				a = spoil(g, a)
			}
			if n := strings.ToLower(a[0]); len(a) > 2 && g.p(0.3) {
				// drain exactly
				e := g.m.get(a[1])
				switch {
				case e == nil:
				case (n == "hdel" && e.T == 'h') || (n == "srem" && e.T == 'z'):
					a = append(a[:2:2], sortedKeys(e.H)...)
				case n == "lrem" && e.T == 'l':
					a = []string{a[0], a[1], "0", e.L[0]}
				case n == "ltrim":
					a = []string{a[0], a[1], "1", "0"}
				}
			}
			return a
		},
		Each: func(q *Runner, g *Gen) error { return q.CheckState(g.keys, false) },
		Hist: hist, Steps: 50, Aim: 0.92, Elems: [2]int{1, 3}, Keys: [2]int{1, 6}, Clock: 0.02,
	})
}

// ---- C08 glob patterns -----------------------------------------------------

func randPattern(r *rand.Rand, alpha string) string {
	n := r.IntN(8)
	var sb strings.Builder
	ch := func() byte { return alpha[r.IntN(len(alpha))] }
	for i := 0; i < n; i++ {
		switch r.IntN(10) {
		case 0, 1, 2:
			sb.WriteByte('*')
		case 3, 4:
			sb.WriteByte('?')
		case 5, 6:
			sb.WriteByte('[')
			if r.IntN(2) == 0 {
				sb.WriteByte('^')
			}
			for j := 1 + r.IntN(3); j > 0; j-- {
				if r.IntN(2) == 0 {
					a, b := ch(), ch()
					if a > b {
						a, b = b, a
					}
					sb.WriteByte(a)
					sb.WriteByte('-')
					sb.WriteByte(b)
				} else {
					sb.WriteByte(ch())
				}
			}
			sb.WriteByte(']')
		default:
			sb.WriteByte(ch())
		}
	}
	return sb.String()
}

func randMalformed(r *rand.Rand, alpha string) string {
	syms := alpha + "**??[[]]^-\\"
	b := make([]byte, r.IntN(9))
	for i := range b {
		b[i] = syms[r.IntN(len(syms))]
	}
	return string(b)
}

func checkC08(c *Ctx) error {
	c.rule = "A case is one KEYS pattern against one set of existing keys, compared with an independent dynamic-programming matcher; distinct by pattern, key set and reply."
	rounds := c.N(1440, 6000)
	alphas := []string{"ab", "abc", "abcde", "\x00a\xff", "hello", "a-z^]", "ab:1"}
	segs := []int{1, 3, 100}
	workers := 8
	return c.Par(workers, workers, func(w int) error {
		o := ServerOpt{SegNum: segs[w%len(segs)]}
		q, err := c.NewRunner(o)
		if err != nil {
			return err
		}
		defer q.Close()
		for i := w; i < rounds; i += workers {
			r := c.Rand(2, uint64(i))
			alpha := alphas[i%len(alphas)]
			keyset := map[string]bool{}
			for n := r.IntN(60); n > 0; n-- {
				b := make([]byte, r.IntN(8))
				for j := range b {
					b[j] = alpha[r.IntN(len(alpha))]
				}
				keyset[string(b)] = true
			}
			switch i % 10 {
			case 3:
				keyset[strings.Repeat("a", 60)] = true
				keyset[strings.Repeat("a", 59)+"b"] = true
			case 6:
				for n := 0; n < 300; n++ {
					keyset[fmt.Sprintf("%c%c%d", alpha[r.IntN(len(alpha))], alpha[r.IntN(len(alpha))], n)] = true
				}
			}
			mk := []string{"MSET"}
			for k := range keyset {
				mk = append(mk, k, "v")
			}
			if len(mk) > 1 {
				if err := q.Do(mk); err != nil {
					return c.shrink(o, q.hist, err)
				}
			}
			var batch [][]string
			for j := 0; j < 60; j++ {
				p := randPattern(r, alpha)
				if r.IntN(4) == 0 {
					p = randMalformed(r, alpha)
				}
				// patterns derived from a key
				if r.IntN(4) == 0 && len(mk) > 1 {
					k := []byte(mk[1+2*r.IntN((len(mk)-1)/2)])
					for x := range k {
						switch r.IntN(4) {
						case 0:
							k[x] = '?'
						case 1:
							k[x] = '*'
						}
					}
					p = string(k)
				}
				batch = append(batch, []string{"KEYS", p})
			}
			// names come and go between the listings, their number staying the same
			for n := r.IntN(4); n > 0 && len(mk) > 3; n-- {
				a, b := mk[1+2*r.IntN((len(mk)-1)/2)], mk[1+2*r.IntN((len(mk)-1)/2)]
				p := []string{"KEYS", []string{"*", a + "*", "?*"}[r.IntN(3)]}
				batch = append(batch, p, []string{"DEL", a}, []string{"SET", a + "+", "v"}, p, []string{"RENAME", b, b + "-"}, p, []string{"RPUSH", a, "x"}, p)
			}
			batch = append(batch, []string{"KEYS", ""}, []string{"KEYS", "*"}, []string{"KEYS", "**?*"}, []string{"KEYS", "["}, []string{"KEYS", "[^"}, []string{"KEYS", "[a-"})
			if i%10 == 3 {
				batch = append(batch, []string{"KEYS", strings.Repeat("a*", 25) + "c"}, []string{"KEYS", strings.Repeat("*a", 20) + "*"},
					[]string{"KEYS", strings.Repeat("*?", 25) + "c"}, []string{"KEYS", strings.Repeat("*[a-b]", 22) + "[c]"}, []string{"KEYS", strings.Repeat("a*", 12) + "b"})
			}
			c.Count("key_sets", 1)
			c.Count("patterns", int64(len(batch)))
			if i%61 == 0 {
				c.Sample(map[string]any{"keys": len(keyset), "patterns": sampleCmds(batch, 12)})
			}
			err := q.Do(batch...)
			if err == nil {
				err = q.Reset(nil)
			}
			if err != nil {
				if _, ok := asViol(err); ok {
					o.Bin = q.s.opt.Bin
					return c.shrink(o, q.hist, err)
				}
				return err
			}
		}
		return nil
	})
}

func sampleCmds(b [][]string, n int) []string {
	var out []string
	for i := 0; i < n && i < len(b); i++ {
		out = append(out, showCmd(b[i]))
	}
	return out
}

// ---- C09 expiry ------------------------------------------------------------

// typeOfCmd is the value type a command works on, 0 for any.
func typeOfCmd(name string) byte {
	switch name {
	case "ping", "del", "exists", "keys", "expire", "persist", "ttl", "rename", "type":
		return 0
	case "set", "get", "getrange", "setrange", "mget", "mset", "setex", "setnx", "strlen", "incr", "incrby", "decr", "decrby", "incrbyfloat", "append":
		return 's'
	}
	switch name[0] {
	case 'h':
		return 'h'
	case 's':
		return 'z'
	}
	return 'l'
}

func (g *Gen) creator(k string, t byte) []string {
	switch t {
	case 's':
		return []string{"set", k, oneOf(g, "10", "v", "hello", "0", "-3", "1.5")}
	case 'l':
		return cat([]string{"rpush", k}, g.elemsN(4))
	case 'h':
		a := []string{"hset", k}
		for i := 1 + g.n(3); i > 0; i-- {
			a = append(a, g.elem(), oneOf(g, "1", "5", "v"))
		}
		return a
	}
	return cat([]string{"sadd", k}, g.elemsN(4))
}

// withTTL gives k a deadline by a random documented way and returns commands.
func (g *Gen) withTTL(k string, t byte) [][]string {
	now := g.m.Now
	if t == 's' && g.p(0.6) {
		v := oneOf(g, "10", "v", "0")
		switch g.n(5) {
		case 0:
			return [][]string{{"setex", k, itoa(1 + int64(g.n(3))), v}}
		case 1:
			return [][]string{{"set", k, v, "ex", itoa(1 + int64(g.n(3)))}}
		case 2:
			return [][]string{{"set", k, v, "px", itoa(oneOf(g, int64(1), 400, 600, 1000, 1001, 1599, 1600, 1601, 2400, 2999))}}
		case 3:
			return [][]string{{"set", k, v, "exat", itoa(now/1000 + 1 + int64(g.n(3)))}}
		default:
			return [][]string{{"set", k, v, "pxat", itoa(now + oneOf(g, int64(1), 400, 599, 600, 601, 1000, 1500, 2999))}}
		}
	}
	out := [][]string{g.creator(k, t), {"expire", k, itoa(1 + int64(g.n(3)))}}
	if g.p(0.1) {
		out[1][2] = itoa(oneOf(g, int64(-1), -100))
	}
	return out
}

func checkC09(c *Ctx) error {
	c.rule = "A case is one command run before or after the deadline of keys in its argument positions (every command, every position, every type, by every way to give a time to live), with its reply, checked against the reference model and followed by a full state comparison; plus random histories on a moving clock. Distinct by command, arguments, type before and reply."
	rounds := c.N(140, 1500) // per command
	var names []string
	for _, n := range cmdNames {
		if n != "ping" {
			names = append(names, n)
		}
	}
	total := rounds * len(names)
	segs := []int{1, 2, 7, 100}
	chunk := 100
	err := c.Par((total+chunk-1)/chunk, 8, func(ci int) error {
		o := ServerOpt{SegNum: segs[ci%len(segs)], Start: startOf(ci)}
		q, err := c.NewRunner(o)
		if err != nil {
			return err
		}
		defer q.Close()
		for i := ci * chunk; i < (ci+1)*chunk && i < total; i++ {
			if err := c.expiryCase(q, names[i%len(names)], uint64(i)); err != nil {
				if _, ok := asViol(err); ok {
					o.Bin = q.s.opt.Bin
					return c.shrink(o, q.hist, err)
				}
				return err
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	if err := c.Par(c.N(154, 1540), 8, c.expireMany); err != nil {
		return err
	}
	all := ""
	for _, n := range names {
		w := 2
		switch n {
		case "expire":
			w = 40
		case "set", "setex":
			w = 16
		case "rpush", "hset", "sadd":
			w = 6
		case "del", "persist":
			w = 1
		}
		all += fmt.Sprintf("%s:%d ", n, w)
	}
	return c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{weights(all)},
		Hist:     c.N(1200, 15000), Steps: 100, Clock: 0.3, Aim: 0.85, Elems: [2]int{1, 5}, Keys: [2]int{1, 5},
	})
}

func (c *Ctx) expiryCase(q *Runner, name string, i uint64) error {
	r := c.Rand(3, i)
	g := NewGen(r, q.m, 1+r.IntN(4), 1+r.IntN(4))
	t := typeOfCmd(name)
	types := []byte{'s', 'l', 'h', 'z'}
	var pre [][]string
	for j, k := range g.keys {
		kt := t
		if kt == 0 || g.p(0.12) {
			kt = types[g.n(4)]
		}
		switch {
		case j == 0 || g.p(0.5):
			pre = append(pre, g.withTTL(k, kt)...)
		case g.p(0.7):
			pre = append(pre, g.creator(k, kt))
		}
	}
	if err := q.Do(pre...); err != nil {
		return err
	}
	// go to just before or surely after one of the deadlines
	var ds []int64
	for _, e := range q.m.M {
		if e.D > q.m.Now {
			ds = append(ds, e.D)
		}
	}
	sortInt64(ds)
	when := "no deadline ahead"
	if len(ds) > 0 {
		d := ds[g.n(len(ds))]
		at := oneOf(g, d-1, d+1000, d+1000, d+1000, d+1001, d+50_000)
		if at > q.m.Now {
			q.Advance(at - q.m.Now)
		}
		when = "before"
		if q.m.Now >= d {
			when = "after"
		}
	}
	c.Distinct("command_and_phase", name+when)
	for n := 1 + g.n(2); n > 0; n-- {
		a := g.Cmd(name)
		if g.p(0.08) {
			a = spoil(g, a)
		}
		if err := q.Do(a); err != nil {
			return err
		}
	}
	if err := q.CheckState(g.keys, false); err != nil {
		return err
	}
	c.Count("expiry_cases", 1)
	if i%977 == 0 {
		c.Sample(map[string]any{"command": name, "phase": when, "steps": sampleSteps(q.hist, 20)})
	}
	return q.Reset(g.keys)
}

func sortInt64(x []int64) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

// ---- C10 time to live ------------------------------------------------------

func checkC10(c *Ctx) error {
	c.rule = ruleSeq + " TTL of every key is read after every batch."
	mods := "append:2 setrange:1 incrby:1 incr:1 decr:1 lpush:2 rpush:2 lset:1 linsert:1 lpop:1 ltrim:1 lrem:1 lmove:2 hset:2 hdel:1 hincrby:1 hsetnx:1 sadd:2 srem:1 smove:2 spop:1 "
	err := c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights("set:14 setex:4 mset:2 expire:12 persist:5 ttl:5 get:1 setnx:2 append:2 incr:1 rename:2"),
			weights(mods + "expire:16 persist:3 rename:3 sunionstore:2 sinterstore:2 sdiffstore:2 set:2"),
			weights("expire:30 persist:6 ttl:4 set:4 rpush:2 hset:2 sadd:2 rename:4 del:1 setex:2"),
		},
		Hist: c.N(6000, 50000), Steps: 70, Clock: 0.1, Aim: 0.93, Elems: [2]int{1, 5}, Keys: [2]int{1, 4},
		Each: func(q *Runner, g *Gen) error {
			var b [][]string
			for _, k := range g.keys {
				b = append(b, []string{"ttl", k})
			}
			return q.Do(b...)
		},
	})
	if err != nil {
		return err
	}
	return c.ttlMoving()
}

// ttlMoving reads TTL of a key with a deadline while the clock jumps past it
// between and during the calls: the reply may be a number of seconds or -2 but
// never -1, and never grows.
func (c *Ctx) ttlMoving() error {
	return c.Par(8, 8, func(w int) error {
		bin, err := c.Bin()
		if err != nil {
			return err
		}
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 1 + w, Level: 3})
		if err != nil {
			return err
		}
		defer s.Close()
		defer c.noteServer(s)
		cl, err := s.Dial()
		if err != nil {
			return err
		}
		defer cl.Close()
		r := c.Rand(4, uint64(w))
		rounds := c.N(300, 3000)
		for i := 0; i < rounds; i++ {
			ttl := 1 + r.IntN(3)
			if _, err := cl.Do("SET", "k", "v", "EX", itoa(int64(ttl))); err != nil {
				return err
			}
			stop := make(chan struct{})
			done := make(chan struct{})
			base := s.Now()
			steps := 1 + r.IntN(60)
			go func() {
				defer close(done)
				for t := int64(0); t <= int64(ttl)*1000+1500; t += int64(steps) * 10 {
					select {
					case <-stop:
						return
					default:
					}
					s.SetNow(base + t)
					for x := 0; x < 2000; x++ {
						_ = x
					}
				}
			}()
			prev := int64(math.MaxInt64)
			for j := 0; j < 25; j++ {
				rep, err := cl.Do("TTL", "k")
				if err != nil {
					close(stop)
					<-done
					return err
				}
				c.Eval(1)
				if rep.Kind != ':' || rep.Int == -1 || rep.Int > int64(ttl)+1 || rep.Int > prev || rep.Int < -2 {
					close(stop)
					<-done
					return viol("TTL of a key set with EX %d while time passes: got %s after %d", ttl, rep, prev)
				}
				c.Case(fmt.Sprintf("moving ttl %d -> %d", ttl, rep.Int))
				prev = rep.Int
				if prev == -2 {
					break
				}
			}
			close(stop)
			<-done
			s.SetNow(s.Now() + 10_000)
		}
		c.Count("moving_clock_rounds", int64(rounds))
		return nil
	})
}

// ---- C28 random picks ------------------------------------------------------

func checkC28(c *Ctx) error {
	c.rule = ruleSeq + " Reachability of every member is judged over repeated single picks."
	err := c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights("sadd:8 spop:10 srandmember:16 smembers:3 scard:2 hset:6 hrandfield:16 hgetall:2 hlen:1 expire:1 del:1"),
			weights("sadd:10 spop:16 srandmember:8 smembers:3 scard:3"),
			weights("hset:8 hrandfield:24 hdel:2 hgetall:2"),
		},
		Hist: c.N(6000, 50000), Steps: 80, Deep: true, Clock: 0.01, Aim: 0.93, Elems: [2]int{1, 12}, Keys: [2]int{1, 4},
	})
	if err != nil {
		return err
	}
	if err := c.Par(c.N(16, 60), 8, func(i int) error { return c.reach(uint64(i)) }); err != nil {
		return err
	}
	return c.Par(c.N(8, 40), 8, func(i int) error { return c.reachLarge(i) })
}

// reachLarge: the same for large sets and hashes. Among n members, 1500n single
// picks that are not all but impossible miss none; of 200 picks by SPOP, each
// undone, at least n/20 differ even if the picks are far from uniform.
func (c *Ctx) reachLarge(i int) error {
	r := c.Rand(6, uint64(i))
	q, err := c.NewRunner(ServerOpt{SegNum: 1 + i})
	if err != nil {
		return err
	}
	defer q.Close()
	n := []int{40, 70, 130, 200, 260, 520, 600, 1100}[i%8] + r.IntN(9)
	sadd, hset := []string{"SADD", "s"}, []string{"HSET", "h"}
	for k := 0; k < n; k++ {
		x := strconv.FormatUint(r.Uint64()>>uint(r.IntN(40))<<10|uint64(k), 36)
		sadd = append(sadd, x)
		hset = append(hset, x, "v"+x)
	}
	if err := q.Do(sadd, hset); err != nil {
		return err
	}
	// every share of the members, from either side
	for try := 0; try < c.N(60, 300); try++ {
		k := []int{1, 2, n / 4, n / 3, n / 2, n/2 + 1, n * 2 / 3, n * 3 / 4, n*3/4 + 1, n * 9 / 10, n - 2, n - 1, n, n + 1, 3 * n}[r.IntN(15)]
		if r.IntN(3) == 0 {
			k = 1 + r.IntN(n+3)
		}
		how := [][]string{{"SPOP", "s", strconv.Itoa(k)}, {"SRANDMEMBER", "s", strconv.Itoa(k)}, {"SRANDMEMBER", "s", strconv.Itoa(-k)}, {"HRANDFIELD", "h", strconv.Itoa(k)}, {"HRANDFIELD", "h", strconv.Itoa(-k)}, {"HRANDFIELD", "h", strconv.Itoa(k), "WITHVALUES"}, {"HRANDFIELD", "h", strconv.Itoa(-k), "WITHVALUES"}}[r.IntN(7)]
		if err := q.Do(how, []string{"SCARD", "s"}, []string{"HLEN", "h"}); err != nil {
			return err
		}
		if how[0] == "SPOP" {
			if err := q.Do([]string{"SMEMBERS", "s"}, sadd); err != nil {
				return err
			}
		}
		c.Case(fmt.Sprintf("share %d of %d %s", k, n, how[0]))
	}
	few := n/20 + 1
	if few < 4 {
		few = 4
	}
	for _, how := range [][]string{{"SRANDMEMBER", "s"}, {"SRANDMEMBER", "s", "1"}, {"SRANDMEMBER", "s", "-1"}, {"SRANDMEMBER", "s", "3"}, {"SRANDMEMBER", "s", "-40"}, {"HRANDFIELD", "h"}, {"HRANDFIELD", "h", "1"}, {"HRANDFIELD", "h", "3"}, {"HRANDFIELD", "h", "-40"}, {"SPOP", "s"}, {"SPOP", "s", "1"}, {"SPOP", "s", "3"}} {
		seen := map[string]bool{}
		one := func() error {
			rep, err := q.cl.Do(how...)
			if err != nil {
				return err
			}
			c.Eval(1)
			if w := q.m.Apply(how, rep); w != "" {
				return viol("%s on %d members\n  %s\nhistory:\n  %s\n  %s", showCmd(how), n, w, showCmd(sadd), showCmd(hset))
			}
			got := []string{rep.Str}
			if rep.Kind == '*' {
				got = nil
				for _, x := range rep.Arr {
					got = append(got, x.Str)
				}
			}
			for _, x := range got {
				seen[x] = true
			}
			if how[0] == "SPOP" {
				return q.Do(append([]string{"SADD", "s"}, got...))
			}
			return nil
		}
		for try := 0; try < 200; try++ {
			if err := one(); err != nil {
				return err
			}
		}
		if len(seen) < few {
			return viol("%s on %d members picked only %d different ones in 200 tries; members: %s", showCmd(how), n, len(seen), showCmd(sadd))
		}
		per := 1
		if how[len(how)-1] == "-40" {
			per = 40
		}
		lim := 1500 * n / per
		for try := 0; try < lim && per > 1 && len(seen) < n; try++ {
			if err := one(); err != nil {
				return err
			}
		}
		if per > 1 && len(seen) < n {
			return viol("%s never picked %d of the %d members in %d tries; members: %s", showCmd(how), n-len(seen), n, lim, showCmd(sadd))
		}
		c.Count("reachability_cases", 1)
		c.Case(fmt.Sprintf("reach %d %v", n, how))
	}
	return nil
}

// reach: with n members, a fair single pick misses a given one for 60n
// consecutive tries with probability below e^-60.
func (c *Ctx) reach(i uint64) error {
	r := c.Rand(5, i)
	q, err := c.NewRunner(ServerOpt{SegNum: 1 + int(i)*3})
	if err != nil {
		return err
	}
	defer q.Close()
	for _, n := range []int{1, 2, 3, 5, 8, 9, 16, 24} {
		g := NewGen(r, q.m, 1, 1)
		mem := map[string]bool{}
		for len(mem) < n {
			if r.IntN(6) == 0 {
				mem[""] = true
			} else {
				mem[g.bytes(1+g.n(5))] = true
			}
		}
		sadd, hset := []string{"SADD", "s"}, []string{"HSET", "h"}
		for x := range mem {
			sadd = append(sadd, x)
			hset = append(hset, x, "v"+x)
		}
		if err := q.Do(sadd, hset); err != nil {
			return err
		}
		for _, how := range [][]string{{"SRANDMEMBER", "s"}, {"SRANDMEMBER", "s", "1"}, {"SRANDMEMBER", "s", "-1"}, {"SRANDMEMBER", "s", "-7"}, {"HRANDFIELD", "h"}, {"HRANDFIELD", "h", "1"}, {"HRANDFIELD", "h", "-1", "WITHVALUES"}, {"HRANDFIELD", "h", "-5"}} {
			seen := map[string]bool{}
			for try := 0; try < 200*n && len(seen) < n; try += 20 {
				var b [][]string
				for k := 0; k < 20; k++ {
					b = append(b, how)
				}
				rs, err := q.cl.Pipeline(b)
				for _, rep := range rs {
					c.Eval(1)
					if w := q.m.Apply(how, rep); w != "" {
						return viol("%s\n  %s\nhistory:\n  %s\n  %s", showCmd(how), w, showCmd(sadd), showCmd(hset))
					}
					if rep.Kind == '$' {
						seen[rep.Str] = true
					} else {
						step := 1
						if len(how) == 4 {
							step = 2
						}
						for x := 0; x < len(rep.Arr); x += step {
							seen[rep.Arr[x].Str] = true
						}
					}
				}
				if err != nil {
					return err
				}
			}
			if len(seen) < n {
				return viol("%s never picked %d of the %d members in %d tries; members: %s", showCmd(how), n-len(seen), n, 200*n, showCmd(sadd))
			}
			c.Count("reachability_cases", 1)
			c.Case(fmt.Sprintf("reach %d %v", n, how))
		}
		// SPOP: the member popped first varies
		first := map[string]bool{}
		for try := 0; try < 200*n && len(first) < n; try++ {
			rep, err := q.cl.Do("SPOP", "s")
			if err != nil {
				return err
			}
			if w := q.m.Apply([]string{"SPOP", "s"}, rep); w != "" {
				return viol("SPOP s\n  %s\nmembers: %s", w, showCmd(sadd))
			}
			c.Eval(1)
			first[rep.Str] = true
			if err := q.Do([]string{"SADD", "s", rep.Str}); err != nil {
				return err
			}
		}
		if len(first) < n {
			return viol("SPOP on a set of %d members never returned %d of them in %d tries; members: %s", n, n-len(first), 200*n, showCmd(sadd))
		}
		if err := q.Reset(nil); err != nil {
			return err
		}
	}
	return nil
}

// expireMany: hundreds and thousands of keys past their deadline at once, met
// by one command that names or lists them all.
func (c *Ctx) expireMany(i int) error {
	r := c.Rand(94, uint64(i))
	q, err := c.NewRunner(ServerOpt{SegNum: []int{1, 3, 100}[i%3]})
	if err != nil {
		return err
	}
	defer q.Close()
	n := []int{10, 33, 65, 130, 300, 1100, 3000}[i%7] + r.IntN(5)
	var names []string
	var cmds [][]string
	for k := 0; k < n; k++ {
		key := fmt.Sprintf("k%d", k)
		names = append(names, key)
		switch t := r.IntN(4); {
		case i%2 == 0 && t == 0:
			cmds = append(cmds, []string{"SET", key, "v" + key})
		case i%2 == 0:
			cmds = append(cmds, []string{"SET", key, "v" + key, "EX", fmt.Sprint(10 + r.IntN(3))})
		default:
			cmds = append(cmds, []string{"SADD", key, "x", "m" + key})
			if t > 0 {
				cmds = append(cmds, []string{"EXPIRE", key, fmt.Sprint(10 + r.IntN(3))})
			}
		}
	}
	if err := q.Do(cmds...); err != nil {
		return err
	}
	all := func(head ...string) []string {
		o := append([]string{}, names...)
		r.Shuffle(n, func(a, b int) { o[a], o[b] = o[b], o[a] })
		return append(head, o...)
	}
	q.Advance(5000)
	if err := q.Do(all("EXISTS")); err != nil {
		return err
	}
	q.Advance(20000)
	first := [][]string{{"KEYS", "*"}, {"KEYS", "k1*"}, all("EXISTS"), all("DEL")}
	if i%2 == 0 {
		mset := []string{"MSET"}
		for _, k := range names {
			mset = append(mset, k, "new")
		}
		first = append(first, all("MGET"), mset)
	} else {
		first = append(first, all("SUNION"), all("SINTER"), all("SDIFF"), all("SUNIONSTORE", "d"), all("SINTERSTORE", "d"), all("SDIFFSTORE", "d"), all("SDIFFSTORE", names[0]))
	}
	a := first[(i/2)%len(first)]
	if err := q.Do(a, []string{"KEYS", "*"}); err != nil {
		return err
	}
	var after [][]string
	for _, k := range append(names, "d") {
		after = append(after, []string{"TTL", k}, []string{"TYPE", k})
	}
	if err := q.Do(after...); err != nil {
		return err
	}
	c.Case(fmt.Sprintf("expired together %d %s", n, a[0]))
	c.Count("keys_expired_together", int64(n))
	return nil
}
