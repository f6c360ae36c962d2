package main

import (
	"math"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
)

// Gen makes commands. It looks at the model to aim for the interesting cases
// (existing keys of the right type, indexes around the length, members that
// are there), but never depends on it for soundness.
type Gen struct {
	r     *rand.Rand
	m     *Model
	keys  []string
	elems []string
	// Aim is the probability that a key argument is a live key of the type.
	Aim  float64
	Prof []wcmd
	// Big allows occasional large values.
	Big int
	// Mul > 1 scales argument counts and value sizes (see Grow).
	Mul int
	// Wide: many keys, and commands that name many of them (see Widen).
	Wide bool
}

// many is a count from 1 to max, scaled.
func (g *Gen) many(max int) int {
	if g.Mul > 1 && g.p(0.4) {
		return 1 + g.n(max*g.Mul)
	}
	return 1 + g.n(max)
}

// Grow turns to large collections, many arguments and long values.
func (g *Gen) Grow() {
	g.Mul = oneOf(g, 20, 60, 150)
	few := append([]string{""}, g.elems...)
	for i := 0; i < 10*g.Mul; i++ {
		if i%9 == 0 {
			g.elems = append(g.elems, few[g.n(len(few))])
		}
		g.elems = append(g.elems, "e"+strconv.Itoa(i))
	}
}

// Widen turns to many keys and commands that name many of them.
func (g *Gen) Widen() {
	g.Wide = true
	n := oneOf(g, 10, 20, 40, 70, 140)
	for i := len(g.keys); i < n; i++ {
		g.keys = append(g.keys, strings.Repeat("w", 1+g.n(6)*g.n(30))+strconv.Itoa(i))
	}
}

// manyKeys is a list of mostly distinct keys, in any order, or nil.
func (g *Gen) manyKeys(ok func(e *Entry) bool) []string {
	if !g.Wide || g.p(0.4) {
		return nil
	}
	ks := shuffled(g.r, g.keys)
	out := ks[:0]
	for _, k := range ks {
		if ok == nil || ok(g.m.get(k)) {
			out = append(out, k)
		}
	}
	if g.p(0.5) {
		out = out[:g.n(len(out)+1)]
	}
	if len(out) > 1 && g.p(0.2) {
		out = append(out, out[g.n(len(out))])
	}
	return out
}

// wideSetup fills many keys with values of the type a profile is about.
func (g *Gen) wideSetup(prof []wcmd) [][]string {
	var kinds []byte
	ttl := len(prof) == 0
	for _, w := range prof {
		for i := 0; i < w.w; i++ {
			switch n := w.name; {
			case n == "expire":
				ttl = true
			case n[0] == 'l' || n[0] == 'r' && n != "rename":
				kinds = append(kinds, 'l')
			case n[0] == 'h':
				kinds = append(kinds, 'h')
			case strings.HasPrefix(n, "sunion") || strings.HasPrefix(n, "sinter") || strings.HasPrefix(n, "sdiff") || n == "sadd" || n == "srem" || n == "smembers" || n == "scard" || n == "smove" || n == "spop" || n == "srandmember":
				kinds = append(kinds, 'z')
			case strings.HasPrefix(n, "set") || n[0] == 'm' || strings.HasPrefix(n, "incr") || n == "get" || n == "append":
				kinds = append(kinds, 's')
			}
		}
	}
	if len(kinds) == 0 {
		kinds = []byte("slhz")
	}
	var out [][]string
	for _, k := range g.keys {
		if g.p(0.25) {
			continue
		}
		out = append(out, g.creator(k, oneOf(g, kinds...)))
		if ttl && g.p(0.5) {
			out = append(out, []string{"expire", k, itoa(oneOf(g, int64(2), 2, 5, 100))})
		}
	}
	return out
}

var oddKeys = []string{"", " ", "a b", "\r\n", "*3\r\n$3\r\nSET\r\n", "\x00", "\x00\x01\xff\xfe", "$-1", "键", strings.Repeat("k", 300), "k*", "[x]", "NX"}
var plainKeys = []string{"a", "b", "c", "d", "key:1", "key:2", "user:1000:name", "list", "x", "y"}
var oddElems = []string{"", "\r\n", "\x00", "-1", "0", "nil", "\xff\xfe\xfd", "$5\r\nhello\r\n", strings.Repeat("e", 200), "ex", "  "}
var plainElems = []string{"x", "y", "z", "1", "2", "10", "foo", "bar", "hello world"}

func NewGen(r *rand.Rand, m *Model, nkeys, nelems int) *Gen {
	g := &Gen{r: r, m: m, Aim: 0.8}
	g.keys = pickDistinct(r, plainKeys, oddKeys, nkeys)
	g.elems = pickDistinct(r, plainElems, oddElems, nelems)
	return g
}

func pickDistinct(r *rand.Rand, plain, odd []string, n int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		src := plain
		if r.IntN(3) == 0 || len(out) >= len(plain) {
			src = odd
		}
		var s string
		if len(out) >= len(plain)+len(odd)-4 {
			s = "gen" + strconv.Itoa(r.IntN(1<<30))
		} else {
			s = src[r.IntN(len(src))]
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func (g *Gen) n(n int) int           { return g.r.IntN(n) }
func (g *Gen) p(f float64) bool      { return g.r.Float64() < f }
func (g *Gen) anyKey() string        { return g.keys[g.n(len(g.keys))] }
func oneOf[T any](g *Gen, xs ...T) T { return xs[g.n(len(xs))] }

func (g *Gen) key(t byte) string {
	if g.p(g.Aim) {
		var c []string
		for _, k := range g.keys {
			if e := g.m.get(k); e != nil && (t == 0 || e.T == t) {
				c = append(c, k)
			}
		}
		if len(c) > 0 {
			return c[g.n(len(c))]
		}
		// no such key: prefer a free name over one of another type
		for _, k := range g.keys {
			if g.m.get(k) == nil {
				c = append(c, k)
			}
		}
		if len(c) > 0 && t != 0 {
			return c[g.n(len(c))]
		}
	}
	return g.anyKey()
}

// keyFree returns a key that is missing or of type t.
func (g *Gen) keyFree(t byte) string {
	for i := 0; i < 6; i++ {
		k := g.anyKey()
		e := g.m.get(k)
		if e == nil || e.T == t {
			return k
		}
	}
	return g.anyKey()
}

func (g *Gen) elem() string { return g.elems[g.n(len(g.elems))] }

func (g *Gen) elemsN(max int) []string {
	n := g.many(max)
	out := make([]string, n)
	for i := range out {
		out[i] = g.elem()
	}
	return out
}

func (g *Gen) bytes(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.r.Uint32())
	}
	return string(b)
}

func (g *Gen) value() string {
	switch g.n(12) {
	case 0, 1, 2:
		return g.elem()
	case 3, 4:
		return strconv.FormatInt(g.int64(), 10)
	case 5:
		return oneOf(g, "1.5", "-0.25", "3", "1e3", "10.50", "0", "-7.125", "100000000000")
	case 6:
		if g.p(0.3) {
			// the ends of a value are where it is trimmed, quoted or cut
			edge := oneOf(g, "\x00", " ", "\n", "\r", "\"", "'", "\t", "0", "-", "+", "\xff", "\r\n", ".", "\x00\x00", "\\")
			return edge + g.bytes(g.n(6)) + oneOf(g, edge, edge, "")
		}
		return g.bytes(g.n(64))
	case 7:
		return ""
	case 8:
		if g.Mul > 1 && g.p(0.2) {
			return g.bytes(oneOf(g, 4095, 4096, 4097, 5000, 16383, 16384, 32768, 65535, 65536, 65537, 70000, 131072))
		}
		if g.Big > 0 {
			return g.bytes(g.n(g.Big))
		}
		return g.bytes(g.n(300))
	case 9:
		return strings.Repeat(string(rune('a'+g.n(26))), g.n(40))
	default:
		return "v" + strconv.Itoa(g.n(1000))
	}
}

func (g *Gen) int64() int64 {
	switch g.n(10) {
	case 0:
		return math.MaxInt64
	case 1:
		return math.MinInt64
	case 2:
		return math.MaxInt64 - int64(g.n(3))
	case 3:
		return math.MinInt64 + int64(g.n(3))
	case 4:
		return 0
	case 5:
		return int64(g.r.Uint64())
	default:
		return int64(g.n(41) - 20)
	}
}

// index around a length n.
func (g *Gen) index(n int) int64 {
	N := int64(n)
	switch g.n(14) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return -1
	case 3:
		return N - 1
	case 4:
		return N
	case 5:
		return N + 1
	case 6:
		return -N
	case 7:
		return -N - 1
	case 8:
		return -N + 1
	case 9:
		return math.MaxInt64 - int64(g.n(2))
	case 10:
		return math.MinInt64 + int64(g.n(2))
	default:
		return int64(g.n(2*n+3)) - N - 1
	}
}

func itoa(n int64) string { return strconv.FormatInt(n, 10) }

func (g *Gen) lenOf(k string) int {
	e := g.m.get(k)
	if e == nil {
		return g.n(4)
	}
	switch e.T {
	case 's':
		return len(e.S)
	case 'l':
		return len(e.L)
	}
	return len(e.H)
}

// memberOf returns mostly an element/field the key has.
func (g *Gen) memberOf(k string) string {
	e := g.m.get(k)
	if e != nil && g.p(0.7) {
		if len(e.L) > 0 {
			return e.L[g.n(len(e.L))]
		}
		if len(e.H) > 0 {
			fs := sortedKeys(e.H)
			return fs[g.n(len(fs))]
		}
	}
	return g.elem()
}

func (g *Gen) membersOf(k string, max int) []string {
	out := make([]string, g.many(max))
	for i := range out {
		out[i] = g.memberOf(k)
	}
	return out
}

func (g *Gen) float() string {
	return oneOf(g, "1", "-1", "0.5", "1.25", "-2.75", "10", "3.0e3", "0", "1e-3", "5.0", "-0.125", "12345.678", "2.5e-7", "1e21", "-1e21", "0.000001", "3e-9", "1e18", "7.5e15")
}

func (g *Gen) ttlSec() int64 {
	return oneOf(g, int64(1), 1, 2, 2, 3, 5, 10, 60, 100, 3600, 1_000_000_000, oneOf(g, int64(math.MaxInt32), math.MaxInt32+1, 3_000_000_000, math.MaxUint32+2, 9_000_000_000, 9_300_000_000, 1_000_000_000_000))
}

func (g *Gen) casing(s string) string {
	switch g.n(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if g.n(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func (g *Gen) expOpt() []string {
	now := g.m.Now
	switch g.n(6) {
	case 0:
		return []string{g.casing("ex"), itoa(g.ttlSec())}
	case 1:
		return []string{g.casing("px"), itoa(oneOf(g, int64(1), 10, 500, 999, 1000, 1001, 1500, 2500, 60_000, 3_000_000_000, 5_000_000_000_000))}
	case 2:
		return []string{g.casing("exat"), itoa(now/1000 + oneOf(g, int64(1), 2, 5, 100, -1, -100, 3_000_000_000))}
	case 3:
		return []string{g.casing("pxat"), itoa(now + oneOf(g, int64(1), 100, 999, 1000, 1001, 5000, 100_000, -1000, -5000, 5_000_000_000_000))}
	default:
		return []string{g.casing("keepttl")}
	}
}

// Cmd makes a mostly valid command of the given name.
func (g *Gen) Cmd(name string) []string {
	a := g.cmd(name)
	a[0] = g.casing(a[0])
	return a
}

func (g *Gen) keysN(t byte, max int) []string {
	if ks := g.manyKeys(nil); len(ks) > 0 {
		return ks
	}
	n := g.many(max)
	out := make([]string, n)
	for i := range out {
		out[i] = g.key(t)
	}
	return out
}

func cat(parts ...[]string) []string {
	var out []string
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func (g *Gen) cmd(name string) []string {
	switch name {
	case "ping":
		if g.p(0.5) {
			return []string{name}
		}
		return []string{name, g.value()}
	case "del", "exists":
		return cat([]string{name}, g.keysN(0, 3))
	case "keys":
		return []string{name, oneOf(g, "*", "*", "?", "k*", "*1", "[a-c]", "[^a-c]*", "*:*", "")}
	case "expire":
		a := []string{name, g.key(0), itoa(oneOf(g, g.ttlSec(), g.ttlSec(), g.ttlSec(), -1, -100))}
		if g.p(0.6) {
			a = append(a, g.casing(oneOf(g, "nx", "xx", "gt", "lt")))
		}
		return a
	case "persist", "ttl", "type":
		return []string{name, g.key(0)}
	case "rename":
		return []string{name, g.key(0), g.anyKey()}
	case "set":
		a := []string{name, g.key('s'), g.value()}
		var opts [][]string
		if g.p(0.4) {
			opts = append(opts, g.expOpt())
		}
		if g.p(0.3) {
			opts = append(opts, []string{g.casing(oneOf(g, "nx", "xx"))})
		}
		if g.p(0.2) {
			opts = append(opts, []string{g.casing("get")})
		}
		g.r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		return cat(a, cat(opts...))
	case "get", "strlen", "incr", "decr":
		return []string{name, g.key('s')}
	case "getrange":
		k := g.key('s')
		n := g.lenOf(k)
		return []string{name, k, itoa(g.index(n)), itoa(g.index(n))}
	case "setrange":
		k := g.key('s')
		n := g.lenOf(k)
		off := oneOf(g, int64(0), 1, int64(n), int64(n+1), int64(max(n-1, 0)), int64(n/2), int64(n+g.n(50)), int64(g.n(n+1)))
		return []string{name, k, itoa(off), oneOf(g, g.value(), g.elem(), "X", "")}
	case "mget":
		return cat([]string{name}, g.keysN('s', 4))
	case "mset":
		a := []string{name}
		for _, k := range g.manyKeys(nil) {
			a = append(a, k, g.value())
		}
		if len(a) > 1 {
			return a
		}
		for i := g.many(4); i > 0; i-- {
			a = append(a, g.anyKey(), g.value())
		}
		return a
	case "setex":
		return []string{name, g.key('s'), itoa(g.ttlSec()), g.value()}
	case "setnx", "append":
		return []string{name, g.key('s'), g.value()}
	case "incrby", "decrby":
		return []string{name, g.key('s'), itoa(g.int64())}
	case "incrbyfloat":
		return []string{name, g.key('s'), g.float()}
	case "lindex":
		k := g.key('l')
		return []string{name, k, itoa(g.index(g.lenOf(k)))}
	case "linsert":
		k := g.key('l')
		return []string{name, k, g.casing(oneOf(g, "before", "after")), g.memberOf(k), g.elem()}
	case "llen":
		return []string{name, g.key('l')}
	case "lmove":
		return []string{name, g.key('l'), g.keyFree('l'), g.casing(oneOf(g, "left", "right")), g.casing(oneOf(g, "left", "right"))}
	case "lpop", "rpop":
		k := g.key('l')
		if g.p(0.5) {
			return []string{name, k}
		}
		n := g.lenOf(k)
		return []string{name, k, itoa(oneOf(g, int64(1), 1, 2, 3, int64(max(n, 1)), int64(n+1), int64(n/2+1), math.MaxInt64))}
	case "lpos":
		k := g.key('l')
		a := []string{name, k, g.memberOf(k)}
		n := g.lenOf(k)
		var opts [][]string
		if g.p(0.5) {
			r := oneOf(g, int64(1), 2, 3, -1, -2, -3, int64(n), int64(-n), math.MaxInt64, math.MinInt64+1)
			if r == 0 {
				r = 1
			}
			opts = append(opts, []string{g.casing("rank"), itoa(r)})
		}
		if g.p(0.5) {
			opts = append(opts, []string{g.casing("count"), itoa(oneOf(g, int64(0), 1, 2, 3, int64(n), int64(n/2), math.MaxInt64))})
		}
		if g.p(0.5) {
			opts = append(opts, []string{g.casing("maxlen"), itoa(oneOf(g, int64(0), 1, 2, 3, int64(n), int64(n+1), int64(max(n-1, 0)), int64(n/2), math.MaxInt64))})
		}
		g.r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		return cat(a, cat(opts...))
	case "lpush", "rpush":
		return cat([]string{name, g.key('l')}, g.elemsN(5))
	case "lpushx", "rpushx":
		return cat([]string{name, g.key('l')}, g.elemsN(3))
	case "lrange", "ltrim":
		k := g.key('l')
		n := g.lenOf(k)
		s, t := g.index(n), g.index(n)
		if name == "ltrim" && g.p(0.6) {
			s, t = int64(g.n(2)), oneOf(g, int64(-1), -1, -2, int64(n), int64(n-1), int64(n-2))
		}
		return []string{name, k, itoa(s), itoa(t)}
	case "lrem":
		k := g.key('l')
		return []string{name, k, itoa(oneOf(g, int64(0), 1, -1, 2, -2, 3, -3, math.MaxInt64, math.MinInt64)), g.memberOf(k)}
	case "lset":
		k := g.key('l')
		return []string{name, k, itoa(g.index(g.lenOf(k))), g.elem()}
	case "hdel":
		k := g.key('h')
		return cat([]string{name, k}, g.membersOf(k, 3))
	case "hexists", "hget", "hstrlen":
		k := g.key('h')
		return []string{name, k, g.memberOf(k)}
	case "hgetall", "hkeys", "hlen", "hvals":
		return []string{name, g.key('h')}
	case "hincrby":
		k := g.key('h')
		return []string{name, k, g.memberOf(k), itoa(g.int64())}
	case "hincrbyfloat":
		k := g.key('h')
		return []string{name, k, g.memberOf(k), g.float()}
	case "hmget":
		k := g.key('h')
		return cat([]string{name, k}, g.membersOf(k, 5))
	case "hset", "hmset":
		k := g.key('h')
		a := []string{name, k}
		for i := g.many(4); i > 0; i-- {
			a = append(a, g.memberOf(k), g.value())
		}
		return a
	case "hsetnx":
		k := g.key('h')
		return []string{name, k, g.memberOf(k), g.value()}
	case "hrandfield":
		k := g.key('h')
		a := []string{name, k}
		if g.p(0.75) {
			n := g.lenOf(k)
			a = append(a, itoa(oneOf(g, int64(0), 1, -1, 2, -2, int64(n), int64(-n), int64(n+1), int64(-n-1), 1000, -50, math.MaxInt64)))
			if g.p(0.5) {
				a = append(a, g.casing("withvalues"))
			}
		}
		return a
	case "sadd":
		return cat([]string{name, g.key('z')}, g.elemsN(5))
	case "srem":
		k := g.key('z')
		return cat([]string{name, k}, g.membersOf(k, 3))
	case "scard", "smembers":
		return []string{name, g.key('z')}
	case "sismember":
		k := g.key('z')
		return []string{name, k, g.memberOf(k)}
	case "smove":
		k := g.key('z')
		return []string{name, k, g.keyFree('z'), g.memberOf(k)}
	case "spop", "srandmember":
		k := g.key('z')
		a := []string{name, k}
		if g.p(0.6) {
			n := g.lenOf(k)
			c := oneOf(g, int64(1), 1, 2, 3, int64(max(n, 1)), int64(n+1), math.MaxInt64)
			if name == "srandmember" && g.p(0.4) {
				c = oneOf(g, int64(0), -1, -2, -3, int64(-n), int64(-n-1), -50)
			}
			a = append(a, itoa(c))
		}
		return a
	case "sunion", "sinter", "sdiff":
		return cat([]string{name}, g.setKeys(4))
	case "sunionstore", "sinterstore", "sdiffstore":
		return cat([]string{name, oneOf(g, g.keyFree('z'), g.anyKey())}, g.setKeys(4))
	}
	panic("no generator for " + name)
}

// setKeys: operands that are sets or missing.
func (g *Gen) setKeys(max int) []string {
	if ks := g.manyKeys(func(e *Entry) bool { return e == nil && g.p(0.3) || e != nil && e.T == 'z' }); len(ks) > 0 {
		return ks
	}
	out := make([]string, g.many(max))
	for i := range out {
		if g.p(0.8) {
			out[i] = g.key('z')
		} else {
			out[i] = g.keyFree('z')
		}
	}
	return out
}

// ---- weighted choice -------------------------------------------------------

type wcmd struct {
	name string
	w    int
}

func pickW(g *Gen, ws []wcmd) string {
	t := 0
	for _, w := range ws {
		t += w.w
	}
	x := g.n(t)
	for _, w := range ws {
		if x < w.w {
			return w.name
		}
		x -= w.w
	}
	return ws[0].name
}

func weights(spec string) []wcmd {
	var out []wcmd
	for _, f := range strings.Fields(spec) {
		n, w, ok := strings.Cut(f, ":")
		k := 1
		if ok {
			k, _ = strconv.Atoi(w)
		}
		if cmdTable[n] == nil {
			panic("unknown command in profile: " + n)
		}
		out = append(out, wcmd{n, k})
	}
	return out
}

// ---- state comparison ------------------------------------------------------

// stateReads lists read commands that together show the whole state of keys.
func stateReads(m *Model, keys []string, deep bool) [][]string {
	set := map[string]bool{}
	for _, k := range keys {
		set[k] = true
	}
	for k := range m.M {
		set[k] = true
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out [][]string
	for _, k := range ks {
		out = append(out, []string{"TYPE", k}, []string{"EXISTS", k}, []string{"TTL", k})
		e := m.get(k)
		if e == nil {
			continue
		}
		switch e.T {
		case 's':
			out = append(out, []string{"GET", k}, []string{"STRLEN", k})
		case 'l':
			out = append(out, []string{"LRANGE", k, "0", "-1"}, []string{"LLEN", k})
			if deep {
				n := len(e.L)
				for i := 0; i < min(n, 40); i++ {
					out = append(out, []string{"LINDEX", k, itoa(int64(-i - 1))}, []string{"LINDEX", k, itoa(int64(i))})
				}
			}
		case 'h':
			out = append(out, []string{"HGETALL", k}, []string{"HLEN", k})
			if deep {
				out = append(out, []string{"HKEYS", k}, []string{"HVALS", k})
				for i, f := range sortedKeys(e.H) {
					if i < 30 {
						out = append(out, []string{"HGET", k, f}, []string{"HEXISTS", k, f}, []string{"HSTRLEN", k, f})
					}
				}
			}
		case 'z':
			out = append(out, []string{"SMEMBERS", k}, []string{"SCARD", k})
			if deep {
				for i, f := range sortedKeys(e.H) {
					if i < 30 {
						out = append(out, []string{"SISMEMBER", k, f})
					}
				}
			}
		}
	}
	out = append(out, []string{"KEYS", "*"})
	return out
}
