package main

import (
	"fmt"
	"math/rand/v2"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["C27"] = checkC27 }

func checkC27(c *Ctx) error {
	c.rule = "A case is one value of tens of kilobytes to megabytes received while other connections replaced, patched or appended to it (or to the element or field it is); every 9 bytes of a value carry the version its writer gave it, so a mixed, stale or early value is recognised from the reply alone. Counted, distinct by scenario, command and version, if a write was in flight between request and reply. Values stored from the same data are compared in single-client histories as well."
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	// nothing stored from the same data is tied together
	if err := c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights("sadd:6 srem:6 sunionstore:8 sinterstore:8 sdiffstore:8 smove:4 spop:3 rename:4 smembers:3 del:1"),
			weights("set:6 setrange:10 append:12 getrange:3 mset:6 rename:5 incr:2 incrbyfloat:2 get:3 setnx:2"),
			weights("rpush:6 lpush:4 lmove:10 lset:8 linsert:4 rename:4 lpop:3 rpop:3 lrem:3 ltrim:2"),
			weights("hset:10 hmset:5 hincrby:4 hincrbyfloat:3 rename:5 hdel:3 hsetnx:3 hgetall:2"),
		},
		Hist: c.N(1200, 12000), Steps: 100, Deep: true, Keys: [2]int{2, 5}, Big: 9000,
	}); err != nil {
		return err
	}
	if err := c.Par(c.N(48, 1500), 8, c.aliasing); err != nil {
		return err
	}
	kinds := []func(x *conc, r *rand.Rand, i int) error{c.tornWhole, c.tornWhole, c.tornHalves, c.tornAppend, c.tornCounter}
	return c.Par(c.N(96, 2400), 3, func(i int) error {
		r := c.Rand(27, uint64(i))
		o := ServerOpt{Bin: bin, SegNum: []int{1, 100, 2}[i%3], Level: []int64{0, 3}[i%2], Stmt: []int64{0, 0, 40, 0, 150}[i%5]}
		x, err := c.newConc(o, 7)
		if err != nil {
			return err
		}
		defer x.Close()
		if err := kinds[i%len(kinds)](x, r, i); err != nil {
			return err
		}
		c.Count("scenarios", 1)
		return nil
	})
}

// ver is one value with one writer.
type ver struct{ issued, acked atomic.Int64 }

func verVal(v int64, blocks int) string {
	return strings.Repeat(fmt.Sprintf("%08d;", v), blocks)
}

// judge checks a value (whole blocks) read between lo and hi.
func judge(what, val string, lo, hi int64) (int64, error) {
	if len(val)%9 != 0 || len(val) == 0 {
		return 0, viol("%s: %d bytes, not a whole value", what, len(val))
	}
	first := val[:9]
	v, err := strconv.ParseInt(first[:8], 10, 64)
	if err != nil || first[8] != ';' {
		return 0, viol("%s: begins with %q, which nobody wrote there", what, first)
	}
	for i := 9; i < len(val); i += 9 {
		if val[i:i+9] != first {
			return 0, viol("%s: mixes two writes: %q at byte 0, %q at byte %d of %d", what, first, val[i:i+9], i, len(val))
		}
	}
	if v < lo || v > hi {
		return 0, viol("%s: shows version %d, though the versions it held between request and reply are %d to %d", what, v, lo, hi)
	}
	return v, nil
}

// slowly makes replies wait in the sockets before they are read.
func (x *conc) slowly(cl *Client, r *rand.Rand, cmds [][]string) ([]Reply, error) {
	if r.IntN(3) > 0 {
		return cl.Pipeline(cmds)
	}
	var b []byte
	for _, a := range cmds {
		b = AppendCmd(b, a)
	}
	if err := cl.send(b, showCmd(cmds[0])); err != nil {
		return nil, err
	}
	time.Sleep(time.Duration(1+r.IntN(25)) * time.Millisecond)
	var out []Reply
	for _, a := range cmds {
		cl.tick(showCmd(a))
		rep, err := ReadReply(cl.r)
		if err != nil {
			return out, cl.connErr(err, showCmd(a))
		}
		out = append(out, rep)
	}
	x.c.Count("replies_read_late", int64(len(out)))
	return out, nil
}

// tornWhole: strings, list elements and hash fields, replaced as a whole.
func (c *Ctx) tornWhole(x *conc, r0 *rand.Rand, i int) error {
	writers := 3
	blocks := []int{1100, 8000, 30000, 120000, 350000}[r0.IntN(5)]
	rounds := min(400, 1+2500000/blocks)
	// each writer owns a string, a list element and a hash field, and the
	// element and field keys are shared
	str := make([]ver, writers)
	el := make([]ver, writers)
	fi := make([]ver, writers)
	var pre [][]string
	l := []string{"RPUSH", "list"}
	for w := 0; w < writers; w++ {
		pre = append(pre, []string{"SET", fmt.Sprint("str", w), verVal(0, blocks)}, []string{"HSET", "hash", fmt.Sprint("f", w), verVal(0, blocks)})
		l = append(l, verVal(0, blocks))
	}
	x.s.Perturb(false)
	if _, err := x.cls[0].Pipeline(append(pre, l)); err != nil {
		return err
	}
	x.s.Perturb(true)
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	var busy sync.WaitGroup
	busy.Add(writers)
	done := make(chan struct{})
	go func() { busy.Wait(); close(done) }()
	style := r0.IntN(3) // writers patch in place, replace, or both
	return x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 27))
		if k < writers {
			defer busy.Done()
			for n := 0; n < rounds; n++ {
				what, v := r.IntN(3), (*ver)(nil)
				var a []string
				switch what {
				case 0:
					v = &str[k]
					val := verVal(v.issued.Load()+1, blocks)
					if style == 0 || style == 2 && r.IntN(2) == 0 {
						a = []string{"SETRANGE", fmt.Sprint("str", k), "0", val}
					} else if r.IntN(3) == 0 {
						a = []string{"MSET", fmt.Sprint("str", k), val}
					} else {
						a = []string{"SET", fmt.Sprint("str", k), val}
					}
				case 1:
					v = &el[k]
					a = []string{"LSET", "list", strconv.Itoa(k), verVal(v.issued.Load()+1, blocks)}
				default:
					v = &fi[k]
					a = []string{"HSET", "hash", fmt.Sprint("f", k), verVal(v.issued.Load()+1, blocks)}
				}
				v.issued.Add(1)
				rep, err := cl.Do(a...)
				if err != nil {
					return err
				}
				if rep.Kind == '-' {
					return viol("%s is answered %s", showCmd(a), rep)
				}
				v.acked.Add(1)
			}
			return nil
		}
		cl.c.(*net.TCPConn).SetReadBuffer(16 << 10)
		for last := false; !last; {
			select {
			case <-done:
				last = true
			default:
			}
			w := r.IntN(writers)
			var a []string
			var on []*ver
			pick := func(vs []ver, all bool) {
				if all {
					for j := range vs {
						on = append(on, &vs[j])
					}
				} else {
					on = append(on, &vs[w])
				}
			}
			skip := 0 // elements of the reply that are names
			switch r.IntN(9) {
			case 0:
				a = []string{"GET", fmt.Sprint("str", w)}
				pick(str, false)
			case 1:
				lo := r.IntN(blocks) * 9
				a = []string{"GETRANGE", fmt.Sprint("str", w), strconv.Itoa(lo), "-1"}
				pick(str, false)
			case 2:
				a = []string{"MGET", "str0", "str1", "str2"}
				pick(str, true)
			case 3:
				a = []string{"LINDEX", "list", strconv.Itoa(w)}
				pick(el, false)
			case 4:
				a = []string{"LRANGE", "list", "0", "-1"}
				pick(el, true)
			case 5:
				a = []string{"HGET", "hash", fmt.Sprint("f", w)}
				pick(fi, false)
			case 6:
				a = []string{"HMGET", "hash", "f0", "f1", "f2"}
				pick(fi, true)
			case 7:
				a = []string{"HGETALL", "hash"}
				pick(fi, true)
				skip = 1
			default:
				a = []string{"MGET", fmt.Sprint("str", w), "none", fmt.Sprint("str", w)}
				on = []*ver{&str[w], nil, &str[w]}
			}
			lo := make([]int64, len(on))
			for j, v := range on {
				if v != nil {
					lo[j] = v.acked.Load()
				}
			}
			rs, err := x.slowly(cl, r, [][]string{a})
			if err != nil {
				return err
			}
			e, ok := arrOf(rs[0])
			if rs[0].Kind == '$' && !rs[0].Null {
				e, ok = []string{rs[0].Str}, true
			}
			if skip == 1 {
				// fields come in any order, each before its value
				vals := make([]string, len(on))
				if len(e) != 2*len(on) {
					return viol("%s returns %d elements", showCmd(a), len(e))
				}
				for j := 0; j < len(e); j += 2 {
					n, err := strconv.Atoi(strings.TrimPrefix(e[j], "f"))
					if err != nil || n < 0 || n >= len(on) {
						return viol("%s returns a field %q", showCmd(a), clip(e[j], 40))
					}
					vals[n] = e[j+1]
				}
				e = vals
			}
			if !ok && a[len(a)-2] != "none" {
				return viol("%s is answered %s", showCmd(a), rs[0])
			}
			if a[0] == "MGET" && a[2] == "none" {
				if rs[0].Kind != '*' || len(rs[0].Arr) != 3 {
					return viol("%s is answered %s", showCmd(a), rs[0])
				}
				e = []string{rs[0].Arr[0].Str, "", rs[0].Arr[2].Str}
			}
			if len(e) != len(on) {
				return viol("%s returns %d values", showCmd(a), len(e))
			}
			for j, v := range on {
				if v == nil {
					continue
				}
				hi := v.issued.Load()
				got, err := judge(fmt.Sprintf("%s, value %d of %d", showCmd(a), j, len(on)), e[j], lo[j], hi)
				if err != nil {
					return err
				}
				if a[0] != "GETRANGE" && len(e[j]) != blocks*9 {
					return viol("%s returns %d bytes of a value that always has %d", showCmd(a), len(e[j]), blocks*9)
				}
				c.Eval(1)
				if hi > lo[j] {
					c.Case(fmt.Sprint(i, a, j, got))
					c.Count("values_read_with_writes_in_flight", 1)
				}
			}
		}
		return nil
	})
}

// tornHalves: parts of one string patched in place by different connections.
func (c *Ctx) tornHalves(x *conc, r0 *rand.Rand, i int) error {
	parts := 3
	blocks := []int{1100, 9000, 60000, 200000}[r0.IntN(4)]
	rounds := min(400, 1+2000000/blocks)
	vs := make([]ver, parts)
	x.s.Perturb(false)
	if _, err := x.cls[0].Do("SET", "s", verVal(0, blocks*parts)); err != nil {
		return err
	}
	x.s.Perturb(true)
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	var busy sync.WaitGroup
	busy.Add(parts)
	done := make(chan struct{})
	go func() { busy.Wait(); close(done) }()
	return x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 271))
		if k < parts {
			defer busy.Done()
			for n := 0; n < rounds; n++ {
				v := &vs[k]
				a := []string{"SETRANGE", "s", strconv.Itoa(k * blocks * 9), verVal(v.issued.Load()+1, blocks)}
				v.issued.Add(1)
				rep, err := cl.Do(a...)
				if err != nil {
					return err
				}
				if rep.Kind != ':' || rep.Int != int64(parts*blocks*9) {
					return viol("%s is answered %s", showCmd(a), rep)
				}
				v.acked.Add(1)
			}
			return nil
		}
		for last := false; !last; {
			select {
			case <-done:
				last = true
			default:
			}
			a := []string{"GET", "s"}
			if r.IntN(3) == 0 {
				a = []string{"GETRANGE", "s", "0", strconv.Itoa(blocks*parts*9 - 1)}
			}
			lo := make([]int64, parts)
			for j := range vs {
				lo[j] = vs[j].acked.Load()
			}
			rs, err := x.slowly(cl, r, [][]string{a})
			if err != nil {
				return err
			}
			s := rs[0].Str
			if len(s) != blocks*parts*9 {
				return viol("%s returns %d bytes of a value that always has %d", showCmd(a), len(s), blocks*parts*9)
			}
			for j := range vs {
				hi := vs[j].issued.Load()
				got, err := judge(fmt.Sprintf("%s, part %d of %d", showCmd(a), j, parts), s[j*blocks*9:(j+1)*blocks*9], lo[j], hi)
				if err != nil {
					return err
				}
				c.Eval(1)
				if hi > lo[j] {
					c.Case(fmt.Sprint(i, a, j, got))
					c.Count("values_read_with_writes_in_flight", 1)
				}
			}
		}
		return nil
	})
}

// tornAppend: a string grown by several connections, block by block.
func (c *Ctx) tornAppend(x *conc, r0 *rand.Rand, i int) error {
	writers := 3
	blocks := []int{1, 30, 900, 5000}[r0.IntN(4)]
	size := blocks * 9
	rounds := min(150, 1+3000000/(size*writers))
	vs := make([]ver, writers)
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	var busy sync.WaitGroup
	busy.Add(writers)
	done := make(chan struct{})
	go func() { busy.Wait(); close(done) }()
	return x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 272))
		if k < writers {
			defer busy.Done()
			for n := 1; n <= rounds; n++ {
				v := &vs[k]
				v.issued.Add(1)
				rep, err := cl.Do("APPEND", "s", verVal(int64(k*1000+n), blocks))
				if err != nil {
					return err
				}
				if rep.Kind != ':' || rep.Int%int64(size) != 0 || rep.Int < int64(n*size) {
					return viol("APPEND of block %d of %d bytes is answered %s", n, size, rep)
				}
				v.acked.Add(1)
			}
			return nil
		}
		for last := false; !last; {
			select {
			case <-done:
				last = true
			default:
			}
			lo := make([]int64, writers)
			for j := range vs {
				lo[j] = vs[j].acked.Load()
			}
			from := 0
			a := []string{"GET", "s"}
			switch r.IntN(5) {
			case 0:
				a = []string{"GETRANGE", "s", "0", "-1"}
			case 1:
				a = []string{"MGET", "s"}
			}
			rs, err := x.slowly(cl, r, [][]string{a})
			if err != nil {
				return err
			}
			s := rs[0].Str
			if a[0] == "MGET" {
				if len(rs[0].Arr) != 1 {
					return viol("MGET s is answered %s", rs[0])
				}
				s = rs[0].Arr[0].Str
			}
			if len(s)%size != 0 {
				return viol("%s returns %d bytes of a string appended to in blocks of %d", showCmd(a), len(s), size)
			}
			seen := make([]int64, writers)
			for ; from < len(s); from += size {
				v, err := judge(fmt.Sprintf("%s, block at byte %d of %d", showCmd(a), from, len(s)), s[from:from+size], 0, 1<<40)
				if err != nil {
					return err
				}
				w := int(v / 1000)
				if w >= writers || v%1000 != seen[w]+1 {
					return viol("%s: at byte %d of %d block %d of writer %d follows its block %d", showCmd(a), from, len(s), v%1000, w, seen[min(w, writers-1)])
				}
				seen[w]++
			}
			for j := range vs {
				hi := vs[j].issued.Load()
				if seen[j] < lo[j] || seen[j] > hi {
					return viol("%s shows %d blocks of writer %d, which had between %d and %d in place", showCmd(a), seen[j], j, lo[j], hi)
				}
				c.Eval(1)
				if hi > lo[j] {
					c.Case(fmt.Sprint(i, a, j, seen))
					c.Count("values_read_with_writes_in_flight", 1)
				}
			}
		}
		return nil
	})
}

// tornCounter: numbers that only ever take two values, changed by their own
// writer; a reply that names one many times shows one of the two throughout.
func (c *Ctx) tornCounter(x *conc, r0 *rand.Rand, i int) error {
	const writers = 3
	up, down := int64(1), int64(-1)
	base := []int64{199, 19999, 1999999999, 199999999999999, 1999999999999999999, 999}[r0.IntN(6)]
	if base != 999 && r0.IntN(3) == 0 {
		up = 7 * (base / 10)
		down = -up
	}
	a, b := strconv.FormatInt(base, 10), strconv.FormatInt(base+up, 10)
	float := base < 1e12
	var pre [][]string
	for w := 0; w < writers; w++ {
		pre = append(pre, []string{"SET", fmt.Sprint("n", w), a}, []string{"HSET", "h", fmt.Sprint("f", w), a})
	}
	x.s.Perturb(false)
	if _, err := x.cls[0].Pipeline(pre); err != nil {
		return err
	}
	x.s.Perturb(true)
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	copies := []int{60, 400, 2500}[r0.IntN(3)]
	var busy sync.WaitGroup
	busy.Add(writers)
	done := make(chan struct{})
	go func() { busy.Wait(); close(done) }()
	return x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 273))
		if k < writers {
			defer busy.Done()
			at := [2]string{a, a}
			for n := 0; n < 500; n++ {
				h := r.IntN(2)
				d, want := up, b
				if at[h] == b {
					d, want = down, a
				}
				at[h] = want
				var cmd []string
				ds := strconv.FormatInt(d, 10)
				if h == 1 {
					cmd = []string{"HINCRBY", "h", fmt.Sprint("f", k), ds}
					if float && r.IntN(3) == 0 {
						cmd[0] = "HINCRBYFLOAT"
					}
				} else {
					key := fmt.Sprint("n", k)
					switch m := r.IntN(4); {
					case m == 0 && float:
						cmd = []string{"INCRBYFLOAT", key, ds}
					case m <= 1 && d == 1:
						cmd = []string{"INCR", key}
					case m <= 1 && d == -1:
						cmd = []string{"DECR", key}
					case m == 2:
						cmd = []string{"DECRBY", key, strconv.FormatInt(-d, 10)}
					default:
						cmd = []string{"INCRBY", key, ds}
					}
				}
				rep, err := cl.Do(cmd...)
				if err != nil {
					return err
				}
				got := rep.Str
				if rep.Kind == ':' {
					got = strconv.FormatInt(rep.Int, 10)
				}
				if got != want {
					return viol("%s is answered %s, expected %s", showCmd(cmd), rep, want)
				}
			}
			return nil
		}
		for last := false; !last; {
			select {
			case <-done:
				last = true
			default:
			}
			w := r.IntN(writers)
			cmd := []string{"MGET"}
			name := fmt.Sprint("n", w)
			if r.IntN(2) == 0 {
				cmd = []string{"HMGET", "h"}
				name = fmt.Sprint("f", w)
			}
			for n := 0; n < copies; n++ {
				cmd = append(cmd, name)
			}
			rs, err := x.slowly(cl, r, [][]string{cmd})
			if err != nil {
				return err
			}
			v, ok := arrOf(rs[0])
			if !ok || len(v) != copies {
				return viol("%s naming %s %d times is answered with %d elements", cmd[0], name, copies, len(v))
			}
			for n := range v {
				if v[n] != v[0] || v[n] != a && v[n] != b {
					return viol("%s naming %s %d times shows %s first and %s at place %d; the number is %s or %s at any time", cmd[0], name, copies, v[0], v[n], n, a, b)
				}
			}
			c.Eval(1)
			c.Case(fmt.Sprint(i, cmd[0], name, v[0]))
			c.Count("repeated_numbers_read", int64(copies))
		}
		return nil
	})
}

// aliasing: equal values stored in many places at once, then one of the places
// changed a byte or two at a time, with everything compared after each change.
func (c *Ctx) aliasing(i int) error {
	q, err := c.NewRunner(ServerOpt{SegNum: []int{1, 100}[i%2], DbNum: 1})
	if err != nil {
		return err
	}
	defer q.Close()
	r := c.Rand(271, uint64(i))
	short := []string{"v", "7", "", "ab", "10", strings.Repeat("long", 40), strings.Repeat("x", 511)}
	keys := []string{"a", "b", "c", "l", "m", "h", "g", "s", "v", "7"}
	pick := func(l ...string) string { return l[r.IntN(len(l))] }
	// sets and lists made from one another, then changed one by one
	for round := 0; round < 30; round++ {
		n := []int{1, 3, 10, 60, 200, 600}[r.IntN(6)]
		all := make([]string, n)
		for k := range all {
			all[k] = fmt.Sprint("m", k)
		}
		names := []string{"p", "q", "r", "t"}
		b := [][]string{{"DEL", "p", "q", "r", "t", "u"}, append([]string{"SADD", "p"}, all...)}
		switch r.IntN(3) {
		case 0:
			b = append(b, []string{"SADD", "q", all[0]})
		case 1:
			b = append(b, append([]string{"SADD", "q"}, all...))
		}
		for k := 0; k < 10; k++ {
			b = append(b, []string{pick("SUNIONSTORE", "SINTERSTORE", "SDIFFSTORE"), pick(names...), pick(names...), pick(names...)})
			if r.IntN(4) == 0 {
				b = append(b, []string{pick("SUNIONSTORE", "SINTERSTORE", "SDIFFSTORE"), pick(names...), pick(names...)})
			}
			b = append(b, []string{pick("SADD", "SREM"), pick(names...), pick("m0", "m1", "new", "")}, []string{"SMOVE", pick(names...), pick(names...), pick("m0", "m2")})
			for _, x := range names {
				b = append(b, []string{"SCARD", x}, []string{"SMEMBERS", x})
			}
		}
		b = append(b, []string{"DEL", "p", "q", "r", "t", "u"})
		if err := q.Do(b...); err != nil {
			return err
		}
		c.Count("rounds_of_sets_from_sets", 1)
	}
	for round := 0; round < 60; round++ {
		v := short[r.IntN(len(short))]
		b := [][]string{append([]string{"DEL"}, keys...)}
		switch r.IntN(4) {
		case 0:
			b = append(b, []string{"MSET", "a", v, "b", v, "c", v, "v", v})
		case 1:
			b = append(b, []string{"SET", "a", v}, []string{"SET", "b", v}, []string{"SETNX", "c", v}, []string{"SETEX", "v", "5000", v})
		case 2:
			b = append(b, []string{"MSET", "a", "a", "b", "b", v, v, "c", v})
		default:
			b = append(b, []string{"APPEND", "a", v}, []string{"APPEND", "b", v}, []string{"SETRANGE", "c", "0", v}, []string{"SET", "v", v})
		}
		b = append(b, []string{"RPUSH", "l", v, v, v}, []string{"LPUSH", "m", v, v}, []string{"HSET", "h", "f", v, "g", v, "k", v}, []string{"HMSET", "g", "f", v, "g", v}, []string{"SADD", "s", v, "f"})
		for n := 3 + r.IntN(12); n > 0; n-- {
			x := pick("x", "yz", "", "1", "Q", strings.Repeat("w", 1+r.IntN(40)))
			k := pick("a", "b", "c", "v", "a", "b")
			switch r.IntN(12) {
			case 0, 1, 2, 3:
				b = append(b, []string{"APPEND", k, x})
			case 4:
				b = append(b, []string{"SETRANGE", k, strconv.Itoa(r.IntN(4)), x})
			case 5:
				b = append(b, []string{pick("INCR", "DECR"), k})
			case 6:
				b = append(b, []string{"LSET", pick("l", "m"), strconv.Itoa(r.IntN(3)), x})
			case 7:
				b = append(b, []string{"LMOVE", pick("l", "m"), pick("l", "m"), pick("LEFT", "RIGHT"), pick("LEFT", "RIGHT")})
			case 8:
				b = append(b, []string{"HSET", pick("h", "g"), pick("f", "g"), x})
			case 9:
				b = append(b, []string{pick("HINCRBY", "HINCRBYFLOAT"), pick("h", "g"), pick("f", "g", "k"), "1"})
			case 10:
				b = append(b, []string{"RENAME", k, pick("a", "b", "c")})
			default:
				b = append(b, []string{"GETRANGE", k, "0", "-1"})
			}
			b = append(b, []string{"MGET", "a", "b", "c", "v", "7", "", "ab"}, []string{"LRANGE", "l", "0", "-1"}, []string{"LRANGE", "m", "0", "-1"}, []string{"HGETALL", "h"}, []string{"HGETALL", "g"}, []string{"SMEMBERS", "s"})
		}
		b = append(b, []string{"DEL", ""}, []string{"DEL", "ab"}, []string{"DEL", "10"}, []string{"DEL", v})
		if err := q.Do(b...); err != nil {
			return err
		}
		c.Count("rounds_of_equal_values", 1)
	}
	return nil
}
