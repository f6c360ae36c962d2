package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
)

// Collections far beyond what the histories build: where a counter, an index
// or a length kept in fewer bits, a table that changes its form or a walk that
// gives up would show. The model remains the oracle.

var giantSizes = []int{255, 300, 1000, 4100, 33000, 66000, 70000}

func (c *Ctx) giant(stream uint64, f func(q *Runner, r *rand.Rand, n int) error) error {
	return c.Par(c.N(len(giantSizes), 8*len(giantSizes)), 4, func(i int) error {
		r := c.Rand(stream, uint64(i))
		n := giantSizes[i%len(giantSizes)] + r.IntN(4)
		if i >= len(giantSizes) {
			n += r.IntN(n)
		}
		q, err := c.NewRunner(ServerOpt{SegNum: []int{1, 3, 100}[i%3]})
		if err != nil {
			return err
		}
		defer q.Close()
		if err := f(q, r, n); err != nil {
			if msg, ok := asViol(err); ok {
				return viol("on a collection of about %d: %s; the last commands before: %s", n, clip(msg, 1500), clip(showSteps(q.hist[max(0, len(q.hist)-8):]), 1500))
			}
			return err
		}
		c.Count("giant_collections", 1)
		return nil
	})
}

// fill builds a in requests of at most 7000 arguments.
func (q *Runner) fill(head []string, args []string, per int) error {
	step := 7000 / per * per
	for len(args) > 0 {
		k := min(step, len(args))
		if err := q.Do(append(append([]string{}, head...), args[:k]...)); err != nil {
			return err
		}
		args = args[k:]
	}
	return nil
}

// edges: indexes where something might end.
func edge(r *rand.Rand, n int) int {
	e := []int{0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 65537, n / 2, n - 257, n - 256, n - 128, n - 2, n - 1, n, n + 1}
	if r.IntN(3) == 0 {
		return r.IntN(n)
	}
	return max(0, e[r.IntN(len(e))])
}

func giantList(q *Runner, r *rand.Rand, n int) error {
	var el []string
	for i := 0; i < n; i++ {
		el = append(el, "e"+strconv.Itoa(i))
	}
	push := []string{"RPUSH", "RPUSHX", "LPUSH", "LPUSHX"}[r.IntN(4)]
	if err := q.Do([]string{"RPUSH", "l", el[0]}); err != nil {
		return err
	}
	if err := q.fill([]string{push, "l"}, el[1:], 1); err != nil {
		return err
	}
	idx := func() string {
		k := edge(r, n)
		if r.IntN(2) == 0 {
			k = -1 - k
		}
		return strconv.Itoa(k)
	}
	val := func() string { return "e" + strconv.Itoa(edge(r, n)) }
	for i := 0; i < 160; i++ {
		var a []string
		switch r.IntN(14) {
		case 0, 1:
			a = []string{"LINDEX", "l", idx()}
		case 2:
			a = []string{"LSET", "l", idx(), fmt.Sprint("s", i)}
		case 3:
			a = []string{"LINSERT", "l", []string{"BEFORE", "AFTER"}[r.IntN(2)], val(), fmt.Sprint("i", i)}
		case 4:
			a = []string{"LREM", "l", strconv.Itoa(r.IntN(3) - 1), val()}
		case 5:
			a = []string{"LPOS", "l", val()}
		case 6:
			a = []string{"LPOS", "l", val(), "RANK", []string{"1", "-1", "2"}[r.IntN(3)], "MAXLEN", strconv.Itoa(edge(r, n))}
		case 7:
			k := edge(r, n)
			a = []string{"LRANGE", "l", strconv.Itoa(k), strconv.Itoa(k + r.IntN(5))}
		case 8:
			k := edge(r, n)
			a = []string{"LRANGE", "l", strconv.Itoa(-k), strconv.Itoa(-k + r.IntN(5))}
		case 9:
			a = []string{[]string{"LPUSH", "RPUSH", "LPUSHX", "RPUSHX"}[r.IntN(4)], "l", fmt.Sprint("p", i)}
		case 10:
			a = []string{[]string{"LPOP", "RPOP"}[r.IntN(2)], "l"}
			if r.IntN(3) == 0 {
				a = append(a, strconv.Itoa(1+r.IntN(3)))
			}
		case 11:
			a = []string{"LMOVE", "l", "l", []string{"LEFT", "RIGHT"}[r.IntN(2)], []string{"LEFT", "RIGHT"}[r.IntN(2)]}
		case 12:
			a = []string{"LMOVE", "l", "m", []string{"LEFT", "RIGHT"}[r.IntN(2)], []string{"LEFT", "RIGHT"}[r.IntN(2)]}
		default:
			a = []string{"LLEN", "l"}
		}
		if err := q.Do(a); err != nil {
			return err
		}
	}
	// many of few
	var few []string
	for i := 0; i < n; i++ {
		few = append(few, "abcde"[i*i%7%5:][:1])
	}
	if err := q.fill([]string{"RPUSH", "d"}, few, 1); err != nil {
		return err
	}
	for _, x := range []string{"a", "b", "c", "d"} {
		k := strconv.Itoa(edge(r, n/3))
		if err := q.Do([]string{"LPOS", "d", x, "COUNT", "0"}, []string{"LPOS", "d", x, "COUNT", k + "0", "RANK", "-3"}, []string{"LPOS", "d", x, "RANK", strconv.Itoa(1 + edge(r, n/3))}, []string{"LPOS", "d", x, "RANK", strconv.Itoa(-1 - edge(r, n/3)), "COUNT", "2"},
			[]string{"LREM", "d", k, x}, []string{"LREM", "d", "-" + k, x}, []string{"LLEN", "d"}); err != nil {
			return err
		}
	}
	if err := q.Do([]string{"LREM", "d", "0", "b"}, []string{"LRANGE", "d", "0", "-1"}, []string{"LREM", "d", "0", "a"}, []string{"LREM", "d", strconv.Itoa(-n), "c"}, []string{"LRANGE", "d", "0", "-1"}); err != nil {
		return err
	}
	k := edge(r, n/2)
	return q.Do([]string{"LRANGE", "l", "0", "-1"}, []string{"LPOP", "l", strconv.Itoa(n / 8)}, []string{"LLEN", "l"}, []string{"LTRIM", "l", strconv.Itoa(k), "-3"}, []string{"LLEN", "l"}, []string{"LRANGE", "l", "0", "-1"},
		[]string{"RENAME", "l", "k"}, []string{"LLEN", "k"}, []string{"LINDEX", "k", "-1"}, []string{"RPOP", "k", strconv.Itoa(n)}, []string{"EXISTS", "k"}, []string{"KEYS", "*"})
}

// alike returns values that differ only late or only in length.
func alike(r *rand.Rand) []string {
	n := []int{255, 256, 4096, 65535, 65536, 70000}[r.IntN(6)]
	p := strings.Repeat("x", n)
	return []string{p, p + "a", p + "b", p + "\x00", p + "aa", p[1:], "y" + p[1:], p[:n-1] + "y", p[:n/2] + "y" + p[n/2+1:]}
}

func giantHash(q *Runner, r *rand.Rand, n int) error {
	var fv []string
	for i := 0; i < n; i++ {
		fv = append(fv, "f"+strconv.Itoa(i), strconv.Itoa(i))
	}
	if err := q.fill([]string{[]string{"HSET", "HMSET"}[r.IntN(2)], "h"}, fv, 2); err != nil {
		return err
	}
	fld := func() string { return "f" + strconv.Itoa(edge(r, n)) }
	al := alike(r)
	for i, x := range al {
		if err := q.Do([]string{"HSET", "h", x, strconv.Itoa(i)}, []string{"HSETNX", "g", x, x}); err != nil {
			return err
		}
	}
	for i := 0; i < 200; i++ {
		f := fld()
		if r.IntN(5) == 0 {
			f = al[r.IntN(len(al))]
		}
		var a []string
		switch r.IntN(12) {
		case 0:
			a = []string{"HGET", "h", f}
		case 1:
			a = []string{"HEXISTS", "h", f}
		case 2:
			a = []string{"HDEL", "h", f, fld()}
		case 3:
			a = []string{[]string{"HINCRBY", "HINCRBYFLOAT"}[r.IntN(2)], "h", f, "3"}
		case 4:
			a = []string{"HSET", "h", f, strconv.Itoa(i), fld(), "7"}
		case 5:
			a = []string{"HSETNX", "h", f, "5"}
		case 6:
			a = []string{"HSTRLEN", "h", f}
		case 7:
			a = []string{"HMGET", "h", f, fld(), "nosuch"}
		case 8:
			a = []string{"HGET", "g", al[r.IntN(len(al))]}
		case 9:
			a = []string{"HSTRLEN", "g", al[r.IntN(len(al))]}
		case 10:
			a = []string{"HDEL", "g", al[r.IntN(len(al))]}
		default:
			a = []string{"HLEN", "h"}
		}
		if err := q.Do(a); err != nil {
			return err
		}
	}
	if err := q.Do([]string{"HGETALL", "h"}, []string{"HKEYS", "h"}, []string{"HVALS", "h"}, []string{"HGETALL", "g"}, []string{"HRANDFIELD", "h", strconv.Itoa(n)}); err != nil {
		return err
	}
	// down to a few fields again
	var del []string
	for i := 0; i < n; i++ {
		if i%997 != 5 {
			del = append(del, "f"+strconv.Itoa(i))
		}
	}
	if err := q.fill([]string{"HDEL", "h"}, del, 1); err != nil {
		return err
	}
	return q.Do([]string{"HLEN", "h"}, []string{"HGETALL", "h"}, []string{"HSET", "h", "f0", "again"}, []string{"HLEN", "h"}, []string{"DEL", "h"}, []string{"EXISTS", "h"}, []string{"KEYS", "*"})
}

func giantSet(q *Runner, r *rand.Rand, n int) error {
	var a1, a2 []string
	for i := 0; i < n; i++ {
		a1 = append(a1, strconv.Itoa(i))
		if i%3 != 0 {
			a2 = append(a2, strconv.Itoa(i+n/2))
		}
	}
	if err := q.fill([]string{"SADD", "s"}, a1, 1); err != nil {
		return err
	}
	if err := q.fill([]string{"SADD", "t"}, a2, 1); err != nil {
		return err
	}
	al := alike(r)
	if err := q.Do(append([]string{"SADD", "s"}, al[:5]...), append([]string{"SADD", "t"}, al[3:]...), append([]string{"SADD", "u"}, al...)); err != nil {
		return err
	}
	mem := func() string {
		if r.IntN(5) == 0 {
			return al[r.IntN(len(al))]
		}
		return strconv.Itoa(edge(r, n))
	}
	for i := 0; i < 200; i++ {
		k := []string{"s", "t", "u"}[r.IntN(3)]
		var a []string
		switch r.IntN(7) {
		case 0:
			a = []string{"SISMEMBER", k, mem()}
		case 1:
			a = []string{"SREM", k, mem(), mem()}
		case 2:
			a = []string{"SADD", k, mem(), mem()}
		case 3:
			a = []string{"SMOVE", k, []string{"s", "t", "u"}[r.IntN(3)], mem()}
		case 4:
			a = []string{"SCARD", k}
		case 5:
			a = []string{"SRANDMEMBER", k, []string{"3", "-3"}[r.IntN(2)]}
		default:
			a = []string{"SINTER", "u", k}
		}
		if err := q.Do(a); err != nil {
			return err
		}
	}
	if err := q.Do([]string{"SMEMBERS", "s"}, []string{"SINTER", "s", "t"}, []string{"SUNION", "s", "t", "u"}, []string{"SDIFF", "s", "t"}, []string{"SDIFF", "t", "s", "u"},
		[]string{"SINTERSTORE", "x", "s", "t"}, []string{"SUNIONSTORE", "y", "s", "t", "u"}, []string{"SDIFFSTORE", "z", "y", "x"}, []string{"SCARD", "x"}, []string{"SCARD", "y"}, []string{"SCARD", "z"}, []string{"SMEMBERS", "z"},
		[]string{"SPOP", "y", strconv.Itoa(n)}, []string{"SCARD", "y"}, []string{"SMEMBERS", "y"}, []string{"SRANDMEMBER", "s", strconv.Itoa(n)}); err != nil {
		return err
	}
	if err := q.fill([]string{"SREM", "s"}, a1[:n-2], 1); err != nil {
		return err
	}
	return q.Do([]string{"SCARD", "s"}, []string{"SMEMBERS", "s"}, []string{"SMEMBERS", "t"}, []string{"SDIFFSTORE", "s", "s", "t"}, []string{"SMEMBERS", "s"}, []string{"SUNIONSTORE", "s", "t"}, []string{"SCARD", "s"}, []string{"KEYS", "*"})
}

// giantString: values and keys around and beyond 64 KB and 16 MB.
func giantString(q *Runner, r *rand.Rand, n int) error {
	n *= []int{1, 1, 16, 250}[r.IntN(4)]
	v := strings.Repeat("0123456789abcdef", n/16+1)[:n]
	al := alike(r)
	if err := q.Do([]string{"SET", "s", v}, []string{"STRLEN", "s"}); err != nil {
		return err
	}
	for i, k := range al {
		if err := q.Do([]string{"SET", k, strconv.Itoa(i)}); err != nil {
			return err
		}
	}
	idx := func() string {
		k := edge(r, n)
		if r.IntN(3) == 0 {
			k = -1 - k
		}
		return strconv.Itoa(k)
	}
	for i := 0; i < 80; i++ {
		k := al[r.IntN(len(al))]
		var a []string
		switch r.IntN(9) {
		case 0:
			x := edge(r, n)
			a = []string{"GETRANGE", "s", strconv.Itoa(x), strconv.Itoa(x + r.IntN(9))}
		case 1:
			a = []string{"GETRANGE", "s", idx(), idx()}
		case 2, 3:
			a = []string{"SETRANGE", "s", strconv.Itoa(edge(r, n)), fmt.Sprint("<", i, ">")}
		case 4:
			a = []string{"APPEND", "s", fmt.Sprint("[", i, "]")}
		case 5:
			a = []string{"INCR", k}
		case 6:
			a = []string{"MGET", k, "s", al[r.IntN(len(al))]}
		case 7:
			a = []string{"DEL", k}
		default:
			a = []string{"SETNX", k, strconv.Itoa(100 + i)}
		}
		if err := q.Do(a, []string{"STRLEN", "s"}); err != nil {
			return err
		}
	}
	return q.Do(append([]string{"MGET"}, al...), []string{"GET", "s"}, []string{"SETRANGE", "t", strconv.Itoa(n), "end"}, []string{"STRLEN", "t"}, []string{"GETRANGE", "t", strconv.Itoa(n - 5), "-1"}, []string{"APPEND", "t", v}, []string{"GETRANGE", "t", strconv.Itoa(n), strconv.Itoa(n + 40)}, []string{"RENAME", "s", al[0]}, []string{"STRLEN", al[0]}, []string{"KEYS", "*"})
}
