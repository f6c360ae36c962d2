package main

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
)

// Commands that name many keys, fields, members or elements at once: every
// writer treats them all alike, so a reader that finds them unlike has seen half
// of a command.

var wideSizes = []int{5, 9, 12, 17, 24, 33, 40, 65, 70, 100, 129, 140, 257, 300, 513, 1030, 2100, 4500, 4700, 5000}

func (c *Ctx) wide(stream uint64, n int, kinds []func(x *conc, r *rand.Rand, n int) error) error {
	return c.Par(n, 8, func(i int) error {
		r := c.Rand(stream, uint64(i))
		w := wideSizes[(i/len(kinds))%len(wideSizes)] + r.IntN(4)
		o := ServerOpt{SegNum: []int{100, 1, 100, 16, 1000, 2, 3, 4}[r.IntN(8)], Level: []int64{3, 0, 6, 1}[r.IntN(4)], Stmt: []int64{0, 0, 60, 400}[r.IntN(4)]}
		if w > 30 {
			// delays add up over the names of a command
			o.Level, o.Stmt = min(o.Level, 1), min(o.Stmt, 20)
		}
		if w > 2000 {
			o.Level, o.Stmt, o.SegNum = 0, min(o.Stmt, 4), []int{10000, 30000, 30000}[r.IntN(3)]
		}
		x, err := c.newConc(o, 3+r.IntN(4))
		if err != nil {
			return err
		}
		defer x.Close()
		if err := kinds[i%len(kinds)](x, r, w); err != nil {
			return err
		}
		c.Count("wide_scenarios", 1)
		return nil
	})
}

func wideNames(r *rand.Rand, n int) []string {
	style := r.IntN(4)
	ks := make([]string, n)
	for i := range ks {
		switch style {
		case 0:
			ks[i] = fmt.Sprint("key:", i)
		case 1:
			ks[i] = fmt.Sprintf("%s%d", strings.Repeat("n", 1+r.IntN(90)), i)
		case 2:
			ks[i] = fmt.Sprintf("\x00\xff%d\r\n", i)
		default:
			ks[i] = strconv.Itoa(i)
		}
	}
	return ks
}

func shuffled(r *rand.Rand, ks []string) []string {
	out := append([]string(nil), ks...)
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// uniform: all null or all the same non-null value.
func uniform(a []string, n int, r Reply) (string, error) {
	if r.Kind != '*' || len(r.Arr) != n {
		return "", viol("%s with %d names is answered %s", a[0], n, clip(r.String(), 300))
	}
	for i := 1; i < n; i++ {
		p, q := r.Arr[i-1], r.Arr[i]
		if p.Kind != q.Kind || p.Null != q.Null || p.Str != q.Str {
			return "", viol("%s of %d names finds %s for the %dth and %s for the next, though every command sets or deletes all of them to one value", a[0], n, p, i, q)
		}
	}
	if r.Arr[0].Null {
		return "nil", nil
	}
	return r.Arr[0].Str, nil
}

func allOrNone(a []string, n int, r Reply) (string, error) {
	if r.Kind != ':' || r.Int != 0 && r.Int != int64(n) {
		return "", viol("%s with %d names, all or none of which exist at any time, is answered %s", a[0], n, clip(r.String(), 200))
	}
	return strconv.FormatInt(r.Int, 10), nil
}

// fleet runs k commands per client and passes each reply to a judge.
func (x *conc) fleet(r0 *rand.Rand, kind string, n int, next func(k, i int, r *rand.Rand) ([]string, func(Reply) (string, error))) error {
	seeds := make([]uint64, len(x.cls))
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	per := max(15, min(100, 6000/n))
	var mu sync.Mutex
	seen := map[string]bool{}
	err := x.all(func(k int, cl *Client) error {
		r := rand.New(rand.NewPCG(seeds[k], 7))
		per := per
		if kind == "strings" && k%3 == 2 {
			per *= 1 + n/20 // short commands
		}
		for i := 0; i < per; {
			m := 1 + r.IntN(3)
			var cmds [][]string
			var js []func(Reply) (string, error)
			for j := 0; j < m; j++ {
				a, f := next(k, i, r)
				cmds, js = append(cmds, a), append(js, f)
				i++
			}
			rs, err := cl.Pipeline(cmds)
			if err != nil {
				return err
			}
			for j := range rs {
				what, err := js[j](rs[j])
				if err != nil {
					return err
				}
				x.c.Eval(1)
				mu.Lock()
				seen[cmds[j][0]+" "+what] = true
				mu.Unlock()
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	for s := range seen {
		x.c.Case(fmt.Sprint(kind, n, x.s.opt.SegNum, s))
	}
	return nil
}

func okReply(a []string) func(Reply) (string, error) {
	return func(r Reply) (string, error) {
		if r.Kind == '-' {
			return "", viol("%s with %d arguments is answered %s", a[0], len(a)-1, r)
		}
		return "", nil
	}
}

// wideStrings: MSET, MGET, DEL, EXISTS over the same keys.
func wideStrings(x *conc, r0 *rand.Rand, n int) error {
	ks := wideNames(r0, n)
	dels := r0.IntN(2) == 0
	return x.fleet(r0, "strings", n, func(k, i int, r *rand.Rand) ([]string, func(Reply) (string, error)) {
		o := ks
		if r.IntN(2) == 0 {
			o = shuffled(r, ks)
		}
		if k%3 == 2 {
			// a few of the names, mostly from the end
			m := 2 + r.IntN(3)
			last := max(m, n/13)
			if r.IntN(4) == 0 {
				last = n
			}
			var few []string
			for _, j := range r.Perm(last)[:m] {
				few = append(few, ks[n-1-j])
			}
			if r.IntN(3) == 0 {
				a := append([]string{"EXISTS"}, few...)
				return a, func(r Reply) (string, error) { return allOrNone(a, m, r) }
			}
			a := append([]string{"MGET"}, few...)
			return a, func(r Reply) (string, error) { return uniform(a, m, r) }
		}
		switch p := r.IntN(10); {
		case p < 4:
			a := []string{"MSET"}
			for _, s := range o {
				a = append(a, s, fmt.Sprintf("%d.%d", k, i))
			}
			return a, okReply(a)
		case p < 5 && dels:
			a := append([]string{"DEL"}, o...)
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		case p < 7:
			a := append([]string{"EXISTS"}, o...)
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		}
		a := append([]string{"MGET"}, o...)
		return a, func(r Reply) (string, error) { return uniform(a, n, r) }
	})
}

// wideSets: tokens move between the sets of a wide union.
func wideSets(x *conc, r0 *rand.Rand, n int) error {
	n = min(n, 140)
	ks := wideNames(r0, n)
	tokens := 3 + r0.IntN(4)
	var pre [][]string
	base := []string{"SADD", "base", "rest"}
	for t := 0; t < tokens; t++ {
		tok := fmt.Sprint("t", t)
		pre = append(pre, []string{"SADD", ks[r0.IntN(min(n, 3))], tok})
		base = append(base, tok)
	}
	pre = append(pre, base)
	for j, k := range ks {
		if j%3 > 0 {
			pre = append(pre, []string{"SADD", k, "x"})
		}
	}
	x.s.Perturb(false)
	if _, err := x.cls[0].Pipeline(pre); err != nil {
		return err
	}
	x.s.Perturb(true)
	full := func(a []string, r Reply, want int) (string, error) {
		e, ok := arrOf(r)
		if !ok {
			return "", viol("%s of %d sets is answered %s", a[0], n, clip(r.String(), 200))
		}
		got := 0
		for _, s := range e {
			if strings.HasPrefix(s, "t") {
				got++
			}
		}
		if got != want {
			return "", viol("%s of %d sets has %d of the %d tokens expected, though SMOVE only moves them from one of these sets to another: %q", a[0], n, got, want, e)
		}
		return fmt.Sprint(len(e)), nil
	}
	return x.fleet(r0, "sets", n, func(k, i int, r *rand.Rand) ([]string, func(Reply) (string, error)) {
		o := shuffled(r, ks)
		switch r.IntN(12) {
		case 0, 1, 2:
			a := append([]string{"SUNION"}, o...)
			return a, func(r Reply) (string, error) { return full(a, r, tokens) }
		case 3:
			a := append([]string{"SDIFF", "base"}, o...)
			return a, func(r Reply) (string, error) { return full(a, r, 0) }
		case 4:
			dest := fmt.Sprint("dest", k)
			a := append([]string{"SUNIONSTORE", dest}, o...)
			return a, func(r Reply) (string, error) {
				if r.Kind != ':' || r.Int != int64(tokens) && r.Int != int64(tokens+1) {
					return "", viol("%s of %d sets that hold %d tokens and x is answered %s", a[0], n, tokens, r)
				}
				return fmt.Sprint(r.Int), nil
			}
		case 5:
			a := append([]string{"SDIFFSTORE", fmt.Sprint("dest", k), "base"}, o...)
			return a, func(r Reply) (string, error) {
				if r.Kind != ':' || r.Int != 1 {
					return "", viol("%s of a set and %d sets that hold all of it but one member is answered %s", a[0], n, r)
				}
				return "", nil
			}
		}
		a := []string{"SMOVE", o[0], o[1], fmt.Sprint("t", r.IntN(tokens))}
		// few sets are in play, so that moves succeed
		m := min(n, 3)
		a[1], a[2] = ks[r.IntN(m)], ks[n-1-r.IntN(m)]
		if r.IntN(2) == 0 {
			a[1], a[2] = a[2], a[1]
		}
		return a, func(r Reply) (string, error) {
			if r.Kind != ':' {
				return "", viol("%s is answered %s", showCmd(a), r)
			}
			if r.Int == 1 {
				x.c.Count("wide_moves", 1)
			}
			return fmt.Sprint(r.Int), nil
		}
	})
}

// wideHash: all fields of a hash are set and deleted together.
func wideHash(x *conc, r0 *rand.Rand, n int) error {
	fs := wideNames(r0, n)
	dels := r0.IntN(2) == 0
	return x.fleet(r0, "hash", n, func(k, i int, r *rand.Rand) ([]string, func(Reply) (string, error)) {
		o := shuffled(r, fs)
		// a list of values, none or all of them
		vals := func(a []string, step int) func(Reply) (string, error) {
			return func(r Reply) (string, error) {
				e, ok := arrOf(r)
				if !ok || len(e) != 0 && len(e) != n*step {
					return "", viol("%s of a hash that has %d fields or none is answered with %d elements (%s)", a[0], n, len(e), clip(r.String(), 100))
				}
				for j := 2*step - 1; j < len(e); j += step {
					if e[j] != e[j-step] {
						return "", viol("%s of a hash of %d fields shows values %q and %q, though every command sets all fields to one value", a[0], n, e[j-step], e[j])
					}
				}
				if len(e) == 0 {
					return "empty", nil
				}
				return e[step-1], nil
			}
		}
		switch p := r.IntN(12); {
		case p < 4:
			a := []string{[]string{"HSET", "HMSET"}[r.IntN(2)], "h"}
			for _, s := range o {
				a = append(a, s, fmt.Sprintf("%d.%d", k, i))
			}
			return a, okReply(a)
		case p < 5 && dels:
			a := append([]string{"HDEL", "h"}, o...)
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		case p < 6:
			a := []string{"HLEN", "h"}
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		case p < 8:
			a := []string{"HGETALL", "h"}
			return a, vals(a, 2)
		case p < 10:
			a := []string{"HVALS", "h"}
			return a, vals(a, 1)
		}
		a := append([]string{"HMGET", "h"}, o...)
		return a, func(r Reply) (string, error) { return uniform(a, n, r) }
	})
}

// wideSet: members are added and removed together.
func wideSet(x *conc, r0 *rand.Rand, n int) error {
	ms := wideNames(r0, n)
	return x.fleet(r0, "set", n, func(k, i int, r *rand.Rand) ([]string, func(Reply) (string, error)) {
		o := shuffled(r, ms)
		switch p := r.IntN(10); {
		case p < 3:
			a := append([]string{"SADD", "s"}, o...)
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		case p < 5:
			a := append([]string{"SREM", "s"}, o...)
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		case p < 6:
			a := []string{"SPOP", "s", strconv.Itoa(n)}
			return a, wholeSet(a, n)
		case p < 8:
			a := []string{"SCARD", "s"}
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		case p < 9:
			a := []string{"SRANDMEMBER", "s", strconv.Itoa(n + 5)}
			return a, wholeSet(a, n)
		}
		a := []string{"SMEMBERS", "s"}
		return a, wholeSet(a, n)
	})
}

func wholeSet(a []string, n int) func(Reply) (string, error) {
	return func(r Reply) (string, error) {
		e, ok := arrOf(r)
		if r.Null {
			e, ok = nil, true
		}
		if !ok || len(e) != 0 && len(e) != n {
			return "", viol("%s of a set that has %d members or none is answered with %d elements (%s)", a[0], n, len(e), clip(r.String(), 100))
		}
		return fmt.Sprint(len(e)), nil
	}
}

// wideList: elements come in blocks of n, pushed and popped together.
func wideList(x *conc, r0 *rand.Rand, n int) error {
	front := r0.IntN(2) == 0 // all pushes at one end: a block is contiguous
	push, pop := "RPUSH", "LPOP"
	if front {
		push, pop = "LPUSH", "RPOP"
	}
	// a run of equal values, n long
	blocks := func(a []string) func(Reply) (string, error) {
		return func(r Reply) (string, error) {
			e, ok := arrOf(r)
			if r.Null {
				e, ok = nil, true
			}
			if !ok || len(e)%n != 0 {
				return "", viol("%s of a list that is filled and emptied %d elements at a time is answered with %d elements (%s)", showCmd(a), n, len(e), clip(r.String(), 100))
			}
			for j := range e {
				if e[j] != e[j-j%n] {
					return "", viol("%s: element %d is %q and element %d is %q, though elements are pushed and removed %d at a time, all of one value", showCmd(a), j-j%n, e[j-j%n], j, e[j], n)
				}
			}
			return fmt.Sprint(len(e) / n), nil
		}
	}
	return x.fleet(r0, "list", n, func(k, i int, r *rand.Rand) ([]string, func(Reply) (string, error)) {
		switch p := r.IntN(20); {
		case p < 6:
			a := []string{push, "l"}
			if p == 5 {
				a[0] += "X"
			}
			for j := 0; j < n; j++ {
				a = append(a, fmt.Sprintf("%d.%d", k, i))
			}
			return a, func(r Reply) (string, error) {
				if r.Kind != ':' || r.Int%int64(n) != 0 {
					return "", viol("%s of %d elements onto a list filled and emptied %d at a time is answered %s", a[0], n, n, r)
				}
				return fmt.Sprint(r.Int), nil
			}
		case p < 11:
			a := []string{pop, "l", strconv.Itoa(n)}
			return a, blocks(a)
		case p < 12:
			a := []string{"LTRIM", "l", strconv.Itoa(n), "-1"}
			if front {
				a = []string{"LTRIM", "l", "0", strconv.Itoa(-n - 1)}
			}
			return a, okReply(a)
		case p < 14:
			a := []string{"LREM", "l", strconv.Itoa([]int{0, n, -n}[r.IntN(3)]), fmt.Sprintf("%d.%d", r.IntN(len(x.cls)), r.IntN(i+1))}
			return a, func(r Reply) (string, error) { return allOrNone(a, n, r) }
		case p < 16:
			a := []string{"LLEN", "l"}
			return a, func(r Reply) (string, error) {
				if r.Kind != ':' || r.Int%int64(n) != 0 {
					return "", viol("LLEN of a list filled and emptied %d elements at a time is answered %s", n, r)
				}
				return fmt.Sprint(r.Int), nil
			}
		case p < 17:
			a := []string{"LPOS", "l", fmt.Sprintf("%d.%d", r.IntN(len(x.cls)), r.IntN(i+1)), "COUNT", "0"}
			return a, func(r Reply) (string, error) {
				if r.Null {
					return "nil", nil // no list now
				}
				if r.Kind != '*' || len(r.Arr) != 0 && len(r.Arr) != n {
					return "", viol("%s finds %d elements, though they are pushed and removed %d at a time", showCmd(a), len(r.Arr), n)
				}
				for j := range r.Arr {
					if r.Arr[j].Int != r.Arr[0].Int+int64(j) || r.Arr[0].Int%int64(n) != 0 {
						return "", viol("%s finds positions %d and %d", showCmd(a), r.Arr[0].Int, r.Arr[j].Int)
					}
				}
				return fmt.Sprint(len(r.Arr)), nil
			}
		}
		a := []string{"LRANGE", "l", "0", "-1"}
		return a, blocks(a)
	})
}
