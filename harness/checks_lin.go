package main

import (
	"fmt"
	"math/rand/v2"
	"sync"
)

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	checks["C14"] = checkC14
}

const ruleWide = " Also counted: what a command naming up to 1000 keys, fields, members or elements found (distinct by command, number and finding) while other connections wrote all of them at once."

const ruleLin = "A case is one round of overlapping commands from 2 to 5 connections with the replies observed, decided by searching a linearization of the reference model consistent with call and return times and with the state read at the end; distinct by commands and replies, and counted only if at least two commands of different connections overlapped."

// tagged returns a value no other operation of the round writes.
func tagged(client, i int) string { return fmt.Sprintf("<%d.%d>", client, i) }

// planCmd generates a command and makes the values it writes recognisable.
func planCmd(g *Gen, name string, client, i int) []string {
	a := g.cmd(name)
	if g.p(0.3) {
		return a
	}
	t := tagged(client, i)
	switch name {
	case "set", "setnx", "append", "lpush", "rpush", "lpushx", "rpushx":
		a[2] = t
	case "setex", "setrange", "lset", "hset", "hmset", "hsetnx":
		a[3] = t
	case "linsert":
		a[4] = t
	case "sadd":
		if g.p(0.5) {
			a[2] = t
		}
	case "mset":
		for j := 2; j < len(a); j += 2 {
			a[j] = fmt.Sprintf("%s%d", t, j)
		}
	}
	return a
}

func singleProfiles() [][]wcmd {
	return [][]wcmd{
		weights("incr:6 incrby:4 decr:4 decrby:3 get:3 set:2 del:1 append:1 setnx:1 strlen:1 expire:1 ttl:1"),
		weights("append:8 strlen:3 get:3 getrange:3 setrange:6 set:2 del:1"),
		weights("setnx:8 set:8 get:4 del:4 exists:2 setex:2 type:1 persist:1 expire:2 ttl:2"),
		weights("lpush:5 rpush:5 lpop:5 rpop:5 llen:2 lrange:3 linsert:3 lset:3 lrem:3 ltrim:2 lindex:2 lpos:1 lpushx:3 rpushx:3 del:1 exists:1 type:1"),
		weights("lpop:6 rpop:6 lpushx:6 rpushx:4 lpush:3 lrange:2 exists:2 type:1 expire:1 ttl:1"),
		weights("hset:5 hsetnx:7 hget:3 hmget:2 hgetall:3 hincrby:6 hdel:5 hlen:2 hexists:2 hkeys:1 hvals:1 hstrlen:1 hmset:2 del:1 exists:1 hincrbyfloat:2 hrandfield:1"),
		weights("sadd:8 srem:6 spop:5 scard:3 sismember:3 smembers:3 srandmember:2 del:1 exists:1 type:1 expire:1"),
		weights("set:3 setnx:2 rpush:3 hset:3 sadd:3 del:4 type:3 exists:2 lpop:2 hdel:2 srem:2 expire:2 persist:2 ttl:2 get:1"),
	}
}

func checkC11(c *Ctx) error {
	c.rule = ruleLin + ruleWide
	if err := c.wide(111, c.N(120, 3000), []func(x *conc, r *rand.Rand, n int) error{wideHash, wideList, wideSet}); err != nil {
		return err
	}
	profs := singleProfiles()
	types := []byte{'s', 's', 's', 'l', 'l', 'h', 'z', 0}
	return c.RunLin(LinSpec{
		Rounds: c.N(30000, 600000), Clients: [2]int{2, 5}, Ops: [2]int{1, 5}, Noise: 0.1,
		Keys: func(r *rand.Rand) []string { return []string{oneKey(r)} },
		Setup: func(q *Runner, g *Gen, r *rand.Rand) error {
			i := r.IntN(len(profs))
			g.Prof = profs[i]
			t := types[i]
			if t == 0 {
				t = []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]
			}
			if i == 0 && r.IntN(2) == 0 {
				return q.Do([]string{"set", g.keys[0], oneOf(g, "0", "10", "-5")})
			}
			if r.IntN(4) == 0 {
				return nil
			}
			return q.Do(g.creator(g.keys[0], t))
		},
		Plan: func(g *Gen, client, n int) [][]string {
			var out [][]string
			same := ""
			if g.p(0.3) {
				same = pickW(g, g.Prof)
			}
			for i := 0; i < n; i++ {
				name := same
				if name == "" {
					name = pickW(g, g.Prof)
				}
				out = append(out, planCmd(g, name, client, i))
			}
			return out
		},
	}, 11)
}

func oneKey(r *rand.Rand) string {
	if r.IntN(3) == 0 {
		return oddKeys[r.IntN(len(oddKeys))]
	}
	return plainKeys[r.IntN(len(plainKeys))]
}

func someKeys(r *rand.Rand, lo, hi int) []string {
	return pickDistinct(r, plainKeys, oddKeys, lo+r.IntN(hi-lo+1))
}

func checkC12(c *Ctx) error {
	c.rule = ruleLin + ruleWide
	if err := c.wide(121, c.N(120, 3000), []func(x *conc, r *rand.Rand, n int) error{wideStrings, wideSets, wideStrings}); err != nil {
		return err
	}
	profs := [][]wcmd{
		weights("mset:8 mget:8 del:4 exists:4 set:3 get:2 rename:3 append:1 incr:1"),
		weights("mset:6 mget:10"),
		weights("lmove:12 lpush:3 rpush:3 lpop:3 lrange:4 exists:3 del:2 rename:3 llen:2"),
		weights("smove:10 sadd:3 srem:3 sunion:4 sinter:4 sdiff:4 smembers:2 sismember:1 del:1 exists:2 spop:1"),
		weights("sunionstore:4 sinterstore:5 sdiffstore:5 sunion:4 sinter:3 sdiff:3 sadd:4 srem:4 smove:3 smembers:2 rename:1 del:1"),
		weights("rename:10 exists:5 del:4 mset:3 mget:3 set:2 rpush:2 sadd:2 type:2 expire:2 ttl:2"),
		weights("del:10 exists:10 mset:6 rename:2 set:2 setnx:2"),
	}
	types := []byte{'s', 's', 'l', 'z', 'z', 0, 's'}
	return c.RunLin(LinSpec{
		Rounds: c.N(30000, 600000), Clients: [2]int{2, 5}, Ops: [2]int{1, 4}, Noise: 0.15,
		Keys: func(r *rand.Rand) []string { return someKeys(r, 2, 4) },
		Setup: func(q *Runner, g *Gen, r *rand.Rand) error {
			i := r.IntN(len(profs))
			g.Prof = profs[i]
			for _, k := range g.keys {
				t := types[i]
				if t == 0 {
					t = []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]
				}
				if r.IntN(4) == 0 {
					continue
				}
				if err := q.Do(g.creator(k, t)); err != nil {
					return err
				}
			}
			return nil
		},
		Plan: func(g *Gen, client, n int) [][]string {
			var out [][]string
			for i := 0; i < n; i++ {
				a := planCmd(g, pickW(g, g.Prof), client, i)
				switch a[0] {
				case "mget", "exists", "del", "mset":
					// all keys, in an order of their own: the widest window
					if g.p(0.6) {
						ks := append([]string(nil), g.keys...)
						g.r.Shuffle(len(ks), func(x, y int) { ks[x], ks[y] = ks[y], ks[x] })
						if a[0] == "mset" {
							a = a[:1]
							for j, k := range ks {
								a = append(a, k, fmt.Sprintf("%s%d", tagged(client, i), j))
							}
						} else {
							a = append(a[:1:1], ks...)
						}
					}
				}
				out = append(out, a)
			}
			return out
		},
	}, 12)
}

func checkC14(c *Ctx) error {
	c.rule = ruleLin + " Before each round the virtual clock is moved past the deadline of some of the keys, so that the round starts on expired keys nobody has touched yet, or is set to jump past it after a few of the server's readings of the clock, so that keys expire in the middle of commands (a key may then expire at any point of the order)."
	profs := [][]wcmd{
		weights("set:8 get:6 setnx:4 append:3 incr:3 exists:3 del:3 ttl:3 expire:4 persist:3 setex:3 type:2 mget:2 mset:2 getrange:1 strlen:1 setrange:1 incrby:1"),
		weights("lpush:5 rpush:5 lpop:3 llen:3 lrange:4 lindex:2 lpushx:3 lmove:4 expire:3 persist:2 ttl:2 exists:2 del:1 lrem:1 linsert:1 lset:1 ltrim:1 lpos:1 rpop:1"),
		weights("hset:6 hsetnx:5 hget:3 hgetall:3 hincrby:4 hlen:2 hdel:2 hmget:1 hkeys:1 hexists:1 expire:3 persist:2 ttl:2 exists:1 hvals:1 hstrlen:1 hmset:1 hrandfield:1 hincrbyfloat:1"),
		weights("sadd:7 smove:5 sunionstore:3 sinterstore:3 sdiffstore:2 sunion:3 sinter:2 sdiff:2 smembers:3 srem:2 scard:2 sismember:2 spop:1 srandmember:1 expire:2 persist:2 ttl:2 exists:1"),
		weights("rename:8 set:4 rpush:2 sadd:2 hset:2 exists:4 del:4 type:4 ttl:4 expire:5 persist:4 get:2 setnx:2"),
	}
	types := []byte{'s', 'l', 'h', 'z', 0}
	var midway sync.Map
	return c.RunLin(LinSpec{
		Rounds: c.N(30000, 600000), Clients: [2]int{1, 5}, Ops: [2]int{1, 3}, Noise: 0.5,
		Keys: func(r *rand.Rand) []string { return someKeys(r, 1, 3) },
		Setup: func(q *Runner, g *Gen, r *rand.Rand) error {
			i := r.IntN(len(profs))
			g.Prof = profs[i]
			t := types[i]
			pick := func() byte {
				if t == 0 || r.IntN(5) == 0 {
					return []byte{'s', 'l', 'h', 'z'}[r.IntN(4)]
				}
				return t
			}
			var max int64
			for j, k := range g.keys {
				if j == 0 || r.IntN(2) == 0 {
					kt := pick()
					if err := q.Do(g.creator(k, kt), []string{"expire", k, itoa(int64(1 + r.IntN(2)))}); err != nil {
						return err
					}
					if e := q.m.get(k); e != nil && e.D > max {
						max = e.D
					}
				} else if r.IntN(2) == 0 {
					if err := q.Do(g.creator(k, pick())); err != nil {
						return err
					}
				}
			}
			to := max + 1000 + int64(r.IntN(2000))
			if r.IntN(3) == 0 {
				midway.Store(q, to)
				return nil
			}
			midway.Delete(q)
			q.Advance(to - q.m.Now)
			return nil
		},
		Midway: func(q *Runner, r *rand.Rand) (int, int64) {
			to, ok := midway.Load(q)
			if !ok {
				return 0, 0
			}
			return 1 + r.IntN(9), to.(int64)
		},
		Plan: func(g *Gen, client, n int) [][]string {
			var out [][]string
			for i := 0; i < n; i++ {
				a := planCmd(g, pickW(g, g.Prof), client, i)
				// aim at the expired first key
				if len(a) > 1 && g.p(0.5) {
					a[1] = g.keys[0]
				}
				out = append(out, a)
			}
			return out
		},
	}, 14)
}
