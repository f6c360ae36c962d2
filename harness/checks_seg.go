package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"sort"
	"strconv"
)

func init() { checks["C26"] = checkC26 }

var segCounts = []int{1, 2, 3, 4, 7, 16, 31, 64, 100, 1000, 3001, 4096, 10007, 65536}

func checkC26(c *Ctx) error {
	c.rule = "A case is one command and reply of a history run on a server with one of fourteen segment counts, checked against the reference model, which knows no segments: random histories over all commands, populations of thousands of keys of all types grown and shrunk, commands naming hundreds of keys, and keys with equal 32-bit hashes. Distinct by command, type of the key before, arguments and reply; segment counts and populations are counted apart."
	if err := c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{anyProfile()},
		Hist:     c.N(960, 12000), Steps: 80, Deep: true, Segs: segCounts, Chunk: 20, Clock: 0.1,
	}); err != nil {
		return err
	}
	coll := collidingKeys()
	c.Count("pairs_of_keys_with_equal_hashes", int64(len(coll)/2))
	n := c.N(36, 900)
	if err := c.Par(c.N(3, 16), 4, func(i int) error {
		return c.crowd(c.Rand(27, uint64(i)), []int{1, 2, 16, 1024}[i%4], []int{270000, 70000, 140000}[i%3])
	}); err != nil {
		return err
	}
	if err := c.Par(c.N(4, 40), 4, func(i int) error {
		return c.longNames(c.Rand(28, uint64(i)), []int{1, 16, 3, 1024}[i%4])
	}); err != nil {
		return err
	}
	return c.Par(n, 8, func(i int) error {
		seg := segCounts[i%len(segCounts)]
		r := c.Rand(26, uint64(i))
		if i >= len(segCounts)*2 && r.IntN(2) == 0 {
			seg = 1 + r.IntN(300)
		}
		if err := c.population(r, seg, coll, i); err != nil {
			return err
		}
		c.Distinct("segment_counts", strconv.Itoa(seg))
		return nil
	})
}

// collidingKeys returns pairs of different keys with the same 32-bit FNV-1a or
// FNV-1 hash, bare or as the lock table decorates them.
func collidingKeys() []string {
	var out []string
	hs := []func(string) uint32{
		func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() },
		func(s string) uint32 { h := fnv.New32a(); h.Write([]byte("@" + s + "&")); return h.Sum32() },
		func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() },
	}
	for _, h := range hs {
		seen := map[uint32]string{}
		found := 0
		for n := 0; n < 400000 && found < 8; n++ {
			s := "key:" + strconv.FormatInt(int64(n), 36)
			v := h(s)
			if o, ok := seen[v]; ok {
				out = append(out, o, s)
				found++
			} else {
				seen[v] = s
			}
		}
	}
	return out
}

func (c *Ctx) population(r *rand.Rand, seg int, coll []string, i int) error {
	q, err := c.NewRunner(ServerOpt{SegNum: seg, DbNum: 1})
	if err != nil {
		return err
	}
	defer q.Close()
	fail := func(err error) error {
		if msg, ok := asViol(err); ok {
			return viol("segnum %d, %d keys: %s", seg, len(q.m.M), msg)
		}
		return err
	}
	g := NewGen(r, q.m, 3, 5)
	// names of many shapes
	total := []int{60, 700, 4000}[i%3]
	set := map[string]bool{}
	var names []string
	add := func(s string) {
		if !set[s] {
			set[s] = true
			names = append(names, s)
		}
	}
	for _, k := range coll {
		add(k)
	}
	for n := 0; len(names) < total+len(coll); n++ {
		switch r.IntN(6) {
		case 0:
			add(strconv.Itoa(n))
		case 1:
			add("user:" + strconv.Itoa(n) + ":name")
		case 2:
			add(g.bytes(1 + r.IntN(4)))
		case 3:
			add(fmt.Sprintf("%0*d", 20+r.IntN(30), n))
		case 4:
			add("@" + strconv.Itoa(n) + "&")
		default:
			add(string(rune('a'+n%26)) + strconv.Itoa(n/26))
		}
	}
	r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	sample := func(n int) []string {
		out := make([]string, 0, n)
		for len(out) < n {
			out = append(out, names[r.IntN(len(names))])
		}
		return out
	}
	verify := func() error {
		var b [][]string
		var live []string
		for k := range q.m.M {
			live = append(live, k)
		}
		sort.Strings(live)
		b = append(b, []string{"KEYS", "*"}, append([]string{"EXISTS"}, names...), append([]string{"MGET"}, names...))
		for _, k := range names {
			if len(names) > 1000 && r.IntN(4) != 0 {
				continue
			}
			b = append(b, []string{"TYPE", k})
			switch q.m.typeName(k) {
			case "string":
				b = append(b, []string{"GET", k})
			case "list":
				b = append(b, []string{"LRANGE", k, "0", "-1"})
			case "hash":
				b = append(b, []string{"HGETALL", k})
			case "set":
				b = append(b, []string{"SMEMBERS", k})
			}
		}
		for len(b) > 0 {
			n := min(len(b), 500)
			if err := q.Do(b[:n]...); err != nil {
				return err
			}
			b = b[n:]
		}
		c.Count("whole_population_checks", 1)
		return nil
	}
	for phase := 0; phase < 4; phase++ {
		// grow
		var b [][]string
		for j, k := range names {
			if phase > 0 && r.IntN(3) == 0 {
				continue
			}
			switch (j + phase) % 9 {
			case 0, 1, 2:
				b = append(b, []string{"SET", k, "v" + strconv.Itoa(j)})
			case 3:
				b = append(b, []string{"RPUSH", k, "a" + strconv.Itoa(j), "b"})
			case 4:
				b = append(b, []string{"HSET", k, "f", strconv.Itoa(j), "g" + strconv.Itoa(j), "x"})
			case 5:
				b = append(b, []string{"SADD", k, "m" + strconv.Itoa(j), "n"})
			case 6:
				b = append(b, []string{"SETNX", k, "nx" + strconv.Itoa(j)})
			case 7:
				m := []string{"MSET", k, "ms" + strconv.Itoa(j)}
				for n := r.IntN(200); n > 0; n-- {
					m = append(m, names[r.IntN(len(names))], "x"+strconv.Itoa(n))
				}
				b = append(b, m)
			default:
				b = append(b, []string{"RENAME", names[r.IntN(len(names))], k})
			}
			if len(b) == 200 {
				if err := q.Do(b...); err != nil {
					return fail(err)
				}
				b = nil
			}
		}
		if err := q.Do(b...); err != nil {
			return fail(err)
		}
		c.Distinct("populations", fmt.Sprint(seg, len(q.m.M)))
		if err := verify(); err != nil {
			return fail(err)
		}
		// commands naming many keys, some more than once
		var sets []string
		for _, k := range names {
			if q.m.typeName(k) == "set" && len(sets) < 300 {
				sets = append(sets, k)
			}
		}
		wide := [][]string{append([]string{"EXISTS"}, sample(300)...), append([]string{"MGET"}, sample(300)...)}
		if len(sets) > 0 {
			wide = append(wide, append([]string{"SUNION"}, sets...), append([]string{"SDIFF"}, sets...), append([]string{"SUNIONSTORE", names[0]}, sets...), append(append([]string{"SINTER"}, sets...), sets...))
		}
		// shrink
		part := sample(len(names) / []int{4, 2, 1, 3}[phase])
		for len(part) > 0 {
			n := min(len(part), 1+r.IntN(400))
			wide = append(wide, append([]string{"DEL"}, part[:n]...))
			part = part[n:]
		}
		wide = append(wide, []string{"KEYS", "*"})
		if err := q.Do(wide...); err != nil {
			return fail(err)
		}
		if err := verify(); err != nil {
			return fail(err)
		}
	}
	if err := q.Do(append([]string{"DEL"}, names...), []string{"KEYS", "*"}, append([]string{"EXISTS"}, names...)); err != nil {
		return fail(err)
	}
	if i < 4 {
		c.Sample(map[string]any{"segnum": seg, "names": len(names), "names_with_equal_hashes": len(coll)})
	}
	return nil
}

// crowd fills one database with more keys than any table would plausibly be
// sized for and compares the whole population, before and after large DELs.
func (c *Ctx) crowd(r *rand.Rand, seg, n int) error {
	q, err := c.NewRunner(ServerOpt{SegNum: seg, DbNum: 1})
	if err != nil {
		return err
	}
	defer q.Close()
	fail := func(err error) error {
		if msg, ok := asViol(err); ok {
			if len(msg) > 3000 {
				msg = msg[:3000] + "..."
			}
			return viol("segnum %d, about %d keys: %s", seg, len(q.m.M), msg)
		}
		return err
	}
	name := func(i int) string { return "crowd:" + strconv.Itoa(i*7919) }
	for i := 0; i < n; {
		var b [][]string
		for j := 0; j < 40 && i < n; j++ {
			m := []string{"MSET"}
			for k := 0; k < 50 && i < n; k++ {
				m = append(m, name(i), strconv.Itoa(i))
				i++
			}
			b = append(b, m)
		}
		if err := q.Do(b...); err != nil {
			return fail(err)
		}
	}
	some := func(cmd string, k int) []string {
		a := []string{cmd}
		from := r.IntN(n)
		for j := 0; j < k; j++ {
			a = append(a, name((from+j)%n))
		}
		return a
	}
	c.Distinct("populations", fmt.Sprint(seg, len(q.m.M)))
	c.Count("whole_population_checks", 2)
	steps := [][]string{{"KEYS", "*"}, some("EXISTS", n), some("MGET", n), {"SET", "late", "1"}, {"GET", "late"},
		{"RPUSH", "latelist", "1"}, {"SADD", "lateset", "1"}, {"HSET", "latehash", "f", "1"},
		some("DEL", 9000), some("DEL", 20000), {"KEYS", "*"}, some("MGET", n), some("EXISTS", n),
		{"LRANGE", "latelist", "0", "-1"}, {"SMEMBERS", "lateset"}, {"HGETALL", "latehash"}, {"GET", "late"},
		some("DEL", n), {"KEYS", "*"}}
	for _, a := range steps {
		if err := q.Do(a); err != nil {
			return fail(err)
		}
	}
	return nil
}

// longNames uses keys of equal length that differ in one byte only, at any
// place, and keys that are prefixes of each other.
func (c *Ctx) longNames(r *rand.Rand, seg int) error {
	q, err := c.NewRunner(ServerOpt{SegNum: seg, DbNum: 1})
	if err != nil {
		return err
	}
	defer q.Close()
	var names []string
	for _, l := range []int{1, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025, 1100, 4096, 5000, 65535, 65536, 70000} {
		base := make([]byte, l)
		for i := range base {
			base[i] = 'a' + byte(r.IntN(26))
		}
		names = append(names, string(base), string(base[:l-1])+"\x00")
		for _, at := range []int{0, l / 2, l - 1, r.IntN(l)} {
			v := append([]byte(nil), base...)
			v[at] ^= 0x20
			names = append(names, string(v))
			v[at] |= 0x80
			names = append(names, string(v))
		}
		names = append(names, string(base)+"x", string(base)+" ", string(base)+string(base))
	}
	r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	for phase := 0; phase < 3; phase++ {
		var b [][]string
		for i, k := range names {
			t := strconv.Itoa(phase*10000 + i)
			switch r.IntN(6) {
			case 0:
				b = append(b, []string{"RPUSH", k, t})
			case 1:
				b = append(b, []string{"SADD", k, t})
			case 2:
				b = append(b, []string{"HSET", k, "f", t})
			case 3:
				b = append(b, []string{"DEL", k})
			default:
				b = append(b, []string{"SET", k, t})
			}
		}
		for _, k := range names {
			b = append(b, []string{"TYPE", k}, []string{"GET", k}, []string{"SMEMBERS", k}, []string{"HGETALL", k}, []string{"LRANGE", k, "0", "-1"})
			if r.IntN(4) == 0 {
				b = append(b, []string{"SADD", "members", k}, []string{"HSET", "fields", k, t0(k)})
			}
		}
		b = append(b, []string{"KEYS", "*"}, []string{"SMEMBERS", "members"}, []string{"HGETALL", "fields"})
		for len(b) > 0 {
			n := min(len(b), 100)
			if err := q.Do(b[:n]...); err != nil {
				return err
			}
			b = b[n:]
		}
	}
	c.Count("keys_differing_in_one_byte", int64(len(names)))
	return nil
}

func t0(k string) string { return strconv.Itoa(len(k)) + k[:1] }
