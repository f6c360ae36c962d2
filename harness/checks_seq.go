package main

func init() {
	checks["C01"] = checkC01
	checks["C02"] = checkC02
	checks["C03"] = checkC03
	checks["C04"] = checkC04
}

const ruleSeq = "A case is one command of a seeded single-client history with the reply it got, checked against the reference model; cases are distinct by command, type of the key before, arguments and reply."

func checkC01(c *Ctx) error {
	c.rule = ruleSeq
	if err := c.giant(201, giantString); err != nil {
		return err
	}
	return c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights("set:10 get:6 getrange:8 setrange:8 mget:3 mset:2 setex:2 setnx:4 strlen:4 incr:4 incrby:4 decr:4 decrby:4 incrbyfloat:4 append:8 del:2"),
			weights("set:3 get:6 incr:8 incrby:14 decr:8 decrby:14 incrbyfloat:6 append:2 del:3 setnx:2"),
			weights("set:3 get:4 getrange:20 setrange:20 strlen:8 append:12 del:2 setnx:2"),
			weights("set:20 get:8 setnx:8 setex:6 mset:8 mget:8 append:2 del:6"),
		},
		Hist: c.N(7200, 60000), Steps: 90, Deep: true, Clock: 0.03, Big: 3000, Keys: [2]int{1, 5},
	})
}

func checkC02(c *Ctx) error {
	c.rule = ruleSeq
	if err := c.giant(202, giantList); err != nil {
		return err
	}
	return c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights("lpush:6 rpush:6 lpushx:3 rpushx:3 lpop:4 rpop:4 llen:3 lindex:6 lset:6 linsert:6 lrange:6 ltrim:3 lrem:5 lpos:8 lmove:6 del:1 set:1"),
			weights("lpush:3 rpush:3 lpos:20 lrem:8 linsert:8 lindex:4 lset:4"),
			weights("lpush:5 rpush:5 lmove:20 lpop:4 rpop:4 lrange:4 llen:2"),
			weights("rpush:8 ltrim:6 lrange:10 lindex:8 lset:4 linsert:4"),
		},
		Hist: c.N(7200, 60000), Steps: 90, Deep: true, Elems: [2]int{1, 6}, Keys: [2]int{1, 4},
	})
}

func checkC03(c *Ctx) error {
	c.rule = ruleSeq
	if err := c.giant(203, giantHash); err != nil {
		return err
	}
	return c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights("hset:8 hmset:4 hsetnx:6 hget:6 hmget:5 hgetall:4 hkeys:4 hvals:4 hlen:4 hexists:4 hstrlen:4 hdel:6 hincrby:6 hincrbyfloat:5 del:1 set:1 rpush:1"),
			weights("hset:3 hincrby:20 hincrbyfloat:8 hget:8 hdel:4 hsetnx:4"),
		},
		Hist: c.N(7200, 60000), Steps: 90, Deep: true, Elems: [2]int{1, 8}, Keys: [2]int{1, 4},
	})
}

func checkC04(c *Ctx) error {
	c.rule = ruleSeq
	if err := c.giant(204, giantSet); err != nil {
		return err
	}
	return c.RunSeq(SeqSpec{
		Profiles: [][]wcmd{
			weights("sadd:10 srem:6 scard:4 sismember:5 smembers:4 smove:8 sunion:6 sinter:6 sdiff:6 sunionstore:4 sinterstore:4 sdiffstore:4 del:2 set:1 hset:1"),
			weights("sadd:12 srem:3 smove:4 sunionstore:8 sinterstore:8 sdiffstore:8 smembers:4"),
		},
		Hist: c.N(7200, 60000), Steps: 90, Deep: true, Elems: [2]int{2, 9}, Keys: [2]int{2, 6},
	})
}
