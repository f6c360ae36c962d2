package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	checks["C17"] = checkC17
	checks["C18"] = checkC18
}

var connSeq atomic.Int64

// stream is a request sequence of one connection with its own keys.
type stream struct {
	cmds [][]string
	raw  []byte
	ends []int
	g    *Gen
}

func (c *Ctx) newStream(r *rand.Rand, now int64, n int, big int) *stream {
	id := connSeq.Add(1)
	m := NewModel(now)
	g := NewGen(r, m, 1+r.IntN(4), 2+r.IntN(5))
	for i := range g.keys {
		g.keys[i] = fmt.Sprintf("%d/%s", id, g.keys[i])
	}
	g.Big = big
	st := &stream{g: g}
	prof := anyProfile()
	for i := 0; i < n; i++ {
		var a []string
		switch r.IntN(10) {
		case 0:
			a = []string{"ping"}
		case 1:
			a = []string{"ping", g.value()}
		case 2:
			// counts executions
			a = []string{oneOf(g, "incr", "rpush", "append"), g.anyKey()}
			if a[0] != "incr" {
				a = append(a, fmt.Sprintf("%d,", i))
			}
		case 3:
			a = []string{"set", g.anyKey(), nasty(r, big)}
		case 4:
			a = spoil(g, g.cmd(pickW(g, prof)))
			if strings.EqualFold(a[0], "keys") || strings.EqualFold(a[0], "select") {
				a = []string{"nosuchcommand", "x"}
			}
		default:
			a = g.cmd(pickW(g, prof))
		}
		if strings.EqualFold(a[0], "keys") {
			a = []string{"get", g.anyKey()}
		}
		a = ownKeys(g, a)
		st.cmds = append(st.cmds, a)
	}
	st.cmds = append(st.cmds, []string{"ping", fmt.Sprintf("end of %d", id)})
	for _, a := range st.cmds {
		st.raw = AppendCmd(st.raw, a)
		st.ends = append(st.ends, len(st.raw))
	}
	return st
}

// ownKeys: spoiled commands may name keys of other connections by accident
// (such as an empty key); give them a name of this connection instead.
func ownKeys(g *Gen, a []string) []string {
	switch strings.ToLower(a[0]) {
	case "ping", "select":
		return a
	}
	pre, _, _ := strings.Cut(g.keys[0], "/")
	last := len(a)
	two := map[string]bool{"rename": true, "smove": true, "lmove": true}
	multi := map[string]bool{"del": true, "exists": true, "mget": true, "sunion": true, "sinter": true, "sdiff": true, "sunionstore": true, "sinterstore": true, "sdiffstore": true}
	n := strings.ToLower(a[0])
	step := 1
	switch {
	case n == "mset":
		step = 2
	case two[n]:
		last = min(last, 3)
	case multi[n]:
	default:
		last = min(last, 2)
	}
	for i := 1; i < last; i += step {
		if !strings.HasPrefix(a[i], pre+"/") {
			a[i] = pre + "/" + a[i]
		}
	}
	return a
}

// nasty makes values that look like protocol or straddle buffer sizes.
func nasty(r *rand.Rand, big int) string {
	frag := []string{"\r\n", "$3\r\n", "*1\r\n", "+OK\r\n", "-ERR\r\n", ":1\r\n", "\x00", "\r", "\n", "$-1\r\n", "*-1\r\n", "abc", "\xff"}
	var sb strings.Builder
	for k := r.IntN(8); k > 0; k-- {
		sb.WriteString(frag[r.IntN(len(frag))])
	}
	if big > 0 && r.IntN(3) == 0 {
		n := []int{4000, 4080, 4096, 4097, 8192, 65536}[r.IntN(6)] + r.IntN(20) - 10
		sb.WriteString(strings.Repeat(frag[r.IntN(len(frag))], n/3))
	}
	return sb.String()
}

// judge reads the replies of a stream and applies the model.
func (c *Ctx) judge(cl *Client, st *stream, from, to int, how string) error {
	for i := from; i < to; i++ {
		a := st.cmds[i]
		cl.tick(showCmd(a))
		r, err := ReadReply(cl.r)
		if err != nil {
			err = cl.connErr(err, fmt.Sprintf("request %d of %d (%s), sent %s", i+1, len(st.cmds), showCmd(a), how))
			return err
		}
		c.Eval(1)
		if w := st.g.m.Apply(a, r); w != "" {
			var sb strings.Builder
			for k := max(0, i-12); k <= i; k++ {
				fmt.Fprintf(&sb, "\n  %s", showCmd(st.cmds[k]))
			}
			return viol("request %d of %d sent %s: %s; last requests of the stream:%s", i+1, len(st.cmds), how, w, sb.String())
		}
	}
	return nil
}

// quietEnd: after the last reply nothing more may arrive, and closing our side
// ends the connection.
func quietEnd(cl *Client, how string) error {
	cl.c.(*net.TCPConn).CloseWrite()
	cl.tick("the end of the connection after the client closed its side")
	b, err := cl.r.ReadByte()
	if err == nil {
		rest, _ := cl.r.Peek(cl.r.Buffered())
		return viol("extra bytes after the last reply (%s): %q", how, string(b)+clip(string(rest), 80))
	}
	if errors.Is(err, io.EOF) {
		return nil
	}
	return cl.connErr(err, "the end of the connection")
}

func checkC17(c *Ctx) error {
	c.rule = "A case is one request stream on its own connection and keys with one way of cutting it into segments; every reply is compared in order with the reference model, the last request echoes a token unique to the stream and nothing may follow it. Distinct by stream and segmentation."
	bin, err := c.Bin()
	if err != nil {
		return err
	}
	// (a) every cut of short streams into two segments, and byte by byte
	streams := c.N(12, 60)
	err = c.Par(streams, 4, func(si int) error {
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 7})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		probe := c.newStream(c.Rand(171, uint64(si)), s.Now(), 8, 0)
		n := len(probe.raw)
		if n > 1200 {
			n = 1200
		}
		return c.Par(n, 24, func(cut int) error {
			r := c.Rand(171, uint64(si))
			st := c.newStream(r, s.Now(), 8, 0)
			cut = min(cut+1, len(st.raw)-1)
			cl, err := s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			how := fmt.Sprintf("in two segments cut after byte %d of %d", cut, len(st.raw))
			if err := cl.send(st.raw[:cut], how); err != nil {
				return err
			}
			first := 0
			if cut%3 == 0 {
				// what is complete is answered though more has begun to arrive
				for first < len(st.ends) && st.ends[first] <= cut {
					first++
				}
				if err := c.judge(cl, st, 0, first, how+", the second not sent before the replies to the requests in the first have come"); err != nil {
					return err
				}
				c.Count("replies_awaited_before_the_rest", int64(first))
			} else {
				time.Sleep(300 * time.Microsecond)
			}
			if err := cl.send(st.raw[cut:], how); err != nil {
				return err
			}
			if err := c.judge(cl, st, first, len(st.cmds), how); err != nil {
				return err
			}
			c.Case(fmt.Sprint("cut", si, cut))
			c.Count("cut_points", 1)
			if cut%7 == 0 {
				return quietEnd(cl, how)
			}
			return nil
		})
	})
	if err != nil {
		return err
	}
	// (b) random segmentation, on the wire and inside the server's reads
	chunks := []int64{1, 2, 3, 7, 16, 64, 500, 4096, 0}
	err = c.Par(len(chunks)*c.N(2, 20), 6, func(ci int) error {
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 3, Chunk: chunks[ci%len(chunks)]})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		return c.Par(c.N(60, 200), 8, func(k int) error {
			r := c.Rand(172, uint64(ci), uint64(k))
			big := 0
			if k%3 == 0 {
				big = 5000
			}
			st := c.newStream(r, s.Now(), 5+r.IntN(60), big)
			cl, err := s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			mode := r.IntN(4)
			how := fmt.Sprintf("in one write, read by the server in pieces of at most %d bytes", s.opt.Chunk)
			done := make(chan error, 1)
			raw := st.raw
			go func() {
				switch mode {
				case 0, 1:
					done <- cl.send(raw, how)
				default:
					for len(raw) > 0 {
						n := 1 + r.IntN([]int{3, 40, 900}[mode%3])
						if r.IntN(6) == 0 {
							n = 1
						}
						n = min(n, len(raw))
						if err := cl.send(raw[:n], "in random segments"); err != nil {
							done <- err
							return
						}
						raw = raw[n:]
						if len(st.raw) < 20000 && r.IntN(4) == 0 {
							time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
						}
					}
					done <- nil
				}
			}()
			if mode > 1 {
				how = "in random segments"
			}
			err = c.judge(cl, st, 0, len(st.cmds), how)
			if e := <-done; err == nil {
				err = e
			}
			if err != nil {
				return err
			}
			c.Case(fmt.Sprint("rnd", ci, k))
			if k == 0 {
				c.Sample(map[string]any{"stream_bytes": len(st.raw), "requests": len(st.cmds), "mode": how, "first": sampleCmds(st.cmds, 5)})
			}
			return quietEnd(cl, how)
		})
	})
	if err != nil {
		return err
	}
	if err := c.wirePauses(bin); err != nil {
		return err
	}
	return c.wireBig(bin)
}

// wirePauses: clients that take minutes or hours, on servers whose timers run
// a thousand or twenty thousand times faster than the pauses made here.
func (c *Ctx) wirePauses(bin string) error {
	return c.Par(2, 2, func(si int) error {
		hurry := []int64{1000, 20000}[si]
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 3, Hurry: hurry})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		n := c.N(48, 400)
		return c.Par(n, n, func(k int) error {
			r := c.Rand(177, uint64(si), uint64(k))
			st := c.newStream(r, s.Now(), 3+r.IntN(12), 0)
			cl, err := s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			pause := func() time.Duration {
				d := time.Duration(r.IntN(c.N(2500, 6000))) * time.Millisecond
				if r.IntN(3) == 0 {
					d /= 100
				}
				time.Sleep(d)
				return d * time.Duration(hurry)
			}
			how, sent, done := "slowly:", 0, 0
			cuts := []int{0}
			for i := 0; i < 1+r.IntN(3); i++ {
				q := r.IntN(len(st.cmds)) // in a request or at its end
				from := 0
				if q > 0 {
					from = st.ends[q-1]
				}
				cuts = append(cuts, from+1+r.IntN(st.ends[q]-from))
			}
			slices.Sort(cuts)
			for i, cut := range cuts {
				if err := cl.send(st.raw[sent:cut], how); err != nil {
					return err
				}
				sent = cut
				if i%2 == k%2 {
					for done < len(st.ends) && st.ends[done] <= sent {
						if err := c.judge(cl, st, done, done+1, how); err != nil {
							return err
						}
						done++
					}
				}
				how += fmt.Sprintf(" %v of pause in the server's time after byte %d of %d,", pause(), cut, len(st.raw))
			}
			if err := cl.send(st.raw[sent:], how); err != nil {
				return err
			}
			if k%4 == 0 {
				// replies that fill the socket's buffers, left unread for long
				key := "slow" + st.cmds[len(st.cmds)-1][1]
				v := strings.Repeat("0123456789", 30000)
				big := AppendCmd(nil, []string{"SET", key, v})
				for i := 1; i < 40; i++ {
					big = AppendCmd(big, []string{"GET", key})
				}
				sendErr := make(chan error, 1)
				go func(how string) { sendErr <- cl.send(big, how) }(how)
				how += fmt.Sprintf(" %v without reading 12 MB of replies,", pause())
				if err := c.judge(cl, st, done, len(st.cmds), how); err != nil {
					return err
				}
				for i := 0; i < 40; i++ {
					cl.tick("a long reply")
					rep, err := ReadReply(cl.r)
					if err != nil {
						return cl.connErr(err, fmt.Sprintf("reply %d of %d long ones, sent %s", i+1, 40, how))
					}
					c.Eval(1)
					if i > 0 && rep.Str != v {
						return viol("GET of a value of %d bytes came back as %s, sent %s", len(v), clip(rep.String(), 80), how)
					}
					if i == 20 {
						how += fmt.Sprintf(" %v in the middle of them,", pause())
					}
				}
				if err := <-sendErr; err != nil {
					return err
				}
			} else if err := c.judge(cl, st, done, len(st.cmds), how); err != nil {
				return err
			}
			c.Case(fmt.Sprint("slow", si, k))
			c.Count("slow_clients", 1)
			return quietEnd(cl, how)
		})
	})
}

// wireBig: deep pipelines, slow readers, early half-close, large and many
// arguments.
func (c *Ctx) wireBig(bin string) error {
	s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 5})
	if err != nil {
		return err
	}
	defer func() { c.noteServer(s); s.Close() }()
	type job struct {
		name string
		f    func(cl *Client) error
	}
	var jobs []job
	for k := 0; k < c.N(4, 16); k++ {
		jobs = append(jobs, job{"deep pipeline", func(cl *Client) error {
			r := c.Rand(173, uint64(k))
			st := c.newStream(r, s.Now(), c.N(8000, 60000), 0)
			how := "as one deep pipeline"
			done := make(chan error, 1)
			go func() {
				done <- cl.send(st.raw, how)
			}()
			if k%2 == 1 {
				time.Sleep(400 * time.Millisecond) // let both directions fill up
				how += " with a slow reader"
			}
			err := c.judge(cl, st, 0, len(st.cmds), how)
			if e := <-done; err == nil {
				err = e
			}
			if err != nil {
				return err
			}
			return quietEnd(cl, how)
		}})
	}
	for k := 0; k < c.N(30, 300); k++ {
		jobs = append(jobs, job{"half close", func(cl *Client) error {
			r := c.Rand(174, uint64(k))
			st := c.newStream(r, s.Now(), 1+r.IntN(200), 0)
			how := "followed at once by closing the sending side"
			if err := cl.send(st.raw, how); err != nil {
				return err
			}
			cl.c.(*net.TCPConn).CloseWrite()
			if err := c.judge(cl, st, 0, len(st.cmds), how); err != nil {
				return err
			}
			return quietEnd(cl, how)
		}})
	}
	sizes := []int{0, 1, 2, 15, 16, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 5 << 20, 1<<24 + 1}
	if c.Thorough() {
		sizes = append(sizes, 3, 100, 1000, 12288, 131072, 1<<22, 64<<20)
	}
	for _, n := range sizes {
		jobs = append(jobs, job{fmt.Sprintf("argument of %d bytes", n), func(cl *Client) error {
			r := c.Rand(175, uint64(n))
			b := make([]byte, n)
			pat := r.IntN(3)
			for i := range b {
				switch pat {
				case 0:
					b[i] = byte(r.Uint32())
				case 1:
					b[i] = "\r\n$*+-:0123"[r.IntN(11)]
				default:
					b[i] = byte(i * 7)
				}
			}
			v := string(b)
			key := fmt.Sprintf("big%d", n)
			for _, k := range []string{key, "k" + v} {
				if len(k) > 2<<20 {
					continue
				}
				rs, err := cl.Pipeline([][]string{{"SET", k, v}, {"GET", k}, {"STRLEN", k}, {"PING", v}, {"RPUSH", "l" + key, v, "x", v}, {"LRANGE", "l" + key, "0", "-1"}, {"DEL", k, "l" + key}})
				if err != nil {
					return err
				}
				c.Eval(7)
				if rs[0].Kind != '+' || rs[1].Kind != '$' || rs[1].Null || rs[1].Str != v {
					return viol("a value of %d bytes does not come back unchanged: SET answered %s, GET %s", n, rs[0], rs[1])
				}
				if rs[2].Int != int64(n) || rs[3].Str != v || rs[4].Int != 3 || len(rs[5].Arr) != 3 || rs[5].Arr[0].Str != v || rs[5].Arr[2].Str != v || rs[6].Int != 2 {
					return viol("a value of %d bytes does not come back unchanged: STRLEN %s PING %s RPUSH %s LRANGE %s DEL %s", n, rs[2], rs[3], rs[4], rs[5], rs[6])
				}
			}
			return nil
		}})
	}
	// Large requests of which the last bytes, or all but the first, come late.
	for _, n := range []int{4096, 65536, 300000, 1<<20 + 77, 3 << 20} {
		jobs = append(jobs, job{fmt.Sprintf("late end of an argument of %d bytes", n), func(cl *Client) error {
			r := c.Rand(177, uint64(n))
			b := make([]byte, n)
			for i := range b {
				b[i] = "\r\n$*+-:0123abc"[r.IntN(14)]
			}
			key := fmt.Sprintf("late%d", n)
			raw := AppendCmd(nil, []string{"SET", key, string(b)})
			raw = AppendCmd(raw, []string{"GET", key})
			end := len(AppendCmd(nil, []string{"SET", key, string(b)}))
			for _, cut := range []int{end - 1, end - 2, end - 3, end - 4, end - 4097, end + 1, end - n + r.IntN(n-2), 20} {
				if cut < 1 {
					continue
				}
				how := fmt.Sprintf("SET of a value of %d bytes and GET, sent in two segments cut after byte %d of %d", n, cut, len(raw))
				if err := cl.send(raw[:cut], how); err != nil {
					return err
				}
				time.Sleep(20 * time.Millisecond)
				if err := cl.send(raw[cut:], how); err != nil {
					return err
				}
				for i := 0; i < 2; i++ {
					cl.tick(how)
					rep, err := ReadReply(cl.r)
					if err != nil {
						return cl.connErr(err, how)
					}
					c.Eval(1)
					if i == 0 && rep.Kind != '+' || i == 1 && (rep.Kind != '$' || rep.Null || rep.Str != string(b)) {
						return viol("%s: reply %d is %s", how, i+1, rep)
					}
				}
				c.Case(fmt.Sprint("late", n, cut-end))
			}
			return nil
		}})
	}
	for _, n := range []int{1, 100, 1023, 1024, 5000, 50000, 66000, 1<<20 + 5} {
		jobs = append(jobs, job{fmt.Sprintf("request of %d arguments", n), func(cl *Client) error {
			key := fmt.Sprintf("many%d", n)
			a := []string{"RPUSH", key}
			for i := 0; i < n; i++ {
				a = append(a, fmt.Sprintf("%d\r\n", i))
			}
			rs, err := cl.Pipeline([][]string{a, {"LRANGE", key, "0", "-1"}, {"DEL", key}})
			if err != nil {
				return err
			}
			c.Eval(3)
			if rs[0].Int != int64(n) || len(rs[1].Arr) != n {
				return viol("RPUSH of %d elements in one request answered %s; LRANGE gives %d elements", n, rs[0], len(rs[1].Arr))
			}
			for i, e := range rs[1].Arr {
				if e.Str != a[i+2] {
					return viol("element %d of %d sent in one request came back as %s", i, n, e)
				}
			}
			return nil
		}})
	}
	// long replies to several connections at once
	for k := 0; k < c.N(12, 60); k++ {
		jobs = append(jobs, job{"long replies", func(cl *Client) error {
			r := c.Rand(178, uint64(k))
			key := fmt.Sprintf("long%d", k)
			v := strings.Repeat(fmt.Sprintf("<%d>", k), []int{200, 1100, 9000, 30000, 250000}[r.IntN(5)]+r.IntN(50))
			cmds := [][]string{{"SET", key, v}, {"RPUSH", "l" + key, v, v}}
			for i := 0; i < 24; i++ {
				cmds = append(cmds, [][]string{{"GET", key}, {"MGET", key, key}, {"LRANGE", "l" + key, "0", "-1"}, {"PING", v}}[r.IntN(4)])
			}
			for n := 0; n < 4; n++ {
				rs, err := cl.Pipeline(cmds)
				if err != nil {
					return err
				}
				c.Eval(int64(len(cmds)))
				for i, a := range cmds[2:] {
					got := rs[i+2]
					ok := got.Str == v
					if got.Kind == '*' {
						ok = len(got.Arr) >= 2 && got.Arr[0].Str == v && got.Arr[1].Str == v
					}
					if !ok {
						return viol("%s, whose values are %d bytes long, is answered %s while other connections read long values of their own", clip(showCmd(a), 60), len(v), clip(got.String(), 200))
					}
				}
			}
			return nil
		}})
	}
	// one connection for very many bytes, and for very many requests
	jobs = append(jobs, job{"a connection's first gigabytes", func(cl *Client) error {
		r := c.Rand(176)
		b := make([]byte, 1<<20)
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		for n := 0; n < c.N(300, 4600); n++ {
			copy(b, fmt.Sprintf("<%d>", n))
			v := string(b[:len(b)-r.IntN(5000)])
			rs, err := cl.Pipeline([][]string{{"SET", "volume", v}, {"GETRANGE", "volume", "0", "20"}, {"STRLEN", "volume"}})
			if err != nil {
				return err
			}
			c.Eval(3)
			if rs[0].Kind != '+' || rs[1].Str != v[:21] || rs[2].Int != int64(len(v)) {
				return viol("after about %d MB on one connection: SET of %d bytes answered %s, GETRANGE %s, STRLEN %s", n, len(v), rs[0], rs[1], rs[2])
			}
			if n%50 == 49 {
				rep, err := cl.Do("GET", "volume")
				if err != nil {
					return err
				}
				if rep.Str != v {
					return viol("after about %d MB on one connection GET does not give back the %d bytes set before", n, len(v))
				}
			}
		}
		c.Count("megabytes_on_one_connection", int64(c.N(300, 4600)))
		return nil
	}}, job{"a connection's first hundred thousand requests", func(cl *Client) error {
		want := int64(0)
		for n := 0; n < c.N(150, 6000); n++ {
			cmds := make([][]string, 1000)
			for i := range cmds {
				cmds[i] = []string{"INCR", "number"}
			}
			rs, err := cl.Pipeline(cmds)
			if err != nil {
				return err
			}
			for _, r := range rs {
				want++
				if r.Kind != ':' || r.Int != want {
					return viol("INCR number %d on one connection answered %s", want, r)
				}
			}
			c.Eval(1000)
		}
		c.Count("requests_on_one_connection", want)
		return nil
	}})
	// identical streams on many connections at once must not mix
	return c.Par(len(jobs), 8, func(i int) error {
		cl, err := s.Dial()
		if err != nil {
			return err
		}
		defer cl.Close()
		if err := jobs[i].f(cl); err != nil {
			return err
		}
		c.Case(fmt.Sprint(jobs[i].name, i))
		return nil
	})
}

// ---- C18: codec ------------------------------------------------------------

// buildDriver compiles drivers/<name> as package gRedis/zz_verif_<name>.
func (c *Ctx) buildDriver(name string) (string, error) {
	ov := map[string]map[string]string{"Replace": {
		filepath.Join(repoDir, "zz_verif_"+name, "main.go"): filepath.Join(c.Verif, "harness/drivers", name, "main.go"),
	}}
	b, _ := json.Marshal(ov)
	p := filepath.Join(c.Work, name+"-driver.json")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(c.Work, "driver-"+name)
	cmd := exec.Command("go", "build", "-overlay", p, "-o", bin, "./zz_verif_"+name)
	cmd.Env = goEnv()
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building driver %s: %v\n%s", name, err, out)
	}
	return bin, nil
}

func checkC18(c *Ctx) error {
	c.rule = "A case is one stream of 1 to 12 random RESP values encoded by the real encoder (compared with an independent encoding) and decoded by the real parser under one chunking, or one request quoting hostile bytes whose reply is parsed strictly and followed by an echo; distinct by seed and request."
	drv, err := c.buildDriver("codec")
	if err != nil {
		// the codec's exported functions have changed; the wire part still decides
		c.Count("codec_driver_not_built", 1)
		fmt.Println("note:", clip(err.Error(), 500))
	} else {
		dir := filepath.Join(c.Work, "codec")
		os.MkdirAll(dir, 0o755)
		res := filepath.Join(dir, "result.json")
		cmd := exec.Command(drv, fmt.Sprint(c.Seed), fmt.Sprint(c.N(12000, 300000)), dir, res)
		cmd.Dir = dir
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var out bytes.Buffer
		cmd.Stderr = &out
		if err := startLocked(cmd); err != nil {
			return err
		}
		wait := make(chan error, 1)
		go func() { wait <- cmd.Wait() }()
		select {
		case err = <-wait:
		case <-time.After(time.Duration(c.N(600, 3000)) * time.Second):
			cmd.Process.Signal(syscall.SIGQUIT)
			<-wait
			return viol("decoding valid streams does not finish: %s", clip(out.String(), 2000))
		}
		if err != nil {
			return viol("the codec crashed on valid values (%v): %s", err, clip(out.String(), 2500))
		}
		b, err := os.ReadFile(res)
		if err != nil {
			return err
		}
		var r struct {
			Streams, Values, Cuts int
			Violation             string
			Sample                []string
		}
		if err := json.Unmarshal(b, &r); err != nil {
			return err
		}
		c.Eval(int64(r.Values))
		c.Count("codec_streams", int64(r.Streams))
		c.Count("codec_single_cuts", int64(r.Cuts))
		for i := 0; i < r.Streams; i++ {
			c.Case(fmt.Sprint("stream", i))
		}
		c.Sample(r.Sample)
		if r.Violation != "" {
			return viol("%s", r.Violation)
		}
	}
	return c.wireReplies()
}

// wireReplies: replies quoting client bytes stay well-formed.
func (c *Ctx) wireReplies() error {
	bin, err := c.Bin()
	if err != nil {
		return err
	}
	return c.Par(8, 8, func(w int) error {
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 4})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		cl, err := s.Dial()
		if err != nil {
			return err
		}
		defer cl.Close()
		r := c.Rand(181, uint64(w))
		prof := anyProfile()
		m := NewModel(s.Now())
		hostile := func(g *Gen) string {
			return oneOf(g, "\r\n", "a\r\nb", "\r", "\n", "x\r\n+OK", "\r\n$3\r\nfoo\r\n", "%s%d%!n", "\x00", "\xff\xfe", "'\r\n'", "$-1\r\n", "*1\r\n", strings.Repeat("\r\n", 50), "\u2028", "+", "-", ":1") + oneOf(g, "", "", g.value())
		}
		for n := 0; n < c.N(7500, 60000); n++ {
			g := NewGen(r, m, 3, 5)
			var a []string
			switch r.IntN(5) {
			case 0:
				a = []string{hostile(g)}
				for k := r.IntN(4); k > 0; k-- {
					a = append(a, hostile(g))
				}
			case 1, 2:
				a = g.cmd(pickW(g, prof))
				if len(a) > 1 {
					a[1+r.IntN(len(a)-1)] = hostile(g)
				}
			case 3:
				a = append(g.cmd(pickW(g, prof)), hostile(g))
			default:
				a = spoil(g, g.cmd(pickW(g, prof)))
			}
			if strings.EqualFold(a[0], "select") {
				continue
			}
			tok := fmt.Sprintf("t%d.%d", w, n)
			rs, err := cl.Pipeline([][]string{a, {"PING", tok}})
			if err != nil {
				if msg, ok := asViol(err); ok {
					return viol("%s\nafter the request %q", msg, a)
				}
				return err
			}
			if rs[1].Kind != '$' || rs[1].Str != tok {
				return viol("the reply to %q is not one well-formed value: it reads %s and what follows is %s instead of the next request's echo", a, rs[0], rs[1])
			}
			c.Eval(1)
			c.Case("wire" + showCmd(a))
			c.Distinct("reply_kinds", string(rs[0].Kind)+fmt.Sprint(rs[0].Null, len(rs[0].Arr) > 0))
		}
		return nil
	})
}
