package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

func init() {
	checks["C19"] = checkC19
	checks["C20"] = checkC20
}

// ---- C19: hostile byte streams ---------------------------------------------

var soupWords = strings.Fields("nx xx gt lt ex px exat pxat keepttl get before after left right rank count maxlen withvalues -1 0 1 2 -2 5 -5 3.5 1e3 -0 nan inf 0x1 9223372036854775807 -9223372036854775808 9223372036854775808 4294967296 -4294967296 99999999999 1e999 * ? [a-z] [^ [ \\ a b c key:1")

// soup is a command with random arguments.
func soup(r *rand.Rand, keys []string) []string {
	name := append([]string{"ping", "select", "keys", "nosuch", ""}, allCmds...)[r.IntN(len(allCmds)+5)]
	a := []string{name}
	n := r.IntN(6)
	if r.IntN(20) == 0 {
		n = r.IntN(60)
	}
	for i := 0; i < n; i++ {
		switch r.IntN(5) {
		case 0, 1:
			a = append(a, keys[r.IntN(len(keys))])
		case 2, 3:
			a = append(a, soupWords[r.IntN(len(soupWords))])
		default:
			a = append(a, nasty(r, 0))
		}
	}
	return a
}

var headerNums = []string{"-1", "-2", "0", "1", "2", "3", "5", "10", "100", "1000000", "2147483647", "2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999", "", "a", "1a", " 1", "1 ", "+1", "1.5", "0x5", "--1", "\x00", "536870913", "60000000"}

// hostileStream builds bytes from valid requests by grammar-aware damage.
func hostileStream(r *rand.Rand, keys []string) []byte {
	var b []byte
	n := 1 + r.IntN(5)
	for i := 0; i < n; i++ {
		a := soup(r, keys)
		switch r.IntN(9) {
		case 0, 1, 2:
			b = AppendCmd(b, a)
		case 3: // a header with a wrong number
			one := AppendCmd(nil, a)
			lines := bytes.SplitAfter(one, []byte("\r\n"))
			k := r.IntN(len(lines))
			if len(lines[k]) > 0 && (lines[k][0] == '$' || lines[k][0] == '*') {
				lines[k] = []byte(string(lines[k][0]) + headerNums[r.IntN(len(headerNums))] + "\r\n")
			}
			b = append(b, bytes.Join(lines, nil)...)
		case 4: // null, nested or scalar elements
			el := []string{"$-1\r\n", "*-1\r\n", "*0\r\n", "*1\r\n$1\r\na\r\n", ":5\r\n", "+OK\r\n", "-E\r\n", "$0\r\n\r\n", ":\r\n", ":x\r\n", "+\r\n", "*1\r\n*1\r\n*1\r\n$1\r\nx\r\n"}
			m := 1 + r.IntN(4)
			b = append(b, fmt.Sprintf("*%d\r\n", m)...)
			for k := 0; k < m; k++ {
				if r.IntN(2) == 0 && len(a) > 0 {
					b = append(b, fmt.Sprintf("$%d\r\n%s\r\n", len(a[k%len(a)]), a[k%len(a)])...)
				} else {
					b = append(b, el[r.IntN(len(el))]...)
				}
			}
		case 5: // stray lines
			b = append(b, []string{"\r\n", "\n", "\r", "PING\r\n", "GET a\r\n", "+OK\r\n", ":1\r\n", "-x\r\n", "$3\r\nabc\r\n", "$-1\r\n", "*-1\r\n", "*0\r\n", "\x00\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "!\r\n", "%2\r\n", "a\r\n", "*\r\n", "$\r\n", "*1\r\n$\r\n", "$3\r\nabcd\r\n"}[r.IntN(21)]...)
		case 6: // byte damage
			one := AppendCmd(nil, a)
			for k := 1 + r.IntN(3); k > 0 && len(one) > 0; k-- {
				p := r.IntN(len(one))
				switch r.IntN(4) {
				case 0:
					one[p] ^= byte(1 << r.IntN(8))
				case 1:
					one = append(one[:p], one[p+1:]...)
				case 2:
					one = append(one[:p], append([]byte{byte(r.Uint32())}, one[p:]...)...)
				default:
					one[p] = "\r\n$*+-:0"[r.IntN(8)]
				}
			}
			b = append(b, one...)
		case 7: // cut
			one := AppendCmd(nil, a)
			b = append(b, one[:r.IntN(len(one)+1)]...)
		default: // noise
			for k := r.IntN(200); k > 0; k-- {
				b = append(b, byte(r.Uint32()))
			}
			b = append(b, "\r\n"...)
		}
	}
	return b
}

type witness struct {
	q    *Runner
	keys []string
}

func (c *Ctx) newWitness(q *Runner, r *rand.Rand) (*witness, error) {
	w := &witness{q: q}
	for i := 0; i < 8; i++ {
		w.keys = append(w.keys, fmt.Sprintf("witness:%x:%d", r.Uint64(), i))
	}
	g := NewGen(r, q.m, 1, 6)
	for i, k := range w.keys {
		if err := q.Do(g.creator(k, []byte{'s', 'l', 'h', 'z'}[i%4])); err != nil {
			return nil, err
		}
		if i >= 6 {
			if err := q.Do([]string{"expire", k, "1000"}); err != nil {
				return nil, err
			}
		}
	}
	return w, nil
}

func (w *witness) check() error {
	w.q.hist = nil
	var rd [][]string
	for _, a := range stateReads(w.q.m, w.keys, true) {
		if !strings.EqualFold(a[0], "keys") {
			rd = append(rd, a)
		}
	}
	return w.q.Do(rd...)
}

func checkC19(c *Ctx) error {
	c.rule = "A case is one hostile byte stream (damaged headers, nulls, nesting, noise, truncation, or well-formed requests with random arguments) sent on its own connection while witness connections keep reading data whose names the streams cannot contain; distinct by the bytes. Judged: the process lives, witnesses read exactly what they stored, new connections are served, and requests hidden inside damaged payloads are not executed."
	bin, err := c.Bin()
	if err != nil {
		return err
	}
	servers := c.N(8, 32)
	return c.Par(servers, 8, func(si int) error {
		q, err := c.NewRunner(ServerOpt{Bin: bin, SegNum: []int{1, 3, 100}[si%3], Chunk: []int64{0, 0, 5, 50}[si%4]})
		if err != nil {
			return err
		}
		defer q.Close()
		w, err := c.newWitness(q, c.Rand(191, uint64(si)))
		if err != nil {
			return err
		}
		keys := append([]string{""}, plainKeys...)
		batches := c.N(1050, 8000)
		for b := 0; b < batches; b++ {
			const width = 12
			sent := make([][]byte, width)
			err := c.Par(width, width, func(k int) error {
				r := c.Rand(192, uint64(si), uint64(b), uint64(k))
				var raw []byte
				if k%3 == 0 {
					for n := 1 + r.IntN(30); n > 0; n-- {
						raw = AppendCmd(raw, soup(r, keys))
					}
				} else {
					raw = hostileStream(r, keys)
				}
				sent[k] = raw
				c.Case(string(raw))
				c.Eval(1)
				conn, err := net.DialTimeout("tcp", q.s.Addr, 10*time.Second)
				if err != nil {
					return nil // judged by the witnesses below
				}
				defer conn.Close()
				done := make(chan struct{})
				go func() {
					defer close(done)
					conn.SetReadDeadline(time.Now().Add(10 * time.Second))
					n, _ := io.Copy(io.Discard, conn)
					c.Count("reply_bytes_to_hostile_streams", n)
				}()
				conn.SetWriteDeadline(time.Now().Add(10 * time.Second))
				conn.Write(raw)
				switch r.IntN(4) {
				case 0:
					conn.(*net.TCPConn).SetLinger(0)
				default:
					conn.(*net.TCPConn).CloseWrite()
					<-done
				}
				return nil
			})
			if err != nil {
				return err
			}
			if err := w.check(); err != nil {
				if msg, ok := asViol(err); ok {
					var sb strings.Builder
					for _, s := range sent {
						fmt.Fprintf(&sb, "\n  %q", clip(string(s), 3000))
					}
					return viol("%s\nwhile or after these streams were sent, each on its own connection:%s", msg, sb.String())
				}
				return err
			}
			if b%10 == 0 {
				cl, err := q.s.Dial()
				if err != nil {
					return err
				}
				r, err := cl.Do("PING", "still here")
				cl.Close()
				if err != nil {
					return err
				}
				if r.Str != "still here" {
					return viol("after hostile streams a new connection's PING is answered %s", r)
				}
				if si == 0 && b < 30 {
					c.Sample(fmt.Sprintf("%q", clip(string(sent[1]), 200)))
				}
				// clear what the streams stored
				kr, err := q.cl.Do("KEYS", "*")
				if err != nil {
					return err
				}
				del := []string{"DEL"}
				for _, e := range kr.Arr {
					if !strings.HasPrefix(e.Str, "witness:") {
						del = append(del, e.Str)
					}
				}
				if len(del) > 1 {
					if _, err := q.cl.Do(del...); err != nil {
						return err
					}
				}
			}
		}
		if err := c.hidden(q, w, si); err != nil {
			return err
		}
		return c.survive(bin, si)
	})
}

// survive: well-formed commands of all kinds, aimed at existing data and at
// the edges of its size, never bring the process down. (What they answer is
// the business of other properties.)
func (c *Ctx) survive(bin string, si int) error {
	q, err := c.NewRunner(ServerOpt{Bin: bin, SegNum: []int{1, 3, 100}[si%3]})
	if err != nil {
		return err
	}
	defer q.Close()
	prof := anyProfile()
	for h := 0; h < c.N(400, 8000); h++ {
		r := c.Rand(194, uint64(si), uint64(h))
		g := NewGen(r, q.m, 1+r.IntN(4), 1+r.IntN(5))
		g.Aim = []float64{0.95, 0.6}[h%2]
		var cmds [][]string
		for n := 0; n < 40; n++ {
			a := g.cmd(pickW(g, prof))
			if r.IntN(6) == 0 && len(a) > 1 {
				a[1+r.IntN(len(a)-1)] = soupWords[r.IntN(len(soupWords))]
			}
			cmds = append(cmds, a)
			if n%5 < 4 {
				continue
			}
			rs, err := q.cl.Pipeline(cmds)
			if err != nil {
				if msg, ok := asViol(err); ok {
					return viol("%s\nwhile sending:%s", msg, "\n  "+strings.Join(sampleCmds(cmds, len(cmds)), "\n  "))
				}
				return err
			}
			for k := range rs {
				q.m.Apply(cmds[k], rs[k])
			}
			c.Eval(int64(len(cmds)))
			c.Case(fmt.Sprint(cmds))
			cmds = nil
		}
		if _, err := q.cl.Do(append([]string{"DEL"}, append(g.keys, "x")...)...); err != nil {
			return err
		}
		q.m.M = map[string]*Entry{}
	}
	return nil
}

// hidden: request bytes inside payloads, behind intact or damaged framing, are
// data and never executed.
func (c *Ctx) hidden(q *Runner, w *witness, si int) error {
	type cs struct {
		name string
		raw  string
	}
	for n := 0; n < c.N(36, 120); n++ {
		r := c.Rand(193, uint64(si), uint64(n))
		marker := fmt.Sprintf("marker:%x", r.Uint64())
		inner := string(AppendCmd(nil, []string{"SET", marker, "executed"})) + string(AppendCmd(nil, []string{"DEL", w.keys[0]}))
		pad := strings.Repeat("x", r.IntN(20))
		payload := pad + "\r\n" + inner
		L := len(payload)
		cases := []cs{
			{"intact bulk", fmt.Sprintf("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$%d\r\n%s\r\n", L, payload)},
			{"intact bulk cut off before its end", fmt.Sprintf("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$%d\r\n%s", L+10, payload)},
			{"payload of a bulk with a malformed length", fmt.Sprintf("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$%dx\r\n%s\r\n", L, payload)},
			{"payload of a bulk with an empty length", fmt.Sprintf("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$\r\n%s\r\n", payload)},
			{"payload of a bulk with a negative length", fmt.Sprintf("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$-%d\r\n%s\r\n", L+2, payload)},
			{"payload of a bulk with an enormous length", fmt.Sprintf("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$99999999999999999999\r\n%s\r\n", payload)},
			{"payload of a bulk longer than announced", fmt.Sprintf("*3\r\n$3\r\nSET\r\n$1\r\na\r\n$%d\r\n%sy\r\n%s\r\n", len(pad), pad, inner)},
			{"unfinished array announced longer", fmt.Sprintf("*9\r\n$3\r\nSET\r\n$1\r\na\r\n$%d\r\n%s\r\n", L, payload)},
			{"arguments after a malformed array header", fmt.Sprintf("*x\r\n$%d\r\n%s\r\n", L, payload)},
		}
		// the request itself, damaged so that it is not valid RESP
		set, v := fmt.Sprintf("$%d\r\n%s\r\n", len(marker), marker), "$2\r\nok\r\n"
		for _, d := range []string{
			"*3x\r\n$3\r\nSET\r\n" + set + v,
			"*-3\r\n$3\r\nSET\r\n" + set + v,
			"*3 \r\n$3\r\nSET\r\n" + set + v,
			"*3.0\r\n$3\r\nSET\r\n" + set + v,
			"*0x3\r\n$3\r\nSET\r\n" + set + v,
			"*30\n$3\r\nSET\r\n" + set + v,
			"*3\r\n$30\nSET\r\n" + set + v,
			"*3\r\n$3x\r\nSET\r\n" + set + v,
			"*3\r\n$0x3\r\nSET\r\n" + set + v,
			"*3\r\n$0b11\r\nSET\r\n" + set + v,
			"*3\r\n$ 3\r\nSET\r\n" + set + v,
			"*3\r\n$3 \r\nSET\r\n" + set + v,
			"*3\r\n$3\r\nSET\r\n" + set + "$0x2\r\nok\r\n",
			"*3\r\n$3\r\nSET\r\n" + set + "$2.\r\nok\r\n",
			"*3\r\n$3\r\nSET\r\n" + set + "$2e0\r\nok\r\n",
			"*3\r\n$3\r\nSET\r\n" + set + ":1x\r\n",
			"*3\r\n$3\r\nSET\r\n" + set + ":\r\n",
			"*3\r\n$-3\r\nSET\r\n" + set + v,
			"*3\r\n$3\r\nSETxx" + set + v,
			"*3\r\n$3\r\nSET\rx" + set + v,
			"*3\r\n$3\r\nSETx\n" + set + v,
			"*3\r\n$3\r\nSET\n\r" + set + v,
			fmt.Sprintf("*3\r\n$3\r\nSET\r\n$%d0\n%s\r\n", len(marker), marker) + v,
			fmt.Sprintf("*3\r\n$3\r\nSET\r\n$%dx\r\n%s\r\n", len(marker), marker) + v,
			fmt.Sprintf("*3\r\n$3\r\nSET\r\n$%d\r\n%s\r\n", len(marker)-3, marker) + v,
			fmt.Sprintf("*3\r\n$3\r\nSET\r\n$%d\r\n%sx\n", len(marker), marker) + v,
			"*3\r\n$3\r\nSET\r\n" + set + "$2\r\nok\rx",
			"*3\r\n$3\r\nSET\r\n" + set + "$2\r\nokx\n",
			"*3\r\n$3\r\nSET\r\n" + set + "$2\r\nok",
			"*3\r\n$3\r\nSET\r\n" + set + "$2\r\nok\r",
			"*3\r\n$3\r\nSET\r\n" + set + "$20\nok\r\n",
			"*3\r\n$3\r\nSET\r\n" + set + "?ok\r\n",
			"*3\r\n$3\r\nSET\r\n" + set + "ok\r\n",
			"*4\r\n$3\r\nSET\r\n" + set + v,
			"$3\r\nSET\r\n" + set + v,
		} {
			cases = append(cases, cs{"arguments of a request that is not valid RESP", d})
		}
		for _, k := range cases {
			conn, err := net.DialTimeout("tcp", q.s.Addr, 10*time.Second)
			if err != nil {
				return err
			}
			conn.Write([]byte(k.raw))
			conn.(*net.TCPConn).CloseWrite()
			conn.SetReadDeadline(time.Now().Add(10 * time.Second))
			io.Copy(io.Discard, conn)
			conn.Close()
			rep, err := q.cl.Do("EXISTS", marker, w.keys[0])
			if err != nil {
				return err
			}
			c.Eval(1)
			c.Case("hidden" + k.name + k.raw)
			if rep.Kind != ':' || rep.Int != 1 {
				return viol("request bytes that were the %s were executed (EXISTS of the key they would set and of the key they would delete: %s); stream: %q", k.name, rep, clip(k.raw, 600))
			}
		}
		if _, err := q.cl.Do("DEL", "a"); err != nil {
			return err
		}
	}
	return nil
}

// ---- C20: release and independence -----------------------------------------

func fdCount(pid int) int {
	e, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return -1
	}
	n := 0
	for _, f := range e {
		if t, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, f.Name())); err == nil && strings.HasPrefix(t, "socket:") {
			n++
		}
	}
	return n
}

var goroutineHead = regexp.MustCompile(`(?m)^goroutine \d+ `)

// appGoroutines makes the process print its goroutines and die; those running
// or created by the application are counted.
func (s *Server) appGoroutines() (int, string) {
	s.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-s.exited:
	case <-time.After(30 * time.Second):
		s.Kill()
	}
	b, _ := os.ReadFile(s.errF)
	t := string(b)
	if i := strings.Index(t, "SIGQUIT"); i >= 0 {
		t = t[i:]
	}
	n := 0
	var ex string
	for _, g := range strings.Split(t, "\n\n") {
		if goroutineHead.MatchString(g) && strings.Contains(g, "gRedis/") {
			n++
			if strings.Contains(g, "chan send") || ex == "" {
				ex = g
			}
		}
	}
	return n, clip(ex, 1500)
}

func dialRaw(s *Server) (*net.TCPConn, error) {
	w := s.newWatcher()
	for {
		c, err := net.DialTimeout("tcp", s.Addr, 2*time.Second)
		if err == nil {
			return c.(*net.TCPConn), nil
		}
		if e := w.step("connecting"); e != nil {
			return nil, e
		}
		time.Sleep(200 * time.Millisecond)
	}
}

type ending struct {
	name string
	f    func(s *Server, c *net.TCPConn, i int) error
}

// waitServerCloses: the server must close its side without our doing.
func waitServerCloses(s *Server, c *net.TCPConn, what string) error {
	t := &tickReader{c: c, s: s, what: "waiting for the server to close after " + what}
	_, err := io.Copy(io.Discard, t)
	if _, ok := asViol(err); ok {
		return err
	}
	return nil
}

var bigVal = strings.Repeat("0123456789abcdef", 4096) // 64 KB

func endings() []ending {
	req := AppendCmd(AppendCmd(nil, []string{"SET", "k", "va\r\nlue"}), []string{"RPUSH", "l", "a", "b"})
	get := func(n int) []byte {
		var b []byte
		for i := 0; i < n; i++ {
			b = AppendCmd(b, []string{"GET", "big"})
		}
		return b
	}
	rst := func(c *net.TCPConn) { c.SetLinger(0); c.Close() }
	bad := []string{"*x\r\n", "$-7\r\n", "*1\r\n$3\r\nabcdefgh\r\n", "\n", "hello\r\n", ":abc\r\n", "*2\r\n$99999999999999999999\r\n", "?\r\n"}
	return []ending{
		{"connected and closed at once", func(s *Server, c *net.TCPConn, i int) error { return c.Close() }},
		{"connected and reset at once", func(s *Server, c *net.TCPConn, i int) error { rst(c); return nil }},
		{"closed after a few commands", func(s *Server, c *net.TCPConn, i int) error {
			c.Write(req)
			buf := make([]byte, 5)
			c.SetReadDeadline(time.Now().Add(5 * time.Second))
			io.ReadFull(c, buf)
			return c.Close()
		}},
		{"reset after a few commands", func(s *Server, c *net.TCPConn, i int) error { c.Write(req); rst(c); return nil }},
		{"closed in the middle of a request", func(s *Server, c *net.TCPConn, i int) error {
			c.Write(req[:1+i%(len(req)-1)])
			if i%2 == 0 {
				time.Sleep(2 * time.Millisecond)
			}
			return c.Close()
		}},
		{"reset in the middle of a request", func(s *Server, c *net.TCPConn, i int) error {
			c.Write(req[:1+i%(len(req)-1)])
			time.Sleep(2 * time.Millisecond)
			rst(c)
			return nil
		}},
		{"half-closed by the client", func(s *Server, c *net.TCPConn, i int) error {
			c.Write(req)
			c.CloseWrite()
			defer c.Close()
			return waitServerCloses(s, c, "the client closed its side")
		}},
		{"half-closed in the middle of a request", func(s *Server, c *net.TCPConn, i int) error {
			c.Write(req[:1+i%(len(req)-1)])
			c.CloseWrite()
			defer c.Close()
			return waitServerCloses(s, c, "the client closed its side in mid-request")
		}},
		{"closed after a protocol error", func(s *Server, c *net.TCPConn, i int) error {
			c.Write([]byte(bad[i%len(bad)]))
			time.Sleep(time.Millisecond)
			return c.Close()
		}},
		{"half-closed after a protocol error and more requests", func(s *Server, c *net.TCPConn, i int) error {
			c.Write(append([]byte(bad[i%len(bad)]), bytes.Repeat(req, 50)...))
			c.CloseWrite()
			defer c.Close()
			return waitServerCloses(s, c, "a protocol error followed by the client closing its side")
		}},
		{"closed after a protocol error and more requests", func(s *Server, c *net.TCPConn, i int) error {
			c.Write(append([]byte(bad[i%len(bad)]), bytes.Repeat(req, 200)...))
			time.Sleep(3 * time.Millisecond)
			return c.Close()
		}},
		{"reset between two protocol errors", func(s *Server, c *net.TCPConn, i int) error {
			c.Write([]byte(bad[i%len(bad)] + bad[(i+1)%len(bad)] + bad[(i+3)%len(bad)]))
			time.Sleep(2 * time.Millisecond)
			rst(c)
			return nil
		}},
		{"reset with replies nobody read", func(s *Server, c *net.TCPConn, i int) error {
			c.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
			c.Write(get(200))
			time.Sleep(20 * time.Millisecond)
			rst(c)
			return nil
		}},
		{"closed with replies nobody read", func(s *Server, c *net.TCPConn, i int) error {
			c.SetWriteDeadline(time.Now().Add(300 * time.Millisecond))
			c.Write(get(200))
			time.Sleep(20 * time.Millisecond)
			return c.Close()
		}},
		{"closed while sending a long pipeline", func(s *Server, c *net.TCPConn, i int) error {
			go io.Copy(io.Discard, c)
			c.SetWriteDeadline(time.Now().Add(2 * time.Second))
			c.Write(append(bytes.Repeat(req, 500), "*3\r\n$3\r\nSE"...))
			return c.Close()
		}},
		{"cut in a large bulk", func(s *Server, c *net.TCPConn, i int) error {
			c.Write([]byte("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$3000000\r\n" + bigVal))
			if i%2 == 0 {
				rst(c)
				return nil
			}
			return c.Close()
		}},
		{"empty requests, then closed", func(s *Server, c *net.TCPConn, i int) error {
			c.Write([]byte("*0\r\n*-1\r\n*0\r\n$-1\r\n+x\r\n"))
			return c.Close()
		}},
	}
}

func checkC20(c *Ctx) error {
	c.rule = "A case is one connection ended in one particular way (distinct by way and step), after which the server's sockets and goroutines, counted in /proc and in a goroutine dump, must be back where a server without those connections has them; or one command issued while clients stall in one particular way (distinct by stall and command)."
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	// what an idle server that has served one clean connection looks like
	base, err := c.StartServer(ServerOpt{Bin: bin})
	if err != nil {
		return err
	}
	cl, err := base.Dial()
	if err != nil {
		return err
	}
	if _, err := cl.Do("PING"); err != nil {
		return err
	}
	one := fdCount(base.cmd.Process.Pid)
	cl.Close()
	time.Sleep(300 * time.Millisecond)
	baseFd := fdCount(base.cmd.Process.Pid)
	if one != baseFd+1 {
		time.Sleep(2 * time.Second)
		baseFd = fdCount(base.cmd.Process.Pid)
	}
	baseG, _ := base.appGoroutines()
	base.Close()

	ends := endings()
	per := c.N(120, 1200)
	err = c.Par(len(ends)+1, 6, func(ei int) error {
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: []int{100, 1}[ei%2], Level: []int64{0, 3}[ei%2], Stmt: []int64{0, 100}[ei%2]})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		keep, err := s.Dial()
		if err != nil {
			return err
		}
		if r, err := keep.Do("SET", "big", bigVal); err != nil || r.Kind != '+' {
			return fmt.Errorf("set-up: %v %v", r, err)
		}
		name := "ended in all the ways at once"
		if ei < len(ends) {
			name = ends[ei].name
		}
		err = c.Par(per, 10, func(i int) error {
			conn, err := dialRaw(s)
			if err != nil {
				return err
			}
			e := ends[i%len(ends)]
			if ei < len(ends) {
				e = ends[ei]
			}
			if err := e.f(s, conn, i); err != nil {
				if _, ok := asViol(err); ok {
					return err
				}
			}
			c.Eval(1)
			c.Case(fmt.Sprint(e.name, i))
			// whoever comes next finds nothing of it
			next, err := s.Dial()
			if err != nil {
				return err
			}
			defer next.Close()
			tok := fmt.Sprintf("%d of %d after", i, ei)
			rs, err := next.Pipeline([][]string{{"PING", tok}, {"SET", tok, tok}, {"GET", tok}, {"DEL", tok}})
			if err != nil {
				if msg, ok := asViol(err); ok {
					return viol("a connection opened after others were %s: %s", name, msg)
				}
				return err
			}
			if rs[0].Str != tok || rs[1].Kind != '+' || rs[2].Str != tok || rs[3].Int != 1 {
				return viol("a connection opened after others were %s has PING, SET, GET and DEL of %q answered %s %s %s %s", name, tok, rs[0], rs[1], rs[2], rs[3])
			}
			return nil
		})
		if err != nil {
			return err
		}
		// the connection that stayed must be unaffected
		if r, err := keep.Do("GET", "big"); err != nil {
			return err
		} else if r.Str != bigVal {
			return viol("after connections %s, GET on another connection is answered %s", name, r)
		}
		keep.Close()
		pid := s.cmd.Process.Pid
		left := 0
		for t := 0; t < 150; t++ {
			left = fdCount(pid) - baseFd
			if left <= 0 {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if !s.Alive() {
			return viol("server process ended (%s) after connections %s; stderr: %s", s.state, name, s.StderrTail(3000))
		}
		if left > 0 {
			_, ex := s.appGoroutines()
			return viol("15 s after %d connections %s, %d of their sockets are still open; a goroutine:\n%s", per, name, left, ex)
		}
		time.Sleep(300 * time.Millisecond)
		n, ex := s.appGoroutines()
		if n > baseG+2 {
			return viol("after %d connections %s, %d goroutines are left (%d in a server that never had them); one of them:\n%s", per, name, n, baseG, ex)
		}
		c.Count("ways_of_ending", 1)
		c.Distinct("goroutines_left", fmt.Sprint(n-baseG))
		if ei%6 == 0 {
			c.Sample(map[string]any{"ending": name, "connections": per, "sockets_left": left, "goroutines_left": n, "baseline_goroutines": baseG})
		}
		return nil
	})
	if err != nil {
		return err
	}
	if err := c.stalls(bin); err != nil {
		return err
	}
	if err := c.residue(); err != nil {
		return err
	}
	return c.exhausted(bin)
}

var gcLive = regexp.MustCompile(`(?m)^gc \d+ .* \d+->\d+->(\d+) MB`)

// liveHeap is the live heap in MB: the least of what the collections report
// that small requests, whose own data hardly counts, bring about.
func liveHeap(s *Server, cl *Client) (int, error) {
	old, err := os.ReadFile(s.errF)
	if err != nil {
		return 0, err
	}
	v := strings.Repeat("x", 50000)
	for try := 0; try < 50; try++ {
		for i := 0; i < 300; i++ {
			if _, err := cl.Do("PING", v); err != nil {
				return 0, err
			}
		}
		b, err := os.ReadFile(s.errF)
		if err != nil {
			return 0, err
		}
		m := gcLive.FindAllSubmatch(b[len(old):], -1)
		if len(m) < 12 {
			continue
		}
		best := 1 << 30
		for _, x := range m[3:] {
			n := 0
			fmt.Sscan(string(x[1]), &n)
			best = min(best, n)
		}
		return best, nil
	}
	return 0, fmt.Errorf("no collector trace on the server's standard error")
}

// residue: memory in use does not grow with the number of past connections.
func (c *Ctx) residue() error {
	bin, err := c.Bin()
	if err != nil {
		return err
	}
	ways := 3
	return c.Par(ways, ways, func(way int) error {
		s, err := c.StartServer(ServerOpt{Bin: bin, Env: []string{"GOGC=20", "GODEBUG=gctrace=1"}})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		cl, err := s.Dial()
		if err != nil {
			return err
		}
		defer cl.Close()
		reqs := []string{"*1\r\n$4\r\nPING\r\n", "", "*x\r\n"}
		serve := func(n int) error {
			return c.Par(n, 16, func(i int) error {
				conn, err := dialRaw(s)
				if err != nil {
					return err
				}
				if way > 0 {
					conn.Write([]byte(reqs[way]))
				} else {
					conn.Write([]byte(reqs[0]))
					var b [7]byte
					conn.SetReadDeadline(time.Now().Add(10 * time.Second))
					io.ReadFull(conn, b[:])
				}
				conn.SetLinger(0)
				conn.Close()
				return nil
			})
		}
		if err := serve(2000); err != nil {
			return err
		}
		before, err := liveHeap(s, cl)
		if err != nil {
			return err
		}
		n := c.N(40000, 300000)
		if err := serve(n); err != nil {
			return err
		}
		after := 0
		// what ended last may take a moment to be released
		for t := 0; t < 20; t++ {
			if after, err = liveHeap(s, cl); err != nil {
				return err
			}
			if after <= before+1 {
				break
			}
			time.Sleep(300 * time.Millisecond)
		}
		c.Eval(int64(n))
		c.Case(fmt.Sprint("residue", way))
		c.Count("past_connections_weighed", int64(n))
		c.Count(fmt.Sprintf("residue_mb_way%d", way), int64(after))
		if grew := after - before; grew > 2+n/100000 {
			return viol("after 2000 connections that ended (way %d) %d MB of memory are live, after %d more %d MB: about %d bytes are kept of each", way, before, n, after, grew<<20/n)
		}
		return nil
	})
}

// exhausted: with no descriptor left for new connections those there are keep
// being served, and when some end new ones are accepted again.
func (c *Ctx) exhausted(bin string) error {
	for i := 0; i < c.N(2, 6); i++ {
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: 3})
		if err != nil {
			return err
		}
		err = func() error {
			defer func() { c.noteServer(s); s.Close() }()
			cl, err := s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			if _, err := cl.Do("SET", "k", "v"); err != nil {
				return err
			}
			e, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid))
			if err != nil {
				return err
			}
			lim := [2]uint64{uint64(len(e) + 8), uint64(len(e) + 8)}
			if _, _, no := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(s.cmd.Process.Pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&lim)), 0, 0, 0); no != 0 {
				return fmt.Errorf("prlimit: %v", no)
			}
			var conns []*net.TCPConn
			for k := 0; k < 40; k++ {
				conn, err := dialRaw(s)
				if err != nil {
					return err
				}
				conns = append(conns, conn)
			}
			time.Sleep(time.Duration(20+60*i) * time.Millisecond)
			for k := 0; k < 20; k++ {
				r, err := cl.Do("GET", "k")
				if err != nil {
					return err
				}
				if r.Str != "v" {
					return viol("with no descriptors left GET k on an open connection is answered %s", r)
				}
			}
			for _, x := range conns {
				x.SetLinger(0)
				x.Close()
			}
			nc, err := s.Dial()
			if err != nil {
				return err
			}
			defer nc.Close()
			r, err := nc.Do("GET", "k")
			if err != nil {
				if msg, ok := asViol(err); ok {
					return viol("after the process had run out of descriptors and the connections using them ended, a new connection is not served: %s", msg)
				}
				return err
			}
			if r.Str != "v" {
				return viol("after the process had run out of descriptors GET k is answered %s", r)
			}
			c.Eval(22)
			c.Case(fmt.Sprint("exhausted", i))
			c.Count("descriptor_exhaustions", 1)
			return nil
		}()
		if err != nil {
			return err
		}
	}
	return nil
}

// stalls: clients that stop at some point must not delay others, also on the
// very keys they were using.
func (c *Ctx) stalls(bin string) error {
	type stall struct {
		name string
		f    func(conn *net.TCPConn) error
	}
	flood := func(a ...string) func(conn *net.TCPConn) error {
		return func(conn *net.TCPConn) error {
			one := AppendCmd(nil, a)
			conn.SetReadBuffer(4096)
			conn.SetWriteDeadline(time.Now().Add(700 * time.Millisecond))
			conn.Write(bytes.Repeat(one, 1+400000/len(one)))
			return nil
		}
	}
	raw := func(s string) func(conn *net.TCPConn) error {
		return func(conn *net.TCPConn) error {
			_, err := conn.Write([]byte(s))
			return err
		}
	}
	stallsL := []stall{
		{"idle", raw("")},
		{"stopped in a header", raw("*3\r\n$3\r\nSET\r\n$")},
		{"stopped in a bulk", raw("*3\r\n$3\r\nSET\r\n$3\r\nstr\r\n$100\r\nabc")},
		{"stopped after announcing 400 MB", raw("*3\r\n$3\r\nSET\r\n$3\r\nstr\r\n$400000000\r\nabc")},
		{"not reading replies of GET", flood("GET", "str")},
		{"not reading replies of GETRANGE", flood("GETRANGE", "str", "0", "-1")},
		{"not reading replies of MGET", flood("MGET", "str", "str", "other")},
		{"not reading replies of LRANGE", flood("LRANGE", "list", "0", "-1")},
		{"not reading replies of HGETALL", flood("HGETALL", "hash")},
		{"not reading replies of SMEMBERS", flood("SMEMBERS", "set")},
		{"not reading replies of SUNION", flood("SUNION", "set", "set2")},
		{"not reading replies of KEYS", flood("KEYS", "*")},
		{"not reading replies of PING", flood("PING", bigVal)},
		{"not reading replies of SET GET", flood("SET", "str", bigVal, "GET")},
		{"not reading replies of HVALS", flood("HVALS", "hash")},
		{"not reading a reply of 8 MB", flood("GET", "huge")},
		{"not reading an array of 9 MB", flood("LRANGE", "hugelist", "0", "-1")},
	}
	huge := strings.Repeat("0123456789abcdef", 8<<20/16)
	fill := [][]string{{"SET", "str", bigVal}, {"SET", "other", bigVal}, {"RPUSH", "list"}, {"HSET", "hash"}, {"SADD", "set"}, {"SADD", "set2", "x"}}
	for i := 0; i < 300; i++ {
		v := fmt.Sprintf("%d%s", i, strings.Repeat("v", 200))
		fill[2] = append(fill[2], v)
		fill[3] = append(fill[3], fmt.Sprint("f", i), v)
		fill[4] = append(fill[4], v)
	}
	use := [][]string{
		{"PING"}, {"SET", "str", bigVal}, {"APPEND", "str", "x"}, {"SETRANGE", "str", "5", "yy"}, {"GET", "str"}, {"RPUSH", "list", "z"}, {"LPOP", "list"}, {"LSET", "list", "0", "q"}, {"HSET", "hash", "f1", "new"}, {"HDEL", "hash", "f2"},
		{"SADD", "set", "n"}, {"SREM", "set", "n"}, {"SUNIONSTORE", "dst", "set", "set2"}, {"KEYS", "*"}, {"EXPIRE", "str", "1000"}, {"PERSIST", "str"}, {"SELECT", "1"}, {"SET", "elsewhere", "1"}, {"SELECT", "0"},
		{"DEL", "other"}, {"MSET", "str", bigVal, "other", "v"}, {"RENAME", "other", "str"}, {"RENAME", "str", "other"}, {"DEL", "str", "list", "hash", "set"}, {"RPUSH", "list", "again"}, {"SET", "str", bigVal},
	}
	// Each stall twice: with timers hurried, when a client may be given up too
	// soon, and with timers slowed down, when whatever is made to wait for
	// another client's time-out waits visibly.
	return c.Par(2*len(stallsL), 6, func(i int) error {
		hurry := int64(0)
		if i >= len(stallsL) {
			i -= len(stallsL)
			hurry = -20
		}
		st := stallsL[i]
		s, err := c.StartServer(ServerOpt{Bin: bin, SegNum: []int{1, 100}[i%2], Hurry: hurry})
		if err != nil {
			return err
		}
		defer func() { c.noteServer(s); s.Close() }()
		cl, err := s.Dial()
		if err != nil {
			return err
		}
		defer cl.Close()
		use := use
		if i >= len(stallsL)-2 {
			l := []string{"RPUSH", "hugelist"}
			for k := 0; k < 9; k++ {
				l = append(l, huge[:1<<20])
			}
			if _, err := cl.Pipeline([][]string{{"SET", "huge", huge}, l}); err != nil {
				return err
			}
			use = append([][]string{{"GET", "huge"}, {"LRANGE", "hugelist", "0", "-1"}, {"LRANGE", "hugelist", "1", "2"}, {"GETRANGE", "huge", "5", "2000000"}, {"MGET", "huge", "nosuch", "huge"}}, use...)
		}
		if _, err := cl.Pipeline(fill); err != nil {
			return err
		}
		var conns []*net.TCPConn
		var wg sync.WaitGroup
		width := 4
		if i < 4 {
			width = 100
		}
		if (i == 0 || i == 2) && hurry == 0 {
			width = 1000
			var lim syscall.Rlimit
			if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil && lim.Cur < 2500 {
				width = 300
			} else if i == 0 && lim.Cur >= 16000 {
				width = 10100
			}
		}
		for k := 0; k < width; k++ {
			conn, err := dialRaw(s)
			if err != nil {
				return err
			}
			conns = append(conns, conn)
			wg.Add(1)
			go func() { defer wg.Done(); st.f(conn) }()
		}
		wg.Wait()
		defer func() {
			for _, x := range conns {
				x.SetLinger(0)
				x.Close()
			}
		}()
		for round := 0; round < c.N(2, 20); round++ {
			who := cl
			t0 := time.Now()
			if round > 0 {
				// a connection opened after the stall
				if who, err = s.Dial(); err != nil {
					return err
				}
				defer who.Close()
			}
			for _, a := range use {
				r, err := who.Do(a...)
				if err != nil {
					if msg, ok := asViol(err); ok {
						return viol("with %d other clients %s: %s", width, st.name, msg)
					}
					return err
				}
				c.Eval(1)
				c.Case(st.name + strings.Join(a[:1], ""))
				if d := time.Since(t0); d > 30*time.Second {
					return viol("with %d other clients %s, %s was answered only after %v", width, st.name, showCmd(a), d)
				}
				t0 = time.Now()
				if r.Kind == '-' && a[0] != "RENAME" {
					return viol("with %d other clients %s, %s is answered %s", width, st.name, showCmd(a), r)
				}
			}
			if _, err := who.Pipeline(fill); err != nil {
				return err
			}
		}
		// requests never completed were not executed
		if strings.HasPrefix(st.name, "stopped") {
			r, err := cl.Do("GET", "str")
			if err != nil {
				return err
			}
			if r.Str != bigVal {
				return viol("clients %s never completed their SET, yet GET str shows %s", st.name, r)
			}
		}
		c.Count("stall_scenarios", 1)
		return nil
	})
}
