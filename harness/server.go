package main

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// ---- verdict errors --------------------------------------------------------

// violErr: the observed execution refutes the property.
type violErr struct{ msg string }

func (e *violErr) Error() string { return e.msg }

func viol(format string, a ...any) error { return &violErr{fmt.Sprintf(format, a...)} }

func asViol(err error) (string, bool) {
	var v *violErr
	if errors.As(err, &v) {
		return v.msg, true
	}
	return "", false
}

// ---- shared page -----------------------------------------------------------

type shmPage struct {
	now, level, hooks, yields, sleeps, nowSeen, stmt, steps, chunk, shorts, jumpIn, jumpTo, jumps, hurry, hurried int64
}

const baseMs = int64(1_800_000_000_400) // virtual start: not on a second boundary

// startOf varies the time of day: on, before and after the ends of 31 and 32
// bit seconds, before the epoch's first million, at the end of a second.
func startOf(i int) int64 {
	if i%6 != 4 {
		return 0
	}
	t := []int64{2147483647_999, 2147483600_400, 4294967290_000, 3_000_000_000_001, 999_000, 1_700_000_000_999}
	return t[i/6%len(t)]
}

// ---- server process --------------------------------------------------------

type ServerOpt struct {
	Bin     string
	SegNum  int
	DbNum   int
	Level   int64    // perturbation at lock operations
	Stmt    int64    // perturbation between statements
	Chunk   int64    // longest read the server may make
	RealClk bool     // leave the real clock
	Start   int64    // virtual start time in ms, if not baseMs
	Hurry   int64    // timers run this many times faster (1: as they are; -n: n times slower)
	Args    []string // extra arguments
	Race    bool
	NoWait  bool
	Env     []string
}

type Server struct {
	opt    ServerOpt
	Addr   string
	Dir    string
	cmd    *exec.Cmd
	shm    *shmPage
	shmMem []byte
	exited chan struct{}
	state  *os.ProcessState
	errF   string
	nowMs  int64
}

var hostCounter atomic.Uint32

func init() { hostCounter.Store(rand.Uint32N(1 << 20)) }

func freeAddr() (host string, port int) {
	for {
		n := hostCounter.Add(1)
		host = fmt.Sprintf("127.%d.%d.%d", 1+(os.Getpid()%200), (n>>8)%250+1, n%250+1)
		l, err := net.Listen("tcp", host+":0")
		if err != nil {
			continue
		}
		port = l.Addr().(*net.TCPAddr).Port
		l.Close()
		return host, port
	}
}

func mkShm(path string) (*shmPage, []byte, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	if err := f.Truncate(4096); err != nil {
		return nil, nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, nil, err
	}
	return (*shmPage)(unsafe.Pointer(&mem[0])), mem, nil
}

func (c *Ctx) StartServer(o ServerOpt) (*Server, error) {
	if o.SegNum == 0 {
		o.SegNum = 100
	}
	if o.DbNum == 0 {
		o.DbNum = 4
	}
	var last error
	for try := 0; try < 5; try++ {
		s, err := c.startOnce(o)
		if err == nil {
			return s, nil
		}
		last = err
		c.Count("failed_starts", 1)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("start failed:", err)
		}
		if _, ok := asViol(err); !ok {
			time.Sleep(50 * time.Millisecond)
		}
	}
	return nil, last
}

func (c *Ctx) startOnce(o ServerOpt) (*Server, error) {
	dir, err := os.MkdirTemp(c.Work, "srv")
	if err != nil {
		return nil, err
	}
	host, port := freeAddr()
	s := &Server{opt: o, Addr: fmt.Sprintf("%s:%d", host, port), Dir: dir, exited: make(chan struct{})}
	s.shm, s.shmMem, err = mkShm(filepath.Join(dir, "shm"))
	if err != nil {
		return nil, err
	}
	if !o.RealClk {
		s.nowMs = baseMs
		if o.Start != 0 {
			s.nowMs = o.Start
		}
		atomic.StoreInt64(&s.shm.now, s.nowMs*1e6)
	}
	atomic.StoreInt64(&s.shm.level, o.Level)
	atomic.StoreInt64(&s.shm.stmt, o.Stmt)
	atomic.StoreInt64(&s.shm.chunk, o.Chunk)
	if o.Hurry == 0 {
		o.Hurry = 1000
	}
	atomic.StoreInt64(&s.shm.hurry, o.Hurry)
	args := []string{"-host", host, "-port", strconv.Itoa(port), "-logdir", dir,
		"-segnum", strconv.Itoa(o.SegNum), "-dbnum", strconv.Itoa(o.DbNum)}
	args = append(args, o.Args...)
	s.cmd = exec.Command(o.Bin, args...)
	s.cmd.Dir = dir
	s.errF = filepath.Join(dir, "stderr")
	er, err := os.Create(s.errF)
	if err != nil {
		return nil, err
	}
	defer er.Close()
	// stdout repeats the log; it is not looked at.
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	defer null.Close()
	s.cmd.Stdout = null
	s.cmd.Stderr = er
	s.cmd.Env = []string{"VERIF_SHM=" + filepath.Join(dir, "shm"), "PATH=/usr/bin:/bin", "HOME=" + dir,
		"GORACE=halt_on_error=0 history_size=3 log_path=" + filepath.Join(dir, "race"), "GOTRACEBACK=all"}
	s.cmd.Env = append(s.cmd.Env, o.Env...)
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := startLocked(s.cmd); err != nil {
		return nil, err
	}
	go func() {
		s.cmd.Wait()
		s.state = s.cmd.ProcessState
		close(s.exited)
	}()
	c.track(s)
	if o.NoWait {
		return s, nil
	}
	for i := 0; i < 3000; i++ {
		if !s.Alive() {
			return nil, viol("server exited during start-up: %s; stderr: %s", s.state, s.StderrTail(2000))
		}
		conn, err := net.DialTimeout("tcp", s.Addr, time.Second)
		if err == nil {
			conn.Close()
			return s, nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	d := s.dumpAll()
	s.Kill()
	return nil, fmt.Errorf("server did not listen on %s; goroutines: %s", s.Addr, d)
}

// Pdeathsig is tied to the creating thread; starting from one locked OS thread
// that lives as long as the process keeps it from firing early.
var startCh = make(chan func())

func init() {
	go func() {
		runtime.LockOSThread()
		for f := range startCh {
			f()
		}
	}()
}

func startLocked(cmd *exec.Cmd) error {
	done := make(chan error)
	startCh <- func() { done <- cmd.Start() }
	return <-done
}

func (s *Server) Alive() bool {
	select {
	case <-s.exited:
		return false
	default:
		return true
	}
}

func (s *Server) StderrTail(n int) string {
	b, _ := os.ReadFile(s.errF)
	if len(b) > n {
		// the first lines carry the panic message
		return string(b[:n/2]) + "\n...\n" + string(b[len(b)-n/2:])
	}
	return string(b)
}

func (s *Server) Kill() {
	if s.cmd != nil && s.cmd.Process != nil && s.Alive() {
		s.cmd.Process.Kill()
		<-s.exited
	}
}

// Close stops the server and removes its directory.
func (s *Server) Close() {
	s.Kill()
	if s.shmMem != nil {
		// The page stays mapped: other goroutines may still look at it.
		s.shmMem = nil
	}
	os.RemoveAll(s.Dir)
}

// Terminate asks for a graceful stop and waits; used where output written at
// exit is wanted.
func (s *Server) Terminate() {
	if s.Alive() {
		s.cmd.Process.Signal(syscall.SIGTERM)
		select {
		case <-s.exited:
		case <-time.After(20 * time.Second):
			s.Kill()
		}
	}
}

// Perturb switches the injected delays the server was started with on or off.
func (s *Server) Perturb(on bool) {
	l, t := s.opt.Level, s.opt.Stmt
	if !on {
		l, t = 0, 0
	}
	atomic.StoreInt64(&s.shm.level, l)
	atomic.StoreInt64(&s.shm.stmt, t)
}

// ---- clock -----------------------------------------------------------------

func (s *Server) Now() int64 { return s.nowMs }

func (s *Server) SetNow(ms int64) {
	atomic.StoreInt64(&s.shm.jumpIn, 0)
	s.nowMs = ms
	atomic.StoreInt64(&s.shm.now, ms*1e6)
}

// JumpAfter lets the virtual clock jump to ms right after the server's n-th
// reading of it from now on, so that time passes in the middle of a command.
// SetNow ends it.
func (s *Server) JumpAfter(n int, ms int64) {
	atomic.StoreInt64(&s.shm.jumpTo, ms*1e6)
	atomic.StoreInt64(&s.shm.jumpIn, int64(n))
}

// ---- progress monitor ------------------------------------------------------

type procStat struct {
	cpu      time.Duration
	rss      int64
	sleeping bool
	threads  int
}

func readProc(pid int) (procStat, error) {
	var ps procStat
	ents, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", pid))
	if err != nil {
		return ps, err
	}
	ps.sleeping = true
	for _, e := range ents {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", pid, e.Name()))
		if err != nil {
			continue
		}
		i := strings.LastIndexByte(string(b), ')')
		if i < 0 {
			continue
		}
		f := strings.Fields(string(b[i+1:]))
		if len(f) < 13 {
			continue
		}
		if f[0] != "S" && f[0] != "I" {
			ps.sleeping = false
		}
		ut, _ := strconv.ParseInt(f[11], 10, 64)
		st, _ := strconv.ParseInt(f[12], 10, 64)
		ps.cpu += time.Duration(ut+st) * 10 * time.Millisecond
		ps.threads++
	}
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err == nil {
		f := strings.Fields(string(b))
		if len(f) > 1 {
			p, _ := strconv.ParseInt(f[1], 10, 64)
			ps.rss = p * 4096
		}
	}
	return ps, nil
}

const (
	cpuBudget  = 40 * time.Second // of server CPU on one batch of tiny requests
	rssBudget  = 9 << 30
	wallBudget = 400 * time.Second
	quietSecs  = 12 // consecutive one-second samples without CPU or running threads
)

// Watch observes the process while something is awaited. It returns nil when
// done() says so, a violation when the process died, is quiescent for good
// (nothing it could still do without new input) or burns CPU or memory without
// end, and an inconclusive error when the wall budget runs out.
type watcher struct {
	s      *Server
	start  time.Time
	cpu0   time.Duration
	last   procStat
	quiet  int
	primed bool
}

func (s *Server) newWatcher() *watcher { return &watcher{s: s, start: time.Now()} }

// step is called about once a second of waiting.
func (w *watcher) step(what string) error {
	s := w.s
	if !s.Alive() {
		return viol("server process ended (%s) while %s; stderr: %s", s.state, what, s.StderrTail(3000))
	}
	ps, err := readProc(s.cmd.Process.Pid)
	if err != nil {
		return nil
	}
	if !w.primed {
		w.primed, w.cpu0, w.last = true, ps.cpu, ps
		return nil
	}
	if ps.sleeping && ps.cpu-w.last.cpu <= 10*time.Millisecond {
		w.quiet++
	} else {
		w.quiet = 0
	}
	w.last = ps
	if w.quiet >= quietSecs {
		return viol("no reply while %s: the server is quiescent (all %d threads asleep, no CPU used for %d samples); goroutines: %s",
			what, ps.threads, w.quiet, s.dumpGoroutines())
	}
	if ps.rss > rssBudget {
		s.Kill()
		return viol("server memory grew to %d MB while %s", ps.rss>>20, what)
	}
	if ps.cpu-w.cpu0 > cpuBudget {
		d := s.dumpGoroutines()
		return viol("server used %v of CPU without replying while %s; goroutines: %s", ps.cpu-w.cpu0, what, d)
	}
	if time.Since(w.start) > wallBudget {
		return fmt.Errorf("inconclusive: no reply within %v while %s", wallBudget, what)
	}
	return nil
}

func (s *Server) dumpAll() string {
	s.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-s.exited:
	case <-time.After(10 * time.Second):
	}
	return s.StderrTail(6000)
}

// dumpGoroutines makes the process print its stacks and die.
func (s *Server) dumpGoroutines() string {
	s.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-s.exited:
	case <-time.After(20 * time.Second):
		s.Kill()
	}
	b, _ := os.ReadFile(s.errF)
	t := string(b)
	if i := strings.Index(t, "SIGQUIT"); i >= 0 {
		t = t[i:]
	}
	var keep []string
	for _, g := range strings.Split(t, "\n\n") {
		if strings.Contains(g, "gRedis/") {
			keep = append(keep, clip(g, 900))
		}
		if len(keep) == 6 {
			break
		}
	}
	return strings.Join(keep, "\n\n")
}

// ---- client connection -----------------------------------------------------

type Client struct {
	s    *Server
	c    net.Conn
	r    *bufio.Reader
	t    *tickReader
	wbuf []byte
}

var errClosed = errors.New("connection closed by server")

func (s *Server) Dial() (*Client, error) {
	w := s.newWatcher()
	for {
		c, err := net.DialTimeout("tcp", s.Addr, 2*time.Second)
		if err == nil {
			t := &tickReader{c: c, s: s, what: "waiting for a reply"}
			return &Client{s: s, c: c, t: t, r: bufio.NewReaderSize(t, 1<<16)}, nil
		}
		if !s.Alive() {
			return nil, viol("server process ended (%s); stderr: %s", s.state, s.StderrTail(3000))
		}
		if err := w.step("connecting"); err != nil {
			return nil, err
		}
		time.Sleep(100 * time.Millisecond)
	}
}

// tickReader turns read deadlines into retries driven by the progress monitor.
type tickReader struct {
	c net.Conn
	w *watcher
	// what describes what is awaited
	what string
	s    *Server
}

func (t *tickReader) Read(p []byte) (int, error) {
	for {
		t.c.SetReadDeadline(time.Now().Add(time.Second))
		n, err := t.c.Read(p)
		if n > 0 {
			t.w = nil
			return n, nil
		}
		if err == nil {
			continue
		}
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			if t.w == nil {
				t.w = t.s.newWatcher()
			}
			if e := t.w.step(t.what); e != nil {
				return 0, e
			}
			continue
		}
		return 0, err
	}
}

func (c *Client) Close() { c.c.Close() }

// send writes raw bytes; a blocked write is watched like a missing reply.
func (c *Client) send(b []byte, what string) error {
	var w *watcher
	for len(b) > 0 {
		c.c.SetWriteDeadline(time.Now().Add(time.Second))
		n, err := c.c.Write(b)
		b = b[n:]
		if n > 0 {
			w = nil
		}
		if err == nil {
			continue
		}
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			if w == nil {
				w = c.s.newWatcher()
			}
			if e := w.step("sending " + what); e != nil {
				return e
			}
			continue
		}
		return c.connErr(err, what)
	}
	return nil
}

// connErr classifies a failure of a connection that sent only valid requests.
func (c *Client) connErr(err error, what string) error {
	if _, ok := asViol(err); ok {
		return err
	}
	if isProtoErr(err) {
		return viol("%v (answering %s)", err, what)
	}
	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, syscall.ECONNRESET) || errors.Is(err, syscall.EPIPE) {
		// Give a dying process a moment to be reaped.
		select {
		case <-c.s.exited:
			return viol("server process ended (%s) while answering %s; stderr: %s", c.s.state, what, c.s.StderrTail(3000))
		case <-time.After(3 * time.Second):
		}
		return viol("server closed the connection (%v) instead of answering %s", err, what)
	}
	return err
}

func (c *Client) tick(what string) { c.t.what, c.t.w = what, nil }

// Do sends one command and waits for its reply.
func (c *Client) Do(args ...string) (Reply, error) {
	rs, err := c.Pipeline([][]string{args})
	if err != nil {
		return Reply{}, err
	}
	return rs[0], nil
}

// Pipeline sends all commands in one write and reads all replies.
func (c *Client) Pipeline(cmds [][]string) ([]Reply, error) {
	c.wbuf = c.wbuf[:0]
	for _, a := range cmds {
		c.wbuf = AppendCmd(c.wbuf, a)
	}
	what := showCmd(cmds[0])
	if len(cmds) > 1 {
		what = fmt.Sprintf("pipeline of %d starting with %s", len(cmds), what)
	}
	// Large pipelines are written concurrently with reading, otherwise both
	// sides could block on full socket buffers.
	var werr chan error
	if len(c.wbuf) > 32<<10 {
		werr = make(chan error, 1)
		buf := c.wbuf
		go func() { werr <- c.send(buf, what) }()
	} else if err := c.send(c.wbuf, what); err != nil {
		return nil, err
	}
	out := make([]Reply, 0, len(cmds))
	for i := range cmds {
		c.tick(showCmd(cmds[i]))
		r, err := ReadReply(c.r)
		if err != nil {
			if werr != nil {
				c.c.Close()
				<-werr
			}
			return out, c.connErr(err, showCmd(cmds[i]))
		}
		out = append(out, r)
	}
	if werr != nil {
		if err := <-werr; err != nil {
			return out, err
		}
	}
	return out, nil
}

// ---- race reports ----------------------------------------------------------

var raceFn = regexp.MustCompile(`(?m)^  (\S+\(.*\))$`)

// RaceReports returns the deduplicated race reports the process has written.
func (s *Server) RaceReports() (total int, uniq map[string]string) {
	uniq = map[string]string{}
	files, _ := filepath.Glob(filepath.Join(s.Dir, "race.*"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			total++
			// signature: top application frame of each of the two accesses
			parts := strings.SplitN(blk, "Previous", 2)
			sig := ""
			for _, p := range parts {
				p, _, _ = strings.Cut(p, "\n\n")
				app := ""
				for _, m := range raceFn.FindAllStringSubmatch(p, -1) {
					fn, _, _ := strings.Cut(m[1], "(0x")
					if strings.HasPrefix(fn, "gRedis/") || strings.HasPrefix(fn, "main.") {
						app = fn
						break
					}
					if app == "" {
						app = fn
					}
				}
				sig += app + " / "
			}
			if _, ok := uniq[sig]; !ok {
				uniq[sig] = blk
			}
		}
	}
	return
}
