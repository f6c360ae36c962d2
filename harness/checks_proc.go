package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	checks["C23"] = checkC23
	checks["C24"] = checkC24
	checks["C25"] = checkC25
}

// ---- processes started with arbitrary arguments -----------------------------

type launchOpt struct {
	bin         string
	args        []string
	level, stmt int64
	maxFiles    int
}

// launch starts the server in dir with exactly these arguments; its output goes
// to stdout and stderr files there.
func (c *Ctx) launch(dir string, o launchOpt) (*Server, error) {
	s := &Server{opt: ServerOpt{Bin: o.bin, Level: o.level, Stmt: o.stmt}, Dir: dir, exited: make(chan struct{})}
	var err error
	shm := filepath.Join(dir, "shm")
	s.shm, s.shmMem, err = mkShm(shm)
	if err != nil {
		return nil, err
	}
	s.shm.level, s.shm.stmt = o.level, o.stmt
	if o.maxFiles > 0 {
		s.cmd = exec.Command("/bin/sh", append([]string{"-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, o.maxFiles), o.bin}, o.args...)...)
	} else {
		s.cmd = exec.Command(o.bin, o.args...)
	}
	s.cmd.Dir = dir
	s.errF = filepath.Join(dir, "stderr")
	er, err := os.Create(s.errF)
	if err != nil {
		return nil, err
	}
	defer er.Close()
	out, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		return nil, err
	}
	defer out.Close()
	s.cmd.Stdout, s.cmd.Stderr = out, er
	s.cmd.Env = []string{"VERIF_SHM=" + shm, "PATH=/usr/bin:/bin", "HOME=" + dir, "GOTRACEBACK=all"}
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := startLocked(s.cmd); err != nil {
		return nil, err
	}
	go func() {
		s.cmd.Wait()
		s.state = s.cmd.ProcessState
		close(s.exited)
	}()
	c.track(s)
	return s, nil
}

// listening returns the addresses the process listens on.
func (s *Server) listening() []string {
	pid := s.cmd.Process.Pid
	fds, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	if err != nil {
		return nil
	}
	inodes := map[string]bool{}
	for _, f := range fds {
		l, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, f.Name()))
		if strings.HasPrefix(l, "socket:[") {
			inodes[strings.TrimSuffix(l[8:], "]")] = true
		}
	}
	if len(inodes) == 0 {
		return nil
	}
	var out []string
	for _, fam := range []string{"tcp", "tcp6"} {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/%s", pid, fam))
		for _, line := range strings.Split(string(b), "\n") {
			f := strings.Fields(line)
			if len(f) < 10 || f[3] != "0A" || !inodes[f[9]] {
				continue
			}
			hp := strings.Split(f[1], ":")
			raw, err := hex.DecodeString(hp[0])
			if err != nil || len(hp) != 2 {
				continue
			}
			for i := 0; i+4 <= len(raw); i += 4 {
				raw[i], raw[i+1], raw[i+2], raw[i+3] = raw[i+3], raw[i+2], raw[i+1], raw[i]
			}
			port, _ := strconv.ParseUint(hp[1], 16, 16)
			out = append(out, net.JoinHostPort(net.IP(raw).String(), strconv.Itoa(int(port))))
		}
	}
	sort.Strings(out)
	return slices.Compact(out) // the table may move while it is read
}

func (s *Server) output() string {
	a, _ := os.ReadFile(filepath.Join(s.Dir, "stdout"))
	b, _ := os.ReadFile(s.errF)
	return string(a) + string(b)
}

func crashed(out string) bool {
	for _, m := range []string{"panic: ", "fatal error: ", "goroutine 1 [", "DATA RACE"} {
		if strings.Contains(out, m) {
			return true
		}
	}
	return false
}

// settle waits until the process exits or listens. A process doing neither for
// as long as the progress monitor allows is reported by it.
func (s *Server) settle() (listens []string, err error) {
	w := s.newWatcher()
	next := time.Now().Add(time.Second)
	for {
		if !s.Alive() {
			return nil, nil
		}
		if l := s.listening(); len(l) > 0 {
			return l, nil
		}
		time.Sleep(2 * time.Millisecond)
		if time.Now().After(next) {
			next = next.Add(time.Second)
			if err := w.step("starting up"); err != nil {
				if !s.Alive() {
					if v, ok := asViol(err); !ok || !strings.Contains(v, "quiescent") {
						return nil, nil
					}
				}
				return nil, err
			}
		}
	}
}

// waitExit waits for the process to end after it was told to.
func (s *Server) waitExit(why string) error {
	w := s.newWatcher()
	for {
		select {
		case <-s.exited:
			return nil
		case <-time.After(time.Second):
			if !s.Alive() {
				return nil
			}
			if err := w.step("waiting for it to exit " + why); err != nil {
				return err
			}
			if d := time.Since(w.start); d > 90*time.Second {
				return viol("the process is still running %v after it was told to stop (%s); goroutines: %s", d.Round(time.Second), why, s.dumpGoroutines())
			}
		}
	}
}

// ---- C23: configuration ----------------------------------------------------

var settings = []string{"host", "port", "logdir", "loglevel", "segnum", "dbnum"}
var logLevels = []string{"debug", "info", "warning", "panic", "error"}

var badValues = map[string][]string{
	"host":     {"256.1.1.1", "1.2.3.4.5", "not-an-ip", "127.0.0", "127.0.0.1:80"},
	"port":     {"abc", "-1", "65536", "70000", "1.5", "12a", "99999999999999999999", "-65535"},
	"loglevel": {"verbose", "loud", "1", "infoo", "inf", "debuginfo"},
	"segnum":   {"0", "-1", "abc", "2.5", "1e3", "99999999999999999999999", "-100"},
	"dbnum":    {"0", "-1", "abc", "2.5", "1e3", "99999999999999999999999", "-16"},
}

var defaultAddrMu sync.Mutex

func checkC23(c *Ctx) error {
	c.rule = "A case is one start of the server process with a generated combination of flags and configuration file, sound or with one defect; judged by its listening sockets, exit status, output, SELECT range and log file. Distinct by which settings came from where, their values' classes, the file's layout and the defect."
	bin, err := c.Bin()
	if err != nil {
		return err
	}
	return c.Par(c.N(1000, 40000), 8, func(i int) error { return c.confCase(bin, i) })
}

func randCase(r *rand.Rand, s string) string {
	b := []byte(s)
	switch r.IntN(3) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	}
	for i := range b {
		if r.IntN(2) == 0 {
			b[i] = bytes.ToUpper(b[i : i+1])[0]
		}
	}
	return string(b)
}

func (c *Ctx) confCase(bin string, i int) error {
	r := c.Rand(23, uint64(i))
	dir, err := os.MkdirTemp(c.Work, "conf")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	// what each source says
	flags, file := map[string]string{}, map[string]string{}
	host1, port1 := freeAddr()
	host2, port2 := freeAddr()
	if l, err := net.Listen("tcp", "[::1]:0"); err == nil && i%12 == 5 {
		host2, port2 = "::1", l.Addr().(*net.TCPAddr).Port
		l.Close()
	}
	dflt := map[string]string{"host": "127.0.0.1", "port": "6379", "logdir": "./", "loglevel": "info", "segnum": "100", "dbnum": "16"}
	places := []string{"."}
	value := func(name string, n int) string {
		if r.IntN(9) == 0 {
			return dflt[name] // said, not left out
		}
		switch name {
		case "host":
			return []string{host1, host2}[n]
		case "port":
			return []string{strconv.Itoa(port1), strconv.Itoa(port2)}[n]
		case "logdir":
			p := []string{"fl", "co"}[n]
			if r.IntN(3) == 0 {
				p += []string{"#1", "=x", "日志", ";b", "%d", "'q'", "$HOME", "\\n", "//", ".log", "-", strings.Repeat("l", 200)}[r.IntN(12)]
			}
			places = append(places, p)
			switch r.IntN(4) {
			case 0: // to be created
			case 1:
				os.Mkdir(filepath.Join(dir, p), 0o755)
			case 2:
				return filepath.Join(dir, p)
			case 3:
				os.Mkdir(filepath.Join(dir, p), 0o755)
				return "./" + p + "/"
			}
			return p
		case "loglevel":
			return randCase(r, logLevels[r.IntN(len(logLevels))])
		case "segnum":
			return strconv.Itoa([]int{1, 2, 7, 50, 100, 101, 1024, 3000}[r.IntN(8)])
		}
		return strconv.Itoa([]int{1, 2, 3, 15, 16, 17, 40}[r.IntN(7)])
	}
	shape := ""
	useFile := r.IntN(5) > 0
	for _, n := range settings {
		w := r.IntN(4)
		if i%10 == 7 && n != "logdir" {
			w = 0
		}
		if n == "host" || n == "port" {
			// mostly explicit, as the default port can be used by one at a time
			if w == 0 && i%5 != 2 {
				w = 1 + r.IntN(3)
			}
			if !useFile && w == 2 && i%5 != 2 {
				w = 1
			}
		}
		if w&1 != 0 {
			flags[n] = value(n, 0)
		}
		if w&2 != 0 && useFile {
			file[n] = value(n, 1)
		}
		shape += fmt.Sprint(w)
	}
	eff := map[string]string{}
	for k, v := range dflt {
		eff[k] = v
	}
	for k, v := range flags {
		eff[k] = v
	}
	for k, v := range file {
		eff[k] = v
	}
	// at most one defect
	defect, badLine := "", ""
	filePath := filepath.Join(dir, "redis.conf")
	writeFile := useFile
	if r.IntN(2) == 0 {
		switch k := r.IntN(9); {
		case k == 0:
			defect, useFile, writeFile = "configuration file missing", true, false
		case k == 1:
			defect, useFile, writeFile = "configuration file is a directory", true, false
			os.Mkdir(filePath, 0o755)
		case k == 2 && useFile:
			n := settings[r.IntN(len(settings))]
			delete(file, n)
			badLine = randCase(r, n)
			defect = "no value for " + n + " in the file"
		case k <= 5 && useFile:
			n := settings[r.IntN(len(settings))]
			if n == "logdir" {
				n = "dbnum"
			}
			l := badValues[n]
			v := l[r.IntN(len(l))]
			delete(file, n)
			badLine = randCase(r, n) + " " + v
			defect = n + " " + v + " in the file"
		case k == 6:
			n := settings[r.IntN(len(settings))]
			if n == "logdir" || file[n] != "" {
				break
			}
			l := badValues[n]
			v := l[r.IntN(len(l))]
			flags[n] = v
			defect = "flag " + n + " " + v
		case k == 7:
			bad := filepath.Join(dir, "afile")
			os.WriteFile(bad, []byte("x"), 0o600)
			what := "logdir is a file"
			switch r.IntN(3) {
			case 0:
				bad = filepath.Join(bad, "log")
				what = "logdir is below a file"
			case 1:
				bad = filepath.Join(dir, "full")
				os.MkdirAll(filepath.Join(bad, "redis.log"), 0o755)
				what = "redis.log in logdir is a directory"
			}
			if useFile && r.IntN(2) == 0 {
				file["logdir"] = bad
			} else if file["logdir"] == "" {
				flags["logdir"] = bad
			} else {
				break
			}
			defect = what
		case k == 8:
			flags["nosuchflag"] = "1"
			defect = "unknown flag"
		}
	}
	// the file's text
	text := ""
	if writeFile {
		sp := func(least int) string {
			n := least
			if r.IntN(3) == 0 {
				n += r.IntN(4)
			}
			if r.IntN(60) == 0 {
				n += []int{5000, 70000}[r.IntN(2)]
			}
			b := make([]byte, n)
			for j := range b {
				b[j] = " \t"[r.IntN(6)/5]
			}
			return string(b)
		}
		nl := "\n"
		if r.IntN(10) == 0 {
			nl = "\r\n"
		}
		var names []string
		for n := range file {
			names = append(names, n)
		}
		sort.Strings(names)
		if badLine != "" {
			names = append(names, "")
		}
		r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		for j, n := range names {
			for r.IntN(3) == 0 {
				text += sp(0) + nl
			}
			if r.IntN(60) == 0 {
				text += strings.Repeat(nl, 3000)
			}
			if n == "" {
				text += sp(0) + badLine + sp(0)
			} else {
				text += sp(0) + randCase(r, n) + sp(1) + file[n] + sp(0)
			}
			if j < len(names)-1 || r.IntN(2) == 0 {
				text += nl
			} else {
				shape += "noeol"
			}
		}
		for r.IntN(4) == 0 {
			text += nl
		}
		if err := os.WriteFile(filePath, []byte(text), 0o600); err != nil {
			return err
		}
	}
	if useFile {
		if flags["config"] = filePath; r.IntN(2) == 0 {
			flags["config"] = "redis.conf"
		}
	}
	var names, args []string
	for n := range flags {
		names = append(names, n)
	}
	sort.Strings(names)
	r.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
	for _, n := range names {
		switch r.IntN(3) {
		case 0:
			args = append(args, "-"+n, flags[n])
		case 1:
			args = append(args, "-"+n+"="+flags[n])
		default:
			args = append(args, "--"+n+"="+flags[n])
		}
	}
	desc := fmt.Sprintf("arguments %q; configuration file %q", args, clip(text, 400))
	want := net.JoinHostPort(eff["host"], eff["port"])
	if defect == "" && (eff["host"] == "127.0.0.1" || eff["host"] == "::1") {
		defaultAddrMu.Lock()
		defer defaultAddrMu.Unlock()
		l, err := net.Listen("tcp", want)
		if err != nil {
			c.Count("skipped_address_in_use", 1)
			return nil
		}
		l.Close()
	} else if defect != "" {
		defaultAddrMu.Lock()
		defer defaultAddrMu.Unlock()
	}
	s, err := c.launch(dir, launchOpt{bin: bin, args: args})
	if err != nil {
		return err
	}
	defer s.Close()
	ls, err := s.settle()
	if err != nil {
		if msg, ok := asViol(err); ok {
			return viol("%s\n%s", msg, desc)
		}
		return err
	}
	c.Eval(1)
	c.Case(shape + defect + fmt.Sprint(useFile))
	if defect != "" {
		c.Count("defective_configurations", 1)
		c.Distinct("defects", defect)
		if ls != nil {
			return viol("defective configuration (%s) accepted: the process listens on %v; %s", defect, ls, desc)
		}
		out := s.output()
		if crashed(out) {
			return viol("defective configuration (%s) crashes the process: %s; %s", defect, clip(out, 1500), desc)
		}
		if s.state.ExitCode() <= 0 {
			return viol("defective configuration (%s): the process ends with %s instead of a failure status; %s", defect, s.state, desc)
		}
		if strings.TrimSpace(out) == "" {
			return viol("defective configuration (%s): the process exits without reporting anything; %s", defect, desc)
		}
		return nil
	}
	if ls == nil {
		out := s.output()
		if strings.Contains(out, "address already in use") {
			c.Count("skipped_address_in_use", 1)
			return nil
		}
		return viol("sound configuration refused (%s): %s; %s", s.state, clip(out, 1500), desc)
	}
	if len(ls) != 1 || ls[0] != want {
		return viol("configured to listen on %s, listens on %v; %s", want, ls, desc)
	}
	s.Addr = want
	cl, err := s.Dial()
	if err != nil {
		return err
	}
	db, _ := strconv.Atoi(eff["dbnum"])
	rs, err := cl.Pipeline([][]string{{"SELECT", strconv.Itoa(db - 1)}, {"SELECT", strconv.Itoa(db)}, {"SET", "k", "v"}, {"GET", "k"}})
	if err != nil {
		return err
	}
	if rs[0].Kind != '+' || rs[1].Kind != '-' || rs[3].Str != "v" {
		return viol("with %d databases configured, SELECT %d, SELECT %d, SET, GET are answered %v; %s", db, db-1, db, rs, desc)
	}
	cl.Close()
	bad, err := s.Dial()
	if err != nil {
		return err
	}
	bad.c.Write([]byte("*1\r\n$zz\r\n"))
	bad.c.SetReadDeadline(time.Now().Add(5 * time.Second))
	io.Copy(io.Discard, bad.c)
	bad.Close()
	logf := filepath.Join(eff["logdir"], "redis.log")
	if !filepath.IsAbs(logf) {
		logf = filepath.Join(dir, logf)
	}
	lvl := 0
	for j, n := range logLevels {
		if strings.EqualFold(n, eff["loglevel"]) {
			lvl = j
		}
	}
	// the lines appear soon; an absent one is given ten seconds
	var text2 string
	for n := 0; n < 1000; n++ {
		b, _ := os.ReadFile(logf)
		text2 = string(b)
		if (lvl > 1 || strings.Contains(text2, "[info]")) && (lvl > 3 || strings.Contains(text2, "[panic]")) {
			if len(b) > 0 || n > 20 {
				break
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	if _, err := os.Stat(logf); err != nil {
		return viol("no redis.log in the configured directory %s: %v; %s", eff["logdir"], err, desc)
	}
	for j, n := range logLevels {
		has := strings.Contains(text2, "["+n+"]")
		if has && j < lvl {
			return viol("log level %s configured, yet the log has a line at level %s; %s", eff["loglevel"], n, desc)
		}
		if !has && j >= lvl && (n == "info" || n == "panic") {
			return viol("log level %s configured, yet connections and a protocol error left no line at level %s: %q; %s", eff["loglevel"], n, clip(text2, 600), desc)
		}
	}
	// nowhere else
	for _, d := range append(places, "fl", "co") {
		p := filepath.Join(dir, d, "redis.log")
		if p == filepath.Clean(logf) {
			continue
		}
		if _, err := os.Stat(p); err == nil {
			return viol("log directory %s configured, yet %s exists; %s", eff["logdir"], p, desc)
		}
	}
	c.Count("sound_configurations", 1)
	s.Terminate()
	if i < 5 {
		c.Sample(map[string]any{"args": args, "file": clip(text, 300), "listens": ls})
	}
	return nil
}

// ---- C24: the log ----------------------------------------------------------

var (
	addrRe  = regexp.MustCompile(`\d+\.\d+\.\d+\.\d+:\d+`)
	stampRe = regexp.MustCompile(`\d{4}/\d\d/\d\d \d\d:\d\d:\d\d(\.\d+)?`)
	levelRe = regexp.MustCompile(`\[(debug|info|warning|panic|error)\]`)
)

func checkC24(c *Ctx) error {
	c.rule = "A case is one connection opened and ended during a burst of concurrent ones, of the kinds: closed cleanly with or without requests, protocol error, data that is no array, reset, cut in mid-request; afterwards redis.log must hold its lines exactly once, whole, at their level. Distinct by scenario, kind and log level."
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	return c.Par(c.N(160, 4000), 8, func(i int) error { return c.logScenario(bin, i) })
}

var logCmds = [][]string{{"SELECT", "1"}, {"SELECT", "15"}, {"SELECT", "0"}, {"SELECT", "99"}, {"SELECT", "x"}, {"SET", "k", "v"}, {"GET", "k"}, {"NOSUCH"}, {"GET"}, {"INCR", "k"},
	{"LPUSH", "k", "a"}, {"RPUSH", "l", "a"}, {"KEYS", "*"}, {"DEL", "k", "l"}, {"PING", "x"}, {"EXPIRE", "k", "1"}, {"SADD", "s", "a"}, {"SPOP", "s"}, {"HSET", "h", "f", "v"}, {""}, {"GET", "100%d%s%n"}, {"NO%sSUCH", "%d"}}

type logConn struct {
	addr string
	kind int // 0 clean after requests, 1 clean without any, 2 protocol error, 3 non-array, then clean, 4 reset, 5 cut
}

func (c *Ctx) logConn(s *Server, r *rand.Rand, kind int) (logConn, error) {
	cl, err := s.Dial()
	if err != nil {
		return logConn{}, err
	}
	defer cl.Close()
	out := logConn{cl.c.LocalAddr().String(), kind}
	if kind != 1 {
		// a reply proves the connection was taken up
		if _, err := cl.Do("PING"); err != nil {
			return out, err
		}
		// whatever else it did before does not matter to the log
		for n := r.IntN(4); n > 0; n-- {
			if _, err := cl.Do(logCmds[r.IntN(len(logCmds))]...); err != nil {
				return out, err
			}
		}
	}
	switch kind {
	case 2:
		bad := []string{"*1\r\n$zz\r\n", "*x\r\n", "!\r\n", "*1\r\n$3\r\nabcde\r\n", "*1\r\n$-7\r\n"}
		cl.c.Write([]byte(bad[r.IntN(len(bad))]))
		cl.c.SetReadDeadline(time.Now().Add(10 * time.Second))
		io.Copy(io.Discard, cl.c)
	case 3:
		cl.c.Write([]byte([]string{"+hello\r\n", ":12\r\n", "$3\r\nabc\r\n"}[r.IntN(3)]))
		if _, err := cl.Do("PING"); err != nil {
			return out, err
		}
	case 4:
		cl.c.(*net.TCPConn).SetLinger(0)
	case 5:
		cl.c.Write([]byte("*2\r\n$3\r\nGE"))
	}
	return out, nil
}

// what redis.log holds before the first run of some scenarios
var oldLogs = map[int]int{5: 2 << 20, 17: 11 << 20, 29: 65 << 20, 41: 101 << 20}

func (c *Ctx) logScenario(bin string, i int) error {
	r0 := c.Rand(24, uint64(i))
	dir, err := os.MkdirTemp(c.Work, "log")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	logDir := filepath.Join(dir, "l")
	logf := filepath.Join(logDir, "redis.log")
	host, port := freeAddr()
	var kept []byte
	restarts := 1 + r0.IntN(3)
	if n := oldLogs[i]; n > 0 {
		// a log that many earlier runs have filled
		line := "[info][/srv/server.go:58]2024/01/01 00:00:00 [127.0.0.1:1  connected]\n"
		kept = bytes.Repeat([]byte(line), n/len(line)+1)
		if err := os.Mkdir(logDir, 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(logf, kept, 0o644); err != nil {
			return err
		}
		c.Count("old_log_bytes", int64(len(kept)))
	}
	for run := 0; run < restarts; run++ {
		level := []string{"debug", "info", "info", "info", "warning", "panic", "error"}[r0.IntN(7)]
		if run == 0 && i%2 == 0 {
			level = "info"
		}
		s, err := c.launch(dir, launchOpt{bin: bin, args: []string{"-host", host, "-port", strconv.Itoa(port), "-logdir", logDir, "-loglevel", level}})
		if err != nil {
			return err
		}
		s.Addr = net.JoinHostPort(host, strconv.Itoa(port))
		ls, err := s.settle()
		if err != nil {
			return err
		}
		if ls == nil {
			out := s.output()
			if strings.Contains(out, "address already in use") {
				return nil
			}
			return viol("restart %d on the same log directory fails: %s %s", run, s.state, clip(out, 1500))
		}
		err = c.logRun(s, r0, i, run, level, logf, kept)
		if err == nil && (level == "debug" || level == "info") {
			err = c.lastLines(s, r0, logf)
		}
		s.Terminate()
		if err == nil {
			b, e := os.ReadFile(logf)
			if e != nil {
				return e
			}
			if !bytes.HasPrefix(b, kept) {
				return viol("lines of earlier runs are gone from redis.log after restart %d", run)
			}
			kept = b
		}
		c.noteServer(s)
		s.Kill()
		if err != nil {
			return err
		}
	}
	c.Count("server_runs", int64(restarts))
	return nil
}

// lastLines: the end of the server, whatever kind of end, takes no line with it.
func (c *Ctx) lastLines(s *Server, r *rand.Rand, logf string) error {
	want := map[string]int{}
	for k := 0; k < 3; k++ {
		cl, err := s.Dial()
		if err != nil {
			return err
		}
		defer cl.Close()
		if _, err := cl.Do("PING"); err != nil {
			return err
		}
		want[cl.c.LocalAddr().String()]++
		if k == 1 {
			if err := quietEnd(cl, "a PING"); err != nil {
				return err
			}
			want[cl.c.LocalAddr().String()]++
		}
	}
	// the server has nothing left to do
	for calm, n := 0, 0; calm < 4; n++ {
		time.Sleep(20 * time.Millisecond)
		ps, err := readProc(s.cmd.Process.Pid)
		if err != nil || n > 500 {
			return nil
		}
		if calm++; !ps.sleeping {
			calm = 0
		}
	}
	before, err := os.ReadFile(logf)
	if err != nil {
		return viol("redis.log: %v", err)
	}
	how := "SIGKILL"
	if r.IntN(2) == 0 {
		s.Kill()
	} else {
		how = "SIGTERM"
		s.Terminate()
	}
	b, err := os.ReadFile(logf)
	if err != nil {
		return viol("redis.log: %v", err)
	}
	if !bytes.HasPrefix(b, before) {
		return viol("%s changed what redis.log held: %d bytes before, %d bytes after", how, len(before), len(b))
	}
	got := map[string]int{}
	for _, l := range strings.Split(string(b), "\n") {
		if a := addrRe.FindString(stampRe.ReplaceAllString(l, "TIME")); a != "" {
			got[a]++
		}
	}
	for a, n := range want {
		c.Eval(1)
		if got[a] < n {
			return viol("the server was at rest, then ended by %s: redis.log has %d lines for a connection that was opened and answered before (%d ends included)", how, got[a], n-1)
		}
	}
	c.Count("ends_after_which_the_log_was_read", 1)
	return nil
}

func (c *Ctx) logRun(s *Server, r0 *rand.Rand, i, run int, level, logf string, kept []byte) error {
	lvl := 0
	for j, n := range logLevels {
		if n == level {
			lvl = j
		}
	}
	norm := func(line, addr string) string {
		return stampRe.ReplaceAllString(strings.ReplaceAll(line, addr, "ADDR"), "TIME")
	}
	read := func() ([]string, error) {
		b, err := os.ReadFile(logf)
		if err != nil {
			return nil, viol("redis.log: %v", err)
		}
		if !bytes.HasPrefix(b, kept) {
			return nil, viol("the %d bytes redis.log held before a restart are no longer its beginning (now %d bytes)", len(kept), len(b))
		}
		b = b[len(kept):]
		if len(b) == 0 {
			return []string{}, nil
		}
		if b[len(b)-1] != '\n' {
			return nil, nil // a line is being written
		}
		return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n"), nil
	}
	// one connection alone shows how the lines look
	var openShape, closeShape string
	if lvl <= 1 {
		lc, err := c.logConn(s, r0, 0)
		if err != nil {
			return err
		}
		for n := 0; ; n++ {
			lines, err := read()
			if err != nil {
				return err
			}
			var own []string
			for _, l := range lines {
				if addrRe.FindString(stampRe.ReplaceAllString(l, "")) == lc.addr {
					own = append(own, l)
				}
			}
			if len(own) == 2 {
				openShape, closeShape = norm(own[0], lc.addr), norm(own[1], lc.addr)
				for _, l := range own {
					if m := levelRe.FindAllString(l, -1); len(m) != 1 || m[0] != "[info]" {
						return viol("log level %s: the line for a connection does not carry its level, info: %q", level, l)
					}
				}
				break
			}
			if n > 1500 {
				return viol("log level %s: one connection opened, used and closed leaves %d lines with its address in redis.log instead of 2: %q", level, len(own), own)
			}
			time.Sleep(10 * time.Millisecond)
		}
		if openShape == closeShape {
			return viol("opening and closing a connection leave the same line: %q", openShape)
		}
	}
	// the burst
	workers, per := 8, 12
	atomic.StoreInt64(&s.shm.level, []int64{0, 3, 6}[r0.IntN(3)])
	atomic.StoreInt64(&s.shm.stmt, []int64{0, 100, 400, 1000}[r0.IntN(4)])
	seeds := make([]uint64, workers)
	for k := range seeds {
		seeds[k] = r0.Uint64()
	}
	var mu sync.Mutex
	var conns []logConn
	calm := i%3 == 0 // only clean connections: maximal pressure on the two lines
	err := c.Par(workers, workers, func(k int) error {
		r := rand.New(rand.NewPCG(seeds[k], 24))
		for n := 0; n < per; n++ {
			kind := []int{0, 0, 1, 2, 3, 4, 5}[r.IntN(7)]
			if calm {
				kind = r.IntN(2)
			}
			lc, err := c.logConn(s, r, kind)
			if err != nil {
				return err
			}
			mu.Lock()
			conns = append(conns, lc)
			mu.Unlock()
			c.Eval(1)
			c.Case(fmt.Sprint(i, run, kind, level))
			c.Distinct("kinds_and_levels", fmt.Sprint(kind, level))
		}
		return nil
	})
	atomic.StoreInt64(&s.shm.level, 0)
	atomic.StoreInt64(&s.shm.stmt, 0)
	if err == nil && run == 0 && i%40 == 3 {
		// the log grows by megabytes
		err = c.Par(8, 8, func(k int) error {
			cl, err := s.Dial()
			if err != nil {
				return err
			}
			defer cl.Close()
			for n := 0; n < 6; n++ {
				if _, err := cl.c.Write(bytes.Repeat([]byte(":1\r\n"), 2500)); err != nil {
					return err
				}
				if _, err := cl.Do("PING"); err != nil {
					return err
				}
				lc, err := c.logConn(s, rand.New(rand.NewPCG(seeds[k], 240)), n%2)
				if err != nil {
					return err
				}
				mu.Lock()
				conns = append(conns, lc)
				mu.Unlock()
				c.Eval(1)
			}
			return nil
		})
		c.Count("logs_grown_by_megabytes", 1)
	}
	if err != nil {
		return err
	}
	used := map[string]int{}
	for _, lc := range conns {
		used[lc.addr]++
	}
	var problem error
	seen := int64(-1)
	for n := 0; n < 1500; n++ {
		st, err := os.Stat(logf)
		if err != nil {
			return viol("redis.log: %v", err)
		}
		if st.Size() == seen {
			time.Sleep(10 * time.Millisecond)
			continue
		}
		seen = st.Size()
		problem = nil
		lines, err := read()
		if err != nil {
			return err
		}
		opens, closes, marks := map[string]int{}, map[string]int{}, map[string]int{}
		for _, l := range lines {
			m := levelRe.FindAllString(l, -1)
			if len(m) != 1 || len(stampRe.FindAllString(l, -1)) != 1 {
				return viol("log level %s, after %d concurrent connections: a line of redis.log is not one whole line with its level: %q", level, len(conns), l)
			}
			for j, nme := range logLevels {
				if m[0] == "["+nme+"]" && j < lvl {
					return viol("log level %s configured, redis.log has %q", level, l)
				}
			}
			rest := stampRe.ReplaceAllString(l, "TIME")
			a := addrRe.FindAllString(rest, -1)
			if len(a) == 0 {
				continue
			}
			for _, addr := range a {
				if used[addr] == 0 {
					continue
				}
				switch norm(l, addr) {
				case openShape:
					opens[addr]++
				case closeShape:
					closes[addr]++
				default:
					marks[addr+m[0]]++
				}
			}
		}
		for _, lc := range conns {
			if used[lc.addr] > 1 {
				continue // a port used twice: its lines cannot be told apart
			}
			clean := lc.kind <= 1 || lc.kind == 3
			bad := ""
			switch {
			case lvl <= 1 && opens[lc.addr] != 1:
				bad = fmt.Sprintf("%d lines for its opening", opens[lc.addr])
			case lvl <= 1 && clean && closes[lc.addr] != 1:
				bad = fmt.Sprintf("%d lines for its closing", closes[lc.addr])
			case closes[lc.addr] > 1:
				bad = fmt.Sprintf("%d lines for its closing", closes[lc.addr])
			case lc.kind == 2 && lvl <= 3 && marks[lc.addr+"[panic]"] != 1:
				bad = fmt.Sprintf("%d lines at level panic for its protocol error", marks[lc.addr+"[panic]"])
			case lc.kind == 3 && marks[lc.addr+"[error]"] != 1:
				bad = fmt.Sprintf("%d lines at level error for its data that was no array", marks[lc.addr+"[error]"])
			}
			if bad != "" {
				problem = viol("log level %s, run %d: connection %s (kind %d of: clean, clean without request, protocol error, no array, reset, cut) has %s in redis.log; %d connections in all", level, run, lc.addr, lc.kind, bad, len(conns))
				break
			}
		}
		if lines == nil {
			seen = -1
		} else if problem == nil {
			c.Count("log_lines_checked", int64(len(lines)))
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if problem == nil && i < 3 {
		c.Sample(map[string]any{"level": level, "connections": len(conns), "open_line": openShape, "close_line": closeShape})
	}
	return problem
}

// ---- C25: signals ----------------------------------------------------------

var stopStates = []string{"idle", "just listening", "connected clients", "stalled in mid-request", "replies not read", "under load", "connection flood", "long commands", "after protocol errors and resets", "out of descriptors", "listening, tables still being built"}

func checkC25(c *Ctx) error {
	c.rule = "A case is one server process brought into a state (idle, just listening, connected, stalled, unread replies, under load, connection flood, long commands, after errors, out of file descriptors, listening while its tables are still being built) and sent SIGINT or SIGTERM, once or repeatedly, after a seeded delay; or one start on an address it cannot listen on. Distinct by state, signal, repetition, delay class and perturbation."
	bin, err := c.ConcBin()
	if err != nil {
		return err
	}
	if err := c.Par(c.N(480, 12000), 8, func(i int) error { return c.stopCase(bin, i) }); err != nil {
		return err
	}
	return c.Par(c.N(24, 400), 8, func(i int) error { return c.noListen(bin, i) })
}

func (c *Ctx) stopCase(bin string, i int) error {
	r := c.Rand(25, uint64(i))
	dir, err := os.MkdirTemp(c.Work, "stop")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	host, port := freeAddr()
	addr := net.JoinHostPort(host, strconv.Itoa(port))
	state := i % len(stopStates)
	o := launchOpt{bin: bin, args: []string{"-host", host, "-port", strconv.Itoa(port), "-logdir", dir, "-segnum", "5"}}
	o.level, o.stmt = []int64{0, 3, 6}[r.IntN(3)], []int64{0, 60, 300, 1000}[r.IntN(4)]
	if state == 9 {
		o.maxFiles = 14 + r.IntN(10)
		o.args = append(o.args, "-loglevel", "error")
	}
	if state == 10 {
		o.args = append(o.args, "-segnum", "3000", "-dbnum", strconv.Itoa(30+r.IntN(100)))
	}
	s, err := c.launch(dir, o)
	if err != nil {
		return err
	}
	defer func() { c.noteServer(s); s.Close() }()
	s.Addr = addr
	for t0 := time.Now(); state == 10 && s.Alive() && len(s.listening()) == 0 && time.Since(t0) < 5*time.Second; {
		time.Sleep(50 * time.Microsecond)
	}
	if ls, err := s.settle(); err != nil {
		return err
	} else if ls == nil {
		if strings.Contains(s.output(), "address already in use") {
			return nil
		}
		return viol("the server did not start: %s %s", s.state, clip(s.output(), 1500))
	}
	var conns []net.Conn
	var cmu sync.Mutex
	dial := func() net.Conn {
		x, err := net.DialTimeout("tcp", addr, 2*time.Second)
		if err != nil {
			return nil
		}
		cmu.Lock()
		conns = append(conns, x)
		cmu.Unlock()
		return x
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	defer func() {
		stop.Store(true)
		cmu.Lock()
		for _, x := range conns {
			x.Close()
		}
		cmu.Unlock()
		wg.Wait()
	}()
	spin := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() && s.Alive() {
				f()
			}
		}()
	}
	switch state {
	case 2, 3, 4:
		for n := 1 + r.IntN(20); n > 0; n-- {
			x := dial()
			if x == nil {
				continue
			}
			switch state {
			case 3:
				m := AppendCmd(nil, []string{"SET", "k", strings.Repeat("v", 100)})
				x.Write(m[:1+r.IntN(len(m)-1)])
			case 4:
				b := AppendCmd(nil, []string{"SET", "big", strings.Repeat("v", 1<<20)})
				for j := 0; j < 30; j++ {
					b = AppendCmd(b, []string{"GET", "big"})
				}
				x.SetWriteDeadline(time.Now().Add(2 * time.Second))
				x.Write(b)
			}
		}
	case 5:
		for n := 0; n < 6; n++ {
			x := dial()
			if x == nil {
				continue
			}
			wg.Add(1)
			go func() { defer wg.Done(); io.Copy(io.Discard, x) }()
			var b []byte
			for j := 0; j < 50; j++ {
				b = AppendCmd(b, []string{"LPUSH", fmt.Sprint("l", j%7), "x"})
				b = AppendCmd(b, []string{"RPOP", fmt.Sprint("l", j%7)})
				b = AppendCmd(b, []string{"SET", fmt.Sprint("s", j), "x"})
				b = AppendCmd(b, []string{"KEYS", "*"})
			}
			spin(func() {
				if _, err := x.Write(b); err != nil {
					time.Sleep(time.Millisecond)
				}
			})
		}
	case 6:
		for n := 0; n < 6; n++ {
			spin(func() {
				if x, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
					x.Write(AppendCmd(nil, []string{"PING"}))
					x.Close()
				}
			})
		}
	case 7:
		x := dial()
		if x == nil {
			break
		}
		var m []string
		for j := 0; j < 20000; j++ {
			m = append(m, fmt.Sprint("m", j))
		}
		b := AppendCmd(nil, append([]string{"SADD", "a"}, m...))
		b = AppendCmd(b, append([]string{"SADD", "b"}, m[:15000]...))
		for j := 0; j < 50; j++ {
			b = AppendCmd(b, []string{"SINTERSTORE", "c", "a", "b"})
			b = AppendCmd(b, []string{"SUNION", "a", "b"})
		}
		x.SetWriteDeadline(time.Now().Add(2 * time.Second))
		x.Write(b)
	case 8:
		for n := 3 + r.IntN(10); n > 0; n-- {
			x := dial()
			if x == nil {
				continue
			}
			switch r.IntN(3) {
			case 0:
				x.Write([]byte("*1\r\n$zz\r\n"))
			case 1:
				x.(*net.TCPConn).SetLinger(0)
				x.Close()
			default:
				x.Write([]byte("*1\r\n$4\r\nPI"))
				x.Close()
			}
		}
	case 9:
		for n := 0; n < 30; n++ {
			dial()
		}
	}
	delay := time.Duration(0)
	if state != 1 && state != 10 {
		delay = []time.Duration{0, time.Millisecond, 5 * time.Millisecond, 30 * time.Millisecond, 120 * time.Millisecond}[r.IntN(5)]
	}
	time.Sleep(delay)
	if !s.Alive() {
		return viol("in state %q the process ended before any signal: %s; %s", stopStates[state], s.state, clip(s.output(), 2000))
	}
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.IntN(2)]
	s.cmd.Process.Signal(sig)
	more := 0
	if r.IntN(4) == 0 {
		more = 1 + r.IntN(3)
		for n := 0; n < more; n++ {
			time.Sleep(time.Duration(r.IntN(2000)) * time.Microsecond)
			s.cmd.Process.Signal([]syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[r.IntN(2)])
		}
	}
	desc := fmt.Sprintf("state %q, %v sent %v after reaching it, %d more signals, perturbation %d/%d", stopStates[state], sig, delay, more, o.level, o.stmt)
	if err := s.waitExit("after " + sig.String()); err != nil {
		if msg, ok := asViol(err); ok {
			return viol("%s\n%s", msg, desc)
		}
		return err
	}
	c.Eval(1)
	c.Case(desc)
	c.Distinct("states_and_signals", fmt.Sprint(state, sig))
	er := s.StderrTail(4000)
	if s.state.ExitCode() != 0 || crashed(er) {
		return viol("%s: the process ends with %s; stderr: %s", desc, s.state, er)
	}
	// the port is free at once
	l, err := net.Listen("tcp", addr)
	if err != nil {
		if errors.Is(err, syscall.EADDRINUSE) {
			// another process of this run may have been given the port
			for _, x := range c.liveOn(addr) {
				if x != s {
					return nil
				}
			}
			return viol("%s: the address cannot be bound again after the exit: %v", desc, err)
		}
		return err
	}
	l.Close()
	if i < 6 {
		c.Sample(desc)
	}
	return nil
}

// liveOn returns the harness's processes listening on addr.
func (c *Ctx) liveOn(addr string) (out []*Server) {
	c.srvMu.Lock()
	defer c.srvMu.Unlock()
	for _, s := range c.servers {
		if s.Addr == addr && s.Alive() {
			out = append(out, s)
		}
	}
	return
}

func (c *Ctx) noListen(bin string, i int) error {
	r := c.Rand(251, uint64(i))
	dir, err := os.MkdirTemp(c.Work, "nol")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	host, port := freeAddr()
	p := strconv.Itoa(port)
	why := ""
	switch i % 5 {
	case 0:
		l, err := net.Listen("tcp", net.JoinHostPort(host, p))
		if err != nil {
			return nil
		}
		defer l.Close()
		why = "the port is in use"
	case 1:
		l, err := net.Listen("tcp", "0.0.0.0:0")
		if err != nil {
			return err
		}
		defer l.Close()
		_, p, _ = net.SplitHostPort(l.Addr().String())
		why = "the port is in use on all addresses"
	case 2:
		host = "192.0.2.77"
		why = "the address is not local"
	case 3:
		other := filepath.Join(dir, "other")
		if err := os.Mkdir(other, 0o755); err != nil {
			return err
		}
		s, err := c.launch(other, launchOpt{bin: bin, args: []string{"-host", host, "-port", p, "-logdir", other}})
		if err != nil {
			return err
		}
		defer s.Close()
		ls, err := s.settle()
		if err != nil || ls == nil {
			return err
		}
		why = "another server of the same kind listens"
	default:
		p = []string{"65536", "-1", "100000"}[r.IntN(3)]
		why = "the port does not exist"
	}
	s, err := c.launch(dir, launchOpt{bin: bin, args: []string{"-host", host, "-port", p, "-logdir", dir, "-loglevel", logLevels[r.IntN(5)]}, stmt: []int64{0, 60, 1000}[r.IntN(3)]})
	if err != nil {
		return err
	}
	defer s.Close()
	ls, err := s.settle()
	if err != nil {
		return err
	}
	c.Eval(1)
	c.Case("nolisten" + why)
	if ls != nil {
		return viol("started with -host %s -port %s, where %s, the process listens on %v", host, p, why, ls)
	}
	er := s.StderrTail(4000)
	if s.state.ExitCode() <= 0 || crashed(er) {
		return viol("started with -host %s -port %s, where %s, the process ends with %s; stderr: %s", host, p, why, s.state, er)
	}
	return nil
}
