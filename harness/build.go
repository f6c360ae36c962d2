package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// The server is built from /repo's working tree with a few standard-library
// files replaced through -overlay: package time reads a virtual clock from a
// page shared with the harness, package sync calls a perturbation hook around
// every lock operation, internal/poll can be told to return short reads. /repo
// itself is compiled as it is (or, for the concurrent checks, with a hook call
// before each statement, see stmt.go).

// repoDir is /repo, except when the machinery itself is tested on mutants.
var repoDir = "/repo"

func init() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "PATH", "HOME", "GOCACHE", "GOROOT":
			continue
		}
		env = append(env, kv)
	}
	return append(env,
		"HOME=/root",
		"PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"GOFLAGS=-mod=mod -buildvcs=false", "GOCACHE="+goCache())
}

func goCache() string {
	if c := os.Getenv("GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

func patchFile(src, dst string, edits ...[2]string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	s := string(b)
	for _, e := range edits {
		if n := strings.Count(s, e[0]); n != 1 {
			return fmt.Errorf("%s: %d matches for %q", src, n, e[0])
		}
		s = strings.Replace(s, e[0], e[1], 1)
	}
	return os.WriteFile(dst, []byte(s), 0o644)
}

// makeOverlay writes the patched files into dir and returns the overlay file.
func makeOverlay(dir, selfDir string, extra map[string]string, name string) (string, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	cmd.Dir = "/"
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("go env GOROOT: %v", err)
	}
	root := strings.TrimSpace(string(out))
	rw := filepath.Join(root, "src/sync/rwmutex.go")
	mu := filepath.Join(root, "src/sync/mutex.go")
	pl := filepath.Join(root, "src/sync/pool.go")
	tm := filepath.Join(root, "src/time/time.go")
	fd := filepath.Join(root, "src/internal/poll/fd_unix.go")

	hook := "\tif VerifHook != nil {\n\t\tVerifHook()\n\t}\n"
	pre := func(sig string) [2]string { return [2]string{sig + " {\n", sig + " {\n" + hook} }
	err = patchFile(rw, filepath.Join(dir, "rwmutex.go"),
		pre("func (rw *RWMutex) RLock()"),
		[2]string{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n" + hook + "\tif VerifHook != nil {\n\t\tdefer VerifHook()\n\t}\n"},
		pre("func (rw *RWMutex) Lock()"),
		[2]string{"func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n" + hook + "\tif VerifHook != nil {\n\t\tdefer VerifHook()\n\t}\n"},
		[2]string{"\trw.w.Lock()\n", "\trw.w.mu.Lock()\n"},
		[2]string{"\t// Allow other writers to proceed.\n\trw.w.Unlock()\n", "\trw.w.mu.Unlock()\n"},
		[2]string{"type RWMutex struct {", "// VerifHook is called around lock operations.\nvar VerifHook, VerifStep func()\n\ntype RWMutex struct {"},
	)
	if err != nil {
		return "", err
	}
	err = patchFile(mu, filepath.Join(dir, "mutex.go"),
		[2]string{"\tm.mu.Lock()\n", hook + "\tm.mu.Lock()\n"},
		[2]string{"\tm.mu.Unlock()\n", "\tm.mu.Unlock()\n" + hook},
	)
	if err != nil {
		return "", err
	}
	// Pool unlocks this mutex while pinned to its processor, where a hook that
	// yields is not allowed.
	err = patchFile(pl, filepath.Join(dir, "pool.go"),
		[2]string{"\tallPoolsMu Mutex\n", "\tallPoolsMu isync.Mutex\n"},
		[2]string{"\t\"internal/race\"\n", "\t\"internal/race\"\n\tisync \"internal/sync\"\n"},
	)
	if err != nil {
		return "", err
	}
	err = patchFile(tm, filepath.Join(dir, "time.go"),
		[2]string{"sec, nsec, mono := runtimeNow()", "sec, nsec, mono := verifNow()"},
		[2]string{"subMono(runtimeNano()-startNano, t.ext)", "subMono(verifNano()-startNano, t.ext)"},
		[2]string{"subMono(t.ext, runtimeNano()-startNano)", "subMono(t.ext, verifNano()-startNano)"},
	)
	if err != nil {
		return "", err
	}
	err = patchFile(fd, filepath.Join(dir, "fd_unix.go"),
		[2]string{"\t\tn, err := ignoringEINTRIO(syscall.Read, fd.Sysfd, p)\n", "\t\tn, err := ignoringEINTRIO(syscall.Read, fd.Sysfd, p[:time.VerifRead(len(p), fd.isFile)])\n"},
		[2]string{"\t\"syscall\"\n", "\t\"syscall\"\n\t\"time\"\n"},
	)
	if err != nil {
		return "", err
	}
	sl := filepath.Join(root, "src/time/sleep.go")
	tk := filepath.Join(root, "src/time/tick.go")
	rt := filepath.Join(root, "src/runtime/time.go")
	pd := filepath.Join(root, "src/internal/poll/fd_poll_runtime.go")
	for _, p := range []struct {
		src, name string
		edits     [][2]string
	}{
		{sl, "sleep.go", [][2]string{
			{"func Sleep(d Duration)\n", ""},
			{"\tt := runtimeNano() + int64(d)\n", "\tt := runtimeNano() + int64(VerifHurry(d))\n"}}},
		{tk, "tick.go", [][2]string{
			{"newTimer(when(d), int64(d), sendTime", "newTimer(when(d), int64(VerifHurry(d)), sendTime"},
			{"(unsafe.Pointer(t)), when(d), int64(d))", "(unsafe.Pointer(t)), when(d), int64(VerifHurry(d)))"}}},
		{rt, "rtime.go", [][2]string{{"//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.verifSleep\n"}}},
		{pd, "fd_poll_runtime.go", [][2]string{{"\t\td = int64(time.Until(t))\n", "\t\td = int64(time.VerifHurry(time.Until(t)))\n"}}},
	} {
		if err := patchFile(p.src, filepath.Join(dir, p.name), p.edits...); err != nil {
			return "", err
		}
	}
	ov := map[string]map[string]string{"Replace": {
		rw: filepath.Join(dir, "rwmutex.go"),
		mu: filepath.Join(dir, "mutex.go"),
		pl: filepath.Join(dir, "pool.go"),
		tm: filepath.Join(dir, "time.go"),
		fd: filepath.Join(dir, "fd_unix.go"),
		sl: filepath.Join(dir, "sleep.go"),
		tk: filepath.Join(dir, "tick.go"),
		rt: filepath.Join(dir, "rtime.go"),
		pd: filepath.Join(dir, "fd_poll_runtime.go"),
		filepath.Join(root, "src/time/verif_clock.go"): filepath.Join(selfDir, "overlay/verif_clock.go"),
	}}
	for k, v := range extra {
		ov["Replace"][k] = v
	}
	b, _ := json.Marshal(ov)
	p := filepath.Join(dir, name)
	return p, os.WriteFile(p, b, 0o644)
}

// buildServer compiles /repo's main package into dir/name.
func buildServer(dir, name, overlay string, flags ...string) (string, error) {
	bin := filepath.Join(dir, name)
	args := append([]string{"build", "-overlay", overlay, "-o", bin}, flags...)
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Env = goEnv()
	cmd.Dir = repoDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return bin, nil
}
