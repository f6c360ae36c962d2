package time

// Installed into the standard library's time package through `go build
// -overlay` by /verif/harness. It gives the process under test (a) a virtual
// wall clock that only the harness moves and (b) schedule perturbation at
// lock operations. Without VERIF_SHM in the environment it does nothing.

import (
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"
)

type verifPage struct {
	now     int64 // virtual unix time in ns; 0 = real time
	level   int64 // perturbation level, 0 = off
	hooks   int64 // lock events seen while perturbing
	yields  int64 // yields injected
	sleeps  int64 // sleeps injected
	nowSeen int64 // clock reads served from the virtual clock
	stmt    int64 // perturbation level between statements, 0 = off
	steps   int64 // delays injected between statements
	chunk   int64 // longest read from a descriptor, 0 = no limit
	shorts  int64 // reads cut short
	jumpIn  int64 // clock reads until the clock jumps, 0 = never
	jumpTo  int64 // virtual time it then jumps to
	jumps   int64 // jumps made
	hurry   int64 // timers run this many times faster, 0 or 1 = as they are
	hurried int64 // timers hurried
}

var (
	verifShm  *verifPage
	verifBase int64
)

//go:linkname verifRandn runtime.randn
func verifRandn(n uint32) uint32

func init() {
	path, ok := syscall.Getenv("VERIF_SHM")
	if !ok {
		return
	}
	fd, err := syscall.Open(path, syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic("verif: cannot open VERIF_SHM: " + err.Error())
	}
	mem, err := syscall.Mmap(fd, 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic("verif: cannot map VERIF_SHM: " + err.Error())
	}
	syscall.Close(fd)
	p := (*verifPage)(unsafe.Pointer(&mem[0]))
	verifBase = atomic.LoadInt64(&p.now)
	verifShm = p
	sync.VerifHook = verifPerturb
	sync.VerifStep = verifStatement
}

func verifNow() (sec int64, nsec int32, mono int64) {
	p := verifShm
	if p == nil {
		return runtimeNow()
	}
	v := atomic.LoadInt64(&p.now)
	if v == 0 {
		return runtimeNow()
	}
	atomic.AddInt64(&p.nowSeen, 1)
	if atomic.LoadInt64(&p.jumpIn) > 0 && atomic.AddInt64(&p.jumpIn, -1) == 0 {
		atomic.StoreInt64(&p.now, atomic.LoadInt64(&p.jumpTo))
		atomic.AddInt64(&p.jumps, 1)
	}
	// A few nanoseconds of jitter keep clock-seeded generators usable.
	v += runtimeNano() % 1000
	return v / 1e9, int32(v % 1e9), startNano + 1 + (v - verifBase) + 1e9
}

func verifNano() int64 {
	p := verifShm
	if p == nil || atomic.LoadInt64(&p.now) == 0 {
		return runtimeNano()
	}
	_, _, mono := verifNow()
	return mono
}

// verifSleep is the runtime's sleep.
func verifSleep(d Duration)

// Sleep pauses the current goroutine.
func Sleep(d Duration) { verifSleep(VerifHurry(d)) }

// VerifHurry shortens what the program waits for. Whatever runs every second
// then runs every millisecond: a timer is not to be relied upon for anything.
func VerifHurry(d Duration) Duration {
	p := verifShm
	if p == nil || d <= 50*Microsecond {
		return d
	}
	h := atomic.LoadInt64(&p.hurry)
	if h < -1 && d < Hour {
		atomic.AddInt64(&p.hurried, 1)
		return d * Duration(-h)
	}
	if h <= 1 {
		return d
	}
	atomic.AddInt64(&p.hurried, 1)
	return max(d/Duration(h), 50*Microsecond)
}

func verifPerturb() {
	p := verifShm
	level := atomic.LoadInt64(&p.level)
	if level == 0 {
		return
	}
	atomic.AddInt64(&p.hooks, 1)
	r := verifRandn(64)
	switch {
	case r < uint32(level):
		atomic.AddInt64(&p.sleeps, 1)
		verifSleep(Duration(20+verifRandn(180)) * Microsecond)
	case r < uint32(6*level):
		atomic.AddInt64(&p.yields, 1)
		for i := verifRandn(20); i > 0; i-- {
			runtime.Gosched()
		}
	}
}

// verifStatement runs before every statement of the instrumented module. One
// call in 8192/level delays the goroutine.
func verifStatement() {
	level := verifShm.stmt
	if level == 0 {
		return
	}
	if level < 0 {
		// only count
		atomic.AddInt64(&verifShm.steps, 1)
		return
	}
	r := verifRandn(8192)
	if int64(r) >= level {
		return
	}
	atomic.AddInt64(&verifShm.steps, 1)
	if r&3 == 0 {
		verifSleep(Duration(20+verifRandn(180)) * Microsecond)
		return
	}
	for i := verifRandn(20); i > 0; i-- {
		runtime.Gosched()
	}
}

// VerifRead says how many of the n bytes asked for may be read at once.
func VerifRead(n int, file bool) int {
	p := verifShm
	if p == nil || file {
		return n
	}
	c := atomic.LoadInt64(&p.chunk)
	if c <= 0 || n <= 1 {
		return n
	}
	if verifRandn(16) == 0 {
		return n
	}
	k := 1 + int(verifRandn(uint32(c)))
	if k >= n {
		return n
	}
	atomic.AddInt64(&p.shorts, 1)
	return k
}
