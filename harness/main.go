package main

import (
	"fmt"
	"os"
	"os/signal"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// usage: harness <property id>   (or "warm" to fill the build cache)
func main() { os.Exit(run()) }

func run() int {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness <property>; known:", listChecks())
		return 2
	}
	debug.SetMemoryLimit(6 << 30)
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	work, err := os.MkdirTemp("", "verifrun")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := &Ctx{ID: os.Args[1], Tier: tier, Seed: seed, Verif: verif, Work: work, start: time.Now(),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, sets: map[string]map[uint64]struct{}{}}
	cleanup := func() {
		c.closeAll()
		os.RemoveAll(work)
	}
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
	go func() {
		<-sig
		cleanup()
		os.Exit(2)
	}()
	if c.ID == "warm" {
		if _, err := c.Bin(); err != nil {
			fmt.Println(err)
			return 2
		}
		if _, err := c.ConcBin(); err != nil {
			fmt.Println(err)
			return 2
		}
		if _, err := c.RaceBin(); err != nil {
			fmt.Println(err)
			return 2
		}
		return 0
	}
	f := checks[c.ID]
	if f == nil {
		fmt.Println("unknown property", c.ID, "; known:", listChecks())
		return 2
	}
	err = f(c)
	if err == nil {
		if err := c.writeEvidence(0); err != nil {
			fmt.Println(err)
			return 2
		}
		fmt.Printf("%s held: %d evaluations, %d distinct cases, %.1f s\n", c.ID, c.evals, len(c.distinct), time.Since(c.start).Seconds())
		return 0
	}
	if msg, ok := asViol(err); ok {
		p := c.writeReplay(msg)
		c.writeEvidence(1)
		fmt.Println(strings.ToValidUTF8(clip(msg, 4000), "?"))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		return 1
	}
	c.writeEvidence(0)
	fmt.Println("inconclusive or failed:", err)
	return 2
}
