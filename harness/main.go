package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

// props maps the property IDs to their check.
var props = map[string]func(c *Ctx){}

// realStdout is where the harness reports. The code under test prints into the void, so that nothing it
// prints can be taken for a report.
var realStdout = os.Stdout

func register(id string, f func(c *Ctx)) { props[id] = f }

func main() {
	prop := flag.String("prop", "", "property ID")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verifDir := flag.String("verif", "/verif", "the /verif directory")
	replay := flag.String("replay", "", "family/index: only run that case")
	stuck := flag.Duration("stuck", 240*time.Second, "a single case running longer than this made no progress")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()

	f, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(12 << 30)
	debug.SetGCPercent(400)

	c := newCtx(*prop, *tier, *seed, *verifDir)
	c.Replay = *replay
	start := time.Now()

	// watchdog: cases take micro- to milliseconds, a case which does not end within minutes is stuck (deadlock or endless loop).
	go func() {
		for range time.Tick(2 * time.Second) {
			c.progress.Range(func(_, v any) bool {
				st := v.(*caseState)
				if time.Since(st.start) > *stuck {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					c.violate("no-progress:"+st.family, st.family, st.index, fmt.Sprintf("case made no progress for %s (deadlock or endless loop)\n%s", *stuck, buf))
					_ = c.writeEvidence(start)
					os.Exit(1)
				}

				return true
			})
		}
	}()

	if *prof != "" {
		pf, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(pf)
	}
	f(c)
	if *prof != "" {
		pprof.StopCPUProfile()
	}

	if c.Replay == "" && (c.evals == 0 || len(c.distinct) == 0) {
		fmt.Fprintln(os.Stderr, "inconclusive: nothing was observed")
		os.Exit(3)
	}
	if err := c.writeEvidence(start); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		os.Exit(3)
	}
	fmt.Fprintf(realStdout, "property=%s tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n", c.Prop, c.Tier, c.Seed, c.evals, len(c.distinct), c.violations, time.Since(start).Seconds())
	if c.violations > 0 {
		os.Exit(1)
	}
}
