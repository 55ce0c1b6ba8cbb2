// vrun runs the monitored workload of one property against the code under test.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"time"

	"verifharness/mon"
	"verifharness/ref"
)

type check struct {
	run   func(r *mon.Run)
	rule  string
	watch int // watchdog ticks without progress
}

var checks = map[string]check{}

func register(id, rule string, f func(r *mon.Run)) {
	checks[id] = check{run: f, rule: rule, watch: 150}
}

var (
	evidence  = flag.String("evidence", "", "evidence file")
	replays   = flag.String("replays", "replays", "directory of replay files")
	knownFile = flag.String("known", "", "known findings")
	tier      = flag.String("tier", "quick", "quick or thorough")
	seedFlag  = flag.String("seed", "1", "seed")
	binServer = flag.String("server", "", "server binary under test")
	binCli    = flag.String("cli", "", "dukptcli binary under test")
	sourceDir = flag.String("src", "", "source tree of the code under test, for the dictionary of literals")
	scratch   = flag.String("scratch", "", "scratch directory")
	raceMode  = flag.Bool("racemode", false, "the binaries were built with the race detector")
	selfOnly  = flag.Bool("selftest", false, "run the self test of the reference model only")
	coldName  = flag.String("cold", "", "be a process whose first calls are concurrent")
)

func main() {
	flag.Parse()
	if err := ref.SelfTest(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *selfOnly {
		fmt.Println("reference model agrees with the published vectors")
		return
	}
	if *coldName != "" {
		seed, _ := strconv.ParseUint(*seedFlag, 10, 64)
		coldMain(*coldName, seed)
		return
	}
	loadDict(*sourceDir)
	id := flag.Arg(0)
	c, ok := checks[id]
	if !ok {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Fprintln(os.Stderr, "usage: vrun [flags] <property>; properties:", ids)
		os.Exit(2)
	}
	seed, err := strconv.ParseUint(*seedFlag, 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, "seed:", err)
		os.Exit(2)
	}
	known := map[string]string{}
	if *knownFile != "" {
		if known, err = mon.LoadKnown(*knownFile, id); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	r := mon.New(id, *tier, seed, known)
	r.EvidencePath = *evidence
	r.ReplayDir = *replays
	r.Rule = c.rule
	r.Watch(c.watch)
	// checks that measure time or end processes keep all processors
	if !slices.Contains([]string{"C24", "C32", "C33", "C34", "C36", "C37"}, id) {
		go processors(r)
	}
	r.Guard(nil, func() { c.run(r) })
	os.Exit(r.Finish())
}

// processors changes how many processors run the code under test, which must not matter
func processors(r *mon.Run) {
	all := runtime.GOMAXPROCS(0)
	for i := 0; ; i++ {
		time.Sleep(100 * time.Millisecond)
		if n := []int{3, 1, 2, 6, 5, 12, 7, 4}[i%8]; n != all {
			runtime.GOMAXPROCS(n)
			time.Sleep(50 * time.Millisecond)
			r.Count(fmt.Sprintf("periods with %d processors", n), 1)
		}
		runtime.GOMAXPROCS(all)
	}
}
