package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

type info struct {
	race bool
	nt   string // what makes a run non-trivial
}

var infos = map[string]info{
	"C01": {true, "at least one call was preempted inside the library by another client's call"},
	"C02": {true, "at least one call was preempted inside the library by another client's call"},
	"C03": {true, "at least one call was preempted inside the library by another client's call, in a process which had not met the types before"},
	"C04": {true, "at least one call was preempted inside the library by another client's call on the same arguments"},
	"C05": {false, "at least one call failed, panicked or was abandoned in the history"},
	"C06": {false, "a callback fault, a caller's write to a returned slice, or a failed call happened"},
	"C07": {false, "a write to the input, to a callback's bytes or to a decoded value, or a failed call happened"},
	"C08": {false, "an injected callback fault fired"},
	"C09": {false, "an injected callback fault fired or a call failed"},
	"C10": {false, "a callback stalled or called back into the library"},
	"C11": {false, "a cyclic value was rejected"},
	"C12": {false, "the decoder was given at least one strict prefix of a record"},
	"C13": {false, "the decoder was given at least one record with bytes behind it"},
	"C14": {false, "the decoder was given a record which must be rejected and one which must be accepted"},
	"C15": {false, "a record was written, the process restarted, and a record was read"},
	"C16": {false, "a destination which already held something was used"},
	"C17": {false, "a value with maps was encoded under a chosen iteration order"},
	"C18": {false, "probe calls were repeated in a growing history and their cost compared"},
}

type coverage struct {
	runs, steps, switches, preempts, conc int64
	stats, strats                         map[string]int64
	hashes, digests, nontriv              map[uint64]bool
	sites                                 map[uint32]bool
	numSites                              int
	pool                                  [5]int64
	cpu                                   float64
	raceRuns                              int64
}

func collect(procs []*proc, seed uint64) *coverage {
	c := &coverage{stats: map[string]int64{}, strats: map[string]int64{}, hashes: map[uint64]bool{}, digests: map[uint64]bool{}, nontriv: map[uint64]bool{}, sites: map[uint32]bool{}}
	for _, p := range procs {
		r := p.res
		if r == nil {
			continue
		}
		c.runs += r.Runs
		c.steps += r.Steps
		c.switches += r.Switches
		c.preempts += r.Preempts
		c.conc += r.Conc
		c.cpu += r.Wall
		c.numSites = r.NumSites
		if r.Race {
			c.raceRuns += r.Runs
		}
		for k, n := range r.Stats {
			c.stats[k] += n
		}
		for k, n := range r.Strats {
			c.strats[k] += n
		}
		for _, h := range r.Hashes {
			c.hashes[h] = true
		}
		for _, h := range r.Digests {
			c.digests[h] = true
		}
		for _, h := range r.NonTriv {
			c.nontriv[h] = true
		}
		for _, s := range r.Sites {
			c.sites[s] = true
		}
		for i := range c.pool {
			c.pool[i] += r.Pool[i]
		}
	}
	return c
}

func writeEvidence(c *coverage, det map[string]any, seed uint64, in info, viols int, v *Violation) {
	faults, other := map[string]int64{}, map[string]int64{}
	for k, n := range c.stats {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = n
		} else {
			other[k] = n
		}
	}
	wall := time.Since(t0).Seconds()
	perHour := 0.0
	if c.cpu > 0 {
		perHour = float64(c.runs) / (c.cpu / workers) * 3600
	}
	var samples []any
	b, err := exec.Command(filepath.Join(work, "worker"), "-prop", *prop, "-seed", fmt.Sprint(seed), "-start", strconv.Itoa(1), "-count", "1", "-dump").Output()
	if err == nil {
		var p any
		if decode(b, &p) == nil {
			samples = append(samples, map[string]any{"run": 1, "plan": p})
		}
	}
	if v != nil {
		samples = append(samples, map[string]any{"violation": v})
	}
	cov := map[string]any{
		"evaluations":         c.runs,
		"distinct_nontrivial": len(c.nontriv),
		"rule": "One evaluation is one simulated run: a plan (clients, operations, arguments, faults, schedule strategy, pool and map order policy) drawn from the seed, executed by the simulator over the real library. " +
			"Runs are distinct when the digest of everything observed (schedule, scheduling points, results) differs. Non-trivial: " + in.nt + ".",
		"samples":                  samples,
		"runs_per_hour":            int64(perHour),
		"seeds_per_hour":           int64(perHour),
		"simulated_time":           map[string]any{"unit": "scheduling points (statements of the library executed under the scheduler)", "total": c.steps},
		"context_switches":         c.switches,
		"preemptions":              c.preempts,
		"runs_with_preemption":     c.conc,
		"runs_under_race_detector": c.raceRuns,
		"distinct_schedules":       len(c.hashes),
		"distinct_behaviours":      len(c.digests),
		"faults_injected":          faults,
		"events":                   other,
		"schedule_strategies":      c.strats,
		"code_sites":               map[string]any{"instrumented": c.numSites, "reached": len(c.sites)},
		"pool":                     map[string]int64{"get": c.pool[0], "put": c.pool[1], "new": c.pool[2], "reused": c.pool[3], "dropped": c.pool[4]},
		"determinism":              det,
		"instrumentation_level":    lvl,
		"real":                     []string{"all library packages, compiled from /repo's working tree", "reflect", "Go runtime memory management"},
		"simulated":                []string{"goroutine scheduling inside the library (one task at a time, chosen by the seed)", "sync.Pool, Mutex, RWMutex, Once, Map, WaitGroup, Cond", "map iteration order seen by the library", "MarshalPHP and UnmarshalPHP callbacks", "the disk holding records (C15), and damage to records"},
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": viols,
		"assumptions": []string{
			"sampled, not enumerated: a clean batch is evidence, not proof",
			"the reference model in sim/harness/ref states what values denote; it was written from the documentation and checked against the existing tests",
			"tasks switch between statements, not inside of them; the race detector build covers unsynchronised accesses inside statements (C01 to C04)",
		},
	}
	out, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		trouble("%v", err)
	}
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, *prop+".json"), append(out, '\n'), 0o644); err != nil {
		trouble("%v", err)
	}
}
