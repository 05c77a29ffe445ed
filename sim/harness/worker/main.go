// Command worker executes simulated runs, one after the other.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/trim21/go-phpserialize/internal/verifsim/simreset"
	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
	"github.com/trim21/go-phpserialize/internal/verifsim/simsync"
	"github.com/trim21/go-phpserialize/internal/verifsim/world"
)

var (
	prop   = flag.String("prop", "", "property")
	seed   = flag.Uint64("seed", 1, "base seed")
	start  = flag.Int("start", 0, "first run")
	step   = flag.Int("step", 1, "distance of runs")
	count  = flag.Int("count", 1<<30, "at most so many runs")
	budget = flag.Duration("budget", 0, "time to stop at")
	outp   = flag.String("out", "", "result file")
	curp   = flag.String("cur", "", "file which tells the run being executed")
	strict = flag.Bool("strict", false, "judge a replay as a first run")
	replay = flag.String("replay", "", "execute the plan of this replay file")
	dump   = flag.Bool("dump", false, "print the plan, do not run")
	prof   = flag.String("prof", "", "cpu profile")
	verb   = flag.Bool("v", false, "print every run")
)

// Result is what a worker leaves behind.
type Result struct {
	Runs     int64            `json:"runs"`
	First    int              `json:"first"`
	Step     int              `json:"step"`
	Steps    int64            `json:"steps"`
	Switches int64            `json:"switches"`
	Preempts int64            `json:"preempts"`
	Stats    map[string]int64 `json:"stats"`
	Hashes   []uint64         `json:"hashes"`  // distinct schedules
	Digests  []uint64         `json:"digests"` // distinct behaviours
	Conc     int64            `json:"conc"`    // runs with at least one switch
	NonTriv  []uint64         `json:"nontriv"` // distinct behaviours of runs which are not trivial
	Sites    []uint32         `json:"sites"`
	Pool     [5]int64         `json:"pool"`
	Trace    []uint64         `json:"trace"` // digest of each of the first runs
	Race     bool             `json:"race"`
	Level    int              `json:"level"`
	NumSites int              `json:"numsites"`
	Wall     float64          `json:"wall"`
	Strats   map[string]int64 `json:"strats"`
	Viol     *world.Violation `json:"viol,omitempty"`
	Run      int              `json:"run"`
	Plan     *world.Plan      `json:"plan,omitempty"`
}

// ReplayFile is one failing execution.
type ReplayFile struct {
	Property  string           `json:"property"`
	Violation *world.Violation `json:"violation"`
	VerifSeed uint64           `json:"verif_seed"`
	Run       int              `json:"run"`
	Race      bool             `json:"race"`
	History   []int            `json:"history,omitempty"` // runs to execute before, in the same process
	Plan      *world.Plan      `json:"plan,omitempty"`
	Note      string           `json:"note,omitempty"`
}

func runSeed(i int) uint64 {
	h := uint64(0)
	for _, c := range *prop {
		h = h*131 + uint64(c)
	}
	return simrt.Hash(*seed, h, uint64(i))
}

func main() {
	flag.Parse()
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
	debug.SetGCPercent(300)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	go watch()
	var stop atomic.Bool
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM)
	go func() { <-sig; stop.Store(true) }()
	res := &Result{Stats: map[string]int64{}, First: *start, Step: *step, Race: simrt.Race, Level: simreset.Level, NumSites: simreset.NumSites, Strats: map[string]int64{}}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf ReplayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		*prop, *seed = rf.Property, rf.VerifSeed
		if !*strict {
			world.HeapLimit = 1200
		}
		for _, i := range rf.History {
			world.Run(world.New(rf.Property, runSeed(i)), false)
		}
		p := rf.Plan
		if p == nil {
			p = world.New(rf.Property, runSeed(rf.Run))
		}
		o := world.Run(p, true)
		res.Runs, res.Viol, res.Plan = 1, o.Viol, p
		res.Trace = []uint64{o.Digest}
		res.Steps, res.Switches, res.Preempts = o.Steps, o.Switches, o.Preempts
		if o.Viol != nil {
			setSched(p, o)
		}
		finish(res, t0)
		return
	}
	simrt.Hits = make([]uint32, 1<<13)
	var cur *os.File
	if *curp != "" {
		f, err := os.Create(*curp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		cur = f
	}
	hs, ds, nt := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var buf []byte
	for n := 0; n < *count; n++ {
		if stop.Load() || *budget > 0 && time.Since(t0) > *budget {
			break
		}
		i := *start + n**step
		if cur != nil {
			buf = strconv.AppendInt(buf[:0], int64(i), 10)
			buf = append(buf, '\n')
			cur.WriteAt(buf, 0)
		}
		p := world.New(*prop, runSeed(i))
		if *dump {
			b, _ := json.MarshalIndent(p, "", " ")
			fmt.Println(string(b))
			continue
		}
		o := world.Run(p, false)
		res.Runs++
		res.Steps += o.Steps
		res.Switches += o.Switches
		res.Preempts += o.Preempts
		for k, v := range o.Stats {
			res.Stats[k] += v
		}
		for _, ph := range p.Phases {
			if len(ph.Clients) > 1 {
				res.Strats[ph.Strat.Kind]++
			}
		}
		if len(hs) < 400000 {
			hs[o.Hash] = true
			ds[o.Digest] = true
			if nonTrivial(o) {
				nt[o.Digest] = true
			}
		}
		if o.Preempts > 0 {
			res.Conc++
		}
		if len(res.Trace) < 200 {
			res.Trace = append(res.Trace, o.Digest)
		}
		if *verb {
			fmt.Println(i, o.Steps, o.Switches, o.Digest)
		}
		if o.Viol != nil {
			res.Viol, res.Run, res.Plan = o.Viol, i, p
			break
		}
	}
	for h := range hs {
		res.Hashes = append(res.Hashes, h)
	}
	for h := range ds {
		res.Digests = append(res.Digests, h)
	}
	for h := range nt {
		res.NonTriv = append(res.NonTriv, h)
	}
	for i, n := range simrt.Hits {
		if n > 0 {
			res.Sites = append(res.Sites, uint32(i))
		}
	}
	finish(res, t0)
}

// nonTrivial: the run did what its property is about, it met the interleaving
// or the fault.
func nonTrivial(o *world.Outcome) bool {
	switch *prop {
	case "C01", "C02", "C03", "C04":
		return o.Preempts > 0
	case "C10":
		return o.Stats["stalls"]+o.Stats["fault.reenter"] > 0
	case "C05", "C11":
		return o.Stats["seen.marshal-error"]+o.Stats["seen.unmarshal-error"]+o.Stats["seen.panic"]+o.Stats["seen.goexit"]+o.Stats["seen.cb-error"] > 0
	case "C12", "C13":
		return o.Stats["verdict.reject"] > 0
	case "C14":
		return o.Stats["verdict.reject"] > 0 && o.Stats["verdict.accept"] > 0
	case "C15":
		return o.Stats["op.put"] > 0 && o.Stats["fault.restart"] > 0 && o.Stats["verdict.accept"]+o.Stats["verdict.reject"] > 0
	case "C16":
		return o.Stats["dst.reused"]+o.Stats["dst.filled"] > 0
	case "C17":
		return o.Stats["op.marshal"] > 0
	case "C18":
		return o.Stats["cost.probes"] > 0
	}
	for k, n := range o.Stats {
		if n > 0 && (strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "seen.")) {
			return true
		}
	}
	return false
}

// watch ends the process before it takes all the memory there is.
func watch() {
	for range time.Tick(100 * time.Millisecond) {
		l := [1]metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(l[:])
		if l[0].Value.Uint64() > 24<<30 || rss() > 5<<30 {
			fmt.Fprintln(os.Stderr, "verifsim: out of memory budget")
			os.Exit(9)
		}
	}
}

func rss() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func setSched(p *world.Plan, o *world.Outcome) {
	for i := range o.Scheds {
		if i < len(p.Phases) && len(o.Scheds[i]) < 200000 {
			p.Phases[i].Strat = simrt.Strategy{Kind: "replay", Replay: o.Scheds[i]}
		}
	}
}

func finish(res *Result, t0 time.Time) {
	ps := simsync.PoolStats
	res.Pool = [5]int64{ps.Get, ps.Put, ps.New, ps.Reuse, ps.Drop}
	res.Wall = time.Since(t0).Seconds()
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *outp != "" {
		if err := os.WriteFile(*outp, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		if res.Viol != nil {
			fmt.Printf("VIOLATION %s run %d: %s phase %d client %d op %d\n%s\n", *prop, res.Run, res.Viol.Kind, res.Viol.Phase, res.Viol.Client, res.Viol.Op, res.Viol.Detail)
		}
		res.Hashes, res.Digests, res.NonTriv, res.Sites, res.Plan, res.Trace = nil, nil, nil, nil, nil, nil
		b, _ = json.MarshalIndent(res, "", " ")
		fmt.Println(string(b))
	}
	if res.Viol != nil {
		os.Exit(7)
	}
}
