// Command driver decides one property: it builds the simulator around the
// current sources of the library, searches seeds with several workers,
// confirms and minimises a violation, and writes the evidence.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var (
	prop    = flag.String("prop", "", "property")
	tier    = flag.String("tier", "quick", "quick or thorough")
	repo    = flag.String("repo", "/repo", "library under test")
	verif   = flag.String("verif", "/verif", "this framework")
	bin     = flag.String("bin", "", "directory with the built tools")
	replayF = flag.String("replay", "", "replay this file and tell whether the violation shows")
	secs    = flag.Int("secs", 0, "search time, 0 by tier")
)

const workers = 8

var (
	t0   = time.Now()
	work string
	lvl  int
)

func logf(f string, a ...any) {
	fmt.Printf("[%6.1fs] %s\n", time.Since(t0).Seconds(), fmt.Sprintf(f, a...))
}

func trouble(f string, a ...any) {
	fmt.Printf("ERROR %s\n", fmt.Sprintf(f, a...))
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if work != "" {
		os.RemoveAll(work)
	}
}

// ---- build

func goBuild(race bool, out string) ([]byte, error) {
	args := []string{"build", "-overlay", filepath.Join(work, "overlay", "overlay.json")}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "-o", out, "./internal/verifsim/worker")
	c := exec.Command("go", args...)
	c.Dir = *repo
	return c.CombinedOutput()
}

func build() string {
	w := filepath.Join(work, "worker")
	for lvl = 0; lvl <= 3; lvl++ {
		od := filepath.Join(work, "overlay")
		os.RemoveAll(od)
		if err := os.MkdirAll(od, 0o755); err != nil {
			trouble("%v", err)
		}
		c := exec.Command(filepath.Join(*bin, "instr"), "-repo", *repo, "-harness", filepath.Join(*verif, "sim", "harness"), "-out", od, "-level", strconv.Itoa(lvl))
		if b, err := c.CombinedOutput(); err != nil {
			logf("instrumenting at level %d: %v %s", lvl, err, tail(b))
			continue
		}
		b, err := goBuild(false, w)
		if err == nil {
			return w
		}
		logf("building at instrumentation level %d: %v\n%s", lvl, err, tail(b))
	}
	trouble("the library with the simulator does not build")
	return ""
}

func tail(b []byte) string {
	if len(b) > 3000 {
		b = append(append([]byte(nil), b[:1500]...), b[len(b)-1500:]...)
	}
	return string(b)
}

// ---- worker processes

type proc struct {
	cmd      *exec.Cmd
	out, cur string
	stderr   bytes.Buffer
	stdout   bytes.Buffer
	res      *Result
	err      error
	done     chan struct{}
	timedOut bool
	first    int
	step     int
	race     bool
}

var (
	seq   int
	seqMu sync.Mutex
)

func tmpName(kind string) string {
	seqMu.Lock()
	defer seqMu.Unlock()
	seq++
	return filepath.Join(work, fmt.Sprintf("%s%d", kind, seq))
}

func start(worker string, race bool, limit time.Duration, procs int, args ...string) *proc {
	p := &proc{out: tmpName("out"), cur: tmpName("cur"), done: make(chan struct{}), race: race}
	args = append(args, "-out", p.out, "-cur", p.cur)
	p.cmd = exec.Command(worker, args...)
	p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=5", "GOTRACEBACK=all", "GODEBUG=clobberfree=1")
	if procs > 0 {
		p.cmd.Env = append(p.cmd.Env, "GOMAXPROCS="+strconv.Itoa(procs))
	}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p.cmd.Stderr = &limited{b: &p.stderr}
	p.cmd.Stdout = &limited{b: &p.stdout}
	if err := p.cmd.Start(); err != nil {
		p.err = err
		close(p.done)
		return p
	}
	go func() {
		t := time.AfterFunc(limit, func() {
			p.timedOut = true
			syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
		})
		p.err = p.cmd.Wait()
		t.Stop()
		if b, err := os.ReadFile(p.out); err == nil {
			var r Result
			if decode(b, &r) == nil {
				p.res = &r
			}
		}
		os.Remove(p.out)
		close(p.done)
	}()
	return p
}

// limited keeps the beginning of the output.
type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if n := 1<<20 - l.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		l.b.Write(p[:n])
	}
	return len(p), nil
}

func (p *proc) term() {
	if p.cmd.Process != nil {
		syscall.Kill(p.cmd.Process.Pid, syscall.SIGTERM)
	}
}

func (p *proc) exit() int {
	var ee *exec.ExitError
	if p.err == nil {
		return 0
	}
	if errors.As(p.err, &ee) {
		return ee.ExitCode()
	}
	return -2
}

func (p *proc) curRun() int {
	b, err := os.ReadFile(p.cur)
	if err != nil {
		return -1
	}
	n, err := strconv.Atoi(strings.TrimSpace(strings.Split(string(b), "\n")[0]))
	if err != nil {
		return -1
	}
	return n
}

var libFrame = regexp.MustCompile(`(?m)^github\.com/[^\s]*go-phpserialize[^\s]*`)

// death classifies the end of a worker which left no result. "" when it is not
// the library's doing as far as one can tell.
func death(p *proc) (kind, detail string) {
	s := p.stderr.String()
	lib := false
	for _, f := range libFrame.FindAllString(s, -1) {
		if !strings.Contains(f, "/verifsim/") {
			lib = true
			break
		}
	}
	cut := s
	if len(cut) > 2500 {
		cut = cut[:2500] + "..."
	}
	switch {
	case p.timedOut:
		return "", "a worker did not end in time"
	case strings.Contains(s, "verifsim: out of memory budget"), strings.Contains(s, "runtime: out of memory"), strings.Contains(s, "cannot allocate memory"):
		if *prop == "C14" || *prop == "C18" {
			return "fatal-memory", cut
		}
		return "", cut
	case strings.Contains(s, "goroutine stack exceeds"), strings.Contains(s, "fatal error: stack overflow"):
		if lib {
			return "fatal-stack-overflow", cut
		}
	case strings.Contains(s, "fatal error: concurrent map"):
		if lib {
			return "fatal-concurrent-map", cut
		}
	case strings.Contains(s, "all goroutines are asleep"):
		if lib {
			return "fatal-deadlock", cut
		}
	case strings.Contains(s, "fatal error: sync: "):
		if lib {
			return "fatal-unlock", cut
		}
	case strings.Contains(s, "unexpected fault address"), strings.Contains(s, "[signal SIGSEGV"), strings.Contains(s, "[signal SIGBUS"), strings.Contains(s, "unexpected signal during runtime"), strings.Contains(s, "found bad pointer"), strings.Contains(s, "fatal error: found"), strings.Contains(s, "checkptr"), strings.Contains(s, "found pointer to free object"):
		return "fatal-memory-corruption", cut
	case strings.HasPrefix(s, "panic: ") || strings.Contains(s, "\npanic: "):
		// whose frame is on top?
		i := strings.Index(s, "panic: ")
		for _, f := range libFrame.FindAllString(s[i:], 1) {
			if !strings.Contains(f, "/verifsim/") {
				return "fatal-panic", cut
			}
		}
	case strings.Contains(s, "fatal error: "):
		if lib {
			return "fatal-error", cut
		}
	}
	return "", cut
}

// ---- trying plans

// try executes one replay file in a fresh process.
func try(rf *ReplayFile, limit time.Duration) (*Violation, *Plan, *proc) {
	f := tmpName("replay") + ".json"
	b, _ := json.Marshal(rf)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		trouble("%v", err)
	}
	defer os.Remove(f)
	return tryFile(f, rf.Race, limit)
}

// strict: replays are judged as first runs are (while minimising), so that what
// is left does not sit on the edge of what counts.
var strict bool

func tryFile(f string, race bool, limit time.Duration) (*Violation, *Plan, *proc) {
	w := filepath.Join(work, "worker")
	if race {
		w = filepath.Join(work, "worker-race")
	}
	args := []string{"-replay", f}
	if strict {
		args = append(args, "-strict")
	}
	p := start(w, race, limit, 0, args...)
	<-p.done
	if p.res != nil {
		if p.res.Viol != nil && p.res.Viol.Kind == "race" {
			p.res.Viol.Detail = raceText(p.stderr.String())
		}
		return p.res.Viol, p.res.Plan, p
	}
	if k, d := death(p); k != "" {
		return &Violation{Kind: k, Detail: d}, nil, p
	}
	return nil, nil, p
}

func raceText(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return "data race"
	}
	s = s[i:]
	if j := strings.Index(s, "=================="); j > 0 {
		s = s[:j]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

type found struct {
	v    *Violation
	plan *Plan
	run  int
	p    *proc
}

func main() {
	flag.Parse()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = n
		} else {
			for _, c := range []byte(s) {
				seed = seed*131 + uint64(c)
			}
		}
	}
	var err error
	work, err = os.MkdirTemp("", "verifsim")
	if err != nil {
		trouble("%v", err)
	}
	fmt.Printf("VERIF_SEED=%d property=%s tier=%s\n", seed, *prop, *tier)
	w := build()
	logf("built at instrumentation level %d", lvl)
	if *replayF != "" {
		replayMain()
		return
	}
	info, ok := infos[*prop]
	if !ok {
		trouble("no property %s", *prop)
	}
	search := 20 * time.Second
	raceSearch := 12 * time.Second
	if *tier == "thorough" {
		search, raceSearch = 420*time.Second, 240*time.Second
	}
	if *secs > 0 {
		search = time.Duration(*secs) * time.Second
		raceSearch = search
	}
	raceReady := make(chan error, 1)
	if info.race {
		go func() {
			b, err := goBuild(true, filepath.Join(work, "worker-race"))
			if err != nil {
				err = fmt.Errorf("%v\n%s", err, tail(b))
			}
			raceReady <- err
		}()
	}
	var procs []*proc
	f := batch(w, false, seed, 0, search, &procs)
	if info.race && f == nil {
		if err := <-raceReady; err != nil {
			trouble("race build: %v", err)
		}
		logf("race detector build ready")
		f = batch(filepath.Join(work, "worker-race"), true, seed, 1<<24, raceSearch, &procs)
	}
	ev := collect(procs, seed)
	if f == nil {
		det := determinism(w, seed, procs)
		writeEvidence(ev, det, seed, info, 0, nil)
		logf("held on %d runs, %d distinct non-trivial", ev.runs, len(ev.nontriv))
		cleanup()
		return
	}
	logf("run %d: %s: %.600s", f.run, f.v.Kind, f.v.Detail)
	if f.p.race == false && info.race {
		go func() { <-raceReady }()
	}
	path, v := confirm(f, seed)
	writeEvidence(ev, nil, seed, info, 1, v)
	fmt.Printf("violation: %s (phase %d client %d op %d)\n%s\n", v.Kind, v.Phase, v.Client, v.Op, v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	cleanup()
	os.Exit(1)
}

// batch runs the workers; the first violation stops them all.
func batch(worker string, race bool, seed uint64, base int, d time.Duration, all *[]*proc) *found {
	var ps []*proc
	for i := 0; i < workers; i++ {
		p := start(worker, race, d+120*time.Second, 2, "-prop", *prop, "-seed", fmt.Sprint(seed), "-start", strconv.Itoa(base+i), "-step", strconv.Itoa(workers), "-budget", d.String())
		p.first, p.step = base+i, workers
		ps = append(ps, p)
	}
	*all = append(*all, ps...)
	ch := make(chan *proc, len(ps))
	for _, p := range ps {
		go func(p *proc) { <-p.done; ch <- p }(p)
	}
	var f *found
	var bad *proc
	for range ps {
		p := <-ch
		var g *found
		switch {
		case p.res != nil && p.res.Viol != nil:
			if p.res.Viol.Kind == "race" {
				p.res.Viol.Detail = raceText(p.stderr.String())
			}
			g = &found{p.res.Viol, p.res.Plan, p.res.Run, p}
		case p.res == nil:
			if k, d := death(p); k != "" && p.curRun() >= 0 {
				g = &found{&Violation{Kind: k, Detail: d}, nil, p.curRun(), p}
			} else {
				bad = p
			}
		}
		if g != nil || bad != nil {
			for _, q := range ps {
				if f == nil {
					q.term()
				}
			}
		}
		if g != nil && (f == nil || g.run < f.run && better(g.v, f.v)) {
			f = g
		}
	}
	if f == nil && bad != nil {
		_, d := death(bad)
		trouble("a worker failed (exit %d, run %d): %s", bad.exit(), bad.curRun(), d)
	}
	return f
}

func better(a, b *Violation) bool {
	return !strings.HasPrefix(a.Kind, "fatal") || strings.HasPrefix(b.Kind, "fatal")
}

// confirm makes the violation happen again in a fresh process, minimises it and
// leaves the replay file behind.
func confirm(f *found, seed uint64) (string, *Violation) {
	lim := 60 * time.Second
	rf := &ReplayFile{Property: *prop, VerifSeed: seed, Run: f.run, Race: f.p.race, Violation: f.v}
	var v *Violation
	var plan *Plan
	for i := 0; i < 2 || rf.Race && i < 6; i++ {
		if v, plan, _ = try(rf, lim); v != nil {
			break
		}
	}
	if v == nil {
		// it may need what the process did before
		var all []int
		for i := f.p.first; i < f.run; i += f.p.step {
			all = append(all, i)
		}
		for _, n := range []int{1, 8, 64, 512, len(all)} {
			if n > len(all) {
				n = len(all)
			}
			rf.History = all[len(all)-n:]
			if v, plan, _ = try(rf, 300*time.Second); v != nil {
				break
			}
			if n == len(all) {
				break
			}
		}
		if v == nil {
			trouble("the violation %s of run %d did not show again: %s", f.v.Kind, f.run, f.v.Detail)
		}
	}
	kind := v.Kind
	budget := 40 * time.Second
	if *tier == "thorough" {
		budget = 120 * time.Second
	}
	if plan == nil {
		plan = dumpPlan(seed, f.run)
	}
	rf.Plan = plan
	best := *rf
	if v2, _, _ := try(&best, lim); v2 == nil || v2.Kind != kind {
		best.Plan = nil // the schedule as recorded does not show it: keep the seed
		best.Note = "executed from its seed"
	} else {
		v = v2
		m := &minimiser{kind: kind, rf: &best, until: time.Now().Add(budget), lim: 20 * time.Second}
		strict = true
		m.run()
		strict = false
		logf("minimised with %d executions", m.n)
	}
	dir := filepath.Join(*verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", *prop, seed, f.run))
	whole := *rf
	whole.Note = "not minimised: what is left after it does not always show the violation"
	for _, c := range []*ReplayFile{&best, &whole} {
		for i := 0; i < 2; i++ {
			if v3, _, _ := try(c, lim); v3 != nil && v3.Kind == kind {
				v = v3
				break
			}
		}
		c.Violation = v
		b, _ := json.MarshalIndent(c, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			trouble("%v", err)
		}
		if v4, _ := again(path, c.Race, lim); v4 != nil && v4.Kind == kind {
			return path, v
		}
	}
	trouble("the replay file %s does not reproduce %s", path, kind)
	return path, v
}

// again executes a replay file. The execution is the same each time, but the race
// detector remembers only some of the accesses to a place, and which ones depends
// on addresses: so it is given several chances.
func again(path string, race bool, lim time.Duration) (*Violation, *proc) {
	for i := 0; ; i++ {
		v, _, p := tryFile(path, race, lim)
		if v != nil || !race || i == 5 {
			return v, p
		}
	}
}

func dumpPlan(seed uint64, run int) *Plan {
	w := filepath.Join(work, "worker")
	c := exec.Command(w, "-prop", *prop, "-seed", fmt.Sprint(seed), "-start", strconv.Itoa(run), "-count", "1", "-dump")
	b, err := c.Output()
	if err != nil {
		return nil
	}
	var p Plan
	if decode(b, &p) != nil {
		return nil
	}
	return &p
}

func replayMain() {
	b, err := os.ReadFile(*replayF)
	if err != nil {
		trouble("%v", err)
	}
	var rf ReplayFile
	if err := decode(b, &rf); err != nil {
		trouble("%v", err)
	}
	*prop = rf.Property
	if rf.Race {
		if b, err := goBuild(true, filepath.Join(work, "worker-race")); err != nil {
			trouble("race build: %v %s", err, tail(b))
		}
	}
	f, err := filepath.Abs(*replayF)
	if err != nil {
		trouble("%v", err)
	}
	v, p := again(f, rf.Race, 300*time.Second)
	if v == nil {
		if p.res == nil {
			_, d := death(p)
			trouble("the worker failed: %s", d)
		}
		logf("no violation")
		cleanup()
		return
	}
	fmt.Printf("violation: %s (phase %d client %d op %d step %d)\n%s\n", v.Kind, v.Phase, v.Client, v.Op, v.Step, v.Detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *replayF)
	cleanup()
	os.Exit(1)
}

// determinism repeats the first runs of one worker elsewhere.
func determinism(w string, seed uint64, procs []*proc) map[string]any {
	var first *Result
	for _, p := range procs {
		if p.res != nil && p.first == 0 && !p.race {
			first = p.res
		}
	}
	if first == nil {
		return nil
	}
	n := len(first.Trace)
	if n > 150 {
		n = 150
	}
	budget := 6 * time.Second
	p := start(w, false, 60*time.Second, 5, "-prop", *prop, "-seed", fmt.Sprint(seed), "-start", "0", "-step", strconv.Itoa(workers), "-count", strconv.Itoa(n), "-budget", budget.String())
	<-p.done
	if p.res == nil {
		return map[string]any{"compared": 0}
	}
	same, diff := 0, 0
	for i := range p.res.Trace {
		if i < len(first.Trace) {
			if first.Trace[i] == p.res.Trace[i] {
				same++
			} else {
				diff++
			}
		}
	}
	if diff > 0 {
		logf("WARNING: %d of %d repeated runs were not the same", diff, same+diff)
	}
	return map[string]any{"runs_repeated_in_another_process": same + diff, "identical": same, "different": diff}
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
