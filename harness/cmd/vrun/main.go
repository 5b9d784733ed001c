// vrun decides one property: it builds the workload against the current tree of /repo, runs it in
// several watched processes, and turns what they observed into a verdict and an evidence file.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/harness/h"
	"verif.local/harness/instr"
)

const (
	stallAfter  = 25 * time.Second // no progress at all for this long is looked at
	confirmTime = 60 * time.Second
	rssLimit    = 3 << 30
	maxRestarts = 4
)

var (
	prop    = flag.String("prop", "", "")
	tier    = flag.String("tier", "", "")
	seed    = flag.Int64("seed", 0, "")
	only    = flag.Int("only", -1, "run one case")
	build   = flag.String("build", "", "with -only: the build")
	repo    = flag.String("repo", "/repo", "")
	root    = flag.String("root", "/verif", "")
	verbose = flag.Bool("v", false, "")
)

var scratch string

func fatal(f string, a ...interface{}) {
	fmt.Printf("INCONCLUSIVE property=%s %s\n", *prop, fmt.Sprintf(f, a...))
	os.RemoveAll(scratch)
	os.Exit(2)
}

func goTool(args ...string) ([]byte, error) {
	if args[0] == "build" { // some checks use parts of the library that the others do not need
		args = append([]string{"build", "-tags", "only" + *prop}, args[1:]...)
	}
	c := exec.Command("go", args...)
	c.Dir = filepath.Join(*root, "harness")
	c.Env = os.Environ()
	return c.CombinedOutput()
}

type result struct {
	stats      []h.Stats
	violations []h.Violation
	notes      []string
	restarts   int
	truncated  bool
}

type runner struct {
	mu       sync.Mutex
	res      result
	deadline time.Time
	total    int // violations so far
}

func main() {
	flag.Parse()
	start := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed == 0 {
		*seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if *seed == 0 {
			*seed = 1
		}
	}
	var err error
	scratch, err = os.MkdirTemp("", "vrun")
	if err != nil {
		fatal("no scratch directory: %v", err)
	}
	sig := make(chan os.Signal, 2)
	signal.Notify(sig, syscall.SIGINT, syscall.SIGTERM)
	go func() {
		<-sig
		killAll()
		os.RemoveAll(scratch)
		os.Exit(2)
	}()

	// The checks run one after another; anything an earlier one left in the evidence is replaced.
	os.MkdirAll(filepath.Join(*root, "evidence", "replays"), 0755)
	ev := filepath.Join(*root, "evidence", *prop+".json")
	os.Remove(ev)

	plain := filepath.Join(scratch, "worker")
	if out, err := goTool("build", "-o", plain, "./cmd/worker"); err != nil {
		fatal("the harness does not build against %s:\n%s", *repo, out)
	}
	out, err := exec.Command(plain, "-prop", *prop, "-tier", *tier, "-plan").Output()
	if err != nil {
		fatal("no plan: %v", err)
	}
	var plan h.Plan
	if err := json.Unmarshal(out, &plan); err != nil {
		fatal("bad plan: %v", err)
	}

	limit := 400 * time.Second
	if *tier == "thorough" {
		limit = 840 * time.Second
	}
	r := &runner{deadline: start.Add(limit)}
	evals := map[string]int{}
	for _, b := range plan.Builds {
		if *only >= 0 && b.Name != *build {
			continue
		}
		if b.Cases == 0 {
			continue
		}
		bin := plain
		if b.Race || b.Instr {
			bin = filepath.Join(scratch, "worker-"+b.Name)
			args := []string{"build", "-o", bin}
			if b.Race {
				args = append(args, "-race")
			}
			if b.Instr {
				ov, n, err := overlay()
				if err != nil {
					fatal("instrumentation: %v", err)
				}
				args = append(args, "-overlay", ov)
				os.Setenv("VERIF_SITES", strconv.Itoa(n))
			}
			if out, err := goTool(append(args, "./cmd/worker")...); err != nil {
				fatal("build %s:\n%s", b.Name, out)
			}
		}
		if r.found() {
			break // what the other builds say does not matter any more
		}
		n0 := len(r.res.stats)
		t0 := time.Now()
		r.runBuild(plan, b, bin)
		if *verbose {
			fmt.Printf("build %q: %.1fs\n", b.Name, time.Since(t0).Seconds())
		}
		for _, s := range r.res.stats[n0:] {
			evals[b.Name] += s.Cases
		}
	}
	code := conclude(plan, r, evals, ev, time.Since(start))
	os.RemoveAll(scratch)
	os.Exit(code)
}

func overlay() (string, int, error) {
	c := exec.Command("go", "list", "-f", "{{range .GoFiles}}{{.}}\n{{end}}", ".")
	c.Dir = *repo
	out, err := c.Output()
	if err != nil {
		return "", 0, err
	}
	files := strings.Fields(string(out))
	p, sites, err := instr.Overlay(*repo, scratch, files)
	if err == nil {
		b, _ := json.Marshal(sites)
		sp := filepath.Join(scratch, "sites.json")
		os.WriteFile(sp, b, 0644)
		os.Setenv("VERIF_SITES_FILE", sp)
	}
	return p, len(sites), err
}

var (
	procMu sync.Mutex
	procs  = map[int]bool{}
)

func killAll() {
	procMu.Lock()
	for p := range procs {
		syscall.Kill(-p, syscall.SIGKILL)
	}
	procMu.Unlock()
}

func (r *runner) runBuild(plan h.Plan, b h.PlanBuild, bin string) {
	n := runtime.NumCPU()
	if plan.Procs > 0 && plan.Procs < n {
		n = plan.Procs
	}
	if n > b.Cases {
		n = b.Cases
	}
	if *only >= 0 {
		r.shard(b, bin, *only, 1, *only+1, 0)
		return
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r.shard(b, bin, i, n, b.Cases, i)
		}(i)
	}
	wg.Wait()
}

// outcome of one worker process
type outcome struct {
	kind   string // "done", "crash", "stall", "memory", "deadline"
	idx    int    // case it was in
	stderr string
	stats  h.Stats
}

func (r *runner) process(b h.PlanBuild, bin string, start, stride, total int, deadline time.Time, stall time.Duration) outcome {
	dir, _ := os.MkdirTemp(scratch, "w")
	defer os.RemoveAll(dir)
	beat := filepath.Join(dir, "beat")
	os.WriteFile(beat, make([]byte, 4096), 0644)
	outp := filepath.Join(dir, "out.json")
	errf, _ := os.Create(filepath.Join(dir, "err"))
	wd := filepath.Join(dir, "work")
	os.Mkdir(wd, 0755)
	c := exec.Command(bin, "-prop", *prop, "-build", b.Name, "-tier", *tier, "-seed", strconv.FormatInt(*seed, 10),
		"-start", strconv.Itoa(start), "-stride", strconv.Itoa(stride), "-total", strconv.Itoa(total),
		"-out", outp, "-beat", beat, "-dir", wd, fmt.Sprintf("-v=%v", *verbose))
	c.Stderr = errf
	c.Stdout = errf
	c.Dir = wd
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOTRACEBACK=all", "TMPDIR="+wd, "HOME="+wd)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := c.Start(); err != nil {
		return outcome{kind: "error", stderr: err.Error()}
	}
	pid := c.Process.Pid
	procMu.Lock()
	procs[pid] = true
	procMu.Unlock()
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	o := outcome{kind: "done"}
	var lastBeat uint64
	lastMove := time.Now()
	readBeat := func() (uint64, uint64) {
		bb, err := os.ReadFile(beat)
		if err != nil || len(bb) < 16 {
			return 0, 0
		}
		return binary.LittleEndian.Uint64(bb[:8]), binary.LittleEndian.Uint64(bb[8:16])
	}
	var err error
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			_, bt := readBeat()
			now := time.Now()
			if bt != lastBeat {
				lastBeat, lastMove = bt, now
			}
			kind := ""
			if now.Sub(lastMove) > stall {
				kind = "stall"
			} else if rss(pid) > rssLimit {
				kind = "memory"
			} else if now.After(deadline) {
				kind = "deadline"
			}
			if kind != "" {
				o.kind = kind
				if stall == confirmTime && quitChildren(pid) {
					// a child that hangs: the worker gets to tell about it
					select {
					case err = <-done:
						o.kind = "done"
						break loop
					case <-time.After(5 * time.Second):
					}
				}
				syscall.Kill(pid, syscall.SIGQUIT)
				select {
				case err = <-done:
				case <-time.After(5 * time.Second):
					syscall.Kill(-pid, syscall.SIGKILL)
					err = <-done
				}
				break loop
			}
		}
	}
	syscall.Kill(-pid, syscall.SIGKILL)
	procMu.Lock()
	delete(procs, pid)
	procMu.Unlock()
	ci, _ := readBeat()
	o.idx = int(ci) - 1
	errf.Close()
	eb, _ := os.ReadFile(errf.Name())
	o.stderr = string(eb)
	if *verbose {
		os.Stderr.Write(eb)
	}
	if sb, e := os.ReadFile(outp); e == nil {
		json.Unmarshal(sb, &o.stats)
	}
	if o.kind == "done" && (err != nil || !o.stats.Done) {
		o.kind = "crash"
		if err != nil {
			o.stderr += "\nexit: " + err.Error()
		}
	}
	return o
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

func (r *runner) shard(b h.PlanBuild, bin string, start, stride, total, id int) {
	for restart := 0; ; restart++ {
		o := r.process(b, bin, start, stride, total, r.deadline, stallAfter)
		r.mu.Lock()
		r.res.stats = append(r.res.stats, o.stats)
		r.mu.Unlock()
		switch o.kind {
		case "done":
			return
		case "error":
			r.note("worker could not run: " + o.stderr)
			return
		case "deadline":
			r.mu.Lock()
			r.res.truncated = true
			r.mu.Unlock()
			return
		case "crash":
			r.crash(b, o)
		case "stall", "memory":
			r.stalled(b, bin, o)
		}
		r.mu.Lock()
		r.res.restarts++
		stop := r.res.restarts > 12 || r.found()
		r.mu.Unlock()
		if restart >= maxRestarts || stop || o.idx < 0 || (o.idx/stride+1)*stride >= total || time.Now().After(r.deadline) {
			r.mu.Lock()
			r.res.truncated = true
			r.mu.Unlock()
			return
		}
		start = (o.idx/stride+1)*stride + id
	}
}

// found tells whether the verdict is already known. The caller holds r.mu.
func (r *runner) found() bool {
	if len(r.res.violations) > 0 {
		return true
	}
	for _, s := range r.res.stats {
		if len(s.Violations) > 0 {
			return true
		}
	}
	return false
}

func (r *runner) note(s string) {
	r.mu.Lock()
	r.res.notes = append(r.res.notes, s)
	r.mu.Unlock()
}

func (r *runner) violation(b h.PlanBuild, idx int, sig, detail string) {
	if len(detail) > 20000 {
		detail = detail[:20000] + "\n..."
	}
	r.mu.Lock()
	r.res.violations = append(r.res.violations, h.Violation{Prop: *prop, Sig: sig, Idx: idx, Build: b.Name, Detail: detail})
	r.mu.Unlock()
}

var (
	frameRe = regexp.MustCompile(`github\.com/chzyer/readline[./][^\s(]*`)
	goHdr   = regexp.MustCompile(`^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]*)\]:`)
)

// topInLib tells whether the library, and not the harness called by it, is the first of the two on
// the stack.
func topInLib(s string) bool {
	i, j := strings.Index(s, "github.com/chzyer/readline"), strings.Index(s, "verif.local/harness")
	return i >= 0 && (j < 0 || i < j)
}

func inLib(s string) bool { return strings.Contains(s, "github.com/chzyer/readline") }

// crash decides what the death of a worker means.
func (r *runner) crash(b h.PlanBuild, o outcome) {
	s := o.stderr
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		rep := s[i:]
		if j := strings.Index(rep, "=================="); j > 0 {
			rep = rep[:j]
		}
		// the two accesses come first; both stacks, or one of them, must run library code
		acc := rep
		if j := strings.Index(acc, "Goroutine "); j > 0 {
			acc = acc[:j]
		}
		if inLib(acc) {
			r.violation(b, o.idx, "race:"+raceSig(acc), rep)
		} else {
			r.note("data race outside the library:\n" + rep)
		}
		return
	}
	for _, mark := range []string{"panic: ", "fatal error: ", "runtime: "} {
		if i := strings.Index(s, mark); i >= 0 {
			rep := s[i:]
			// the goroutine that failed comes first
			first := rep
			if j := strings.Index(first, "\ngoroutine "); j >= 0 {
				if k := strings.Index(first[j+1:], "\n\ngoroutine "); k >= 0 {
					first = first[:j+1+k]
				}
			}
			if topInLib(first) || strings.HasPrefix(rep, "fatal error: all goroutines are asleep") && inLib(rep) {
				r.violation(b, o.idx, "panic:"+firstFrame(first), rep)
			} else {
				r.note("the harness failed: " + rep)
			}
			return
		}
	}
	r.note(fmt.Sprintf("worker died in case %d: %s", o.idx, tail(s, 2000)))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstFrame(s string) string {
	m := frameRe.FindString(s)
	return strings.TrimPrefix(m, "github.com/chzyer/")
}

func raceSig(acc string) string {
	var out []string
	for _, part := range strings.Split(acc, "Previous ") {
		out = append(out, firstFrame(part))
	}
	sort.Strings(out)
	return strings.Join(out, "|")
}

// stalled decides what a worker without progress means. A case that makes no progress when it is
// run again by itself, with time to spare, hangs; so does one whose goroutines were all blocked.
func (r *runner) stalled(b h.PlanBuild, bin string, o outcome) {
	sig := "hang"
	if o.kind == "memory" {
		sig = "memory"
	}
	blocked := o.kind == "stall" && allBlocked(o.stderr)
	if blocked && inLib(o.stderr) {
		r.violation(b, o.idx, sig+":"+firstFrame(o.stderr), "every goroutine is blocked and nothing is left to wake one:\n"+o.stderr)
		return
	}
	r.mu.Lock()
	known := r.found()
	r.mu.Unlock()
	if known {
		r.note("another case without progress: " + strconv.Itoa(o.idx))
		return
	}
	end := time.Now().Add(confirmTime + 5*time.Second)
	o2 := r.process(b, bin, o.idx, 1, o.idx+1, end, confirmTime)
	switch o2.kind {
	case "stall", "memory", "deadline":
		if inLib(o2.stderr) {
			r.violation(b, o.idx, sig+":"+firstFrame(o2.stderr), "no progress ("+o2.kind+"):\n"+o2.stderr)
			return
		}
		r.note("the harness makes no progress in case " + strconv.Itoa(o.idx) + ":\n" + tail(o2.stderr, 3000))
	case "crash":
		r.crash(b, o2)
	default:
		if len(o2.stats.Violations) > 0 {
			r.mu.Lock()
			r.res.stats = append(r.res.stats, o2.stats)
			r.mu.Unlock()
			return
		}
		os.WriteFile(filepath.Join(*root, "evidence", "replays", *prop+"-once.txt"), []byte(o.stderr), 0644)
		r.note(fmt.Sprintf("case %d made no progress for %v once, and finished when run again; dump:\n%s", o.idx, stallAfter, tail(o.stderr, 3000)))
	}
}

// quitChildren makes the processes a worker runs the library in end with a dump of their goroutines.
func quitChildren(pid int) (any bool) {
	stats, _ := filepath.Glob("/proc/[0-9]*/stat")
	for _, t := range stats {
		b, _ := os.ReadFile(t)
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 2 || f[1] != strconv.Itoa(pid) {
			continue
		}
		if n, err := strconv.Atoi(strings.Split(t, "/")[2]); err == nil && n > 1 {
			syscall.Kill(n, syscall.SIGQUIT)
			any = true
		}
	}
	return
}

// allBlocked tells whether a goroutine dump shows only goroutines waiting for each other.
func allBlocked(dump string) bool {
	n := 0
	for _, l := range strings.Split(dump, "\n") {
		m := goHdr.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		n++
		st := strings.SplitN(m[1], ",", 2)[0]
		switch {
		case strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"), strings.HasPrefix(st, "sync."),
			strings.HasPrefix(st, "semacquire"), st == "finalizer wait", st == "idle",
			strings.HasPrefix(st, "GC "), strings.HasPrefix(st, "force gc"), strings.HasPrefix(st, "bgs"),
			strings.HasPrefix(st, "cleanup wait"), strings.HasPrefix(st, "debug call"):
		default:
			return false
		}
	}
	return n > 1
}

type known struct {
	Findings []struct {
		ID       string `json:"id"`
		Property string `json:"property"`
		What     string `json:"what"`
	} `json:"findings"`
}

func conclude(plan h.Plan, r *runner, evals map[string]int, ev string, wall time.Duration) int {
	counts := map[string]int64{}
	sets := map[string]map[uint64]struct{}{}
	var samples []interface{}
	findings := map[string]string{}
	evaluations := 0
	for _, s := range r.res.stats {
		evaluations += s.Cases
		for k, v := range s.Counts {
			counts[k] += v
		}
		for k, l := range s.Distinct {
			m := sets[k]
			if m == nil {
				m = map[uint64]struct{}{}
				sets[k] = m
			}
			for _, v := range l {
				m[v] = struct{}{}
			}
		}
		for _, x := range s.Samples {
			if len(samples) < 8 {
				samples = append(samples, x)
			}
		}
		for k, v := range s.Findings {
			findings[k] = v
		}
		r.res.violations = append(r.res.violations, s.Violations...)
	}
	delete(counts, "violations_seen")
	var kn known
	if b, err := os.ReadFile(filepath.Join(*root, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kn); err != nil {
			fatal("known_findings.json: %v", err)
		}
	}
	listed := map[string]string{}
	for _, f := range kn.Findings {
		if f.Property == *prop {
			listed[f.ID] = f.What
		}
	}
	var ids []string
	for id := range findings {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if w, ok := listed[id]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, id, w)
		} else {
			r.res.violations = append(r.res.violations, h.Violation{Prop: *prop, Sig: "finding:" + id, Idx: -1, Detail: findings[id]})
		}
	}

	sort.SliceStable(r.res.violations, func(i, j int) bool { return r.res.violations[i].Sig < r.res.violations[j].Sig })
	seen := map[string]int{}
	distinctSets := map[string]int{}
	for k, m := range sets {
		distinctSets[k] = len(m)
	}
	nViol := 0
	for _, v := range r.res.violations {
		seen[v.Sig]++
		if seen[v.Sig] > 1 {
			continue
		}
		nViol++
		if nViol > 12 {
			continue
		}
		name := regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(v.Sig, "-")
		if len(name) > 60 {
			name = name[:60]
		}
		path := filepath.Join("evidence", "replays", *prop+"-"+name+".txt")
		var b bytes.Buffer
		fmt.Fprintf(&b, "property %s violated (%s)\n", *prop, v.Sig)
		if v.Idx >= 0 {
			fmt.Fprintf(&b, "replay: ./check.sh %s -tier %s -seed %d -only %d -build '%s' -v\n", *prop, *tier, *seed, v.Idx, v.Build)
		}
		fmt.Fprintf(&b, "\n%s\n", v.Detail)
		os.WriteFile(filepath.Join(*root, path), b.Bytes(), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		fmt.Printf("  [%s] case %d: %s\n", v.Sig, v.Idx, strings.Replace(first(v.Detail, 500), "\n", "\n    ", -1))
	}

	sort.Slice(samples, func(i, j int) bool { return fmt.Sprint(samples[i]) < fmt.Sprint(samples[j]) })
	if len(samples) > 5 {
		samples = samples[:5]
	}
	rule := plan.Rule
	cov := map[string]interface{}{
		"evaluations":         evaluations,
		"distinct_nontrivial": distinctSets[plan.Count],
		"rule":                rule,
		"samples":             samples,
		"observed":            counts,
		"distinct":            distinctSets,
		"cases_per_build":     evals,
		"worker_restarts":     r.res.restarts,
		"truncated":           r.res.truncated,
	}
	if len(r.res.notes) > 0 {
		cov["inconclusive"] = r.res.notes
	}
	j := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": *seed, "level": plan.Level,
		"coverage": cov, "wall_s": float64(int(wall.Seconds()*10)) / 10, "violations": nViol,
	}
	if len(plan.Assume) > 0 {
		j["assumptions"] = plan.Assume
	}
	b, _ := json.MarshalIndent(j, "", " ")
	if err := os.WriteFile(ev, append(b, '\n'), 0644); err != nil {
		fatal("evidence: %v", err)
	}
	fmt.Printf("%s %s: %d cases, %d distinct, %.1fs, %d violation(s)", *prop, *tier, evaluations, distinctSets[plan.Count], wall.Seconds(), nViol)
	var ks []string
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf(" %s=%d", k, counts[k])
	}
	for k, n := range distinctSets {
		fmt.Printf(" |%s|=%d", k, n)
	}
	fmt.Println()
	for _, n := range r.res.notes {
		fmt.Println("note:", first(n, 1500))
	}
	if nViol > 0 {
		return 1
	}
	if *only >= 0 {
		return 0
	}
	for k, m := range plan.Min {
		v := counts[k]
		if n, ok := distinctSets[k]; ok {
			v = int64(n)
		}
		if v < m {
			fmt.Printf("INCONCLUSIVE property=%s observed %s=%d, at least %d is needed for a verdict\n", *prop, k, v, m)
			return 2
		}
	}
	return 0
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
