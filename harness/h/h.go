// Package h is the harness core: the case context that property workloads use to report what they
// observed, and the worker side of the parent/worker protocol.
package h

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Violation is one refutation, with what is needed to replay it.
type Violation struct {
	Prop   string `json:"property"`
	Sig    string `json:"sig"` // stable class of the failure, used to deduplicate and to match findings
	Idx    int    `json:"case"`
	Build  string `json:"build"`
	Detail string `json:"detail"`
}

// Stats is what a worker observed.
type Stats struct {
	Cases      int                 `json:"cases"`
	Counts     map[string]int64    `json:"counts"`
	Distinct   map[string][]uint64 `json:"distinct"`
	Samples    []string            `json:"samples"`
	Violations []Violation         `json:"violations"`
	Findings   map[string]string   `json:"findings"` // known finding id -> what was observed
	Done       bool                `json:"done"`
	Next       int                 `json:"next"`
}

// Ctx is handed to every case of a property.
type Ctx struct {
	Prop    string
	Idx     int
	Seed    int64
	R       *rand.Rand
	Tier    string
	Verbose bool
	Dir     string // scratch directory of this worker
	Build   string // how the code was compiled

	mu *sync.Mutex
	st *Stats
	ds map[string]map[uint64]struct{}
}

const maxDistinct = 400000

// Fail records a violation. sig names the class of failure; it must not depend on random content.
func (c *Ctx) Fail(sig, format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	d := fmt.Sprintf(format, a...)
	if c.Verbose {
		fmt.Fprintf(os.Stderr, "FAIL %s case %d [%s]\n%s\n", c.Prop, c.Idx, sig, d)
	}
	n := 0
	for _, v := range c.st.Violations {
		if v.Sig == sig {
			n++
		}
	}
	if n < 3 && len(c.st.Violations) < 60 {
		c.st.Violations = append(c.st.Violations, Violation{c.Prop, sig, c.Idx, c.Build, d})
	}
	c.st.Counts["violations_seen"]++
}

// Finding reports that the known finding id shows the recorded failure.
func (c *Ctx) Finding(id, what string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.st.Findings[id] = what
}

// Count adds to a counter that ends up in the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.st.Counts[name] += int64(n)
	c.mu.Unlock()
}

// Seen records a member of a named set; the evidence reports the size of the set.
func (c *Ctx) Seen(set string, parts ...interface{}) {
	f := fnv.New64a()
	fmt.Fprint(f, parts...)
	c.SeenHash(set, f.Sum64())
}

func (c *Ctx) SeenHash(set string, v uint64) {
	c.mu.Lock()
	m := c.ds[set]
	if m == nil {
		m = map[uint64]struct{}{}
		c.ds[set] = m
	}
	if len(m) < maxDistinct {
		m[v] = struct{}{}
	}
	c.mu.Unlock()
}

// Sample keeps a few cases, written out.
func (c *Ctx) Sample(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.st.Samples) < 2 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 800 {
			s = s[:800] + "..."
		}
		c.st.Samples = append(c.st.Samples, s)
	}
	c.mu.Unlock()
}

// Build is one way the real code is compiled for a property.
type Build struct {
	Name  string                // "" for the plain build
	Race  bool                  // with the race detector
	Instr bool                  // with scheduling points inserted into a copy of the source
	Cases func(tier string) int // number of cases run under this build
}

// Prop is a property's workload and monitors.
type Prop struct {
	ID     string
	Level  string // MANIFEST level; "" is exploration
	Rule   string // how cases are made and what makes one non-trivial
	Count  string // the set that counts distinct non-trivial cases
	Builds []Build
	Cases  func(tier string) int // used when Builds is empty
	Run    func(c *Ctx)
	// Init runs once per worker.
	Init func(c *Ctx)
	// Min is what has to be observed, at least, for a run without violations to mean anything.
	Min map[string]int64
	// Assume lists what the verdict rests on.
	Assume []string
	// Procs limits the number of workers (0: one per core).
	Procs int
}

// PlanBuild and Plan are what the parent needs to know about a property.
type PlanBuild struct {
	Name        string
	Race, Instr bool
	Cases       int
}

type Plan struct {
	ID, Level, Rule, Count string
	Builds                 []PlanBuild
	Min                    map[string]int64
	Assume                 []string
	Procs                  int
}

func (p *Prop) builds() []Build {
	if len(p.Builds) == 0 {
		return []Build{{Cases: p.Cases}}
	}
	return p.Builds
}

// CaseCount is the number of cases of a build in a tier.
func (p *Prop) CaseCount(build, tier string) int {
	for _, b := range p.builds() {
		if b.Name == build {
			return b.Cases(tier)
		}
	}
	return 0
}

func (p *Prop) Plan(tier string) Plan {
	pl := Plan{ID: p.ID, Level: p.Level, Rule: p.Rule, Count: p.Count, Min: p.Min, Assume: p.Assume, Procs: p.Procs}
	if pl.Level == "" {
		pl.Level = "exploration"
	}
	for _, b := range p.builds() {
		pl.Builds = append(pl.Builds, PlanBuild{b.Name, b.Race, b.Instr, b.Cases(tier)})
	}
	return pl
}

var Props = map[string]*Prop{}

func Register(p *Prop) { Props[p.ID] = p }

func caseSeed(seed int64, prop, build string, idx int) int64 {
	f := fnv.New64a()
	if build != "" {
		prop += "+" + build
	}
	fmt.Fprintf(f, "%d/%s/%d", seed, prop, idx)
	return int64(f.Sum64() & 0x7fffffffffffffff)
}

// Beat is a mapped page shared with the parent: [0:8] current case+1, [8:16] heartbeat.
var beat []byte
var beatN uint64
var beatMu sync.Mutex

// Progress tells the parent's watchdog that the current case is advancing.
func Progress() {
	if beat == nil {
		return
	}
	beatMu.Lock()
	beatN++
	binary.LittleEndian.PutUint64(beat[8:16], beatN)
	beatMu.Unlock()
}

// WorkerMain runs one case of every stride, from start on (or only one), and writes its stats to out.
func WorkerMain(prop, build, tier string, seed int64, start, stride, total, only int, out, beatFile, dir string, verbose bool) {
	p := Props[prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(9)
	}
	debug.SetTraceback("all")
	if beatFile != "" {
		f, err := os.OpenFile(beatFile, os.O_RDWR, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
		beat, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(9)
		}
		f.Close()
	}
	st := &Stats{Counts: map[string]int64{}, Distinct: map[string][]uint64{}, Findings: map[string]string{}}
	mu := &sync.Mutex{}
	ds := map[string]map[uint64]struct{}{}
	mk := func(i int) *Ctx {
		return &Ctx{Prop: prop, Idx: i, Seed: seed, R: rand.New(rand.NewSource(caseSeed(seed, prop, build, i))),
			Tier: tier, Verbose: verbose, Dir: dir, Build: build, mu: mu, st: st, ds: ds}
	}
	flush := func(next int, done bool) {
		mu.Lock()
		defer mu.Unlock()
		st.Next, st.Done = next, done
		for k, m := range ds {
			l := make([]uint64, 0, len(m))
			for v := range m {
				l = append(l, v)
			}
			st.Distinct[k] = l
		}
		b, err := json.Marshal(st)
		if err == nil && out != "" {
			tmp := out + ".tmp"
			if os.WriteFile(tmp, b, 0644) == nil {
				os.Rename(tmp, out)
			}
		}
	}
	if p.Init != nil {
		p.Init(mk(-1))
	}
	if only >= 0 {
		start, stride, total = only, 1, only+1
	}
	last := time.Now()
	for ; start < total+stride; start += stride {
		// every worker gets cases of every residue
		i := start - start%stride + (start+start/stride)%stride
		if i >= total {
			continue
		}
		if beat != nil {
			binary.LittleEndian.PutUint64(beat[0:8], uint64(i)+1)
			Progress()
		}
		p.Run(mk(i))
		mu.Lock()
		st.Cases++
		stop := st.Counts["violations_seen"] >= 15
		mu.Unlock()
		if time.Since(last) > time.Second {
			flush(start+stride, false)
			last = time.Now()
		}
		if stop {
			break
		}
	}
	flush(total, true)
	if verbose {
		keys := []string{}
		for k := range st.Counts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var sb strings.Builder
		for _, k := range keys {
			fmt.Fprintf(&sb, " %s=%d", k, st.Counts[k])
		}
		for k, m := range ds {
			fmt.Fprintf(&sb, " |%s|=%d", k, len(m))
		}
		fmt.Fprintf(os.Stderr, "worker done: cases=%d%s violations=%d\n", st.Cases, sb.String(), len(st.Violations))
		for _, s := range st.Samples {
			fmt.Fprintln(os.Stderr, "sample:", s)
		}
	}
}
