// Package yield receives the scheduling points that the instrumented build inserts before every
// statement of the library. It perturbs the schedule and records which schedules were seen.
package yield

import (
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

var on int32

var visits [1 << 16]uint32

var mu sync.Mutex
var st struct {
	rnd     uint64
	prob    uint32 // per 65536: chance that a point yields
	slow    uint32 // per 65536: chance that a point sleeps
	sleep   time.Duration
	fresh   int // directed: which of the sites is the one to stop at, in the order they are reached
	site    int // directed: the site to stop at
	nth     int // directed: which visit of it
	seen    int
	naps    int
	hit     bool
	hitAt   int
	lastG   uint64
	lastS   int
	hash    uint64
	switch_ int
	pairs   map[uint32]struct{}
	sites   map[int]int
}

// maxNaps bounds the sleeps of one stretch.
const maxNaps = 40

// Report is what a perturbed stretch observed.
type Report struct {
	Hash     uint64 // of the sequence of switches between goroutines
	Switches int
	Pairs    map[uint32]struct{} // (site, next site) across goroutines
	Sites    map[int]int         // visits per site
	Hit      bool                // the directed delay was reached
	HitAt    int                 // and where
}

func reset() {
	for i := range visits {
		atomic.StoreUint32(&visits[i], 0)
	}
	st.lastG, st.lastS, st.hash, st.switch_ = 0, 0, 14695981039346656037, 0
	st.pairs, st.sites = map[uint32]struct{}{}, map[int]int{}
	st.seen, st.naps, st.hit = 0, 0, false
}

// Random perturbs at random: prob and slow are chances per 65536 of a yield and of a sleep.
func Random(seed int64, prob, slow uint32, sleep time.Duration) {
	mu.Lock()
	reset()
	st.rnd = uint64(seed)*2862933555777941757 + 3037000493
	st.prob, st.slow, st.sleep, st.site = prob, slow, sleep, -1
	mu.Unlock()
	atomic.StoreInt32(&on, 1)
}

// Directed stops for sleep at the nth visit of the fresh-th of the points that are reached (both
// from 1).
func Directed(fresh, nth int, sleep time.Duration) {
	mu.Lock()
	reset()
	st.prob, st.slow, st.sleep, st.site, st.fresh, st.nth = 0, 0, sleep, 1<<30, fresh, nth
	mu.Unlock()
	atomic.StoreInt32(&on, 1)
}

// Stop ends the perturbation.
func Stop() Report {
	atomic.StoreInt32(&on, 0)
	mu.Lock()
	defer mu.Unlock()
	r := Report{st.hash, st.switch_, st.pairs, st.sites, st.hit, st.hitAt}
	st.pairs, st.sites = map[uint32]struct{}{}, map[int]int{}
	return r
}

func gid() uint64 {
	var b [32]byte
	n := runtime.Stack(b[:], false)
	var g uint64
	for _, c := range b[10:n] {
		if c < '0' || c > '9' {
			break
		}
		g = g*10 + uint64(c-'0')
	}
	return g
}

var kill struct {
	g     uint64
	n, at int
}

// KillAt makes the process die at the n-th point that the calling goroutine reaches from now on.
func KillAt(n int) {
	kill.g, kill.n, kill.at = gid(), 0, n
	atomic.StoreInt32(&on, 2)
}

// Points is how many points were reached since KillAt.
func Points() int { return kill.n }

// P is a scheduling point.
func P(site int) {
	switch atomic.LoadInt32(&on) {
	case 0:
		return
	case 2:
		if gid() == kill.g {
			if kill.n++; kill.n == kill.at {
				syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
				select {}
			}
		}
		return
	}
	// points that are visited again and again only count now and then
	if n := atomic.AddUint32(&visits[site&0xffff], 1); n > 300 && n&31 != 0 {
		return
	}
	g := gid()
	mu.Lock()
	if st.sites == nil {
		mu.Unlock()
		return
	}
	st.sites[site]++
	if st.site == 1<<30 && len(st.sites) == st.fresh {
		st.site = site
	}
	if g != st.lastG {
		if st.lastG != 0 {
			st.switch_++
			st.hash = (st.hash ^ uint64(st.lastS)<<20 ^ uint64(site)) * 1099511628211
			st.pairs[uint32(st.lastS)<<16|uint32(site)&0xffff] = struct{}{}
		}
		st.lastG = g
	}
	st.lastS = site
	var d time.Duration
	y := false
	if st.site >= 0 {
		if site == st.site {
			st.seen++
			if st.seen == st.nth {
				d = st.sleep
				st.hit = true
				st.hitAt = site
			}
		}
	} else {
		st.rnd ^= st.rnd << 13
		st.rnd ^= st.rnd >> 7
		st.rnd ^= st.rnd << 17
		v := uint32(st.rnd>>24) & 0xffff
		if v < st.slow && st.naps < maxNaps {
			d = st.sleep
			st.naps++
		} else if v < st.slow+st.prob {
			y = true
		}
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	} else if y {
		runtime.Gosched()
	}
}
