package props

import (
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/sess"
	"verif.local/harness/vt"
)

// c14In is one kind of standard input.
type c14In struct {
	cfg    io.ReadCloser // what the instance reads
	feed   func([]byte)
	eof    func()
	closed func() bool // the instance closed it
	late   func()      // ends reads that closing does not end
}

type closeMark struct {
	io.ReadCloser
	n int32
}

func (c *closeMark) Close() error {
	atomic.AddInt32(&c.n, 1)
	return c.ReadCloser.Close()
}

func newC14In(kind int) *c14In {
	switch kind {
	case 0:
		s := sess.NewStdin()
		m := &closeMark{ReadCloser: s}
		return &c14In{m, func(b []byte) { s.Feed(b) }, s.EOF, func() bool { return atomic.LoadInt32(&m.n) > 0 }, func() {}}
	case 1: // its reads end only when there is something to read
		s := sess.NewStdin()
		m := &closeMark{ReadCloser: rl.NewCancelableStdin(stubborn{s})}
		return &c14In{m, func(b []byte) { s.Feed(b) }, s.EOF, func() bool { return atomic.LoadInt32(&m.n) > 0 }, func() { s.EOF() }}
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	m := &closeMark{ReadCloser: rl.NewCancelableStdin(pr)}
	return &c14In{m, func(b []byte) { pw.Write(b) }, func() { pw.Close() }, func() bool { return atomic.LoadInt32(&m.n) > 0 }, func() { pw.Close(); pr.Close() }}
}

type rawLog struct {
	mu  sync.Mutex
	ops []byte
}

func (l *rawLog) op(b byte) func() error {
	return func() error {
		l.mu.Lock()
		l.ops = append(l.ops, b)
		l.mu.Unlock()
		return nil
	}
}

func (l *rawLog) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.ops)
}

// keys that leave the editor in some mode
var c14Tails = []string{
	"", "abc", "\x12", "\x12a", "\x13a\x12", "\t", "\t\t", "abc\t\t", "\x1b", "\x1b[", "\x1bO", "\x1b[1;5", "\xe5\xad", "ab\x1bc", "\x1bd", "\x1bdi", "\x01\x0b\x19", "\x10\x10\x10", "a b\x17", "\x1b[5~",
	"\x1b[6n\x1b[12;40R", "\x03", "\x04", "a\x03", "a\x04",
}

func c14(c *h.Ctx) {
	r := c.R
	var in c06Input
	lines := r.Intn(8)
	in = genInput(r, lines, 40, "")
	tail := c14Tails[r.Intn(len(c14Tails))]
	tailErr := map[string]error{"\x03": rl.ErrInterrupt, "a\x03": rl.ErrInterrupt, "\x04": io.EOF}[tail]
	kind := r.Intn(3)
	src := newC14In(kind)
	lg := &writeLog{answer: map[string]answer{}}
	raw := &rawLog{}
	term := vt.New(60, 1<<20, sess.RuneWidth)
	term.Discard = r.Intn(2) == 0
	var closing, delivered, entered int32
	cfg := &rl.Config{
		Prompt: "> ", Stdin: src.cfg, Stdout: &tapped{term, lg}, Stderr: &tapped{term, lg},
		FuncGetWidth: func() int { return 60 }, FuncIsTerminal: func() bool { return true },
		FuncMakeRaw: raw.op('+'), FuncExitRaw: raw.op('-'),
		FuncOnWidthChanged: func(func()) {},
		VimMode:            r.Intn(4) == 0,
		UniqueEditLine:     r.Intn(4) == 0,
	}
	if r.Intn(2) == 0 {
		cfg.AutoComplete = rl.NewPrefixCompleter(rl.PcItem("abcd"), rl.PcItem("abce"), rl.PcItem("x"))
	}
	listens := r.Intn(3) == 0
	if listens {
		cfg.SetListener(func(line []rune, pos int, key rune) ([]rune, int, bool) { h.Progress(); return nil, 0, false })
	}
	if r.Intn(3) == 0 {
		cfg.HistoryFile = c.Dir + "/c14.history"
		os.Remove(cfg.HistoryFile)
	}
	before := len(goroutines("chzyer/readline."))
	inst, err := rl.NewEx(cfg)
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	ps := pieces(r, append(append([]byte{}, in.bytes...), tail...))
	if kind == 2 && len(ps) > 60 {
		ps = [][]byte{in.bytes, []byte(tail)}
	}
	ends := r.Intn(4) == 0
	var wg sync.WaitGroup
	var fed int32
	wg.Add(1)
	go func() { // the user
		defer wg.Done()
		pace := c.Idx % 3
		for _, p := range ps {
			if len(p) > 0 {
				src.feed(p)
			}
			atomic.AddInt32(&fed, 1)
			h.Progress()
			if pace > 0 {
				runtime.Gosched()
			}
			if pace > 1 {
				time.Sleep(5 * time.Microsecond)
			}
		}
		if ends {
			src.eof()
		}
	}()

	// the program reads
	type res struct {
		name, line string
		err        error
		late       bool // it was called after Close had returned
	}
	var results []res
	var closed int32
	fixed := r.Intn(3)
	pick := make([]int, 64)
	for i := range pick {
		if fixed > 0 {
			pick[i] = r.Intn(len(readings))
			if fixed == 1 && pick[i] == 3 {
				pick[i] = 0
			}
		}
	}
	def := []string{"", "d", "default "}[r.Intn(3)]
	delay := r.Intn(3)
	never := r.Intn(12) == 0
	readerDone := make(chan bool)
	go func() {
		defer close(readerDone)
		if never {
			return
		}
		after := 0
		for i := 0; i < 60; i++ {
			m := readings[pick[i]]
			late := atomic.LoadInt32(&closed) > 0
			atomic.AddInt32(&entered, 1)
			l, err := m.call(inst, def)
			h.Progress()
			if m.def && err == nil {
				if strings.HasPrefix(l, def) {
					l = l[len(def):]
				} else {
					l = "without the default: " + l
				}
			}
			results = append(results, res{m.name, l, err, late})
			atomic.AddInt32(&delivered, 1)
			if err == io.EOF && atomic.LoadInt32(&closing) > 0 {
				if after++; after > 2 {
					return
				}
			}
			if delay == 1 {
				runtime.Gosched()
			}
		}
	}()

	// others write
	var wrote int64
	wseq := make([]int, r.Intn(3))
	stop := make(chan bool)
	badWrite := make(chan string, 10)
	for g := range wseq {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			after := 0
			for i := 0; i < 2000; i++ {
				s := fmt.Sprintf("%s%d.%d]text.\n", textMark, g, i)
				n, err := inst.Stdout().Write([]byte(s))
				if n != len(s) || err != nil {
					select {
					case badWrite <- fmt.Sprintf("writing %q returned %d, %v", s, n, err):
					default:
					}
				}
				wseq[g] = i + 1
				h.Progress()
				atomic.AddInt64(&wrote, 1)
				if atomic.LoadInt32(&closed) > 0 {
					if after++; after > 3 {
						return
					}
				}
				if i > 20 {
					time.Sleep(20 * time.Microsecond)
				} else {
					runtime.Gosched()
				}
			}
		}(g)
	}

	// and close
	when := r.Intn(6)
	k := int32(1 + r.Intn(lines+2))
	spin := r.Intn(400)
	nclose := 1 + r.Intn(3)
	var cwg sync.WaitGroup
	for g := 0; g < nclose; g++ {
		cwg.Add(1)
		stagger := r.Intn(60) * r.Intn(2)
		go func(g int) {
			defer cwg.Done()
			wait := func(cond func() bool) {
				for i := 0; i < 500 && !cond(); i++ {
					if i < 50 {
						runtime.Gosched()
					} else {
						time.Sleep(10 * time.Microsecond)
					}
				}
			}
			switch when {
			case 0:
			case 1:
				wait(func() bool { return atomic.LoadInt32(&delivered) >= k })
			case 2:
				wait(func() bool { return atomic.LoadInt32(&entered) > k })
			case 3:
				wait(func() bool { return atomic.LoadInt32(&fed) >= int32(len(ps)) })
			case 4: // everything typed was processed
				wait(func() bool {
					return atomic.LoadInt32(&delivered) >= int32(lines) && atomic.LoadInt32(&fed) >= int32(len(ps))
				})
				time.Sleep(50 * time.Microsecond)
			case 5:
				wait(func() bool { return atomic.LoadInt32(&entered) >= 1 })
			}
			for i := 0; i < spin+stagger; i++ {
				if i&7 == 0 {
					runtime.Gosched()
				}
			}
			atomic.StoreInt32(&closing, 1)
			h.Progress()
			err := inst.Close()
			h.Progress()
			if err != nil {
				c.Fail("close-error", "Close returned %v", err)
			}
			atomic.StoreInt32(&closed, 1)
		}(g)
	}
	cwg.Wait()
	close(stop)
	<-readerDone
	if n, err := inst.Write([]byte(textMark + "9.0]last\n")); n != len(textMark+"9.0]last\n") || err != nil {
		c.Fail("write-after", "writing after Close returned %d, %v", n, err)
	}
	// closing again, and reading
	if err := inst.Close(); err != nil {
		c.Fail("close-error", "closing again returned %v", err)
	}
	if l, err := inst.Readline(); l != "" || err != io.EOF {
		c.Fail("later-read", "a read after Close returned %q, %v", l, err)
	}
	if !src.closed() {
		c.Fail("input-open", "the input was not closed")
	}
	src.late()
	wg.Wait()
	ctx := func() string {
		return fmt.Sprintf("input kind %d, %d lines in %d pieces, tail %q, end %v, close when %d/%d by %d, results %v, raw mode %s", kind, lines, len(ps), tail, ends, when, k, nclose, results, raw)
	}
	if left := gone("chzyer/readline."); len(left) > before {
		c.Fail("leak", "%d goroutines are left:\n%s\n%s", len(left)-before, strings.Join(left, "\n\n"), ctx())
	}

	if cfg.HistoryFile != "" {
		if n := openCount(cfg.HistoryFile); n > 0 {
			c.Fail("file-open", "the history file is still open %d times\n%s", n, ctx())
		}
		c.Count("history_files", 1)
	}

	// the results are the lines in order; the end of the file comes after them or after closing
	next := 0
	for i, x := range results {
		switch {
		case x.err == nil && next < len(in.lines):
			if x.line != in.lines[next] {
				c.Fail("line", "read %d returned %q; the next line is %q\n%s", i, x.line, in.lines[next], ctx())
				return
			}
			if x.late {
				c.Fail("after-close", "a read called after Close returned %q\n%s", x.line, ctx())
				return
			}
			next++
		case x.err == io.EOF:
			if x.line != "" {
				c.Fail("eof-text", "end of file came with %q\n%s", x.line, ctx())
			}
			// when did it come? it must not be seen before the closing started, unless the input ended.
		case next == len(in.lines) && x.err == nil && ends: // the unfinished line
		case next == len(in.lines) && x.err != nil && x.err == tailErr:
		default:
			c.Fail("result", "read %d (%s) returned %q, %v\n%s", i, x.name, x.line, x.err, ctx())
			return
		}
	}
	ops := raw.String()
	on, off := strings.Count(ops, "+"), strings.Count(ops, "-")
	if on > off || !strings.HasSuffix(ops, "-") {
		c.Fail("raw", "raw mode was entered and left in the order %s\n%s", ops, ctx())
	}
	select {
	case s := <-badWrite:
		c.Fail("write", "%s\n%s", s, ctx())
	default:
	}
	lg.mu.Lock()
	defer lg.mu.Unlock()
	got := make([]int, 10)
	for _, w := range lg.writes {
		var g, i int
		if n, _ := fmt.Sscanf(w, textMark+"%d.%d]", &g, &i); n != 2 || g > 9 || i != got[g] {
			c.Fail("written", "the output got %q when text %d of writer %d was due\n%s", w, got[g], g, ctx())
			return
		}
		got[g]++
	}
	for g, n := range wseq {
		if got[g] != n {
			c.Fail("written", "%d of %d texts of writer %d reached the output\n%s", got[g], n, g, ctx())
		}
	}
	if got[9] != 1 {
		c.Fail("written", "a text written after Close did not reach the output\n%s", ctx())
	}
	c.Count("closes", nclose+1)
	c.Count("reads", len(results))
	c.Count("lines", next)
	c.Count("texts", int(wrote))
	if !never && len(results) > 0 && results[0].err == io.EOF {
		c.Count("closed_first_read", 1)
	}
	if next > 0 && next < lines {
		c.Count("closed_between", 1)
	}
	c.Seen("outcomes", kind, lines, next, len(results), tail, nclose, when, len(wseq), ops)
	c.Sample("%s", ctx())
}

// openCount is how many file descriptors of this process are open on path.
func openCount(path string) int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, path) {
			n++
		}
	}
	return n
}

func init() {
	h.Register(&h.Prop{
		ID:    "C14",
		Rule:  "Sessions of 0 to 7 lines and a tail that leaves the editor editing, searching, completing, in an escape sequence or interrupted, on inputs whose reads can and cannot be interrupted and on a pipe, with up to two writers, closed by one to three goroutines at six kinds of moments; results, raw mode, input, texts and goroutines are checked. Non-trivial is a distinct combination of input, moment, results and raw-mode calls.",
		Count: "outcomes",
		Min:   map[string]int64{"closes": 10000, "lines": 5000, "closed_first_read": 500, "closed_between": 300, "texts": 20000, "outcomes": 1500, "directed_stops": 50, "switch_pairs": 2000},
		Builds: []h.Build{
			{Name: "", Cases: tiers(3000, 80000)},
			{Name: "race", Race: true, Cases: tiers(1200, 20000)},
			{Name: "instr", Instr: true, Cases: tiers(1200, 40000)},
		},
		Run: func(c *h.Ctx) { perturbed(c, func() { c14(c) }) },
	})
}
