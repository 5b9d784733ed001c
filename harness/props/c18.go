package props

import (
	"fmt"
	"io"
	"math/rand"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

// caller makes the calls that are allowed while another goroutine reads.
type caller struct {
	r     randSrc
	c     *h.Ctx
	s     func() *sess.Sess
	width []int // size changes reported; nil: only the same size again
	fill  func() string
	n     int
	mask  bool
}

var c18Prompts = []string{"> ", "", "prompt: ", "你好> ", "\x1b[32mgreen\x1b[0m ", "a long prompt that may take more than one row of the screen: "}

func (k *caller) call() {
	s := k.s()
	if s == nil || s.Inst == nil {
		return
	}
	r := k.r
	op := r.Intn(9)
	switch op {
	case 0:
		fmt.Fprintf(s.Inst.Stdout(), "note %d\n", k.n)
	case 1:
		fmt.Fprintf(s.Inst.Stderr(), "two\nlines %d\n", k.n)
	case 2:
		s.Inst.Write([]byte("written\n"))
	case 3:
		s.Inst.SetPrompt(c18Prompts[r.Intn(len(c18Prompts))])
	case 4:
		s.Inst.Refresh()
	case 5:
		s.Inst.Clean()
	case 6:
		if k.width != nil {
			s.SetWidth(k.width[r.Intn(len(k.width))])
		}
		s.OnWidth()
	case 7:
		if k.fill != nil {
			if t := k.fill(); t != "" {
				s.Inst.WriteStdin([]byte(t))
			}
		}
	case 8:
		s.Inst.Operation.GetConfig()
		s.Inst.Terminal.IsReading()
		if k.mask {
			s.Inst.SetMaskRune([]rune{'*', '#', '字'}[r.Intn(3)])
		}
	}
	k.n++
	k.c.Count("calls", 1)
	h.Progress()
}

// loop calls until over, at the pace of the session.
func (k *caller) loop(over *int32, max int) {
	for i := 0; i < max && atomic.LoadInt32(over) == 0; i++ {
		k.call()
		switch k.r.Intn(6) {
		case 0:
			time.Sleep(time.Duration(k.r.Intn(60)) * time.Microsecond)
		default:
			runtime.Gosched()
		}
	}
}

type callingDo struct {
	rl.AutoCompleter
	f func()
}

func (d callingDo) Do(line []rune, pos int) ([][]rune, int) {
	d.f()
	return d.AutoCompleter.Do(line, pos)
}

// c18Keys is a script that ends in no special mode.
func (m *ModelRun) c18Keys(r randSrc, n int) {
	var cs []Choice
	switch r.Intn(6) {
	case 0, 1:
		cs = histKeys(r)
	case 2, 3:
		cs = searchKeys(r)
	case 4:
		m.withCompleter(r, false)
		cs = completeKeys(r)
		cs[3].W, cs[4].W = 0, 0
	case 5:
		cs, m.M.Vim = vimKeys(r), true
	}
	m.Keys = genKeys(r, cs, n, m.M.Vim)
	if m.M.Vim {
		m.Keys = append(m.Keys, sess.Key{Bytes: "z", R: 'z'})
	}
	for i := 0; i < 2; i++ {
		m.Keys = append(m.Keys, sess.Key{Bytes: "\a", R: model.KeyBell})
	}
	if r.Intn(3) == 0 {
		m.Chunks = chunked(r, m.Keys)
	}
}

// c18Edit: every call at once while keys are typed; line, cursor and results stay those of the model.
func c18Edit(c *h.Ctx) {
	r := c.R
	m := &ModelRun{C: c, M: model.NewSession(500), Prompt: c18Prompts[r.Intn(len(c18Prompts))]}
	m.Opt.Width = 14 + r.Intn(80)
	m.c18Keys(r, 5+r.Intn(60))
	m.Unique = r.Intn(5) == 0
	if r.Intn(6) == 0 {
		m.Masked, m.Mask, m.M.NoSearch = true, '*', true
	}
	var widths []int
	if r.Intn(3) == 0 && m.comp == nil {
		widths = []int{m.Opt.Width, 1, 3, 20, 80, 1000}
		m.Opt.Discard = true
	}
	get := func() *sess.Sess { return m.Session }
	mk := func() *caller { return &caller{r: newRand(r), c: c, s: get, width: widths, mask: m.Masked} }
	for i, cb := range []*func(){new(func()), new(func()), new(func())} {
		if r.Intn(3) != 0 {
			continue
		}
		k, every, n := mk(), 1+r.Intn(5), 0
		*cb = func() {
			if n++; n%every == 0 {
				k.call()
				c.Count("calls_from_callbacks", 1)
			}
		}
		f := *cb
		switch i {
		case 0:
			m.InListener = func(rune) { f() }
		case 1:
			m.Before = func(int, rune) { f() }
		case 2:
			if m.comp == nil {
				break
			}
			prev := m.Opt.Cfg
			m.Opt.Cfg = func(cfg *rl.Config) { prev(cfg); cfg.AutoComplete = callingDo{cfg.AutoComplete, f} }
		}
	}
	over := int32(0)
	var wg sync.WaitGroup
	m.Started = func() {
		for i := 1 + r.Intn(4); i > 0; i-- {
			wg.Add(1)
			k := mk()
			go func() { defer wg.Done(); k.loop(&over, 300) }()
		}
	}
	m.AtEnd = func() {
		atomic.StoreInt32(&over, 1)
		wg.Wait()
		if widths != nil || m.control || m.Masked {
			return
		}
		// nobody calls any more: the screen ends with the prompt and the line
		m.Session.Inst.SetPrompt("END> ")
		m.Session.Inst.Refresh()
		want := sess.LayOut(m.Opt.Width, []rune("END> "), m.M.Buf, m.M.Pos).Rows
		for len(want) > 1 && want[len(want)-1] == "" {
			want = want[:len(want)-1]
		}
		got := m.Session.VT.Snap().Rows
		for len(got) > 0 && got[len(got)-1] == "" {
			got = got[:len(got)-1]
		}
		if len(got) < len(want) || strings.Join(got[len(got)-len(want):], "\n") != strings.Join(want, "\n") {
			m.fail("final-screen", "the screen must end with\n  %s\nand is\n  %s", strings.Join(want, "\n  "), strings.Join(got, "\n  "))
		}
		c.Count("final_screens", 1)
	}
	m.Run()
	atomic.StoreInt32(&over, 1)
	wg.Wait()
	c.Seen("sessions", sess.Bytes(m.Keys), m.Opt.Width)
}

var tokenRe = regexp.MustCompile(`\{\d+\.\d+\}`)

// c18Fill: prefills, calls and sometimes closing while plain lines are typed.
func c18Fill(c *h.Ctx) {
	r := c.R
	n := 1 + r.Intn(8)
	var typed []string
	var in []byte
	for i := 0; i < n; i++ {
		t := fmt.Sprintf("%d:%s", i, strings.Repeat("typed ", r.Intn(5)))
		typed = append(typed, t)
		in = append(in, t+"\r"...)
	}
	closing := r.Intn(3) == 0
	s, err := sess.New(sess.Opt{Width: 20 + r.Intn(60), NoFilter: true, Discard: r.Intn(2) == 0, Cfg: func(cfg *rl.Config) {
		cfg.Prompt = "> "
		cfg.VimMode = r.Intn(4) == 0
		cfg.UniqueEditLine = r.Intn(5) == 0
		if r.Intn(2) == 0 {
			cfg.SetListener(func([]rune, int, rune) ([]rune, int, bool) { h.Progress(); return nil, 0, false })
		}
	}})
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	over := int32(0)
	var wg sync.WaitGroup
	get := func() *sess.Sess { return s }
	for g := 0; g < 1+r.Intn(3); g++ {
		g, i, max := g, 0, r.Intn(20)
		k := &caller{r: newRand(r), c: c, s: get, fill: func() string {
			if i == max {
				return ""
			}
			i++
			return fmt.Sprintf("{%d.%d}", g, i)
		}}
		if r.Intn(3) == 0 {
			k.width = []int{1, 5, 30, 100}
		}
		wg.Add(1)
		go func() { defer wg.Done(); k.loop(&over, 200) }()
	}
	feed(r, s.In, pieces(r, in), &wg)
	if closing {
		wg.Add(1)
		at := r.Intn(len(in) + 1)
		go func() {
			defer wg.Done()
			for i := 0; s.In.Count() < at && i < 2000; i++ {
				time.Sleep(10 * time.Microsecond)
			}
			s.Close()
		}()
	}
	var lines []string
	for {
		var line string
		var err error
		if r.Intn(3) == 0 {
			var b []byte
			b, err = s.Inst.ReadSlice()
			line = string(b)
		} else {
			line, err = s.Inst.Readline()
		}
		h.Progress()
		if err != nil {
			if err != io.EOF {
				c.Fail("result", "a read returned %q, %v", line, err)
			}
			break
		}
		lines = append(lines, line)
	}
	atomic.StoreInt32(&over, 1)
	wg.Wait()
	s.Close()
	last := map[string]int{}
	prefills := 0
	for _, l := range lines {
		for _, t := range tokenRe.FindAllString(l, -1) {
			var g, i int
			fmt.Sscanf(t, "{%d.%d}", &g, &i)
			if k := fmt.Sprint(g); i != last[k]+1 {
				c.Fail("prefill-order", "prefill %s follows %d; lines %q", t, last[k], lines)
				return
			} else {
				last[k] = i
			}
			prefills++
		}
	}
	c.Count("prefills_read", prefills)
	for i, l := range lines {
		p := tokenRe.ReplaceAllString(l, "")
		if i < n && p == typed[i] {
			continue
		}
		if i == n && p == "" && i == len(lines)-1 {
			continue // prefilled after the last line
		}
		c.Fail("lines", "line %d read is %q, without the prefills %q; typed were %q", i, l, p, typed)
		return
	}
	if len(lines) < n && !closing {
		c.Fail("lost", "%d lines read, %d typed: %q", len(lines), n, lines)
		return
	}
	c.Count("lines", len(lines))
	c.Seen("sessions", strings.Join(lines, "|"))
}

// c18Many: sessions in the same process do not notice each other.
func c18Many(c *h.Ctx) {
	r := c.R
	n := 2 + r.Intn(2)
	var wg sync.WaitGroup
	var ms []*ModelRun
	for i := 0; i < n; i++ {
		m := &ModelRun{C: c, M: model.NewSession(500), Prompt: c18Prompts[r.Intn(len(c18Prompts))], CheckScreen: true, Sig: "many-"}
		m.Opt.Width = 14 + r.Intn(80)
		m.c18Keys(r, 20+r.Intn(80))
		ms = append(ms, m)
		c.Seen("sessions", sess.Bytes(m.Keys), m.Opt.Width)
	}
	for _, m := range ms {
		wg.Add(1)
		go func(m *ModelRun) {
			defer wg.Done()
			m.Run()
		}(m)
	}
	wg.Wait()
	for _, m := range ms {
		c.Count("screens_compared", m.Screens)
	}
	c.Count("parallel_sessions", n)
}

// c18Wild: hostile keys, passwords and every call at once; only races, hangs and crashes count.
func c18Wild(c *h.Ctx) {
	r := c.R
	hb := hostile(r, 20+r.Intn(200))
	var s *sess.Sess
	get := func() *sess.Sess { return s }
	cb := func() func() {
		if r.Intn(2) == 0 {
			return h.Progress
		}
		k := &caller{r: newRand(r), c: c, s: get, width: []int{1, 7, 80}, fill: func() string { return "" }}
		every, n := 1+r.Intn(6), 0
		return func() {
			h.Progress()
			if n++; n%every == 0 {
				k.call()
			}
		}
	}
	filter, listen, complete := cb(), cb(), cb()
	if vim := newRand(r); vim.Intn(3) == 0 {
		f := listen
		listen = func() {
			f()
			if vim.Intn(8) == 0 {
				s.Inst.SetVimMode(vim.Intn(2) == 0)
			}
		}
	}
	d := &secretDo{r: newRand(r)}
	started := make(chan struct{})
	var err error
	s, err = sess.New(sess.Opt{Width: 10 + r.Intn(80), NoFilter: true, Discard: r.Intn(2) == 0, Cfg: func(cfg *rl.Config) {
		cfg.Prompt = c18Prompts[r.Intn(len(c18Prompts))]
		cfg.VimMode = r.Intn(3) == 0
		cfg.HistoryLimit = []int{0, 3, -1}[r.Intn(3)]
		cfg.UniqueEditLine = r.Intn(4) == 0
		cfg.EnableMask = r.Intn(6) == 0
		if r.Intn(2) == 0 {
			cfg.AutoComplete = callingDo{d, complete}
		}
		cfg.SetListener(func([]rune, int, rune) ([]rune, int, bool) { listen(); return nil, 0, false })
		cfg.FuncFilterInputRune = func(k rune) (rune, bool) {
			<-started
			filter()
			return k, k != rl.CharCtrlZ
		}
	}})
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	own := s.Inst.Config.Clone() // nobody else uses it
	close(started)
	over := int32(0)
	var wg sync.WaitGroup
	for g := 1 + r.Intn(4); g > 0; g-- {
		k := &caller{r: newRand(r), c: c, s: get, width: []int{-1, 0, 1, 7, 80}, mask: true}
		if r.Intn(2) == 0 {
			n := r.Intn(20)
			k.fill = func() string {
				if n--; n < 0 {
					return ""
				}
				return []string{"pre", "\r", "x\ty", "\x12a"}[n%4]
			}
		}
		wg.Add(1)
		go func() { defer wg.Done(); k.loop(&over, 300) }()
	}
	feed(r, s.In, pieces(r, hb), &wg)
	closers := r.Intn(3)
	at := r.Intn(len(hb) + 1)
	for ; closers > 0; closers-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; s.In.Count() < at && i < 1000; i++ {
				time.Sleep(10 * time.Microsecond)
			}
			s.Close()
			c.Count("closes", 1)
		}()
	}
	changes := newRand(r)
	cfgs := []*rl.Config{s.Inst.Config}
	for n := 0; n < 500; n++ {
		if changes.Intn(3) == 0 {
			// the reading goroutine changes the configuration between its reads
			switch changes.Intn(7) {
			case 0:
				cfg := own.Clone()
				cfg.Prompt = c18Prompts[changes.Intn(len(c18Prompts))]
				cfg.EnableMask = changes.Intn(6) == 0
				cfg.MaskRune = '*'
				cfgs = append(cfgs, cfg)
				s.Inst.SetConfig(cfg)
			case 1:
				s.Inst.SetConfig(cfgs[changes.Intn(len(cfgs))])
			case 2:
				s.Inst.SetHistoryPath(filepath.Join(c.Dir, fmt.Sprint("history", changes.Intn(2))))
			case 3:
				s.Inst.SetVimMode(changes.Intn(2) == 0)
			case 4:
				s.Inst.SaveHistory("saved")
			case 5:
				s.Inst.ResetHistory()
			case 6:
				cfg := s.Inst.GenPasswordConfig()
				cfg.Prompt = "secret: "
				s.Inst.ReadPasswordWithConfig(cfg)
			}
			c.Count("changes_between_reads", 1)
		}
		var err error
		switch r.Intn(4) {
		case 0:
			_, err = s.Inst.ReadPassword("pw: ")
		case 1:
			_, err = s.Inst.ReadlineWithDefault("default")
		default:
			_, err = s.Inst.Readline()
		}
		c.Count("reads", 1)
		if err == io.EOF && rand.New(rand.NewSource(int64(n))).Intn(3) == 0 && n > 20 {
			break
		}
	}
	atomic.StoreInt32(&over, 1)
	s.Close()
	wg.Wait()
	c.Seen("sessions", string(hb))
}

// c18Winch: several instances learn about every change of the size of the terminal.
func c18Winch(c *h.Ctx) {
	r := c.R
	n := 2 + r.Intn(2)
	asked := make([]int64, n)
	var ss []*sess.Sess
	for i := 0; i < n; i++ {
		i := i
		s, err := sess.New(sess.Opt{NoFilter: true, Discard: true, Cfg: func(cfg *rl.Config) {
			cfg.FuncOnWidthChanged = nil // that of the terminal
			cfg.FuncGetWidth = func() int { return 20 + int(atomic.AddInt64(&asked[i], 1)%60) }
			cfg.Prompt = "> "
		}})
		if err != nil {
			c.Fail("setup", "%v", err)
			return
		}
		defer s.Close()
		ss = append(ss, s)
		for k := r.Intn(3); k > 0; k-- { // it also changes between
			syscall.Kill(syscall.Getpid(), syscall.SIGWINCH)
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	var wg sync.WaitGroup
	for _, s := range ss {
		wg.Add(1)
		s.In.Feed([]byte("some text"))
		go func(s *sess.Sess) { defer wg.Done(); s.Inst.Readline() }(s)
	}
	start := make([]int64, n)
	for i := range start {
		start[i] = atomic.LoadInt64(&asked[i])
	}
	for k := 0; k < 20000; k++ {
		syscall.Kill(syscall.Getpid(), syscall.SIGWINCH)
		time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
		h.Progress()
		min, max := int64(1<<60), int64(0)
		for i := range asked {
			d := atomic.LoadInt64(&asked[i]) - start[i]
			if d < min {
				min = d
			}
			if d > max {
				max = d
			}
		}
		if min >= 3 {
			c.Count("sizes_reported", int(max))
			break
		}
		if max >= 500 && min == 0 {
			c.Fail("size-report", "of %d instances, one was told %d times that the size changed and another never", n, max)
			break
		}
	}
	for _, s := range ss {
		s.Close()
	}
	wg.Wait()
	c.Seen("sessions", "winch", c.Idx)
}

func init() {
	h.Register(&h.Prop{
		ID:    "C18",
		Rule:  "One to four goroutines and the listener, filter and completer call Stdout, Stderr, Write, SetPrompt, Refresh, Clean, the size-change callback, WriteStdin, the mask and the getters (and Close) at random while scripted keys are read: model-compared editing in every mode with a final screen, prefilled plain lines with conservation, two or three sessions side by side compared with the model or told of size changes by a signal, and hostile sessions with passwords. Data races, deadlocks, panics and any difference are violations. Non-trivial is a distinct session.",
		Count: "sessions",
		Min:   map[string]int64{"calls": 100000, "calls_from_callbacks": 4000, "final_screens": 300, "prefills_read": 1000, "parallel_sessions": 500, "closes": 200, "sizes_reported": 100, "switch_pairs": 10000, "directed_stops": 100, "sessions": 2000},
		Builds: []h.Build{
			{Name: "race", Race: true, Cases: tiers(1500, 40000)},
			{Name: "race+instr", Race: true, Instr: true, Cases: tiers(200, 15000)},
			{Name: "instr", Instr: true, Cases: tiers(500, 40000)},
		},
		Run: func(c *h.Ctx) {
			perturbed(c, func() {
				if c.Idx%25 == 3 {
					c18Winch(c)
					return
				}
				switch c.Idx % 5 {
				case 0, 1:
					c18Edit(c)
				case 2:
					c18Fill(c)
				case 3:
					c18Many(c)
				case 4:
					c18Wild(c)
				}
			})
		},
	})
}
