package props

import (
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/sess"
)

var c03Prompts = []string{"> ", "", "日本 > ", "a\nb> ", "\x1b[31mred\x1b[0m> ", "tab\t> ", strings.Repeat("long ", 30), "e\u0301\u0301> ", "\x1b[", "\xff\xfe> ", "\r", "\u200b",
	"\x1b[1mno end", strings.Repeat("字", 40), "\n\n\n", "\x00"}

var c03Widths = []int{0, -1, 1, 2, 3, 4, 5, 7, 10, 20, 80, 200, 100000, -1 << 31, 1<<31 - 1}

var c03Bits = []string{
	"\x1b", "\x1b[", "\x1bO", "\x1b[1", "\x1b[1;", "\x1b[1;5", "\x1b[1;5C", "\x1b[999999999999999999999;3R", "\x1b[;R", "\x1b[R", "\x1b[1;2;3R", "\x1b[12;40R", "\x1b[3~", "\x1b[3", "\x1b[~", "\x1b[200~", "\x1b[<0;1;1M", "\x1b[M   ",
	"\x1b\x1b", "\x1b\x1b[A", "\x1bOH", "\x1bOF", "\x1bOx", "\x1b\x00", "\x1b\r", "\x1b[\r", "\x1bO\r", "\x1b]0;title\x07", "\x1bP1$r\x1b\\", "\x9b1m", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1bb", "\x1bf", "\x1bd", "\x1b\x7f", "\x1b\x14",
	"\x00", "\xff", "\xc3", "\xe5\xad", "\xf0\x9f\x98", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x80\x8b", "\xcc\x81", "\xf0\x9f\x98\x80", "字", "é", "\x7f",
	"\r", "\n", "\r\n", "\r", "\n", "\x03", "\x04", "\t", "\t\t", "\t\t\t", "\x12", "\x13", "\x12\x12", "\x13\x13", "\a", "\x0c", "\x0b", "\x15", "\x17", "\x19", "\x14", "\b", "\x01", "\x05", "\x10", "\x0e", "\x02", "\x06", "\x1c", "\x1d", "\x1e", "\x1f", "\x11", "\x16",
	"dd", "dw", "db", "di", "d", "cw", "cc", "yy", "p", "P", "r", "f", "fa", "x", "X", "0", "$", "w", "b", "e", "i", "a", "I", "A", "j", "k", "h", "l", "C", "D", "S", "s", "~", "u", ".", "3", "99",
	"abc", "hello world", " ", "  ", "a b c d", "/", "-", "abc def\t", "\x12a", "\x13b", "\x12abc\x12\x12",
}

// c03Scripts keep the editor in a mode: choosing a candidate, searching, vim's normal mode.
var c03Scripts = [][]string{
	{"\t", "\t\t", "\t\t\t", "\x06", "\x02", "\x10", "\x0e", "\x0e\x0e", "\x01", "\x05", "\r", "\x05\r", "\x01\r", "\x0e\r", "\x10\r", "\x06\r", "\x02\r", "\a", "\t\t\x10", "\t\t\x0e\x05"},
	{"\x12", "\x13", "\x12\x12", "a", "b", "ab", "\b", "\x7f", "\r", "ab\r", "ba\r", "\a", "\x03", "\x13\x13", "\x10", "\x0e", "\x02", "\x05", "\x01", "\x15"},
	{"\x1b", "\x1b", "dd", "dw", "dh", "dl", "cc", "cw", "ch", "cl", "x", "ra", "fa", "ta", "Fa", "Ta", "p", "0", "$", "w", "b", "e", "h", "l", "j", "k", "i", "a", "I", "A", "s", "S", "ab a", "\r", "d\x1b", "f\x1b", "\x03"},
}

func hostile(r randSrc, n int) []byte {
	var b []byte
	mode := r.Intn(6)
	var few []string // a small repertoire makes long runs of a few keys
	for i := 0; i < 2+r.Intn(5); i++ {
		few = append(few, c03Bits[r.Intn(len(c03Bits))])
	}
	script := c03Scripts[r.Intn(len(c03Scripts))]
	for len(b) < n {
		switch {
		case mode == 5 && r.Intn(20) > 0: // long in one mode
			b = append(b, script[r.Intn(len(script))]...)
		case mode == 0 || mode == 1 && r.Intn(4) == 0:
			b = append(b, byte(r.Intn(256)))
		case mode == 2 && r.Intn(3) > 0 || mode == 3:
			b = append(b, few[r.Intn(len(few))]...)
		case r.Intn(4) == 0:
			b = append(b, byte(1+r.Intn(127)))
		default:
			b = append(b, c03Bits[r.Intn(len(c03Bits))]...)
		}
	}
	for i := range b {
		if b[i] == 26 { // suspends the process
			b[i] = 25
		}
	}
	return b
}

func hostileText(r randSrc, max int) []rune {
	n := r.Intn(max + 1)
	alpha := []rune("abc \t\n\r\x1b\x00字é\u0301\u200b😀\ufffd\x7f\a")
	if n == 0 && r.Intn(2) == 0 {
		return nil
	}
	o := make([]rune, n)
	for i := range o {
		if o[i] = alpha[r.Intn(len(alpha))]; r.Intn(2) == 0 {
			o[i] = 'a' + rune(r.Intn(3))
		}
	}
	return o
}

// hostileDo is a completer, listener and painter that answers anything, until calm.
type hostileDo struct {
	mu   sync.Mutex
	r    randSrc
	calm func() bool
	c    *h.Ctx
	n    int
}

func (d *hostileDo) Do(line []rune, pos int) ([][]rune, int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.calm() {
		return nil, 0
	}
	d.c.Count("completions", 1)
	r := d.r
	var o [][]rune
	kind := r.Intn(4)
	for k := []int{0, 1, 2, 3, 7, 40}[r.Intn(6)]; k > 0; k-- {
		switch kind {
		case 0:
			o = append(o, hostileText(r, 6))
		case 1:
			o = append(o, hostileText(r, 120))
		case 2:
			o = append(o, []rune("same"))
		default:
			o = append(o, nil)
		}
	}
	return o, []int{0, 1, pos, pos + 1, 1000, -1, -1000}[r.Intn(7)]
}

func (d *hostileDo) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
	h.Progress()
	d.mu.Lock()
	defer d.mu.Unlock()
	r := d.r
	if r.Intn(6) > 0 || d.calm() || line == nil && pos == 0 && key == 0 {
		return nil, 0, false
	}
	d.c.Count("rewrites", 1)
	l := hostileText(r, 20)
	return l, r.Intn(len(l) + 1), true
}

func (d *hostileDo) Paint(line []rune, pos int) []rune {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.calm() {
		return line
	}
	d.c.Count("paintings", 1)
	if d.r.Intn(3) == 0 {
		return hostileText(d.r, 30)
	}
	return line
}

func c03(c *h.Ctx) {
	r := c.R
	size := []int{3, 12, 40, 150}[r.Intn(4)]
	if r.Intn(60) == 0 {
		size = 1500
	}
	hb := hostile(r, size)
	probe := fmt.Sprintf("probe %d é字.", c.Idx)
	resync := strings.Repeat("\r", 6)

	s := &sess.Sess{In: sess.NewStdin()}
	calm := func() bool { return s.In.Count() > len(hb) }
	d := &hostileDo{r: newRand(r), calm: calm, c: c}
	wmode := r.Intn(3)
	var wcur, wcalls int64
	ws := append([]int{}, c03Widths...)
	r.Shuffle(len(ws), func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
	atomic.StoreInt64(&wcur, int64(ws[0]))
	var onWidth func()
	vimNow := r.Intn(3) == 0
	var feats []string
	feat := func(name string, p int) bool {
		if r.Intn(p) == 0 {
			feats = append(feats, name)
			return true
		}
		return false
	}
	quiet := feat("no terminal", 6)
	term := []io.Writer{io.Discard, failing{}}[r.Intn(40)/39]
	prompt := c03Prompts[r.Intn(len(c03Prompts))]
	cfg := &rl.Config{
		Prompt: prompt,
		Stdin:  s.In, Stdout: term, Stderr: term,
		FuncGetWidth: func() int {
			if wmode == 2 {
				return ws[int(atomic.AddInt64(&wcalls, 1))%len(ws)]
			}
			return int(atomic.LoadInt64(&wcur))
		},
		FuncIsTerminal:     func() bool { return !quiet },
		FuncMakeRaw:        func() error { return nil },
		FuncExitRaw:        func() error { return nil },
		FuncOnWidthChanged: func(f func()) { onWidth = f },
		VimMode:            vimNow,
		HistoryLimit:       []int{0, 1, 2, 3, 500, -1, -7}[r.Intn(7)],
	}
	cfg.HistorySearchFold = feat("fold", 3)
	cfg.UniqueEditLine = feat("unique", 5)
	cfg.ForceUseInteractive = feat("forced", 8)
	cfg.DisableAutoSaveHistory = feat("nosave", 5)
	if feat("mask", 6) {
		cfg.EnableMask, cfg.MaskRune = true, []rune{0, '*', '字', '\u200b', '\n', -1}[r.Intn(6)]
	}
	if feat("completer", 2) {
		cfg.AutoComplete = d
	}
	if feat("listener", 4) {
		cfg.Listener = d
	}
	if feat("painter", 5) {
		cfg.Painter = d
	}
	if feat("filter", 4) {
		fr := newRand(r)
		cfg.FuncFilterInputRune = func(x rune) (rune, bool) {
			h.Progress()
			if calm() || fr.Intn(3) > 0 {
				return x, true
			}
			if y := rune(fr.Intn(140) - 5); y != 26 && y != 0 { // 0 is the end of the input
				return y, fr.Intn(3) > 0
			}
			return x, false
		}
	}
	if feat("prompts", 4) {
		cfg.InterruptPrompt, cfg.EOFPrompt = c03Prompts[r.Intn(len(c03Prompts))], c03Prompts[r.Intn(len(c03Prompts))]
	}
	inst, err := rl.NewEx(cfg)
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	for i := r.Intn(6); i > 0; i-- {
		inst.SaveHistory(string(hostileText(r, 50)))
	}
	feed := append(append([]byte{}, hb...), resync+probe+"\r"...)
	var cuts [][]byte
	cuts = append(cuts, pieces(r, hb)...)
	cuts = append(cuts, feed[len(hb):])
	s.In.Feed(cuts...)
	s.In.EOF()
	stop := make(chan bool)
	var wg sync.WaitGroup
	if wmode == 1 { // the width changes at any time
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				select {
				case <-stop:
					return
				default:
				}
				atomic.StoreInt64(&wcur, int64(ws[i%len(ws)]))
				if onWidth != nil {
					onWidth()
				}
				runtime.Gosched()
			}
		}()
	}
	kinds := r.Intn(3)
	found, afterProbe := false, 0
	limit := len(feed) + 10
	var last []string
	for i := 0; i < limit; i++ {
		m := readings[0]
		if kinds == 0 {
			m = readings[r.Intn(len(readings))]
		} else if kinds == 1 {
			m = readings[2*r.Intn(2)]
		}
		def := ""
		if m.def && !calm() && r.Intn(2) == 0 {
			def = string(hostileText(r, 30))
		}
		l, err := m.call(inst, def)
		h.Progress()
		last = append(last, fmt.Sprintf("%.60q/%v", l, err))
		if len(last) > 12 {
			last = last[1:]
		}
		c.Count("reads", 1)
		if found {
			if l != "" || err != io.EOF {
				c.Fail("after", "after the last line and the end of the input, a read returned %.200q, %v", l, err)
				break
			}
			if afterProbe++; afterProbe > 2 {
				break
			}
			continue
		}
		if l == probe && err == nil {
			found = true
			continue
		}
		if strings.Contains(l, "probe") {
			break
		}
		if !calm() && r.Intn(4) == 0 {
			switch r.Intn(5) {
			case 0:
				inst.SetPrompt(c03Prompts[r.Intn(len(c03Prompts))])
			case 1:
				inst.SetVimMode(r.Intn(2) == 0)
			case 2:
				inst.SetMaskRune([]rune{0, '*', '字'}[r.Intn(3)])
			case 3:
				inst.ResetHistory()
			case 4:
				k := cfg.Clone()
				k.Prompt = c03Prompts[r.Intn(len(c03Prompts))]
				k.UniqueEditLine = !k.UniqueEditLine
				inst.SetConfig(k)
			}
			c.Count("changes", 1)
		}
	}
	if !found {
		c.Fail("lost", "after the input %q, %d Enters and the line %q, the reads ended with %v; prompt %q widths %d %v, features %v", hb, len(resync), probe, last, prompt, wmode, ws[:3], feats)
	}
	close(stop)
	inst.Close()
	wg.Wait()
	c.Count("bytes", len(feed))
	c.Seen("inputs", string(hb), prompt, wmode, ws[0], fmt.Sprint(feats))
	c.Sample("%q prompt %q width %d/%v features %v", hb, prompt, wmode, ws[:3], feats)
}

type failing struct{}

func (failing) Write(b []byte) (int, error) { return 0, errTapped }

func init() {
	h.Register(&h.Prop{
		ID:    "C03",
		Rule:  "Random streams of 3 to 1500 bytes (broken and complete escape sequences, control characters, invalid UTF-8, vim commands, runs of few keys) in random pieces over 16 prompts, 15 widths (fixed, changing at any time, different at every query), hostile completers, listeners, painters and filters and all features, then six Enters and a line that must be read exactly, then the end. Non-trivial is a distinct (stream, prompt, widths, features).",
		Count: "inputs",
		Min:   map[string]int64{"bytes": 500000, "reads": 50000, "completions": 5000, "rewrites": 2000, "paintings": 5000, "changes": 3000, "inputs": 8000},
		Builds: []h.Build{
			{Name: "", Cases: tiers(50000, 900000)},
			{Name: "race", Race: true, Cases: tiers(10000, 120000)},
		},
		Run: c03,
	})
}
