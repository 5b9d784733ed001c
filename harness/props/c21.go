package props

import (
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

// c21Cfg is a configuration and what the model knows of it.
type c21Cfg struct {
	id     int
	cfg    *rl.Config
	shadow rl.Config // what it must say
	hist   *model.Hist
	comp   *scriptComp
	noComp bool
	quiet  bool
	paint  func([]rune) []rune
	width  int
	on     int64 // raw mode
	off    int64
	reads  int64
}

type c21Run struct {
	*ModelRun
	r       randSrc
	toggles bool
	raw     map[string]string // exact content
	cfgs    []*c21Cfg
	cur     *c21Cfg
	now     int32 // id of the configuration in effect
	wmu     sync.Mutex
	wrong   string
	base    func(rune) (rune, bool)
	out     io.Writer
}

func (m *c21Run) is(k *c21Cfg, what string) {
	if n := int(atomic.LoadInt32(&m.now)); n != k.id {
		m.wmu.Lock()
		if m.wrong == "" {
			m.wrong = fmt.Sprintf("the %s of configuration %d was used while configuration %d was in effect", what, k.id, n)
		}
		m.wmu.Unlock()
	}
	m.C.Count("uses_checked", 1)
}

type cfgWriter struct {
	m *c21Run
	k *c21Cfg
}

func (w cfgWriter) Write(b []byte) (int, error) { w.m.is(w.k, "output"); return w.m.out.Write(b) }

type cfgComp struct {
	m *c21Run
	k *c21Cfg
}

func (w cfgComp) Do(l []rune, pos int) ([][]rune, int) {
	w.m.is(w.k, "completer")
	return w.k.comp.Do(l, pos)
}

type cfgPainter struct {
	m *c21Run
	k *c21Cfg
}

func (w cfgPainter) Paint(l []rune, pos int) []rune { w.m.is(w.k, "painter"); return w.k.paint(l) }

// dress gives a configuration random options, each of its own.
func (m *c21Run) dress(k *c21Cfg, fresh bool) {
	r, c := m.r, k.cfg
	k.id = len(m.cfgs)
	m.cfgs = append(m.cfgs, k)
	c.Prompt = prompts[r.Intn(len(prompts))]
	c.HistoryLimit = []int{500, 500, 500, 1 + r.Intn(4), -1}[r.Intn(5)]
	c.HistoryFile = ""
	if c.HistoryLimit == 500 && r.Intn(2) == 0 {
		c.HistoryFile = m.file()
	}
	c.DisableAutoSaveHistory = r.Intn(5) == 0
	c.HistorySearchFold = r.Intn(2) == 0
	c.VimMode = r.Intn(3) == 0
	c.UniqueEditLine = r.Intn(4) == 0
	c.EnableMask, c.MaskRune = false, 0
	c.InterruptPrompt = []string{"^C", "^Interrupted", "中断"}[r.Intn(3)]
	c.EOFPrompt = []string{"^D", "exit"}[r.Intn(2)]
	if fresh && r.Intn(2) == 0 {
		c.InterruptPrompt, c.EOFPrompt = []string{"", "\n"}[r.Intn(2)], []string{"", "\n"}[r.Intn(2)]
		if c.HistoryLimit == 500 {
			c.HistoryLimit = 0
		}
	}
	if r.Intn(5) == 0 {
		c.EnableMask, c.MaskRune = true, []rune{'*', '●', '字'}[r.Intn(3)]
	}
	k.width = 14 + r.Intn(90)
	if len(m.cfgs) > 1 && r.Intn(2) == 0 {
		k.width = m.cfgs[0].width
	}
	c.FuncGetWidth = func() int { m.is(k, "width"); return k.width }
	c.FuncMakeRaw = func() error { m.is(k, "raw mode"); atomic.AddInt64(&k.on, 1); return nil }
	c.FuncExitRaw = func() error { m.is(k, "raw mode"); atomic.AddInt64(&k.off, 1); return nil }
	c.FuncFilterInputRune = func(x rune) (rune, bool) { m.is(k, "filter"); return m.base(x) }
	c.Stdout, c.Stderr = cfgWriter{m, k}, cfgWriter{m, k}
	c.Listener = nil
	k.quiet = r.Intn(4) == 0
	if !k.quiet {
		c.SetListener(func(l []rune, pos int, key rune) ([]rune, int, bool) {
			m.is(k, "listener")
			return m.onListen(l, pos, key)
		})
	}
	c.Painter, c.AutoComplete = nil, nil
	k.noComp = true
	switch {
	case !c.EnableMask && r.Intn(3) == 0:
		k.comp = &scriptComp{seed: int64(r.Intn(1 << 30)), m: m.ModelRun}
		c.AutoComplete = cfgComp{m, k}
		k.noComp = false
	case fresh || r.Intn(2) == 0:
		if !fresh {
			c.AutoComplete = &rl.TabCompleter{}
		}
		k.noComp = false
	}
	k.paint = plainPaint
	if r.Intn(3) == 0 && k.comp == nil {
		k.paint = []func([]rune) []rune{plainPaint, plainPaint, plainPaint}[r.Intn(3)]
	}
	if !fresh || r.Intn(2) == 0 {
		c.Painter = cfgPainter{m, k}
	}
}

// settle notes what a configuration must say once it is in use.
func (k *c21Cfg) settle(fresh bool) (string, bool) {
	c := k.cfg
	s := &k.shadow
	if fresh { // only now the defaults are there
		pick := func(p *string, d string) {
			switch *p {
			case "":
				*p = d
			case "\n":
				*p = ""
			}
		}
		pick(&s.InterruptPrompt, "^C")
		pick(&s.EOFPrompt, "^D")
		if s.HistoryLimit == 0 {
			s.HistoryLimit = 500
		}
		if s.Painter == nil {
			if c.Painter == nil {
				return "no painter by default", false
			}
			s.Painter = c.Painter
		}
		if s.AutoComplete == nil {
			if _, ok := c.AutoComplete.(*rl.TabCompleter); !ok {
				return fmt.Sprintf("the default completer is %T", c.AutoComplete), false
			}
			s.AutoComplete = c.AutoComplete
		}
		if s.FuncOnWidthChanged == nil {
			s.FuncOnWidthChanged = c.FuncOnWidthChanged
		}
		s.Stdin, s.StdinWriter = c.Stdin, c.StdinWriter
	}
	if a, b := cfgState(c), cfgState(s); a != b {
		return fmt.Sprintf("configuration %d says\n%s\nand must say\n%s", k.id, a, b), false
	}
	return "", true
}

func (m *c21Run) file() string { return fmt.Sprintf("%s/c21.%d", m.C.Dir, m.r.Intn(3)) }

// load is the history of a configuration that starts from its file.
func (m *c21Run) load(k *c21Cfg) *model.Hist {
	limit := k.cfg.HistoryLimit
	if limit == 0 {
		limit = 500
	}
	hi := model.NewHist(limit)
	hi.Fold = k.cfg.HistorySearchFold
	if f := k.cfg.HistoryFile; f != "" && hi.Limit > 0 {
		if b := m.raw[f]; b != "" && !strings.HasSuffix(b, "\n") {
			m.raw[f] += "\n"
		}
		for _, l := range strings.Split(m.raw[f], "\n") {
			if l = strings.TrimSpace(l); l != "" {
				hi.Entries = append(hi.Entries, []rune(l))
			}
		}
		if _, ok := m.raw[f]; !ok {
			m.raw[f] = ""
		}
		hi.Saved = func(s []rune) { m.raw[f] += string(s) + "\n" }
		m.C.Count("loads", 1)
	}
	hi.Abandon()
	return hi
}

// use makes the model follow the configuration now in effect.
func (m *c21Run) use(k *c21Cfg, prompt bool) {
	m.cur = k
	if k.hist == nil {
		k.hist = m.load(k)
	}
	c := k.cfg
	if prompt {
		m.Prompt = c.Prompt
	}
	m.M.H = k.hist
	m.M.AutoSave = !c.DisableAutoSaveHistory
	m.M.Vim, m.M.VimNormal = c.VimMode, false
	m.Masked, m.Mask, m.M.NoSearch = c.EnableMask, c.MaskRune, c.EnableMask
	m.Unique, m.Quiet = c.UniqueEditLine, k.quiet
	m.M.TabText = []rune("\t")
	if k.noComp {
		m.M.TabText = nil
	}
	m.M.C = model.Comp{}
	m.comp = k.comp
	if sc := k.comp; sc != nil {
		m.M.C.Do = func(line []rune, pos int) ([][]rune, int) {
			sc.expect = append(sc.expect, compCall{string(line), pos})
			return sc.answer(line, pos)
		}
		m.M.C.Cols = m.cols
	}
	m.Paint = k.paint
	none := func(s string) string {
		if s == "" {
			return "\n"
		}
		return s
	}
	m.Intr, m.EOFP = none(c.InterruptPrompt), none(c.EOFPrompt)
	if m.Opt.Width != k.width {
		m.Opt.Width = k.width
		m.Session.VT.Resize(k.width)
	}
}

func c21Model(c *h.Ctx) {
	r := c.R
	m := &c21Run{ModelRun: &ModelRun{C: c, M: model.NewSession(500), CheckScreen: true, NoSentinel: true, Terminal: true}, r: r, raw: map[string]string{}}
	for i := 0; i < 3; i++ {
		f := fmt.Sprintf("%s/c21.%d", c.Dir, i)
		os.Remove(f)
		if r.Intn(2) == 0 {
			b := []string{"", "one\ntwo\n", "a b\n\n  字 \nlast", "ab\nab\n \nb"}[r.Intn(4)]
			os.WriteFile(f, []byte(b), 0600)
			m.raw[f] = b
		}
	}
	// segments of keys, each for one kind of mode
	var ends []int
	var vim []bool
	for i := 3 + r.Intn(6); i > 0; i-- {
		v := r.Intn(3) == 0
		cs := searchKeys(r)
		if v {
			cs = vimKeys(r)
		} else if r.Intn(3) == 0 {
			cs = completeKeys(r)
		}
		cs[0] = Text(20+r.Intn(40), []string{"ab ", "abc字", "é字 x"}[r.Intn(3)])
		cs = append(cs, K(r.Intn(8), model.KeyTab), K(5, model.KeyCtrlY), K(6, model.KeyPrev), K(r.Intn(5), model.KeyBck))
		m.Keys = append(m.Keys, genKeys(r, cs, r.Intn(25), v)...)
		if v {
			m.Keys = append(m.Keys, sess.Key{Bytes: "z", R: 'z'})
		}
		for _, k := range []rune{model.KeyBell, model.KeyBell, model.KeyEnter} {
			m.Keys = append(m.Keys, sess.Key{Bytes: string(k), R: k})
		}
		ends, vim = append(ends, len(m.Keys)), append(vim, v)
	}
	if r.Intn(4) == 0 {
		m.Chunks = chunked(r, m.Keys)
	}
	plainUntilEnd := func() bool { // no key left in this segment is an Esc or starts with one
		for i, e := range ends {
			if m.pos <= e && (i == 0 || m.pos >= ends[i-1]) {
				for _, k := range m.Keys[m.pos:e] {
					if strings.HasPrefix(k.Bytes, "\x1b") {
						return false
					}
				}
				return true
			}
		}
		return true
	}
	wantVim := func() bool {
		for i, e := range ends {
			if m.pos < e {
				return vim[i]
			}
		}
		return vim[len(vim)-1]
	}
	m.Filter = func(i int, k rune) (rune, bool) {
		if m.M.C.Select {
			switch k { // where these go is read off the screen, which plain text is needed for
			case model.KeyPrev, model.KeyNext, model.KeyLineStart, model.KeyLineEnd:
				return k, false
			}
		}
		if m.toggles && r.Intn(10) == 0 && !m.M.C.Listed && !m.M.InSearch && plainUntilEnd() {
			on := !m.cur.cfg.VimMode
			m.Session.Inst.SetVimMode(on)
			m.cur.shadow.VimMode = on
			m.M.Vim, m.M.VimNormal = on, false
			c.Count("callback_changes", 1)
		}
		return k, true
	}
	m.InListener = func(rune) {
		if m.M.InSearch || m.M.C.Listed || r.Intn(8) > 0 {
			return
		}
		in := m.Session.Inst
		switch r.Intn(4) {
		case 0:
			if m.cur.cfg.EnableMask {
				m.Mask = []rune{'*', '＊', '#'}[r.Intn(3)]
				in.SetMaskRune(m.Mask)
				m.cur.shadow.MaskRune = m.Mask
			}
		case 1:
			m.setPath()
			m.M.H.Edited(m.M.Buf)
		default:
			m.Prompt = prompts[r.Intn(len(prompts))]
			in.SetPrompt(m.Prompt)
		}
		in.Refresh()
		c.Count("callback_changes", 1)
	}
	first := &c21Cfg{}
	var template *rl.Config
	m.Opt.Width = 14 + r.Intn(90)
	m.Opt.Cfg = func(cfg *rl.Config) {
		m.base, m.out = cfg.FuncFilterInputRune, cfg.Stdout
		first.cfg = cfg
		template = cfg.Clone() // not in use yet
		m.dress(first, true)
		first.width = m.Opt.Width
		first.shadow = *cfg
	}
	m.Started = func() {
		m.use(first, true)
		if s, ok := first.settle(true); !ok {
			m.fail("defaults", "%s", s)
		}
	}
	spare := sess.NewStdin()
	m.Read = func(n int) (string, error) {
		in := m.Session.Inst
		m.mu.Lock()
		for i := []int{0, 0, 1, 1, 1, 2, 4}[r.Intn(7)]; i > 0 && !m.failed; i-- {
			m.change(template, spare)
		}
		if v := wantVim(); v != m.cur.cfg.VimMode {
			in.SetVimMode(v)
			m.cur.shadow.VimMode = v
			m.M.Vim, m.M.VimNormal = v, false
			c.Count("changes_vim", 1)
		}
		m.check(n)
		m.toggles = r.Intn(3) == 0
		c.Seen("situations", m.cur.id, len(m.cfgs), m.Prompt, m.M.Vim, m.Masked, m.Mask, m.M.H.Limit, m.M.AutoSave, m.Unique, fmtEntries(m.M.H.Entries), string(m.M.Kill))
		m.cur.reads++
		def := ""
		if r.Intn(8) == 0 && m.pos < len(m.Keys) {
			def = "default 字"
			m.M.Buf, m.M.Pos = []rune(def), len([]rune(def))
			m.M.H.Edited(m.M.Buf)
		}
		m.mu.Unlock()
		if def != "" {
			return in.ReadlineWithDefault(def)
		}
		return in.Readline()
	}
	m.Run()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.check(-1)
	for f, want := range m.raw {
		b, err := os.ReadFile(f)
		if err != nil && !os.IsNotExist(err) || string(b) != want {
			m.fail("file", "the history file %s holds %q (%v) and must hold %q", f[len(f)-1:], b, err, want)
		}
		c.Count("files_compared", 1)
	}
	for i := 0; i < 3; i++ {
		f := fmt.Sprintf("%s/c21.%d", c.Dir, i)
		if _, ok := m.raw[f]; !ok {
			if b, err := os.ReadFile(f); err == nil {
				m.fail("file", "the history file %d was written (%q) although it is not that of any configuration", i, b)
			}
		}
		os.Remove(f)
	}
	spare.Close()
	c.Count("screens_compared", m.Screens)
	c.Count("configurations", len(m.cfgs))
	c.Sample("%d configurations: %s", len(m.cfgs), KeyNames(m.Keys, -1))
}

func (m *c21Run) setPath() {
	k := m.cur
	if k.cfg.HistoryLimit != 500 {
		return
	}
	p := ""
	if m.r.Intn(4) > 0 {
		p = m.file()
	}
	m.Session.Inst.SetHistoryPath(p)
	k.shadow.HistoryFile = p
	k.hist = m.load(k)
	m.M.H = k.hist
	m.C.Count("changes_path", 1)
}

// change makes one change between two reads.
func (m *c21Run) change(template *rl.Config, spare *sess.Stdin) {
	r, in := m.r, m.Session.Inst
	switch r.Intn(10) {
	case 9: // the screen is resized
		for _, k := range m.cfgs {
			if k == m.cur || r.Intn(2) == 0 {
				k.width = 14 + r.Intn(90)
			}
		}
		m.Opt.Width = m.cur.width
		m.Session.VT.Resize(m.cur.width)
		m.Session.OnWidth()
		m.C.Count("changes_width", 1)
	case 0, 1, 2: // another configuration that was in use before
		m.to(m.cfgs[r.Intn(len(m.cfgs))], false)
	case 3, 4:
		if len(m.cfgs) > 5 {
			return
		}
		k := &c21Cfg{}
		fresh := false
		switch r.Intn(4) {
		case 0:
			k.cfg = template.Clone()
			fresh = true
		case 1:
			k.cfg = &rl.Config{Stdin: spare, FuncIsTerminal: template.FuncIsTerminal, FuncOnWidthChanged: func(func()) {}}
			fresh = true
		default:
			k.cfg = m.cfgs[r.Intn(len(m.cfgs))].cfg.Clone()
		}
		m.dress(k, fresh)
		k.shadow = *k.cfg
		m.to(k, fresh)
	case 5:
		m.Prompt = prompts[r.Intn(len(prompts))]
		in.SetPrompt(m.Prompt)
		m.C.Count("changes_prompt", 1)
	case 6:
		m.Mask = []rune{'*', '#', '＊'}[r.Intn(3)]
		in.SetMaskRune(m.Mask)
		m.cur.shadow.MaskRune = m.Mask
		m.C.Count("changes_mask", 1)
	case 7:
		m.setPath()
	case 8:
		m.program(r, m.Session, true)
	}
}

func (m *c21Run) to(k *c21Cfg, fresh bool) {
	old := m.cur
	atomic.StoreInt32(&m.now, int32(k.id))
	if got := m.Session.Inst.SetConfig(k.cfg); got != old.cfg {
		m.fail("old", "SetConfig did not return the configuration used before")
	}
	if s, ok := k.settle(fresh); !ok {
		m.fail("defaults", "%s", s)
	}
	if k != old {
		m.use(k, true)
	}
	m.C.Count("switches_of_config", 1)
}

// check looks at what configurations say and which were used.
func (m *c21Run) check(n int) {
	m.wmu.Lock()
	if m.wrong != "" {
		m.fail("which", "%s", m.wrong)
	}
	m.wmu.Unlock()
	in := m.Session.Inst
	for _, k := range m.cfgs {
		if s, ok := k.settle(false); !ok {
			m.fail("config", "%s", s)
			return
		}
		if n >= 0 && (k.on != k.reads || k.off != k.reads) {
			m.fail("raw", "configuration %d was read with %d times; raw mode was entered %d times and left %d times with it", k.id, k.reads, k.on, k.off)
			return
		}
	}
	want := cfgState(m.cur.cfg)
	if in.Config != m.cur.cfg || cfgState(in.Operation.GetConfig()) != want || cfgState(in.Terminal.GetConfig()) != want {
		m.fail("getconfig", "the instance does not report the configuration in effect")
	}
	if in.IsVimMode() != m.cur.shadow.VimMode {
		m.fail("vim", "the vim mode reported is %v", in.IsVimMode())
	}
}

// c21Input changes configurations, also to entirely new ones, while the input is prefilled, and closes at the end.
func c21Input(c *h.Ctx) {
	r := c.R
	s, err := sess.New(sess.Opt{Width: 80, NoFilter: true, Discard: true})
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	cfgs := []*rl.Config{s.Cfg}
	var spares []*sess.Stdin
	log := ""
	for i := 0; i < 2+r.Intn(6); i++ {
		for n := r.Intn(3); n > 0; n-- {
			var k *rl.Config
			switch r.Intn(4) {
			case 0:
				k = cfgs[r.Intn(len(cfgs))].Clone()
			case 1:
				spare := sess.NewStdin()
				spare.Feed([]byte("not for this instance\r"))
				spares = append(spares, spare)
				k = &rl.Config{Stdin: spare, Stdout: s.VT, Stderr: s.VT, FuncIsTerminal: s.Cfg.FuncIsTerminal, FuncMakeRaw: s.Cfg.FuncMakeRaw, FuncExitRaw: s.Cfg.FuncExitRaw,
					FuncGetWidth: s.Cfg.FuncGetWidth, FuncOnWidthChanged: s.Cfg.FuncOnWidthChanged, VimMode: r.Intn(3) == 0}
			default:
				k = cfgs[r.Intn(len(cfgs))]
			}
			cfgs = append(cfgs, k)
			s.Inst.SetConfig(k)
			log += "set "
			c.Count("input_switches", 1)
		}
		pre, typed := "", fmt.Sprintf("typed %d", i)
		if r.Intn(2) == 0 {
			pre = fmt.Sprintf("pre %d, ", i)
			if n, err := s.Inst.WriteStdin([]byte(pre)); n != len(pre) || err != nil {
				c.Fail("prefill", "%d, %v", n, err)
			}
		}
		log += fmt.Sprintf("read(%q) ", pre)
		done := make(chan struct{})
		go func() {
			// the prefilled text comes first only if nothing was fetched from the input before
			s.In.Feed([]byte(typed + "\r"))
			close(done)
		}()
		line, err := s.Inst.Readline()
		<-done
		h.Progress()
		if err != nil || line != pre+typed {
			c.Fail("prefill", "%s: the read returned %q, %v and not %q", log, line, err, pre+typed)
			break
		}
		c.Count("input_lines", 1)
	}
	for i, sp := range spares {
		if sp.Count() > 0 {
			c.Fail("input", "%s: the input of configuration %d was read", log, i)
		}
	}
	// a read that waits ends when the instance is closed
	if r.Intn(2) == 0 {
		res := make(chan error, 1)
		go func() { _, err := s.Inst.Readline(); res <- err }()
		s.In.WaitIdle()
		s.Close()
		if err := <-res; err != io.EOF {
			c.Fail("close", "%s: the read pending while the instance was closed returned %v", log, err)
		}
	} else {
		s.Close()
	}
	c.Count("closes", 1)
	for _, sp := range spares {
		sp.Close()
	}
	c.Seen("situations", log)
}

func init() {
	h.Register(&h.Prop{
		ID:    "C21",
		Rule:  "Random scripts of 3 to 8 stretches of keys in vim and ordinary mode; before each read up to four changes: switching to one of up to six configurations (clones, fresh ones, ones used before, each with prompt, mask, marks, history, file, completer, painter, listener, filter, width, output and raw-mode functions of its own), SetPrompt, SetMaskRune, SetVimMode, SetHistoryPath, saves, resets and switches of the history, and prompt, mask, path and vim mode from callbacks. Lines, results, screen, files, the state of every configuration, and which configuration's functions are used, are compared with a model per configuration. One case in eight prefills and closes across changes. Non-trivial is a distinct (configuration, mode, history, cut text) read with.",
		Count: "situations",
		Min: map[string]int64{"switches_of_config": 10000, "callback_changes": 3000, "changes_path": 1000, "changes_prompt": 3000, "changes_mask": 3000, "changes_width": 3000, "changes_vim": 3000, "files_compared": 5000, "loads": 5000,
			"screens_compared": 100000, "uses_checked": 500000, "input_lines": 1000, "closes": 500, "situations": 10000},
		Cases: tiers(10000, 200000),
		Run: func(c *h.Ctx) {
			if c.Idx%8 == 7 {
				c21Input(c)
				return
			}
			c21Model(c)
		},
	})
}
