package props

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

// secretRunes occur only in what is typed while a password is read.
var secretRunes = []rune("QXWZ#%жщфю漢密ßä")

const secretAlphabet = "QXWZ#%жщфю漢密ßä"

// spy keeps everything written to the terminal.
type spy struct {
	w   io.Writer
	mu  sync.Mutex
	all []byte
}

func (s *spy) Write(b []byte) (int, error) {
	s.mu.Lock()
	s.all = append(s.all, b...)
	s.mu.Unlock()
	return s.w.Write(b)
}

// leaked finds a secret rune.
func leaked(b []byte) (string, bool) {
	for i := 0; i < len(b); {
		r, n := utf8.DecodeRune(b[i:])
		for _, s := range secretRunes {
			if r == s {
				from, to := i-60, i+60
				if from < 0 {
					from = 0
				}
				if to > len(b) {
					to = len(b)
				}
				return fmt.Sprintf("%q in ...%q...", r, b[from:to]), true
			}
		}
		i += n
	}
	return "", false
}

// cfgState is what a configuration says, functions by identity.
func cfgState(c *rl.Config) string {
	v := reflect.ValueOf(c).Elem()
	var sb strings.Builder
	for i := 0; i < v.NumField(); i++ {
		f, t := v.Field(i), v.Type().Field(i)
		if t.PkgPath != "" {
			continue
		}
		switch f.Kind() {
		case reflect.Func:
			fmt.Fprintf(&sb, "%s=%x ", t.Name, f.Pointer())
		case reflect.Interface:
			if f.IsNil() {
				fmt.Fprintf(&sb, "%s=nil ", t.Name)
			} else if e := f.Elem(); e.Kind() == reflect.Ptr {
				fmt.Fprintf(&sb, "%s=%T:%x ", t.Name, f.Interface(), e.Pointer())
			} else {
				fmt.Fprintf(&sb, "%s=%T ", t.Name, f.Interface())
			}
		default:
			fmt.Fprintf(&sb, "%s=%v ", t.Name, f.Interface())
		}
	}
	return sb.String()
}

var secretPrompts = []string{"Password: ", "", "\x1b[1mpw\x1b[0m> ", "パスワード", "a long prompt asking for the password of this account, which wraps: "}

// c13Model compares sessions that mix ordinary reads and passwords with the model.
func c13Model(c *h.Ctx) {
	r := c.R
	m := &ModelRun{C: c, M: model.NewSession([]int{500, 500, 3, -1}[r.Intn(4)]), Prompt: prompts[r.Intn(len(prompts))], CheckScreen: true, NoSentinel: true}
	m.Opt.Width = pickWidth(r)
	m.Unique = r.Intn(5) == 0
	m.M.Vim = r.Intn(4) == 0
	m.M.AutoSave = r.Intn(6) != 0
	m.Intr = []string{"", "\n", "^Interrupted"}[r.Intn(3)]
	if !m.M.Vim && r.Intn(3) == 0 {
		m.Opt.Width = 40 + r.Intn(60)
		m.withCompleter(r, false)
	}
	normal := searchKeys(r)
	if m.M.Vim {
		normal = vimKeys(r)
	}
	if m.comp != nil {
		normal = completeKeys(r)
		normal[3].W, normal[4].W = 0, 0
	}
	normal[0] = Text(20+r.Intn(40), []string{"ab ", "abc字", "é字 x"}[r.Intn(3)])
	normal = append(normal, K(5, model.KeyCtrlY))
	if m.comp == nil {
		normal = append(normal, K(5, model.KeyPrev))
	}
	secret := append([]Choice{}, editKeys(r)...)
	if m.M.Vim {
		secret = vimKeys(r)
	}
	secret[0] = Text(30+r.Intn(60), secretAlphabet)
	secret = append(secret, K(r.Intn(8), model.KeyTab), K(r.Intn(10), model.KeyPrev, model.KeyNext), K(r.Intn(8), model.KeyBck, model.KeyFwd),
		K(r.Intn(12), model.KeyCtrlU, model.KeyCtrlW, model.KeyKill), K(r.Intn(4), model.KeyInterrupt, model.KeyDelete), K(r.Intn(5), model.KeyEnter))

	// keys up to ends[i] belong to segment i; odd segments are typed while passwords are read
	var ends []int
	first := r.Intn(2)
	for i := 0; i < 2+r.Intn(5); i++ {
		cs, n := normal, r.Intn(25)
		if (i+first)%2 == 1 {
			cs = secret
		}
		for _, k := range genKeys(r, cs, n, m.M.Vim) {
			if (i+first)%2 == 0 && strings.ContainsRune(secretAlphabet, k.R) {
				k = sess.Key{Bytes: "x", R: 'x'}
			}
			if k.R != model.KeyDelete || i%3 != 0 {
				m.Keys = append(m.Keys, k)
			}
		}
		if m.M.Vim {
			m.Keys = append(m.Keys, sess.Key{Bytes: "z", R: 'z'})
		}
		for _, k := range []rune{model.KeyBell, model.KeyBell, model.KeyEnter} {
			m.Keys = append(m.Keys, sess.Key{Bytes: string(k), R: k})
		}
		ends = append(ends, len(m.Keys))
	}
	if r.Intn(3) == 0 { // the input ends early
		cut := ends[len(ends)-1] - r.Intn(ends[len(ends)-1]-ends[len(ends)-2])
		m.Keys = m.Keys[:cut]
		ends[len(ends)-1] = cut
	}
	if r.Intn(4) == 0 {
		m.Chunks = chunked(r, m.Keys)
	}
	secretNow := func() bool {
		for i, e := range ends {
			if m.pos < e {
				return (i+first)%2 == 1
			}
		}
		return (len(ends)-1+first)%2 == 1
	}
	file := ""
	var tap *spy
	prev := m.Opt.Cfg
	var inst *rl.Config
	m.Opt.Cfg = func(cfg *rl.Config) {
		if prev != nil {
			prev(cfg)
		}
		if r.Intn(3) == 0 {
			file = c.Dir + "/c13.history"
			os.Remove(file)
			cfg.HistoryFile = file
		}
		tap = &spy{w: cfg.Stdout}
		cfg.Stdout, cfg.Stderr = tap, tap
		inst = cfg
	}
	var kept *rl.Config // a password configuration used again
	keptListener := false
	m.Read = func(n int) (string, error) {
		s := m.Session
		m.mu.Lock()
		if !secretNow() {
			m.NoText = false
			if r.Intn(6) == 0 {
				m.Prompt = prompts[r.Intn(len(prompts))]
				s.Inst.SetPrompt(m.Prompt)
			}
			m.mu.Unlock()
			c.Count("ordinary_reads", 1)
			return s.Inst.Readline()
		}
		old := *m.M
		oldPrompt, oldIntr, oldEOF, oldUnique, oldMasked, oldMask, oldComp, oldQuiet := m.Prompt, m.Intr, m.EOFP, m.Unique, m.Masked, m.Mask, m.comp, m.Quiet
		m.M.H, m.M.AutoSave, m.M.C, m.M.NoSearch = model.NewHist(-1), true, model.Comp{}, true
		m.Intr, m.EOFP, m.Unique, m.Masked, m.Mask, m.comp = "\n", "\n", false, true, 0, nil
		m.NoText, m.Quiet = true, true
		before := cfgState(s.Inst.Operation.GetConfig())
		m.Prompt = secretPrompts[r.Intn(len(secretPrompts))]
		listen := rl.FuncListener(func(line []rune, pos int, key rune) ([]rune, int, bool) {
			return m.onListen(line, pos, key)
		})
		var read func() ([]byte, error)
		kind := r.Intn(5)
		switch kind {
		case 0:
			m.Blind = true
			read = func() ([]byte, error) { return s.Inst.ReadPassword(m.Prompt) }
		case 1:
			m.Blind = true
			l := rl.Listener(nil)
			if r.Intn(2) == 0 {
				l, m.Quiet = listen, false
			}
			read = func() ([]byte, error) { return s.Inst.ReadPasswordEx(m.Prompt, l) }
		default:
			cfg := kept
			if cfg != nil {
				m.Prompt, m.Mask, m.Quiet = cfg.Prompt, cfg.MaskRune, !keptListener
			} else {
				cfg = s.Inst.GenPasswordConfig()
				cfg.Prompt = m.Prompt
				m.Mask = []rune{0, '*', '●', '＊', '字'}[r.Intn(5)]
				cfg.MaskRune = m.Mask
				cfg.FuncFilterInputRune = inst.FuncFilterInputRune
				keptListener = r.Intn(2) == 0
				if keptListener {
					cfg.Listener, m.Quiet = listen, false
				}
				if r.Intn(2) == 0 {
					kept = cfg
				}
			}
			read = func() ([]byte, error) { return s.Inst.ReadPasswordWithConfig(cfg) }
		}
		c.Count("passwords", 1)
		c.Seen("situations", kind, m.Prompt, m.Mask, m.Quiet, old.VimNormal, string(old.Kill), fmtEntries(old.H.Entries), m.Keys[m.pos:min2(m.pos+6, len(m.Keys))])
		m.mu.Unlock()

		b, err := read()

		m.mu.Lock()
		defer m.mu.Unlock()
		for n >= len(m.expect) && m.pos < len(m.Keys) && m.Blind && !m.failed {
			m.pos++
			m.step(m.Keys[m.pos-1].R)
		}
		for i := 0; i < 3 && n >= len(m.expect) && m.pos == len(m.Keys); i++ {
			m.endStep()
		}
		if after := cfgState(s.Inst.Operation.GetConfig()); after != before {
			m.fail("config", "the configuration after the password read differs from the one before\nbefore %s\nafter  %s", before, after)
		}
		switch err {
		case nil:
			c.Count("password_lines", 1)
		case rl.ErrInterrupt:
			c.Count("password_interrupts", 1)
		default:
			c.Count("password_ends", 1)
		}
		m.Blind = false
		m.M.H, m.M.AutoSave, m.M.C, m.M.NoSearch, m.M.Kill = old.H, old.AutoSave, old.C, old.NoSearch, old.Kill
		m.Prompt, m.Intr, m.EOFP, m.Unique, m.Masked, m.Mask, m.comp, m.Quiet = oldPrompt, oldIntr, oldEOF, oldUnique, oldMasked, oldMask, oldComp, oldQuiet
		return string(b), err
	}
	m.Run()
	c.Count("screens_compared", m.Screens)
	tap.mu.Lock()
	defer tap.mu.Unlock()
	if l, bad := leaked(tap.all); bad {
		m.fail("shown", "the terminal was sent %s", l)
	}
	c.Count("bytes_scanned", len(tap.all))
	if file != "" && !m.failed && m.M.H.Limit == 500 {
		b, err := os.ReadFile(file)
		if err != nil && !os.IsNotExist(err) {
			m.fail("file", "%v", err)
		}
		want := ""
		for _, e := range m.M.H.Entries {
			want += string(e) + "\n"
		}
		if string(b) != want {
			m.fail("file", "the history file holds %q and must hold %q", b, want)
		}
		c.Count("files_compared", 1)
	}
	c.Sample("width %d vim %v: %s", m.Opt.Width, m.M.Vim, KeyNames(m.Keys, -1))
}

func init() {
	h.Register(&h.Prop{
		ID:    "C13",
		Rule:  "Even cases: random scripts mixing ordinary and password reads (all three calls, masks, listeners, vim, completer, history file), compared with the model key by key; odd cases: hostile keys, completers, painters, writers and closing while passwords are read. Passwords are typed in characters that occur nowhere else; any of them in what is written, in the history or in its file is a violation. Non-trivial is a distinct (kind of call, prompt, mask, editor state, first keys) of a password read.",
		Count: "situations",
		Min:   map[string]int64{"passwords": 10000, "password_lines": 5000, "password_interrupts": 300, "password_ends": 500, "screens_compared": 20000, "situations": 8000, "hostile_passwords": 5000, "files_compared": 300, "closed_in_password": 500},
		Builds: []h.Build{
			{Name: "", Cases: tiers(24000, 600000)},
			{Name: "instr", Instr: true, Cases: tiers(1500, 60000)},
			{Name: "race+instr", Race: true, Instr: true, Cases: tiers(200, 20000)},
		},
		Run: func(c *h.Ctx) {
			if c.Build != "" {
				perturbed(c, func() { c13Hostile(c) })
			} else if c.Idx%2 == 0 {
				c13Model(c)
			} else {
				c13Hostile(c)
			}
		},
	})
}

// secretBits are hostile keys that show nothing of themselves; only the secret runes between them are text.
var secretBits = []string{
	"\t", "\t\t", "\t\t\t", "\x12", "\x13", "\x12Q", "\x10", "\x0e", "\x02", "\x06", "\x01", "\x05", "\x15", "\x0b", "\x17", "\x19", "\x14", "\b", "\x7f", "\x0c", "\x00", "\xff", "\xe6\xbc", "\xd0",
	"\x1b[A", "\x1b[B", "\x1b[5~", "\x1b[12;40R", "\x1b", "\x1b[", "\x1bO", "\x1b\x7f", "\x1bb", "\x1bf", "\x1bd", "\x1b\x14", "\a", "漢", "QQQQQQQQQQQQQQQQQQQQQQQQQQQQQQ", "Q W Z", "#", "\u0301",
}

func genSecret(r randSrc, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			b = append(b, string(secretRunes[r.Intn(len(secretRunes))])...)
		} else {
			b = append(b, secretBits[r.Intn(len(secretBits))]...)
		}
	}
	return b
}

// secretDo is a completer that does not know what was typed, and a listener that shows only the length.
type secretDo struct {
	r    randSrc
	inst *rl.Instance
}

func (d *secretDo) Do(line []rune, pos int) ([][]rune, int) {
	var o [][]rune
	for i := 0; i < []int{0, 1, 2, 5, 30}[d.r.Intn(5)]; i++ {
		o = append(o, []rune([]string{"cand", "oth", "fin"}[d.r.Intn(3)]+strings.Repeat("k", d.r.Intn(4))))
	}
	return o, []int{0, 1, pos, pos, pos + 3}[d.r.Intn(5)]
}

func (d *secretDo) OnChange(line []rune, pos int, key rune) ([]rune, int, bool) {
	h.Progress()
	if d.r.Intn(3) == 0 {
		d.inst.SetPrompt(fmt.Sprintf("Enter password(%d): ", len(line)))
		d.inst.Refresh()
	}
	return nil, 0, false
}

func c13Hostile(c *h.Ctx) {
	r := c.R
	var tap *spy
	vim := r.Intn(3) == 0
	file := ""
	prompt := []string{"> ", "", "a long prompt: ", "プロン"}[r.Intn(4)]
	s, err := sess.New(sess.Opt{Width: 60 + r.Intn(40), NoFilter: true, Cfg: func(cfg *rl.Config) {
		cfg.Prompt = prompt
		cfg.VimMode = vim
		tap = &spy{w: cfg.Stdout}
		cfg.Stdout, cfg.Stderr = tap, tap
		if r.Intn(2) == 0 {
			cfg.AutoComplete = rl.NewPrefixCompleter(rl.PcItem("cand"), rl.PcItem("cann"), rl.PcItem("other"))
		}
		if r.Intn(2) == 0 {
			cfg.Painter = colorPainter{}
		}
		if r.Intn(2) == 0 {
			file = c.Dir + "/c13.history"
			os.Remove(file)
			cfg.HistoryFile = file
		}
		cfg.HistoryLimit = []int{0, 500, 2}[r.Intn(3)]
	}})
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	defer s.Close()
	var log []string
	failed := false
	fail := func(sig, f string, a ...interface{}) {
		if !failed {
			failed = true
			c.Fail(sig, "%s\n%s", fmt.Sprintf(f, a...), strings.Join(log, "\n"))
		}
	}
	d := &secretDo{r: newRand(r), inst: s.Inst}
	// writers go on during the session
	stop := make(chan struct{})
	var wg sync.WaitGroup
	if r.Intn(3) == 0 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 40; i++ {
				select {
				case <-stop:
					return
				default:
				}
				fmt.Fprintf(s.Inst.Stdout(), "note %d\n", i)
				s.Inst.Refresh()
			}
		}()
	}
	end := "\a\a\r"
	if vim {
		end = "z" + end // a pending vim command takes this
	} else {
		end = "z\x15" + end // an incomplete sequence takes this
	}
	password := func() func() ([]byte, error) {
		if r.Intn(3) == 0 {
			return func() ([]byte, error) { return s.Inst.ReadPassword("pw: ") }
		}
		cfg := s.Inst.GenPasswordConfig()
		cfg.Prompt = secretPrompts[r.Intn(len(secretPrompts))]
		cfg.MaskRune = []rune{0, '*', '字'}[r.Intn(3)]
		if r.Intn(2) == 0 {
			cfg.AutoComplete = d
		}
		if r.Intn(3) == 0 {
			cfg.Listener = d
		}
		if r.Intn(3) == 0 {
			cfg.Painter = colorPainter{}
		}
		cfg.UniqueEditLine = r.Intn(4) == 0
		return func() ([]byte, error) { return s.Inst.ReadPasswordWithConfig(cfg) }
	}
	n := 1 + r.Intn(4)
	for i := 0; i < n && !failed; i++ {
		b := genSecret(r, r.Intn(20))
		c.Seen("situations", "hostile", string(b))
		c.Count("hostile_passwords", 1)
		log = append(log, fmt.Sprintf("password %q", b))
		before := cfgState(s.Inst.Operation.GetConfig())
		if i == n-1 && r.Intn(2) == 0 { // the last one ends with the input or by closing
			s.In.Feed(b)
			closed := r.Intn(2) == 0
			if closed {
				c.Count("closed_in_password", 1)
				wg.Add(1)
				k := r.Intn(3)
				go func() {
					defer wg.Done()
					if k > 0 {
						s.In.WaitIdle()
					}
					s.Close()
				}()
			} else {
				s.In.EOF()
			}
			for k := 0; ; k++ {
				if _, err := password()(); err == io.EOF {
					break
				}
				if k == 3 {
					fail("end", "the password read does not report the end of the input")
					break
				}
			}
			break
		}
		ps := pieces(r, append(append([]byte{}, b...), end...))
		s.In.Feed(ps...)
		p, err := password()()
		if err != nil {
			fail("result", "the password read returned %q, %v", p, err)
			break
		}
		if after := cfgState(s.Inst.Operation.GetConfig()); after != before {
			fail("config", "the configuration after the password read differs from the one before\nbefore %s\nafter  %s", before, after)
			break
		}
		if r.Intn(2) == 0 {
			continue
		}
		// the next read is as ever
		text := fmt.Sprintf("plain text %d", i)
		keys := "\x15\x19\x15" // nothing to paste
		if vim {
			keys = ""
		}
		s.In.Feed([]byte(keys + text + "\r"))
		line, err := s.Inst.Readline()
		if err != nil || line != text {
			fail("next", "the read after a password returned %q, %v; %q was typed", line, err, text)
			break
		}
		snap := s.VT.Snap()
		want := strings.TrimRight(prompt+text, " ")
		shown := false
		for _, row := range snap.Rows {
			shown = shown || row == want
		}
		if !shown {
			fail("echo", "the read after a password does not show %q; the screen is\n  %s", want, strings.Join(snap.Rows, "\n  "))
		}
		c.Count("reads_after", 1)
	}
	close(stop)
	wg.Wait()
	s.Close()
	tap.mu.Lock()
	all := tap.all
	tap.mu.Unlock()
	c.Count("bytes_scanned", len(all))
	if l, bad := leaked(all); bad {
		fail("shown", "the terminal was sent %s", l)
	}
	if file != "" {
		b, _ := os.ReadFile(file)
		if l, bad := leaked(b); bad {
			fail("saved", "the history file holds %s", l)
		}
	}
}
