package props

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

// ModelRun is one session compared with the model key by key.
type ModelRun struct {
	Terminal bool // always a terminal
	C        *h.Ctx
	Keys     []sess.Key
	Chunks   [][]byte // how the bytes arrive; nil: one key per read
	M        *model.Session
	Opt      sess.Opt
	Prompt   string
	Unique   bool
	// CheckScreen compares the terminal with the model before every key.
	CheckScreen bool
	// Underline: the match of a search is underlined.
	Underline       bool
	Masked          bool
	Mask            rune // the line is shown as this character
	noScreenAtStart bool
	Intr, EOFP      string // what the screen keeps after interrupts and ends ("" is the default, "\n" none)
	// Between runs in the reading goroutine after each read that returned something, n counts from 0.
	Between func(n int, r sess.Result)
	// Read makes the n-th read call; nil: Readline. It may prepare the model first, and clears
	// hasText when the call does not return the text of an interrupted line.
	Read       func(n int) (string, error)
	NoText     bool
	NoSentinel bool // the input ends right after the keys
	Quiet      bool // no listener is installed for this read
	Blind      bool // no filter is installed for this read: keys are seen when they reach the listener
	// Before runs in the editor goroutine before a key is processed (not in the middle of a vim command).
	Before func(i int, r rune)
	// Poke runs before the screen is compared and may redraw it.
	Poke func()
	// InListener runs in the editor goroutine after a key was processed and compared.
	InListener func(key rune)
	// Filter says what the key becomes, and whether it reaches the editor.
	Filter func(i int, r rune) (rune, bool)
	// Rewrite is the listener's answer to the line after a key.
	Rewrite func(key rune) ([]rune, int, bool)
	// Paint is how the painter shows a line.
	Paint func(line []rune) []rune
	// Started is called when the instance exists.
	Started func()
	// AtEnd replaces the last look at the screen.
	AtEnd func()
	comp  *scriptComp
	Sig   string // prefix of violation classes

	seen     int64 // keys delivered so far
	mu       sync.Mutex
	pos      int
	failed   bool
	expect   []sess.Result
	listens  int
	starts   int // calls of the listener at the start of a read
	expListn int
	last     rune
	trans    []string // submitted rows so far
	Steps    int
	control  bool // the line has had a control character: what that shows is up to the terminal
	lastStep model.Step
	Screens  int
	Session  *sess.Sess
}

func (m *ModelRun) fail(sig, f string, a ...interface{}) {
	if m.failed {
		return
	}
	m.failed = true
	i := m.pos
	m.C.Fail(m.Sig+sig, "%s\nkeys processed: %d of %d\nkeys: %s\nbytes: %q\nwidth: %d prompt: %q\nmodel line %q cursor %d kill %q history %s pos %d search %v %q",
		fmt.Sprintf(f, a...), i, len(m.Keys), KeyNames(m.Keys, i), sess.Bytes(m.Keys), m.Opt.Width, m.Prompt,
		string(m.M.Buf), m.M.Pos, string(m.M.Kill), fmtEntries(m.M.H.Entries), m.M.H.Pos, m.M.InSearch, string(m.M.Pat))
}

func fmtEntries(e [][]rune) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i, x := range e {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%q", string(x))
	}
	sb.WriteByte(']')
	return sb.String()
}

// sentinel is a key that the filter rejects; it comes last, to look at the screen once more.
const sentinel = 0xe000

func (m *ModelRun) onKey(i int, r rune) (rune, bool) {
	ok := m.key(i, &r)
	return r, ok
}

func (m *ModelRun) key(i int, k *rune) bool {
	r := *k
	h.Progress()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.failed {
		return true
	}
	if m.pos >= len(m.Keys) {
		m.fail("decode", "key %s delivered after the last key", KeyName(r))
		return true
	}
	if want := m.Keys[m.pos].R; want != r {
		m.fail("decode", "bytes %q were delivered as %s, expected %s", m.Keys[m.pos].Bytes, KeyName(r), KeyName(want))
		return true
	}
	if r == sentinel && m.AtEnd != nil {
		m.AtEnd()
	} else {
		m.checkScreen()
	}
	if m.comp != nil && !m.failed {
		m.comp.check()
	}
	if m.failed {
		return true
	}
	m.pos++
	atomic.AddInt64(&m.seen, 1)
	if r == sentinel {
		return false
	}
	if m.Before != nil {
		m.Before(i, r)
	}
	if m.Filter != nil {
		var ok bool
		if r, ok = m.Filter(i, r); !ok {
			m.C.Count("rejected", 1)
			return false
		}
		*k = r
	}
	m.step(r)
	return true
}

// state identifies what a key meets.
func (m *ModelRun) state(r rune) uint64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%d/%v%v%v/", r, m.M.Pos, m.M.VimNormal, m.M.InSearch, m.M.SearchFw)
	f.Write([]byte(string(m.M.Buf)))
	f.Write([]byte{0})
	f.Write([]byte(string(m.M.Kill)))
	if m.M.InSearch {
		f.Write([]byte(string(m.M.Pat)))
		fmt.Fprint(f, m.M.H.Pos)
	}
	return f.Sum64()
}

// endStep is what the end of the input does: a partial line is submitted, then the input ends.
func (m *ModelRun) endStep() {
	if len(m.M.Buf) > 0 {
		m.M.C.EndOfInput()
		m.step(model.KeyEnter)
		return
	}
	m.expect = append(m.expect, sess.Result{Err: "eof"})
}

func (m *ModelRun) step(r rune) {
	m.last = r
	m.C.SeenHash("transitions", m.state(r))
	st := m.M.Step(r, func() rune {
		if m.pos < len(m.Keys) {
			m.pos++
			return m.Keys[m.pos-1].R
		}
		return 0
	})
	m.Steps++
	m.lastStep = st
	for _, c := range append(append([]rune{}, m.M.Buf...), m.M.Pat...) {
		m.control = m.control || c < 0x20 && c != '\t' || c == 0x7f
	}
	if r == model.KeyCtrlL && !st.Silent {
		m.trans = nil
	}
	switch st.Out {
	case model.Submit:
		m.expect = append(m.expect, sess.Result{Line: string(st.Text)})
		m.leave(st.Text, "")
	case model.Interrupt:
		m.expect = append(m.expect, sess.Result{Line: string(st.Text), Err: "interrupt"})
		m.leave(st.Text, mark(m.Intr, "^C"))
	case model.EOF:
		m.expect = append(m.expect, sess.Result{Err: "eof"})
		m.leave(nil, mark(m.EOFP, "^D"))
	}
	if !st.Silent && !m.Quiet {
		m.expListn++
	}
}

func mark(s, def string) string {
	switch s {
	case "":
		return def
	case "\n":
		return ""
	}
	return s
}

func (m *ModelRun) onListen(line []rune, pos int, key rune) (newLine []rune, newPos int, ok bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if line == nil && pos == 0 && key == 0 {
		m.starts++
		return []rune("not to be used"), 5, true
	}
	if m.failed {
		return
	}
	m.listens++
	for m.Blind && m.expListn < m.listens && m.pos < len(m.Keys) {
		m.pos++
		m.step(m.Keys[m.pos-1].R)
	}
	if m.listens > m.expListn && key == model.KeyEnter && m.pos == len(m.Keys) && len(m.M.Buf) > 0 {
		m.endStep()
	}
	if m.listens != m.expListn {
		m.fail("listener", "listener called %d times after %d keys that should reach it", m.listens, m.expListn)
		return
	}
	if string(line) != string(m.M.Buf) || pos != m.M.Pos {
		m.fail("line", "after key %s the line is %q with the cursor at %d; it must be %q with the cursor at %d",
			KeyName(key), string(line), pos, string(m.M.Buf), m.M.Pos)
		return
	}
	if m.lastStep.Key != key {
		m.fail("listener-key", "the listener was told of key %s after %s", KeyName(key), KeyName(m.lastStep.Key))
		return
	}
	for i := range line {
		line[i] = '?' // the line it is given is its own
	}
	if m.InListener != nil {
		m.InListener(key)
	}
	if m.Rewrite != nil {
		newLine, newPos, ok = m.Rewrite(key)
		if ok {
			m.M.Buf, m.M.Pos = append([]rune{}, newLine...), newPos
			if m.lastStep.Edit {
				m.M.H.Edited(m.M.Buf)
			}
		}
	}
	return
}

func (m *ModelRun) checkScreen() {
	if !m.CheckScreen || m.Steps == 0 {
		return
	}
	if m.control {
		m.CheckScreen = false
		return
	}
	if m.lastStep.Out != model.None && m.noScreenAtStart {
		return
	}
	m.Screens++
	if m.Poke != nil {
		m.Poke()
	}
	var below []string
	if m.M.InSearch {
		below = sess.LayOut(m.Opt.Width, m.label(), nil, 0).Rows
	}
	if m.M.C.Listed && len(m.M.C.Cands) > 0 {
		m.checkList()
		return
	}
	CheckScreenBelow(m.fail, m.Session, m.trans, below, m.Opt.Width, []rune(m.Prompt), m.shown(m.M.Buf), m.M.Pos)
	if m.Underline && !m.failed {
		m.checkUnderline()
	}
}

// checkUnderline: what is underlined in the edit area is the match, while there is one.
func (m *ModelRun) checkUnderline() {
	if m.M.InSearch && (m.M.Failing || len(m.M.Pat) == 0) && m.M.MatchLen > 0 {
		return // whether the last match stays underlined is open
	}
	line, n := m.M.Buf, m.M.MatchLen
	first := sess.LayOut(m.Opt.Width, []rune(m.Prompt), line, m.M.MatchAt)
	var got strings.Builder
	at := ""
	for r := range first.Rows {
		for col, c := range m.Session.VT.Cells(len(m.trans) + r) {
			if c.Attr == "4" {
				if at == "" {
					at = fmt.Sprint(r, " ", col)
				}
				got.WriteString(c.S)
			}
		}
	}
	for n > 0 && m.M.MatchAt+n < len(line) && sess.RuneWidth(line[m.M.MatchAt+n]) == 0 {
		n++
	}
	for r := len(m.trans) + len(first.Rows); r < m.Session.VT.NumRows(); r++ {
		for _, c := range m.Session.VT.Cells(r) {
			if c.Attr == "4" && strings.TrimSpace(c.S) != "" { // the cursor of the search line is a blank
				m.fail("underline", "%q below the line is underlined too", c.S)
				return
			}
		}
	}
	want := ""
	if n > 0 {
		want = strings.Replace(string(line[m.M.MatchAt:m.M.MatchAt+n]), "\t", strings.Repeat(" ", sess.TabStop), -1)
		m.C.Count("matches_underlined", 1)
	}
	if got.String() != want {
		m.fail("underline", "%q is underlined and must be %q", got.String(), want)
		return
	}
	wantAt := fmt.Sprint(first.Row, " ", first.Col)
	if n > 0 && at != wantAt && !first.Zero && !first.WideGap {
		m.fail("underline", "the underlined %q begins at %s and must at %s", want, at, wantAt)
	}
}

// label is the search line.
func (m *ModelRun) label() []rune {
	label := "bck-i-search: "
	if m.M.SearchFw {
		label = "fwd-i-search: "
	}
	if m.M.Failing {
		label = "failing " + label
	}
	return []rune(label + string(m.M.Pat) + " ")
}

// redrawing lets a third of the sessions redraw at random before the screen is compared.
func (m *ModelRun) redrawing(r randSrc) {
	if r.Intn(3) > 0 {
		return
	}
	rr := newRand(r)
	m.Poke = func() {
		switch rr.Intn(8) {
		case 0:
			m.Session.Inst.Refresh()
			m.C.Count("redraws", 1)
		case 1:
			m.Session.Inst.Clean()
			m.Session.Inst.Refresh()
			m.C.Count("redraws", 1)
		}
	}
}

// shown is the line as the user sees it.
func (m *ModelRun) shown(line []rune) []rune {
	if !m.Masked {
		if m.Paint != nil {
			return m.Paint(line)
		}
		return line
	}
	if m.Mask == 0 {
		return nil // nothing is shown
	}
	o := make([]rune, len(line))
	for i := range o {
		o[i] = m.Mask
	}
	return o
}

// leave records what stays on the screen above the next prompt.
func (m *ModelRun) leave(line []rune, suffix string) {
	if m.Unique {
		return
	}
	l := sess.LayOut(m.Opt.Width, []rune(m.Prompt), m.shown(append(append([]rune{}, line...), []rune(suffix)...)), 0)
	rows := l.Rows
	if l.EndRow > 0 && l.EndCol == 0 {
		rows = rows[:len(rows)-1]
	}
	m.trans = append(m.trans, rows...)
}

// CheckScreen compares the emulated terminal with where prompt, line and cursor belong.
func CheckScreen(fail func(sig, f string, a ...interface{}), s *sess.Sess, above []string, width int, prompt, line []rune, pos int) {
	CheckScreenBelow(fail, s, above, nil, width, prompt, line, pos)
}

// CheckScreenBelow is CheckScreen with more rows below the edit area.
func CheckScreenBelow(fail func(sig, f string, a ...interface{}), s *sess.Sess, above, below []string, width int, prompt, line []rune, pos int) {
	l := sess.LayOut(width, prompt, line, pos)
	snap := s.VT.Snap()
	want := append(append(append([]string{}, above...), l.Rows...), below...)
	for len(want) > 0 && want[len(want)-1] == "" {
		want = want[:len(want)-1]
	}
	if strings.Join(snap.Rows, "\n") != strings.Join(want, "\n") {
		fail("screen", "the screen shows\n  %s\nand must show\n  %s", strings.Join(snap.Rows, "|\n  "), strings.Join(want, "|\n  "))
		return
	}
	row, col := snap.Row, snap.Col
	if snap.Pending {
		row, col = row+1, 0
	}
	if row != len(above)+l.Row || col != l.Col {
		fail("cursor", "the cursor is at row %d column %d of the edit area and must be at row %d column %d; screen\n  %s",
			row-len(above), col, l.Row, l.Col, strings.Join(snap.Rows, "|\n  "))
	}
}

// Run executes the session; it returns false when it could not be set up.
func (m *ModelRun) Run() bool {
	o := m.Opt
	o.OnKeyMap = m.onKey
	prev := o.Cfg
	o.Cfg = func(c *rl.Config) {
		c.Prompt = m.Prompt
		c.UniqueEditLine = m.Unique
		c.VimMode = m.M.Vim
		c.EnableMask, c.MaskRune = m.Masked, m.Mask
		c.InterruptPrompt, c.EOFPrompt = m.Intr, m.EOFP
		c.HistoryLimit = m.M.H.Limit
		c.HistorySearchFold = m.M.H.Fold
		c.DisableAutoSaveHistory = !m.M.AutoSave
		c.SetListener(m.onListen)
		if prev != nil {
			prev(c)
		}
		if m.C.Idx/20%4 == 1 && !m.Terminal && c.FuncIsTerminal() { // no terminal, but to be treated as one
			c.FuncIsTerminal = func() bool { return false }
			c.ForceUseInteractive = true
		}
	}
	s, err := sess.New(o)
	if err != nil {
		m.fail("setup", "NewEx: %v", err)
		return false
	}
	m.Session = s
	if !m.NoSentinel {
		m.Keys = append(m.Keys, sess.Key{Bytes: string(rune(sentinel)), R: sentinel})
		if m.Chunks != nil {
			m.Chunks = append(m.Chunks, []byte(string(rune(sentinel))))
		}
	}
	read := m.Read
	if read == nil {
		read = func(int) (string, error) { return s.Inst.Readline() }
	}
	if m.Chunks == nil {
		for _, k := range m.Keys {
			s.In.Feed([]byte(k.Bytes))
		}
	} else {
		s.In.Feed(m.Chunks...)
	}
	s.In.EOF()
	if m.Started != nil {
		m.Started()
	}
	n := 0
	for {
		line, err := read(n)
		r := sess.Classify(line, err)
		h.Progress()
		m.mu.Lock()
		if m.failed {
			m.mu.Unlock()
			break
		}
		for i := 0; i < 3 && n >= len(m.expect) && m.pos == len(m.Keys); i++ {
			m.endStep()
		}
		if n >= len(m.expect) {
			m.fail("result", "read call %d returned %v although nothing was submitted", n, r)
			m.mu.Unlock()
			break
		}
		w := m.expect[n]
		if m.NoText && r.Err != "" {
			w.Line = ""
		}
		if w != r {
			m.fail("result", "read call %d returned %v, expected %v", n, r, w)
			m.mu.Unlock()
			break
		}
		done := r.Err == "eof" && m.pos == len(m.Keys)
		if m.Between != nil && !done {
			m.Between(n, r)
		}
		m.mu.Unlock()
		n++
		if done {
			break
		}
	}
	s.Close()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.C.Count("keys", m.Steps)
	m.C.Count("reads", n)
	return !m.failed
}

func KeyName(r rune) string {
	switch r {
	case model.KeyMetaB:
		return "M-b"
	case model.KeyMetaF:
		return "M-f"
	case model.KeyMetaD:
		return "M-d"
	case model.KeyMetaBS:
		return "M-BS"
	case model.KeyMetaT:
		return "M-t"
	case model.KeyBackspace:
		return "BS"
	case model.KeyEsc:
		return "ESC"
	case model.KeyEnter:
		return "RET"
	case model.KeyTab:
		return "TAB"
	case ' ':
		return "SPC"
	}
	if r >= 0 && r < 32 {
		return "C-" + string(r+96)
	}
	return string(r)
}

func KeyNames(ks []sess.Key, mark int) string {
	var sb strings.Builder
	for i, k := range ks {
		if i == mark {
			sb.WriteString("<here> ")
		}
		sb.WriteString(KeyName(k.R))
		sb.WriteByte(' ')
	}
	return sb.String()
}

type randSrc = *rand.Rand

// Choice is a weighted set of keys.
type Choice struct {
	W int
	F func(r *rand.Rand) rune
}

func K(w int, rs ...rune) Choice {
	return Choice{w, func(r *rand.Rand) rune { return rs[r.Intn(len(rs))] }}
}

func Text(w int, alphabet string) Choice {
	rs := []rune(alphabet)
	return Choice{w, func(r *rand.Rand) rune { return rs[r.Intn(len(rs))] }}
}

func Pick(r *rand.Rand, cs []Choice) rune {
	t := 0
	for _, c := range cs {
		t += c.W
	}
	n := r.Intn(t)
	for _, c := range cs {
		if n < c.W {
			return c.F(r)
		}
		n -= c.W
	}
	panic("unreachable")
}
