package sess

import (
	"fmt"
	"io"
	"sync"

	rl "github.com/chzyer/readline"
	"verif.local/harness/vt"
)

// Result is what one read call returned.
type Result struct {
	Line string
	Err  string // "", "interrupt", "eof", or the message of an unexpected error
}

func Classify(line string, err error) Result {
	switch err {
	case nil:
		return Result{line, ""}
	case rl.ErrInterrupt:
		return Result{line, "interrupt"}
	case io.EOF:
		return Result{line, "eof"}
	}
	return Result{line, "unexpected: " + err.Error()}
}

// Opt configures a session.
type Opt struct {
	Width, Height int
	Cfg           func(*rl.Config)                 // last word on the configuration
	OnKey         func(i int, r rune) bool         // in the editor goroutine, before the i-th key is processed; false: ignore the key
	OnKeyMap      func(i int, r rune) (rune, bool) // the same, and what the key is translated to
	NoFilter      bool
	Discard       bool
}

// Sess is one instance on a scripted input and an emulated terminal.
type Sess struct {
	In   *Stdin
	VT   *vt.Term
	Cfg  *rl.Config
	Inst *rl.Instance

	mu       sync.Mutex
	RawOn    int
	RawOff   int
	nkey     int
	OnWidth  func()
	widthNow int
}

func RuneWidth(r rune) int { return rl.Runes{}.Width(r) }

func New(o Opt) (*Sess, error) {
	s := &Sess{In: NewStdin(), widthNow: o.Width}
	h := o.Height
	if h == 0 {
		h = 1 << 20
	}
	s.VT = vt.New(o.Width, h, vtWidth)
	s.VT.Discard = o.Discard
	s.Cfg = &rl.Config{
		Stdin:  s.In,
		Stdout: s.VT,
		Stderr: s.VT,

		FuncGetWidth:   func() int { s.mu.Lock(); defer s.mu.Unlock(); return s.widthNow },
		FuncIsTerminal: func() bool { return true },
		FuncMakeRaw:    func() error { s.mu.Lock(); s.RawOn++; s.mu.Unlock(); return nil },
		FuncExitRaw:    func() error { s.mu.Lock(); s.RawOff++; s.mu.Unlock(); return nil },
		FuncOnWidthChanged: func(f func()) {
			s.OnWidth = f
		},
		HistoryLimit: 500,
	}
	if !o.NoFilter {
		s.Cfg.FuncFilterInputRune = func(r rune) (rune, bool) {
			if r == rl.CharCtrlZ { // would suspend the harness
				return r, false
			}
			ok := true
			if o.OnKeyMap != nil {
				r, ok = o.OnKeyMap(s.nkey, r)
			} else if o.OnKey != nil {
				ok = o.OnKey(s.nkey, r)
			}
			s.nkey++
			return r, ok
		}
	}
	if o.Cfg != nil {
		o.Cfg(s.Cfg)
	}
	inst, err := rl.NewEx(s.Cfg)
	if err != nil {
		return nil, err
	}
	s.Inst = inst
	return s, nil
}

// vtWidth is the emulator's own idea of character widths, written independently of the library's
// tables for the characters the workloads use.
func vtWidth(r rune) int {
	switch {
	case r < 0x20 || r == 0x7f || r >= 0x80 && r < 0xa0:
		return 0
	case r >= 0x300 && r <= 0x36f, r == 0x200b, r == 0x200d, r == 0xfeff:
		return 0
	case r >= 0x1100 && r <= 0x115f, r >= 0x2e80 && r <= 0x303e && r >= 0x3005 && r <= 0x3007,
		r >= 0x3041 && r <= 0x3096, r >= 0x30a1 && r <= 0x30fa, r >= 0x3400 && r <= 0x4dbf,
		r >= 0x4e00 && r <= 0x9fff, r >= 0xac00 && r <= 0xd7a3, r >= 0x20000 && r <= 0x2ffff:
		return 2
	}
	return 1
}

// VTWidth is vtWidth.
func VTWidth(r rune) int { return vtWidth(r) }

func (s *Sess) SetWidth(w int) {
	s.mu.Lock()
	s.widthNow = w
	s.mu.Unlock()
}

// ReadAll calls Readline until end of file (or max calls) and returns what each call returned.
func (s *Sess) ReadAll(max int) []Result {
	var rs []Result
	for len(rs) < max {
		r := Classify(s.Inst.Readline())
		rs = append(rs, r)
		if r.Err != "" && r.Err != "interrupt" {
			break
		}
	}
	return rs
}

func (s *Sess) Close() { s.Inst.Close() }

func (r Result) String() string {
	if r.Err == "" {
		return fmt.Sprintf("%q", r.Line)
	}
	return fmt.Sprintf("%q/%s", r.Line, r.Err)
}
