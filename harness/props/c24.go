//go:build onlyC24

package props

import (
	"fmt"
	"strings"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
	"verif.local/harness/vt"
)

// C24: the line buffer used by itself, through its exported methods.

type c24Snap struct {
	name string
	now  func() string
	was  string
}

func c24Run(c *h.Ctx) {
	r := c.R
	width := 2 + r.Intn(60)
	prompt := prompts[r.Intn(len(prompts))]
	term := vt.New(width, 500, vtWidthOf)
	shown, masked, mask := r.Intn(8) != 0, r.Intn(8) == 0, '*'
	count := &countWriter{w: term}
	cfg := &rl.Config{Stdin: sess.NewStdin(), Stdout: count, Stderr: count,
		FuncGetWidth: func() int { return width }, FuncIsTerminal: func() bool { return shown },
		FuncMakeRaw: func() error { return nil }, FuncExitRaw: func() error { return nil }, FuncOnWidthChanged: func(func()) {},
		EnableMask: masked, MaskRune: mask}
	if err := cfg.Init(); err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	var above []string
	if shown {
		for i := r.Intn(4); i > 0; i-- {
			above = append(above, "a")
			term.Write([]byte("a\r\n"))
		}
	}
	b := rl.NewRuneBuffer(count, prompt, cfg, width)
	var l model.Line
	var saved *model.Line
	var snaps []c24Snap
	var log []string
	failed := false
	fail := func(sig, f string, a ...interface{}) {
		if !failed {
			failed = true
			c.Fail(sig, "%s\nwidth %d, prompt %q, terminal %v, masked %v; calls %s", fmt.Sprintf(f, a...), width, prompt, shown, masked, strings.Join(log, " "))
		}
	}
	al := []rune(append(alphabets, "ab\té字\u0301 ")[r.Intn(len(alphabets)+1)])
	text := func(n int) []rune {
		t := make([]rune, r.Intn(n+1))
		for i := range t {
			t[i] = al[r.Intn(len(al))]
		}
		return t
	}
	cp := func(t []rune) []rune { return append([]rune{}, t...) }
	keep := func(name string, t []rune) {
		if len(snaps) < 40 {
			snaps = append(snaps, c24Snap{name, func() string { return string(t) }, string(t)})
		}
	}
	b.Refresh(nil)
	onScreen := true
	n := 10 + r.Intn(60)
	for i := 0; i < n && !failed; i++ {
		drawn, success, expect := true, true, true
		op := ""
		switch k := r.Intn(44); k {
		case 0, 1, 2, 3, 4, 5, 6, 7:
			t := text(6)
			op = fmt.Sprintf("WriteRunes(%q)", string(t))
			given := cp(t)
			b.WriteRunes(given)
			l.Insert(t)
			if string(given) != string(t) {
				fail("argument", "WriteRunes changed its argument")
			}
		case 8, 9:
			t := string(text(10))
			op = fmt.Sprintf("WriteString(%q)", t)
			b.WriteString(t)
			l.Insert([]rune(t))
		case 10, 11:
			t := al[r.Intn(len(al))]
			op = fmt.Sprintf("WriteRune(%q)", t)
			b.WriteRune(t)
			l.Insert([]rune{t})
		case 12:
			op = "MoveToLineStart"
			b.MoveToLineStart()
			l.Home()
		case 13:
			op = "MoveToLineEnd"
			b.MoveToLineEnd()
			l.End()
		case 14, 15, 16:
			op = "MoveBackward"
			b.MoveBackward()
			l.Left()
		case 17:
			op = "MoveForward"
			b.MoveForward()
			l.Right()
		case 18:
			op = "MoveToPrevWord"
			expect = l.Pos > 0
			success = b.MoveToPrevWord()
			l.PrevWord()
		case 19:
			op = "MoveToNextWord"
			b.MoveToNextWord()
			l.NextWord()
		case 20:
			op = "MoveToEndWord"
			b.MoveToEndWord()
			l.EndWord()
		case 21:
			ch, till, back := al[r.Intn(len(al))], r.Intn(2) == 0, r.Intn(2) == 0
			op = fmt.Sprintf("MoveTo(%q,%v,%v)", ch, till, back)
			expect = false
			for j, e := range l.Buf {
				expect = expect || e == ch && (back && j < l.Pos || !back && j > l.Pos)
			}
			success = b.MoveTo(ch, till, back)
			l.Find(ch, till, back)
		case 22:
			op = "Backspace"
			b.Backspace()
			l.Backspace()
		case 23:
			op = "Delete"
			success = b.Delete()
			expect = l.Delete()
		case 24:
			op = "DeleteWord"
			b.DeleteWord()
			l.DeleteWord()
		case 25:
			op = "BackEscapeWord"
			b.BackEscapeWord()
			l.CutPrevWord()
		case 26:
			op = "Kill"
			b.Kill()
			l.KillToEnd()
		case 27:
			op = "KillFront"
			b.KillFront()
			l.KillToStart()
		case 28, 29:
			op = "Yank"
			b.Yank()
			l.Yank()
		case 30:
			op = "Transpose"
			b.Transpose()
			l.Transpose()
		case 31:
			op = "Erase"
			if r.Intn(3) != 0 {
				continue
			}
			b.Erase()
			l.Erase()
		case 32:
			t := al[r.Intn(len(al))]
			op = fmt.Sprintf("Replace(%q)", t)
			b.Replace(t)
			if l.Pos < len(l.Buf) {
				l.Buf = cp(l.Buf)
				l.Buf[l.Pos] = t
			}
		case 33:
			t := text(30)
			op = fmt.Sprintf("Set(%q)", string(t))
			b.Set(cp(t))
			l.Set(t)
		case 34:
			t := text(30)
			at := r.Intn(len(t) + 1)
			op = fmt.Sprintf("SetWithIdx(%d,%q)", at, string(t))
			b.SetWithIdx(at, cp(t))
			l.SetAt(t, at)
		case 35:
			op = "Backup"
			b.Backup()
			saved = &model.Line{Buf: cp(l.Buf), Pos: l.Pos}
			drawn = false
		case 36, 37:
			op = "Restore"
			b.Restore()
			if saved != nil {
				l.SetAt(saved.Buf, saved.Pos)
				c.Count("restored", 1)
			}
		case 38:
			op = "Reset"
			if r.Intn(3) != 0 {
				continue
			}
			b.Clean()
			got := b.Reset()
			keep("Reset", got)
			if string(got) != string(l.Buf) {
				fail("reset", "Reset returned %q, the line was %q", string(got), string(l.Buf))
			}
			l.SetAt(nil, 0)
			b.Refresh(nil)
		case 39:
			op = "Clean"
			b.Clean()
			onScreen, drawn = false, false
		case 40:
			op = "Refresh"
			b.Refresh(nil)
		case 41:
			prompt = prompts[r.Intn(len(prompts))]
			op = fmt.Sprintf("SetPrompt(%q)", prompt)
			b.Clean()
			b.SetPrompt(prompt)
			b.Refresh(nil)
		case 42:
			b.Clean()
			width = 2 + r.Intn(60)
			op = fmt.Sprintf("OnWidthChange(%d)", width)
			term.Resize(width)
			b.OnWidthChange(width)
			b.Refresh(nil)
		case 43:
			if len(l.Buf) == 0 || masked || !onScreen {
				continue
			}
			from := r.Intn(len(l.Buf))
			to := from + r.Intn(len(l.Buf)-from+1)
			op = fmt.Sprintf("SetStyle(%d,%d)", from, to)
			if shown {
				b.SetStyle(from, to, "4")
				want, got := 0, 0
				for _, e := range l.Buf[from:to] {
					if e == '\t' {
						want += sess.TabStop
					} else {
						want += vtWidthOf(e)
					}
				}
				for i := 0; i < term.NumRows(); i++ {
					for _, cell := range term.Cells(i) {
						if cell.Attr == "4" {
							got++
						}
					}
				}
				if got != want {
					fail("style", "SetStyle(%d, %d) of %q styles %d columns and must style %d", from, to, string(l.Buf), got, want)
				}
				if !failed {
					CheckScreen(fail, &sess.Sess{VT: term}, above, width, []rune(prompt), l.Buf, l.Pos)
				}
				c.Count("styled", 1)
				b.Refresh(nil)
			}
			drawn = false
		}
		log = append(log, op)
		if drawn {
			onScreen = true
		}
		h.Progress()
		if success != expect {
			fail("success", "%s reported %v", op, success)
		}
		if got := b.Runes(); string(got) != string(l.Buf) || b.Pos() != l.Pos || b.Len() != len(l.Buf) || b.IsCursorInEnd() != (l.Pos == len(l.Buf)) {
			fail("line", "after %s the line is %q with the cursor at %d, length %d, at its end %v, and must be %q with the cursor at %d", op, string(got), b.Pos(), b.Len(), b.IsCursorInEnd(), string(l.Buf), l.Pos)
		} else {
			keep("Runes", got)
		}
		// what the buffer tells about itself
		k := r.Intn(len(l.Buf)+1) - l.Pos
		around := string(l.Buf[l.Pos:])
		if k < 0 {
			around = string(l.Buf[l.Pos+k : l.Pos])
		} else {
			around = string(l.Buf[l.Pos : l.Pos+k])
		}
		got := b.RuneSlice(k)
		if string(got) != around {
			fail("around", "RuneSlice(%d) returned %q, must be %q", k, string(got), around)
		}
		keep("RuneSlice", got)
		x, w := r.Intn(len(l.Buf)+1), 0
		for _, e := range l.Buf[:x] {
			if e == '\t' {
				w += sess.TabStop
			} else {
				w += vtWidthOf(e)
			}
		}
		if got := b.CurrentWidth(x); got != w {
			fail("width", "the width of the first %d characters of %q is %d, and must be %d", x, string(l.Buf), got, w)
		}
		pw := 0
		for _, e := range sess.StripSGR([]rune(prompt)) {
			pw += vtWidthOf(e)
		}
		if got := b.PromptLen(); got != pw {
			fail("prompt", "the width of the prompt %q is %d, and must be %d", prompt, got, pw)
		}
		c.Count("operations", 1)
		if !shown {
			if count.n > 0 {
				fail("written", "without a terminal %d bytes were written", count.n)
			}
			continue
		}
		line := l.Buf
		if masked {
			line = []rune(strings.Repeat(string(mask), len(l.Buf)))
		} else {
			lay := sess.LayOut(width, []rune(prompt), line, l.Pos)
			if got := b.IdxLine(width); got != lay.Row && !lay.CursorTrap {
				fail("row", "the cursor is said to be in row %d and must be in row %d", got, lay.Row)
			}
			if got := b.CursorLineCount(); got != lay.EndRow-lay.Row+1 && !lay.CursorTrap {
				fail("rows", "there are said to be %d rows from the cursor on and must be %d", got, lay.EndRow-lay.Row+1)
			}
		}
		if onScreen && !failed {
			CheckScreen(fail, &sess.Sess{VT: term}, above, width, []rune(prompt), line, l.Pos)
			c.Count("screens_compared", 1)
		} else if rows := term.Snap().Rows; !onScreen && strings.Join(rows, "|") != strings.Join(above, "|") {
			fail("cleaned", "after Clean the screen shows %q and must show %q", rows, above)
		}
		c.Seen("states", string(l.Buf), l.Pos, op)
	}
	for _, s := range snaps {
		if now := s.now(); now != s.was {
			fail("kept", "%s returned %q, which is %q later", s.name, s.was, now)
		}
	}
	c.Sample("%d calls, line %q", len(log), string(l.Buf))
}

type countWriter struct {
	w interface{ Write([]byte) (int, error) }
	n int
}

func (w *countWriter) Write(b []byte) (int, error) {
	w.n += len(b)
	return w.w.Write(b)
}

func vtWidthOf(r rune) int { return sess.VTWidth(r) }

func init() {
	h.Register(&h.Prop{
		ID:    "C24",
		Rule:  "Random sequences of 10 to 70 calls of the exported methods of a line buffer of its own, at widths 2 to 61, with and without a terminal and a mask; text, cursor, counts and the screen of the terminal emulator are compared with the model after every call, and what calls returned again at the end. Non-trivial is a distinct (line, cursor, call).",
		Count: "states",
		Min:   map[string]int64{"operations": 200000, "screens_compared": 150000, "restored": 5000, "styled": 2000, "states": 100000},
		Cases: tiers(12000, 200000),
		Run:   c24Run,
	})
}
