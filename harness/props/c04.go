package props

import (
	"fmt"
	"strings"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

var prompts = []string{
	"> ", "> ", "", "$", "long-prompt-name$ ", "\x1b[31mred\x1b[0m> ", "\x1b[1;32ma\x1b[m\x1b[36mb\x1b[0m ",
	"你好> ", "a very long prompt that takes more than one row of a narrow screen, and then some: ",
	"プロンプトは長いです、とても長いです> ", "x你y好z世w界 \x1b[7m>\x1b[0m", "123456789>",
}

func histKeys(r randSrc) []Choice {
	return append(editKeys(r),
		K(10+r.Intn(50), model.KeyPrev, model.KeyNext),
		K(10+r.Intn(20), model.KeyEnter))
}

func searchKeys(r randSrc) []Choice {
	return append(histKeys(r), K(10+r.Intn(50), model.KeyBck, model.KeyFwd), K(r.Intn(10), model.KeyBell), K(r.Intn(10), model.KeyInterrupt))
}

// screenWidths are those where a line of a few dozen characters wraps often.
func pickWidth(r randSrc) int {
	switch r.Intn(4) {
	case 0:
		return 80
	case 1:
		return 2 + r.Intn(10)
	default:
		return 2 + r.Intn(50)
	}
}

func init() {
	h.Register(&h.Prop{
		ID:    "C04",
		Rule:  "Random editing, history, search and vim scripts of 5 to 140 keys over 12 prompts, widths 2 to 80, masks, marks and resizes; the emulated screen is compared before every key. Non-trivial is a distinct (width, prompt, line, cursor, mode) compared.",
		Count: "screens",
		Min:   map[string]int64{"screens_compared": 200000, "screens": 50000, "multi_row": 50000, "wide_at_edge": 1000, "resizes": 1000, "reflows": 2000, "resizes_searching": 500, "redraws": 10000, "masked": 5000},
		Assume: []string{"the terminal wraps only when the next character arrives, never splits double-width characters and shows combining marks on the character before",
			"prompt and line together take less rows than the screen has"},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 200000
			}
			return 12000
		},
		Run: func(c *h.Ctx) {
			r := c.R
			m := &ModelRun{C: c, M: model.NewSession(500), Prompt: prompts[r.Intn(len(prompts))], CheckScreen: true}
			m.Opt.Width = pickWidth(r)
			var cs []Choice
			switch r.Intn(5) {
			case 0:
				cs = editKeys(r)
			case 1:
				cs = histKeys(r)
			case 2, 3:
				cs = searchKeys(r)
			case 4:
				cs, m.M.Vim = vimKeys(r), true
			}
			cs = append(cs, K(r.Intn(4), model.KeyCtrlL), K(r.Intn(8), model.KeyTab), K(r.Intn(2)*r.Intn(5), 0x301, 0x200b))
			m.Keys = genKeys(r, cs, 5+r.Intn(136), m.M.Vim)
			if r.Intn(3) == 0 {
				m.Chunks = chunked(r, m.Keys)
			}
			m.Unique = r.Intn(5) == 0
			m.Intr = []string{"", "\n", "^Interrupted", "中断"}[r.Intn(4)]
			m.EOFP = []string{"", "\n", "exit"}[r.Intn(3)]
			if r.Intn(5) == 0 {
				m.Masked, m.Mask = true, []rune{'*', '●', '＊', '字', ' '}[r.Intn(5)]
				m.M.NoSearch = true
			}
			if r.Intn(6) == 0 { // a painter that only colors
				m.Opt.Cfg = func(cfg *rl.Config) { cfg.Painter = colorPainter{} }
			}
			resize := r.Intn(4) == 0
			if resize {
				m.Opt.Width = 30 + r.Intn(100)
			}
			m.redrawing(r)
			m.Before = func(i int, k rune) {
				l := sess.LayOut(m.Opt.Width, []rune(m.Prompt), m.shown(m.M.Buf), m.M.Pos)
				c.Seen("screens", m.Opt.Width, m.Prompt, string(m.M.Buf), m.M.Pos, m.M.InSearch, string(m.M.Pat), m.M.Failing, m.Mask)
				if len(l.Rows) > 1 {
					c.Count("multi_row", 1)
				}
				if l.WideGap {
					c.Count("wide_at_edge", 1)
				}
				if m.Masked {
					c.Count("masked", 1)
				}
				if resize && r.Intn(6) == 0 {
					m.resize(r)
				}
			}
			m.Run()
			c.Count("screens_compared", m.Screens)
			c.Sample("width %d prompt %q: %s", m.Opt.Width, m.Prompt, KeyNames(m.Keys, -1))
		},
	})
}

// resize changes the width of the screen between two keys, where it is known what the terminal makes
// of the rows on it: those that do not wrap before and after stay as they are, and those that do are
// wrapped again. What terminals do with a cursor behind a full row, or with the blank cell before a
// double-width character, differs.
func (m *ModelRun) resize(r randSrc) {
	c := m.C
	w := 2 + r.Intn(120)
	old := sess.LayOut(m.Opt.Width, []rune(m.Prompt), m.shown(m.M.Buf), m.M.Pos)
	now := sess.LayOut(w, []rune(m.Prompt), m.shown(m.M.Buf), m.M.Pos)
	single := old.EndRow == 0 && now.EndRow == 0
	if m.M.InSearch { // the search line is below
		l := m.label()
		label, was := sess.LayOut(w, l, nil, 0), sess.LayOut(m.Opt.Width, l, nil, 0)
		single = single && label.EndRow == 0 && was.EndRow == 0
		if label.WideGap || was.WideGap {
			return
		}
	}
	if single {
		m.Session.VT.Resize(w)
	} else {
		if old.WideGap || now.WideGap || now.EndCol == 0 || now.Col == 0 && now.Row > 0 {
			return
		}
		m.Session.VT.Reflow(w)
		c.Count("reflows", 1)
	}
	m.Session.SetWidth(w)
	m.Session.OnWidth()
	m.Opt.Width = w
	c.Count("resizes", 1)
	if m.M.InSearch {
		c.Count("resizes_searching", 1)
	}
}

type colorPainter struct{}

func (colorPainter) Paint(line []rune, pos int) []rune {
	var sb strings.Builder
	for i, c := range line {
		fmt.Fprintf(&sb, "\x1b[%dm%c", 31+i%6, c)
	}
	sb.WriteString("\x1b[0m")
	return []rune(sb.String())
}
