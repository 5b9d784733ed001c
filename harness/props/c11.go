package props

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"strings"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

// scriptComp is a completer whose answers depend on the text before the cursor only, and that
// notices when they are written into.
type scriptComp struct {
	seed   int64
	plain  bool // candidates are short words, so that the columns can be read off the screen
	expect []compCall
	m      *ModelRun
	given  []givenCands
	calls  int
}

type compCall struct {
	line string
	pos  int
}

type givenCands struct {
	list  [][]rune
	want  []string
	back  []rune
	wback string
}

func (s *scriptComp) answer(line []rune, pos int) ([][]rune, int) {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s", s.seed, string(line[:pos]))
	r := rand.New(rand.NewSource(int64(f.Sum64())))
	n := []int{0, 1, 1, 2, 2, 3, 5, 9, 20, 40}[r.Intn(10)]
	off := 0
	if pos > 0 {
		off = r.Intn(pos + 1)
		if off > 8 {
			off = r.Intn(8)
		}
	}
	common := ""
	if r.Intn(3) == 0 {
		common = []string{"ab", "é", "x"}[r.Intn(3)]
	}
	var out [][]rune
	for i := 0; i < n; i++ {
		w := string(rune('a'+i%26)) + string(rune('A'+i/26))
		if common == "" && s.plain {
			w = string(rune('A'+r.Intn(26))) + w
		}
		for k := r.Intn(6); k > 0; k-- {
			w += string([]rune("abcdé-")[r.Intn(6)])
		}
		if !s.plain {
			switch r.Intn(8) {
			case 0:
				w = ""
			case 1:
				w += " 世界"
			case 2:
				w += "\t."
			case 3:
				w += strings.Repeat("long", r.Intn(12))
			case 4:
				w = "字" + w
			}
		}
		out = append(out, []rune(common+w))
	}
	return out, off
}

// Do is called by the editor.
func (s *scriptComp) Do(line []rune, pos int) ([][]rune, int) {
	m := s.m
	m.mu.Lock()
	defer m.mu.Unlock()
	s.calls++
	if len(s.expect) == 0 {
		m.fail("completer", "the completer was called with %q, %d, which no key asks for", string(line), pos)
		return nil, 0
	}
	e := s.expect[0]
	s.expect = s.expect[1:]
	if e.line != string(line) || e.pos != pos {
		m.fail("completer", "the completer was called with %q, %d and not with %q, %d", string(line), pos, e.line, e.pos)
		return nil, 0
	}
	cands, off := s.answer(line, pos)
	// one array holds them all, so that growing one in place would show
	g := givenCands{}
	for _, c := range cands {
		g.back = append(g.back, c...)
		g.back = append(g.back, '#')
		g.want = append(g.want, string(c))
	}
	i := 0
	for _, c := range cands {
		g.list = append(g.list, g.back[i:i+len(c)])
		i += len(c) + 1
	}
	g.list = append(g.list, []rune("spare"))
	g.wback = string(g.back)
	s.given = append(s.given, g)
	if len(s.given) > 4 {
		s.given = s.given[1:]
	}
	if len(cands) == 0 {
		return nil, off
	}
	return g.list[:len(cands)], off
}

func (s *scriptComp) check() {
	for _, g := range s.given {
		for i, w := range g.want {
			if string(g.list[i]) != w {
				s.m.fail("completer-data", "candidate %d of the completer, %q, was changed to %q", i, w, string(g.list[i]))
				return
			}
		}
		if string(g.list[len(g.list)-1]) != "spare" || string(g.back) != g.wback {
			s.m.fail("completer-data", "memory of the completer was changed from %q to %q", g.wback, string(g.back))
			return
		}
	}
	if len(s.expect) > 0 {
		s.m.fail("completer", "the completer was not called with %q, %d", s.expect[0].line, s.expect[0].pos)
	}
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), "") }

// cols is the number of candidates in the first row of the list, as the screen shows it.
func (m *ModelRun) cols() int {
	l := sess.LayOut(m.Opt.Width, []rune(m.Prompt), m.shown(m.M.Buf), m.M.Pos)
	rows := m.Session.VT.Snap().Rows
	i := len(m.trans) + len(l.Rows)
	if i >= len(rows) {
		return 1
	}
	n := len(strings.Fields(rows[i]))
	if n < 1 {
		n = 1
	}
	return n
}

// checkList compares the screen with the line, the list below it and the highlight.
func (m *ModelRun) checkList() {
	l := sess.LayOut(m.Opt.Width, []rune(m.Prompt), m.shown(m.M.Buf), m.M.Pos)
	snap := m.Session.VT.Snap()
	want := append(append([]string{}, m.trans...), l.Rows...)
	rows := append([]string{}, snap.Rows...)
	for len(rows) < len(want) {
		rows = append(rows, "")
	}
	n := len(want)
	show := func() string { return strings.Join(snap.Rows, "|\n  ") }
	if strings.Join(rows[:n], "\n") != strings.Join(want, "\n") {
		m.fail("list-line", "the screen shows\n  %s\nand must show, above the list\n  %s", show(), strings.Join(want, "|\n  "))
		return
	}
	row, col := snap.Row, snap.Col
	if snap.Pending {
		row, col = row+1, 0
	}
	if row != len(m.trans)+l.Row || col != l.Col {
		m.fail("list-cursor", "the cursor is at row %d column %d and must be at %d, %d\n  %s", row-len(m.trans), col, l.Row, l.Col, show())
		return
	}
	var sb strings.Builder
	for i := range m.M.C.Cands {
		sb.WriteString(squeeze(string(m.M.Display(i))))
	}
	if got := squeeze(strings.Join(rows[n:], " ")); got != sb.String() {
		m.fail("list", "the list is %q and must be %q\n  %s", got, sb.String(), show())
		return
	}
	var hl strings.Builder
	for r := n; r < len(rows); r++ {
		for _, c := range m.Session.VT.Cells(r) {
			if c.Attr != "" {
				hl.WriteString(c.S)
			}
		}
	}
	wantHL := ""
	if m.M.C.Select {
		wantHL = squeeze(string(m.M.Display(m.M.C.Choice)))
	}
	if got := squeeze(hl.String()); got != wantHL {
		m.fail("highlight", "%q is highlighted and must be %q\n  %s", got, wantHL, show())
	}
}

func completeKeys(r randSrc) []Choice {
	return []Choice{
		Text(10+r.Intn(40), alphabets[r.Intn(len(alphabets))]),
		K(40+r.Intn(60), model.KeyTab),
		K(r.Intn(25), model.KeyForward, model.KeyBackward),
		K(r.Intn(25), model.KeyNext, model.KeyPrev),
		K(r.Intn(12), model.KeyLineStart, model.KeyLineEnd),
		K(5+r.Intn(15), model.KeyEnter, model.KeyCtrlJ),
		K(r.Intn(8), model.KeyBell, model.KeyInterrupt),
		K(r.Intn(8), model.KeyBackspace, model.KeyCtrlH),
		K(r.Intn(4), model.KeyKill, model.KeyCtrlU, model.KeyCtrlW, model.KeyCtrlY, model.KeyDelete),
		K(r.Intn(4), model.KeyMetaB, model.KeyMetaF, model.KeyMetaD, model.KeyTranspose),
		K(r.Intn(3), model.KeyBck, model.KeyFwd),
		K(r.Intn(3), model.KeyCtrlL),
	}
}

// withCompleter gives a session a scripted completer.
func (m *ModelRun) withCompleter(r randSrc, plain bool) *scriptComp {
	sc := &scriptComp{seed: int64(r.Intn(1 << 30)), plain: plain, m: m}
	m.M.C.Do = func(line []rune, pos int) ([][]rune, int) {
		sc.expect = append(sc.expect, compCall{string(line), pos})
		return sc.answer(line, pos)
	}
	m.M.C.Cols = m.cols
	m.comp = sc
	prev := m.Opt.Cfg
	m.Opt.Cfg = func(c *rl.Config) {
		c.AutoComplete = sc
		if prev != nil {
			prev(c)
		}
	}
	return sc
}

func init() {
	h.Register(&h.Prop{
		ID:    "C11",
		Rule:  "Random scripts of 5 to 120 keys dense in Tab and selection keys, with a completer whose scripted answers (0 to 40 candidates, words or hostile text, any offset) depend on the text before the cursor; line, cursor, list, highlight, completer calls and the completer's memory are compared after every key. Non-trivial is a distinct (line, cursor, list, choice) shown.",
		Count: "lists",
		Min:   map[string]int64{"lists_compared": 50000, "choices_compared": 20000, "accepted": 20000, "vertical_moves": 1000, "lists": 20000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 200000
			}
			return 12000
		},
		Run: func(c *h.Ctx) {
			r := c.R
			m := &ModelRun{C: c, M: model.NewSession(500), Prompt: prompts[r.Intn(len(prompts))], CheckScreen: true}
			plain := r.Intn(2) == 0
			m.Opt.Width = 4 + r.Intn(80)
			if plain {
				m.Opt.Width = 40 + r.Intn(80)
			}
			sc := m.withCompleter(r, plain)
			cs := completeKeys(r)
			if plain { // the list is read off the screen, so the text has no blanks
				cs[0] = Text(10+r.Intn(30), []string{"ab", "xyz-", "é字a"}[r.Intn(3)])
			} else {
				cs[3].W, cs[4].W = 0, 0
			}
			if r.Intn(5) == 0 {
				cs, m.M.Vim = append(append(cs[:9:9], cs[10:]...), K(5, model.KeyEsc), K(5, []rune("hlwbx0$iaA")...)), true
			}
			m.Keys = genKeys(r, cs, 5+r.Intn(116), m.M.Vim)
			if r.Intn(4) == 0 {
				m.Chunks = chunked(r, m.Keys)
			}
			m.redrawing(r)
			m.Before = func(i int, k rune) {
				if m.M.C.Listed && len(m.M.C.Cands) > 0 {
					c.Count("lists_compared", 1)
					if m.M.C.Select {
						c.Count("choices_compared", 1)
						if k == model.KeyNext || k == model.KeyPrev || k == model.KeyLineStart || k == model.KeyLineEnd {
							c.Count("vertical_moves", 1)
						}
					}
					c.Seen("lists", string(m.M.Buf), m.M.Pos, len(m.M.C.Cands), string(m.M.Display(0)), m.M.C.Choice)
				}
			}
			m.Run()
			c.Count("accepted", m.M.C.Accept)
			c.Count("completer_calls", sc.calls)
			c.Sample("width %d: %s", m.Opt.Width, KeyNames(m.Keys, -1))
		},
	})
}
