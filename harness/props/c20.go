package props

import (
	"fmt"
	"strings"
	"sync"
	"unicode"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
)

// scriptPainter shows the line as paint says, in colors, and keeps what it was given last.
type scriptPainter struct {
	mu    sync.Mutex
	paint func([]rune) []rune
	color bool
	line  []rune
	pos   int
	calls int
}

func (p *scriptPainter) Paint(line []rune, pos int) []rune {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.calls++
	p.line, p.pos = append([]rune{}, line...), pos
	o := p.paint(p.line)
	for i := range line {
		line[i] = '?' // painting in place is no business of the editor
	}
	if !p.color {
		return o
	}
	var sb strings.Builder
	for i, c := range o {
		fmt.Fprintf(&sb, "\x1b[%dm%c", 31+i%6, c)
	}
	sb.WriteString("\x1b[0m")
	return []rune(sb.String())
}

func plainPaint(l []rune) []rune { return append([]rune{}, l...) }

func upperPaint(l []rune) []rune {
	o := plainPaint(l)
	for i, c := range o {
		if c < 128 {
			o[i] = unicode.ToUpper(c)
		}
	}
	return o
}

func dotsPaint(l []rune) []rune {
	o := plainPaint(l)
	for i, c := range o {
		if c == ' ' {
			o[i] = '·'
		} else if c >= 'a' && c <= 'z' {
			o[i] = 'a' + (c-'a'+13)%26
		}
	}
	return o
}

func c20(c *h.Ctx) {
	r := c.R
	m := &ModelRun{C: c, M: model.NewSession(500), Prompt: prompts[r.Intn(len(prompts))], CheckScreen: true}
	m.Opt.Width = pickWidth(r)
	m.Unique = r.Intn(5) == 0
	m.Intr = []string{"", "\n", "^Interrupted"}[r.Intn(3)]
	var cs []Choice
	kind := r.Intn(6)
	switch kind {
	case 0:
		cs = editKeys(r)
	case 1, 2:
		cs = histKeys(r)
	case 3:
		cs = searchKeys(r)
	case 4:
		m.Opt.Width = 14 + r.Intn(80)
		m.withCompleter(r, false)
		cs = append(completeKeys(r), K(10, model.KeyEnter))
		cs[3].W, cs[4].W = 0, 0
	case 5:
		cs, m.M.Vim = vimKeys(r), true
	}
	m.Keys = genKeys(r, cs, 10+r.Intn(120), m.M.Vim)
	if r.Intn(4) == 0 {
		m.Chunks = chunked(r, m.Keys)
	}

	// the filter
	if r.Intn(3) > 0 {
		fr := newRand(r)
		reject, change := fr.Intn(20), fr.Intn(20)
		into := []rune{'x', '字', ' ', model.KeyBackspace, model.KeyBackward, model.KeyForward, model.KeyLineStart, model.KeyLineEnd, model.KeyPrev, model.KeyNext,
			model.KeyEnter, model.KeyCtrlJ, model.KeyInterrupt, model.KeyDelete, model.KeyCtrlU, model.KeyCtrlY, model.KeyMetaB, model.KeyMetaD, model.KeyTranspose, model.KeyBell}
		if kind == 3 {
			into = append(into, model.KeyBck, model.KeyFwd)
		}
		if kind == 4 {
			into = append(into[:6:6], model.KeyTab, model.KeyTab, model.KeyEnter, model.KeyInterrupt, model.KeyBell)
		}
		if m.M.Vim {
			into = append(into, model.KeyEsc, model.KeyEsc, 'd', 'x', 'r')
		}
		fixed := map[rune]rune{}
		if fr.Intn(2) == 0 { // some keys always become others
			for i := 0; i < 4; i++ {
				fixed[m.Keys[fr.Intn(len(m.Keys))].R] = into[fr.Intn(len(into))]
			}
		}
		m.Filter = func(i int, k rune) (rune, bool) {
			c.Count("filtered", 1)
			to, ok := fixed[k]
			if !ok {
				to = k
				if fr.Intn(100) < change {
					to = into[fr.Intn(len(into))]
				}
			}
			if to != k {
				c.Count("translated", 1)
				c.Seen("situations", "t", k, to, string(m.M.Buf), m.M.Pos, m.M.InSearch, m.M.VimNormal, m.M.C.Listed)
			}
			if fr.Intn(100) < reject {
				c.Seen("situations", "r", k, string(m.M.Buf), m.M.Pos, m.M.InSearch, m.M.VimNormal, m.M.C.Listed)
				return to, false
			}
			return to, true
		}
	}

	// the listener
	type owned struct{ given, want []rune }
	var lines []owned
	give := func(s []rune) []rune {
		o := make([]rune, len(s), len(s)+8) // room that is not the editor's
		copy(o, s)
		o = o[:cap(o)]
		for i := len(s); i < len(o); i++ {
			o[i] = '!'
		}
		lines = append(lines, owned{o, append([]rune{}, o...)})
		return o[:len(s)]
	}
	if r.Intn(3) > 0 {
		lr := newRand(r)
		often := 1 + lr.Intn(12)
		shared := give([]rune("shared text"))
		m.Rewrite = func(key rune) ([]rune, int, bool) {
			if m.M.InSearch || m.M.C.Listed || lr.Intn(often) > 0 || m.pos >= len(m.Keys)-1 {
				return give([]rune("not to be used")), 3, false
			}
			var l []rune
			switch lr.Intn(6) {
			case 0:
				l = upperPaint(m.M.Buf)
			case 1:
				l = append(append([]rune{}, m.M.Buf...), []rune("字+")...)
			case 2:
				if n := len(m.M.Buf); n > 0 {
					k := lr.Intn(n)
					l = append(append([]rune{}, m.M.Buf[:k]...), m.M.Buf[k+1:]...)
				}
			case 3:
				c.Count("rewritten", 1)
				return shared, lr.Intn(len(shared) + 1), true
			case 4:
				for n := lr.Intn(30); n > 0; n-- {
					l = append(l, []rune("ab 字é")[lr.Intn(5)])
				}
			case 5:
				l = append([]rune{}, m.M.Buf...) // only the cursor
			}
			c.Count("rewritten", 1)
			c.Seen("situations", "w", key, string(m.M.Buf), string(l), m.M.H.Pos)
			return give(l), lr.Intn(len(l) + 1), true
		}
	}

	// the painter
	var p *scriptPainter
	if r.Intn(2) == 0 {
		p = &scriptPainter{paint: plainPaint, color: r.Intn(2) == 0}
		searches := kind == 3 // a match is shown as it is
		for _, k := range m.Keys {
			searches = searches || k.R == model.KeyBck || k.R == model.KeyFwd
		}
		if !searches && kind != 4 {
			p.paint = []func([]rune) []rune{plainPaint, upperPaint, dotsPaint}[r.Intn(3)]
		}
		m.Paint = p.paint
		prev := m.Opt.Cfg
		m.Opt.Cfg = func(cfg *rl.Config) {
			if prev != nil {
				prev(cfg)
			}
			if r.Intn(2) == 0 {
				cfg.Painter = p
			} else {
				cfg.SetPainter(p)
			}
		}
	}
	reads := 0
	m.Read = func(n int) (string, error) {
		m.mu.Lock()
		if m.starts != reads && !m.failed {
			m.fail("listener-start", "the listener was told %d times that a read starts, after %d reads", m.starts, reads)
		}
		reads++
		m.mu.Unlock()
		return m.Session.Inst.Readline()
	}
	m.redrawing(r)
	m.Before = func(i int, k rune) {
		if m.starts != reads {
			m.fail("listener-start", "the listener was told %d times that a read starts, in read %d", m.starts, reads)
		}
		if p != nil && !m.M.InSearch {
			p.mu.Lock()
			defer p.mu.Unlock()
			if p.calls > 0 && (string(p.line) != string(m.M.Buf) || p.pos != m.M.Pos) {
				m.fail("painter", "the painter was last given %q and %d; the line is %q with the cursor at %d", string(p.line), p.pos, string(m.M.Buf), m.M.Pos)
			}
			c.Count("paintings_compared", 1)
		}
	}
	m.Run()
	for _, l := range lines {
		if string(l.given) != string(l.want) {
			m.fail("listener-line", "the listener's own line %q was changed to %q", string(l.want), string(l.given))
			break
		}
	}
	c.Count("screens_compared", m.Screens)
	c.Count("listened", m.listens)
	c.Sample("width %d: %s", m.Opt.Width, KeyNames(m.Keys, -1))
}

func init() {
	h.Register(&h.Prop{
		ID:    "C20",
		Rule:  "Random scripts of 10 to 130 keys of editing, history, search, completion and vim, with a filter that rejects and translates keys (to line ends, interrupts and mode changes too), a listener that rewrites the line and cursor, and a painter that recolors and replaces characters in place; every call of the three, the line, the results and the screen are compared with the model. Non-trivial is a distinct (translation, rejection or rewriting, line, cursor, mode).",
		Count: "situations",
		Min:   map[string]int64{"filtered": 200000, "translated": 10000, "rejected": 10000, "rewritten": 10000, "paintings_compared": 100000, "screens_compared": 200000, "listened": 200000, "situations": 20000},
		Cases: tiers(12000, 200000),
		Run:   c20,
	})
}
