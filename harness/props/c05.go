package props

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
	"verif.local/harness/vt"
)

// tapped is an underlying writer that records the writes holding a marked text, and answers them
// as the script says.
type tapped struct {
	vt  *vt.Term
	log *writeLog
}

type writeLog struct {
	mu     sync.Mutex
	writes []string
	answer map[string]answer
}

type answer struct {
	n   int
	err error
}

const textMark = "⟦"

func (t *tapped) Write(b []byte) (int, error) {
	s := string(b)
	n, err := len(b), error(nil)
	if strings.Contains(s, textMark) {
		t.log.mu.Lock()
		t.log.writes = append(t.log.writes, s)
		if a, ok := t.log.answer[s]; ok {
			n, err = a.n, a.err
		}
		t.log.mu.Unlock()
	}
	t.vt.Write(b)
	return n, err
}

var errTapped = errors.New("the output failed")

var c05Runes = []rune("abcdef ghij-字é")

// c05Text makes a text of whole lines that starts with its number.
func c05Text(r randSrc, g, i int) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s%d.%d]", textMark, g, i)
	for k := r.Intn(4) * r.Intn(40); k > 0; k-- {
		sb.WriteRune(c05Runes[r.Intn(len(c05Runes))])
	}
	sb.WriteString(".")
	for k := r.Intn(3) * r.Intn(3); k > 0; k-- {
		fmt.Fprintf(&sb, "\n  more %d.", k)
	}
	return sb.String() + "\n"
}

func rowsOf(width int, text string) []string {
	var out []string
	for _, l := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		lay := sess.LayOut(width, nil, []rune(l), 0)
		rows := lay.Rows
		if lay.EndRow > 0 && lay.EndCol == 0 {
			rows = rows[:len(rows)-1]
		}
		out = append(out, rows...)
	}
	return out
}

func c05(c *h.Ctx) {
	r := c.R
	m := &ModelRun{C: c, M: model.NewSession(500), Prompt: prompts[r.Intn(len(prompts))]}
	m.Opt.Width = 12 + r.Intn(70)
	var cs []Choice
	switch kind := r.Intn(6); kind {
	case 0, 1:
		cs = histKeys(r)
	case 2, 3:
		cs = searchKeys(r)
	case 4:
		m.withCompleter(r, false)
		cs = completeKeys(r)
		cs[3].W, cs[4].W = 0, 0
	case 5:
		cs, m.M.Vim = vimKeys(r), true
	}
	cs = append([]Choice{}, cs...)
	for i := range cs { // clearing the screen would remove the texts
		f := cs[i].F
		cs[i].F = func(r *rand.Rand) rune {
			k := f(r)
			if k == model.KeyCtrlL {
				return 'l'
			}
			return k
		}
	}
	m.Keys = genKeys(r, cs, 4+r.Intn(60), m.M.Vim)
	if m.M.Vim {
		m.Keys = append(m.Keys, sess.Key{Bytes: "z", R: 'z'}) // ends an unfinished command
	}
	for i := 0; i < 2; i++ { // leave every mode
		m.Keys = append(m.Keys, sess.Key{Bytes: "\a", R: model.KeyBell})
	}
	if r.Intn(3) == 0 {
		m.Chunks = chunked(r, m.Keys)
	}
	m.Unique = r.Intn(5) == 0
	m.Intr = []string{"", "\n", "^Interrupted"}[r.Intn(3)]
	if r.Intn(6) == 0 && !m.M.Vim {
		m.Masked, m.Mask = true, '*'
		m.M.NoSearch = true
	}
	paint := r.Intn(6) == 0
	lg := &writeLog{answer: map[string]answer{}}
	prev := m.Opt.Cfg
	m.Opt.Cfg = func(cfg *rl.Config) {
		t := cfg.Stdout.(*vt.Term)
		cfg.Stdout, cfg.Stderr = &tapped{t, lg}, &tapped{t, lg}
		if paint {
			cfg.Painter = colorPainter{}
		}
		if prev != nil {
			prev(cfg)
		}
	}

	// who writes what, and after how many keys
	type piece struct {
		text string
		at   int64
		via  int
		want answer
	}
	nw := 1 + r.Intn(4)
	seqs := make([][]piece, nw+1)
	mk := func(g, i int) piece {
		p := piece{text: c05Text(r, g, i), via: r.Intn(3)}
		p.want = answer{len(p.text), nil}
		if r.Intn(8) == 0 {
			p.want = answer{r.Intn(len(p.text)), errTapped}
			lg.mu.Lock()
			lg.answer[p.text] = p.want
			lg.mu.Unlock()
		}
		return p
	}
	for g := 0; g < nw; g++ {
		at := int64(0)
		for i := 1 + r.Intn(12); i > 0; i-- {
			p := mk(g, len(seqs[g]))
			at += int64(r.Intn(1 + len(m.Keys)/4))
			if at > int64(len(m.Keys)) {
				at = int64(len(m.Keys))
			}
			p.at = at
			seqs[g] = append(seqs[g], p)
		}
	}
	bad := make(chan string, 100)
	write := func(p piece) {
		var w io.Writer
		switch p.via {
		case 0:
			w = m.Session.Inst.Stdout()
		case 1:
			w = m.Session.Inst.Stderr()
		case 2:
			w = m.Session.Inst
		}
		b := []byte(p.text)
		n, err := w.Write(b)
		if n != p.want.n || err != p.want.err {
			select {
			case bad <- fmt.Sprintf("writing %q returned %d, %v; the underlying writer returned %d, %v", p.text, n, err, p.want.n, p.want.err):
			default:
			}
		}
		if string(b) != p.text {
			bad <- fmt.Sprintf("the caller's %q was changed to %q", p.text, b)
		}
		h.Progress()
	}
	// the goroutine that reads, and the editor's own callback, write too
	main := nw
	if r.Intn(3) == 0 {
		m.Between = func(int, sess.Result) {
			if r.Intn(2) == 0 {
				p := mk(main, len(seqs[main]))
				seqs[main] = append(seqs[main], p)
				m.mu.Unlock() // as a program would
				write(p)
				// every text is a line of its own, and no line is being edited
				if sn := m.Session.VT.Snap(); sn.Col != 0 || sn.Row < len(sn.Rows) {
					bad <- fmt.Sprintf("after %q was written between two reads, the cursor is in column %d of row %d of\n  %s", p.text, sn.Col, sn.Row, strings.Join(sn.Rows, "|\n  "))
				}
				c.Count("between_reads", 1)
				m.mu.Lock()
			}
		}
	}
	cb := nw + 1
	seqs = append(seqs, nil)
	if r.Intn(4) == 0 {
		every := 1 + r.Intn(6)
		n := 0
		m.InListener = func(rune) {
			if n++; n%every == 0 {
				p := piece{text: fmt.Sprintf("%s%d.%d] from the listener\n", textMark, cb, len(seqs[cb])), via: n % 3}
				p.want = answer{len(p.text), nil}
				seqs[cb] = append(seqs[cb], p)
				write(p)
			}
		}
	}
	over := int32(0)
	var wg sync.WaitGroup
	start := func() {
		for g := 0; g < nw; g++ {
			wg.Add(1)
			go func(seq []piece) {
				defer wg.Done()
				for _, p := range seq {
					for i := 0; atomic.LoadInt64(&m.seen) < p.at && atomic.LoadInt32(&over) == 0; i++ {
						if i < 50 {
							runtime.Gosched()
						} else {
							time.Sleep(10 * time.Microsecond)
						}
					}
					write(p)
				}
			}(seqs[g])
		}
	}
	ended := false
	m.AtEnd = func() {
		atomic.StoreInt32(&over, 1)
		wg.Wait() // all of it was written
		ended = !m.control
		m.Steps = max1(m.Steps)
		m.checkMixed(lg)
	}
	m.Started = start
	m.Run()
	atomic.StoreInt32(&over, 1)
	wg.Wait()

	lg.mu.Lock()
	defer lg.mu.Unlock()
	next := make([]int, len(seqs))
	for _, w := range lg.writes {
		var g, i int
		if n, _ := fmt.Sscanf(w, textMark+"%d.%d]", &g, &i); n != 2 || g < 0 || g >= len(seqs) {
			c.Fail("pieces", "the underlying writer got %q", w)
			return
		}
		if i != next[g] || i >= len(seqs[g]) {
			c.Fail("order", "text %d of writer %d was written when %d was due; %q", i, g, next[g], lg.writes)
			return
		}
		if seqs[g][i].text != w {
			c.Fail("pieces", "text %q was written as %q", seqs[g][i].text, w)
			return
		}
		next[g]++
	}
	for g := range seqs {
		if next[g] != len(seqs[g]) {
			c.Fail("lost", "%d of %d texts of writer %d reached the underlying writer", next[g], len(seqs[g]), g)
			return
		}
		c.Count("texts", next[g])
	}
	select {
	case s := <-bad:
		c.Fail("returned", "%s", s)
	default:
	}
	if ended {
		c.Count("final_screens", 1)
	}
	c.Seen("texts_in_order", strings.Join(lg.writes, ""), m.Opt.Width, KeyNames(m.Keys, -1))
	c.Sample("width %d, %d writers, %d texts: %s", m.Opt.Width, nw, len(lg.writes), KeyNames(m.Keys, -1))
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

// checkMixed compares the screen with the texts written and the lines submitted, in some merge of
// the two orders, and the prompt and the line below.
func (m *ModelRun) checkMixed(lg *writeLog) {
	if m.failed {
		return
	}
	if m.control {
		return
	}
	lg.mu.Lock()
	defer lg.mu.Unlock()
	rows := m.Session.VT.Snap().Rows
	var above []string
	sub := m.trans
	texts := lg.writes
	at := func(rs []string) bool {
		if len(above)+len(rs) > len(rows) {
			return false
		}
		return strings.Join(rows[len(above):len(above)+len(rs)], "\n") == strings.Join(rs, "\n")
	}
	for len(sub) > 0 || len(texts) > 0 {
		if len(texts) > 0 {
			if t := rowsOf(m.Opt.Width, texts[0]); at(t) {
				above = append(above, t...)
				texts = texts[1:]
				continue
			}
		}
		if len(sub) > 0 && (at(sub[:1]) || len(above) >= len(rows) && sub[0] == "") {
			above = append(above, sub[0])
			sub = sub[1:]
			continue
		}
		m.fail("garbled", "from row %d on, the screen shows neither the next text %.300q nor the next submitted row %.200q\n  %s", len(above), firstOf(texts), firstOf(sub),
			strings.Join(rows, "|\n  "))
		return
	}
	m.Screens++
	CheckScreen(m.fail, m.Session, above, m.Opt.Width, []rune(m.Prompt), m.shown(m.M.Buf), m.M.Pos)
}

func firstOf(s []string) string {
	if len(s) == 0 {
		return ""
	}
	return s[0]
}

func init() {
	h.Register(&h.Prop{
		ID:    "C05",
		Rule:  "One to four goroutines writing 1 to 12 numbered texts each (1 to 5 lines, some with a scripted partial write and error) spread over scripts of 4 to 60 keys of editing, history, search, completion and vim, plus texts from the reading goroutine and the listener; recorded writes, results, line and cursor after every key, and the final screen are checked. Non-trivial is a distinct order of texts and keys.",
		Count: "texts_in_order",
		Min:   map[string]int64{"texts": 50000, "final_screens": 2000, "texts_in_order": 3000, "between_reads": 500, "directed_stops": 200, "switch_pairs": 5000},
		Builds: []h.Build{
			{Name: "", Cases: tiers(5000, 120000)},
			{Name: "race", Race: true, Cases: tiers(800, 20000)},
			{Name: "instr", Instr: true, Cases: tiers(1600, 50000)},
		},
		Run: func(c *h.Ctx) { perturbed(c, func() { c05(c) }) },
	})
}
