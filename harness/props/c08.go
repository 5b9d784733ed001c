package props

import (
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

// program is what a program does to the history between two keys or reads.
func (m *ModelRun) program(r randSrc, s *sess.Sess, between bool) {
	switch n := r.Intn(12); {
	case n < 6:
		t := []rune{}
		for k := r.Intn(6); k > 0; k-- {
			t = append(t, Pick(r, []Choice{Text(1, "ab字 ")}))
		}
		if es := m.M.H.Entries; r.Intn(4) == 0 && len(es) > 0 {
			t = es[r.Intn(len(es))]
		}
		m.C.Count("program_saves", 1)
		if err := s.Inst.SaveHistory(string(t)); err != nil {
			m.fail("save", "SaveHistory(%q) failed: %v", string(t), err)
		}
		if !m.M.H.Off {
			m.M.H.Commit(t)
		}
	case n < 8:
		m.C.Count("switched", 1)
		s.Inst.HistoryDisable()
		m.M.H.Off = true
	case n < 11:
		s.Inst.HistoryEnable()
		m.M.H.Off = false
	default:
		m.C.Count("resets", 1)
		s.Inst.ResetHistory()
		m.M.H.Reset()
	}
}

func init() {
	h.Register(&h.Prop{
		ID:    "C08",
		Rule:  "Random scripts of 20 to 220 keys of typing, recalling, editing and submitting, with limits of -1, 1 to 6 and 500, saving on and off, and saves, resets and switches by the program between reads and from the listener; every line is compared with a reference history after each key. Non-trivial is a distinct (entries, position, pending line) recalled from.",
		Count: "recalls",
		Min:   map[string]int64{"recall_keys": 100000, "edited_recalls": 20000, "program_saves": 10000, "resets": 1000, "recalls": 30000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 200000
			}
			return 10000
		},
		Run: func(c *h.Ctx) {
			r := c.R
			m := &ModelRun{C: c, M: model.NewSession([]int{500, 500, 1 + r.Intn(6), 1 + r.Intn(3), -1}[r.Intn(5)]), Prompt: "> "}
			m.Opt.Width, m.Opt.Discard = 80, true
			m.M.AutoSave = r.Intn(5) != 0
			alpha := []string{"ab", "abc ", "é字 x"}[r.Intn(3)]
			cs := append([]Choice{
				Text(10+r.Intn(40), alpha),
				K(10+r.Intn(60), model.KeyPrev),
				K(10+r.Intn(40), model.KeyNext),
				K(5+r.Intn(30), model.KeyEnter, model.KeyCtrlJ),
				K(r.Intn(6), model.KeyCtrlU, model.KeyKill, model.KeyCtrlW, model.KeyCtrlY),
				K(r.Intn(6), model.KeyBackspace, model.KeyTranspose, model.KeyBackward, model.KeyLineStart),
				K(r.Intn(4), model.KeyInterrupt, model.KeyDelete),
				K(r.Intn(4)*r.Intn(2), model.KeyBck, model.KeyFwd),
			}, editKeys(r)[r.Intn(10)])
			if c.Idx%3 == 0 { // jumps by search, and changes in place that are given up
				cs = append(cs, K(12, model.KeyBck, model.KeyFwd), K(10, model.KeyTranspose, model.KeyLineStart, model.KeyDelete),
					K(8, model.KeyInterrupt), K(20, model.KeyPrev, model.KeyNext))
			}
			m.Keys = genKeys(r, cs, 20+r.Intn(200), false)
			if r.Intn(4) == 0 {
				m.Chunks = chunked(r, m.Keys)
			}
			prog := r.Intn(3)
			edited := false
			m.Between = func(int, sess.Result) {
				if prog > 0 && r.Intn(3) == 0 || !m.M.AutoSave && r.Intn(2) == 0 {
					m.program(r, m.Session, true)
				}
			}
			m.InListener = func(k rune) {
				if prog == 2 && r.Intn(12) == 0 && !m.M.InSearch {
					m.program(r, m.Session, false)
					m.M.H.Edited(m.M.Buf)
				}
			}
			m.Before = func(i int, k rune) {
				if k == model.KeyPrev || k == model.KeyNext {
					c.Count("recall_keys", 1)
					if edited {
						c.Count("edited_recalls", 1)
					}
					c.Seen("recalls", fmtEntries(m.M.H.Entries), m.M.H.Pos, string(m.M.Buf))
					edited = false
				} else {
					edited = true
				}
			}
			m.Run()
			c.Sample("limit %d autosave %v: %s", m.M.H.Limit, m.M.AutoSave, KeyNames(m.Keys, -1))
		},
	})
}
