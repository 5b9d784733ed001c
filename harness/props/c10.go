package props

import (
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

func init() {
	h.Register(&h.Prop{
		ID:    "C10",
		Rule:  "Histories of 0 to 12 lines over small alphabets, then random scripts of search, pattern, cancel and editing keys with and without case folding; line, cursor and the screen with the search line are compared after every key. Non-trivial is a distinct (pattern, direction, line, position in the history) searched.",
		Count: "searches",
		Min:   map[string]int64{"search_keys": 100000, "matches": 30000, "failing": 10000, "searches": 30000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 250000
			}
			return 15000
		},
		Run: func(c *h.Ctx) {
			r := c.R
			m := &ModelRun{C: c, M: model.NewSession([]int{500, 500, 1 + r.Intn(6)}[r.Intn(3)]), Prompt: prompts[r.Intn(len(prompts))]}
			m.M.H.Fold = r.Intn(2) == 0
			m.Opt.Width = []int{80, 80, 3 + r.Intn(60)}[r.Intn(3)]
			m.CheckScreen = r.Intn(2) == 0
			m.Opt.Discard = !m.CheckScreen
			m.Underline = true
			alpha := []string{"ab", "aAbB", "abc ", "éaÉ字", "xXyY z"}[r.Intn(5)]
			for n := r.Intn(13); n > 0; n-- {
				for k := r.Intn(12); k > 0; k-- {
					m.Keys = append(m.Keys, sess.Encode(Pick(r, []Choice{Text(1, alpha)}), r, false))
				}
				m.Keys = append(m.Keys, sess.Encode(model.KeyEnter, r, false))
			}
			var cs []Choice
			if k := r.Intn(5); k == 0 {
				cs = append(searchKeys(r), Text(60, alpha))
			} else if k == 1 { // recalled lines that are left, come back to, edited and given up
				cs = []Choice{
					Text(5+r.Intn(10), alpha),
					K(10+r.Intn(20), model.KeyPrev), K(r.Intn(10), model.KeyNext),
					K(10+r.Intn(10), model.KeyBck), K(r.Intn(8), model.KeyFwd),
					K(10+r.Intn(10), model.KeyBell), K(r.Intn(4), model.KeyInterrupt),
					K(5, model.KeyLineStart), K(5, model.KeyBackward), K(r.Intn(3), model.KeyLineEnd),
					K(r.Intn(10), model.KeyTranspose), K(r.Intn(10), model.KeyDelete), K(5, model.KeyBackspace), K(r.Intn(5), model.KeyCtrlW),
					K(3+r.Intn(6), model.KeyEnter),
				}
			} else {
				cs = []Choice{
					Text(20+r.Intn(40), alpha),
					K(20+r.Intn(40), model.KeyBck),
					K(r.Intn(40), model.KeyFwd),
					K(r.Intn(12), model.KeyBackspace, model.KeyCtrlH),
					K(r.Intn(8), model.KeyBell, model.KeyInterrupt),
					K(r.Intn(6), model.KeyEnter, model.KeyCtrlJ),
					K(r.Intn(8), model.KeyLineStart, model.KeyLineEnd, model.KeyBackward, model.KeyForward),
					K(r.Intn(4), model.KeyPrev, model.KeyNext),
					K(r.Intn(3), model.KeyCtrlW, model.KeyCtrlY, model.KeyKill, model.KeyDelete),
				}
			}
			m.Keys = append(m.Keys, genKeys(r, cs, 5+r.Intn(96), false)...)
			if r.Intn(4) == 0 {
				m.Chunks = chunked(r, m.Keys)
			}
			m.redrawing(r)
			m.Before = func(i int, k rune) {
				if m.M.InSearch {
					c.Count("search_keys", 1)
					if m.M.Failing {
						c.Count("failing", 1)
					}
					c.Seen("searches", string(m.M.Pat), m.M.SearchFw, string(m.M.Buf), m.M.H.Pos, m.M.Pos)
				}
			}
			m.Run()
			c.Count("matches", m.M.Match)
			c.Count("screens_compared", m.Screens)
			c.Sample("fold %v: %s", m.M.H.Fold, KeyNames(m.Keys, -1))
		},
	})
}
