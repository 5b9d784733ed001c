package props

import (
	"verif.local/harness/h"
	"verif.local/harness/model"
)

func init() {
	h.Register(&h.Prop{
		ID:    "C07",
		Rule:  "Random scripts of 10 to 140 keys dense in Ctrl-C and Ctrl-D in editing, history, search, completion and vim modes, with all mark and erase configurations; results, history and screen are compared with the model. Non-trivial is a distinct (key, mode, line, cursor, history position) at which Ctrl-C or Ctrl-D arrived.",
		Count: "situations",
		Min: map[string]int64{"interrupts": 30000, "eof_or_delete": 30000, "in_search": 5000, "in_completion": 5000, "in_vim_normal": 2000,
			"screens_compared": 200000, "situations": 20000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 200000
			}
			return 12000
		},
		Run: func(c *h.Ctx) {
			r := c.R
			m := &ModelRun{C: c, M: model.NewSession(500), Prompt: prompts[r.Intn(len(prompts))], CheckScreen: true}
			m.Opt.Width = pickWidth(r)
			m.Unique = r.Intn(4) == 0
			m.Intr = []string{"", "\n", "^Interrupted", "中断"}[r.Intn(4)]
			m.EOFP = []string{"", "\n", "exit", "終"}[r.Intn(4)]
			var cs []Choice
			switch r.Intn(5) {
			case 0:
				cs = histKeys(r)
			case 1, 2:
				cs = searchKeys(r)
			case 3:
				m.Opt.Width = 4 + r.Intn(80)
				m.withCompleter(r, false)
				cs = append(completeKeys(r), K(10, model.KeyEnter))
				cs[3].W, cs[4].W = 0, 0
			case 4:
				cs, m.M.Vim = vimKeys(r), true
			}
			cs = append(cs, K(10+r.Intn(40), model.KeyInterrupt), K(10+r.Intn(40), model.KeyDelete), K(r.Intn(20), model.KeyBackspace))
			m.Keys = genKeys(r, cs, 10+r.Intn(131), m.M.Vim)
			if r.Intn(4) == 0 {
				m.Chunks = chunked(r, m.Keys)
			}
			m.Before = func(i int, k rune) {
				if k == model.KeyInterrupt {
					c.Count("interrupts", 1)
				} else if k == model.KeyDelete {
					c.Count("eof_or_delete", 1)
				} else {
					return
				}
				if m.M.InSearch {
					c.Count("in_search", 1)
				}
				if m.M.C.Listed {
					c.Count("in_completion", 1)
				}
				if m.M.VimNormal {
					c.Count("in_vim_normal", 1)
				}
				c.Seen("situations", k, string(m.M.Buf), m.M.Pos, m.M.H.Pos, m.M.InSearch, m.M.C.Listed, m.M.C.Select, m.M.VimNormal)
			}
			m.Run()
			c.Count("screens_compared", m.Screens)
			c.Sample("%s", KeyNames(m.Keys, -1))
		},
	})
}
