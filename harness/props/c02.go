package props

import (
	"math/rand"

	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

func vimKeys(r *rand.Rand) []Choice {
	return []Choice{
		Text(30+r.Intn(60), alphabets[r.Intn(len(alphabets))]),
		K(5+r.Intn(20), model.KeyEsc),
		K(10+r.Intn(60), []rune("hjklbBwWeE0^$")...),
		K(5+r.Intn(30), []rune("xpdcriIaAsSfFtT")...),
		K(r.Intn(6), model.KeyEnter),
		K(r.Intn(2), model.KeyInterrupt, model.KeyCtrlJ, model.KeyDelete),
		K(r.Intn(5), model.KeyBackspace, model.KeyCtrlW, model.KeyCtrlY),
		K(r.Intn(5), model.KeyPrev, model.KeyNext),
		K(r.Intn(3), model.KeyBck, model.KeyFwd),
		K(r.Intn(2), []rune{'z', 'q', 'D', '5', 0x1d, model.KeyTab, model.KeyBck, model.KeyCtrlL}...),
	}
}

var vimCommands = []string{
	"h", "l", "0", "^", "$", "b", "B", "w", "W", "e", "E", "j", "k",
	"fa", "Fa", "ta", "Ta", "f\x1b", "f ", "T ", "f\t", "T\t",
	"x", "rZ", "r字", "r\t", "p", "dd", "dw", "dh", "dl", "d$",
	"i", "I", "a", "A", "s", "S", "cc", "cw", "ch", "cl", "cx",
	"\x1b", "z", "\x15", "\x17", "\x19", "\x10", "\x0e", "\x14",
}

var vimStarts = []string{
	"\x1b",
	"a\x1b",
	"ab cad  ba\x1b",
	"ab cad  ba\x1b0",
	"ab cad  ba\x1b0w",
	"ab cad  ba\x1b0ww",
	"a-b,字 é\x1bhh",
	" a \x1b0",
	"first\rsecond a b\x1bb",
	"\ta\tb \t\x1bhh",
}

func vimText(s string) []sess.Key {
	var ks []sess.Key
	for _, r := range s {
		ks = append(ks, sess.Key{Bytes: string(r), R: r})
	}
	return ks
}

func init() {
	n := len(vimCommands)
	grid := len(vimStarts) * n
	h.Register(&h.Prop{
		ID:    "C02",
		Rule:  "The first cases run every pair (thorough: triple) of 51 vi commands from 10 starting lines and cursors, the others random scripts of 5 to 140 keys in vim mode; non-trivial is a distinct (mode, line, cursor, cut text, key) the editor was seen in.",
		Count: "transitions",
		Min:   map[string]int64{"keys": 200000, "transitions": 20000, "normal_mode_keys": 50000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return grid*n + 150000
			}
			return grid + 9000
		},
		Run: func(c *h.Ctx) {
			r := c.R
			m := &ModelRun{C: c, M: model.NewSession(500), Opt: sess.Opt{Width: 80, Discard: true}, Prompt: "> "}
			m.M.Vim = true
			normal := 0
			m.Before = func(int, rune) {
				if m.M.VimNormal {
					normal++
				}
			}
			g := grid
			if c.Tier == "thorough" {
				g = grid * n
			}
			if c.Idx < g {
				third := []string{""}
				i := c.Idx
				if c.Tier == "thorough" {
					third = vimCommands[i%n : i%n+1]
					i /= n
				}
				for _, x := range vimCommands {
					for _, y := range third {
						m.Keys = append(m.Keys, vimText(vimStarts[i/n]+vimCommands[i%n]+x+y)...)
						m.Keys = append(m.Keys, vimText("\x1bi!\r")...) // shows the mode and the cursor
					}
				}
			} else {
				m.Keys = genKeys(r, vimKeys(r), 5+r.Intn(136), true)
				if r.Intn(3) == 0 { // unusual arguments
					for i := 1; i < len(m.Keys); i++ {
						switch m.Keys[i-1].R {
						case 'f', 'F', 't', 'T', 'r', 'd', 'c':
							if r.Intn(6) == 0 {
								m.Keys[i] = vimText([]string{"\t", "\x1b", "\r", "\n", "\x03", "\x04", "\x7f", "\x07", "\x12", "字"}[r.Intn(10)])[0]
							}
						}
					}
				}
				if r.Intn(3) == 0 {
					m.Chunks = chunked(r, m.Keys)
				}
				if r.Intn(3) == 0 {
					m.CheckScreen, m.Opt.Discard = true, false
					m.Opt.Width = []int{80, 2 + r.Intn(40)}[r.Intn(2)]
				}
				if r.Intn(8) == 0 { // the input ends in the middle of a command
					m.Keys = append(m.Keys, vimText([]string{"\x1b", "\x1bh", "\x1b0"}[r.Intn(3)]+[]string{"r", "d", "c", "f", "T", "x"}[r.Intn(6)])...)
					m.NoSentinel, m.Chunks = true, nil
					c.Count("unfinished_commands", 1)
				}
				c.Sample("%s", KeyNames(m.Keys, -1))
			}
			m.Run()
			c.Count("normal_mode_keys", normal)
			c.Count("screens", m.Screens)
		},
	})
}
