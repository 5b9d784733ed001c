package props

import (
	"math/rand"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

var alphabets = []string{
	"abc xyz019",
	"ab ",
	"hello world-foo.bar_baz  ",
	"aé你好ß ñ-Ω字",
	"a b,c;d(e)f/g  ",
	"你好世界 カナ漢字",
}

func editKeys(r *rand.Rand) []Choice {
	cs := []Choice{
		Text(30+r.Intn(60), alphabets[r.Intn(len(alphabets))]),
		K(r.Intn(12), model.KeyLineStart),
		K(r.Intn(12), model.KeyLineEnd),
		K(5+r.Intn(25), model.KeyBackward),
		K(r.Intn(25), model.KeyForward),
		K(r.Intn(12), model.KeyMetaB),
		K(r.Intn(12), model.KeyMetaF),
		K(r.Intn(6), model.KeyMetaD),
		K(r.Intn(6), model.KeyKill),
		K(r.Intn(6), model.KeyCtrlU),
		K(r.Intn(8), model.KeyCtrlW, model.KeyMetaBS),
		K(r.Intn(12), model.KeyCtrlY),
		K(r.Intn(12), model.KeyTranspose),
		K(r.Intn(15), model.KeyBackspace, model.KeyCtrlH),
		K(r.Intn(10), model.KeyDelete),
		K(r.Intn(3), model.KeyTab),
		K(r.Intn(2), model.KeyBell),
		K(r.Intn(2), model.KeyCtrlL),
		K(r.Intn(2), model.KeyMetaT),
		K(r.Intn(4), model.KeyEnter, model.KeyCtrlJ),
		K(r.Intn(2), model.KeyInterrupt),
	}
	return cs
}

func genKeys(r *rand.Rand, cs []Choice, n int, vim bool) []sess.Key {
	ks := make([]sess.Key, 0, n)
	for i := 0; i < n; i++ {
		ks = append(ks, sess.Encode(Pick(r, cs), r, vim))
	}
	return ks
}

// chunked splits the bytes of keys at random.
func chunked(r *rand.Rand, ks []sess.Key) [][]byte {
	b := []byte(sess.Bytes(ks))
	max := 1 + r.Intn(1+r.Intn(200))
	var out [][]byte
	for len(b) > 0 {
		n := 1 + r.Intn(max)
		if n > len(b) {
			n = len(b)
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

var editCommands = []rune{
	'a', ' ', '-', 'é', '字', model.KeyTab,
	model.KeyLineStart, model.KeyLineEnd, model.KeyBackward, model.KeyForward, model.KeyMetaB, model.KeyMetaF,
	model.KeyBackspace, model.KeyCtrlH, model.KeyDelete, model.KeyMetaD, model.KeyKill, model.KeyCtrlU,
	model.KeyCtrlW, model.KeyMetaBS, model.KeyCtrlY, model.KeyTranspose, model.KeyCtrlL, model.KeyMetaT,
}

var editStarts = []string{
	"",
	"x",
	"ab cd",
	"ab cd\x01",
	"foo-bar  b\x1bb\x02",
	"é字 a\x02\x02",
	"ab cd\x15\x19\x19\x02\x02\x02",
}

func textKeys(s string, r *rand.Rand) []sess.Key {
	var ks []sess.Key
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		k := rs[i]
		if k == 0x1b && i+1 < len(rs) {
			i++
			k = map[rune]rune{'b': model.KeyMetaB, 'f': model.KeyMetaF, 'd': model.KeyMetaD}[rs[i]]
		}
		ks = append(ks, sess.Encode(k, r, false))
	}
	return ks
}

func init() {
	n := len(editCommands)
	grid := len(editStarts) * n * n
	h.Register(&h.Prop{
		ID:    "C01",
		Rule:  "The first cases run every triple (thorough: quadruple) of 24 editing commands from 7 starting lines, the others random scripts of 5 to 140 keys in random encodings, chunkings and widths; non-trivial is a distinct (line, cursor, cut text, key) the editor was seen in.",
		Count: "transitions",
		Min:   map[string]int64{"keys": 200000, "transitions": 20000, "reads": 50000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return grid + 150000
			}
			return grid + 8000
		},
		Run: func(c *h.Ctx) {
			r := c.R
			m := &ModelRun{C: c, M: model.NewSession(500), Opt: sess.Opt{Width: 80, Discard: true}, Prompt: "> "}
			if c.Idx < grid {
				st, a, b := editStarts[c.Idx/(n*n)], editCommands[c.Idx/n%n], editCommands[c.Idx%n]
				for _, x := range editCommands {
					last := []rune{0}
					if c.Tier == "thorough" {
						last = editCommands
					}
					for _, y := range last {
						m.Keys = append(m.Keys, textKeys(st, r)...)
						for _, k := range []rune{a, b, x, y} {
							if k != 0 {
								m.Keys = append(m.Keys, sess.Encode(k, r, false))
							}
						}
						// A Ctrl-D on an empty line ends the read by itself.
						m.Keys = append(m.Keys, sess.Encode(model.KeyEnter, r, false))
					}
				}
				m.Run()
				return
			}
			m.Keys = genKeys(r, editKeys(r), 5+r.Intn(136), false)
			if r.Intn(2) == 0 {
				m.Chunks = chunked(r, m.Keys)
			}
			m.Unique = r.Intn(4) == 0
			m.Opt.Width = []int{80, 80, 20, 1 + r.Intn(30)}[r.Intn(4)]
			if r.Intn(4) == 0 {
				m.Opt.Cfg = func(cfg *rl.Config) { cfg.FuncIsTerminal = func() bool { return false } }
			}
			m.Run()
			c.Sample("%s", KeyNames(m.Keys, -1))
		},
	})
}
