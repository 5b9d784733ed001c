package props

import (
	"fmt"
	"strings"
	"sync"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

type enc struct {
	b    string
	keys []rune
}

// emacsEnc lists complete byte sequences and the keys they stand for outside vim mode.
func emacsEnc() []enc {
	var l []enc
	add := func(keys []rune, bs ...string) {
		for _, b := range bs {
			l = append(l, enc{b, keys})
		}
	}
	one := func(r rune, bs ...string) { add([]rune{r}, bs...) }
	one(model.KeyPrev, "\x1b[A", "\x1bOA")
	one(model.KeyNext, "\x1b[B", "\x1bOB")
	one(model.KeyForward, "\x1b[C", "\x1bOC")
	one(model.KeyBackward, "\x1b[D", "\x1bOD")
	one(model.KeyLineStart, "\x1b[H", "\x1bOH")
	one(model.KeyLineEnd, "\x1b[F", "\x1bOF")
	one(model.KeyDelete, "\x1b[3~", "\x04")
	one(model.KeyMetaB, "\x1bb", "\x1b\x1bb")
	one(model.KeyMetaF, "\x1bf")
	one(model.KeyMetaD, "\x1bd")
	one(model.KeyMetaBS, "\x1b\x7f")
	one(model.KeyMetaT, "\x1b\x14")
	for _, r := range "aZ~[O;1R é§ßя世界字😀\u0301\ufffd" {
		one(r, string(r))
	}
	for r := rune(1); r < 32; r++ {
		if r != 27 {
			one(r, string(r))
		}
	}
	one(127, "\x7f")
	one('x', "\x1bx")
	one('世', "\x1b世")
	one('\r', "\x1b\r")
	// nothing at all: NUL, function keys, reports
	add(nil, "\x00", "\x1b[5~", "\x1b[6~", "\x1b[2~", "\x1b[15~", "\x1b[24~", "\x1b[200~", "\x1b[201~", "\x1b[Z", "\x1bOP", "\x1bOS", "\x1b[1;2P",
		"\x1b[12;40R", "\x1b[1;1R", "\x1b[E", "\x1b[I", "\x1b[3;5~")
	// every byte that is no part of a character counts as one replacement character
	one(0xfffd, "\xff", "\xc0")
	return l
}

// decodeRun feeds chunks and returns the keys the filter saw.
func decodeRun(c *h.Ctx, vim bool, chunks [][]byte, nwant int) []rune {
	var mu sync.Mutex
	var got []rune
	s, err := sess.New(sess.Opt{Width: 80, Discard: true, NoFilter: true, Cfg: func(cfg *rl.Config) {
		cfg.VimMode = vim
		cfg.HistoryLimit = -1
		cfg.FuncIsTerminal = func() bool { return false }
		cfg.FuncFilterInputRune = func(r rune) (rune, bool) {
			mu.Lock()
			got = append(got, r)
			mu.Unlock()
			return r, false
		}
	}})
	if err != nil {
		c.Fail("setup", "NewEx: %v", err)
		return nil
	}
	interrupted(c.R, s.In)
	if c.Idx%5 == 1 && len(chunks) < 400 {
		// each piece only after the one before was read and processed
		go func() {
			for _, ch := range chunks {
				s.In.Feed(ch)
				s.In.WaitIdle()
			}
			s.In.EOF()
		}()
		c.Count("paced_pieces", len(chunks))
	} else {
		s.In.Feed(chunks...)
		s.In.EOF()
	}
	line, err := s.Inst.Readline()
	if line != "" || err == nil {
		c.Fail("rejected", "a read returned %q, %v although every key was rejected", line, err)
	}
	s.Close()
	c.Count("interrupted", s.In.Interrupts())
	mu.Lock()
	defer mu.Unlock()
	c.Count("keys", len(got))
	return got
}

func c22Compare(c *h.Ctx, vim bool, chunks [][]byte, want []rune) {
	got := decodeRun(c, vim, chunks, len(want))
	if string(got) != string(want) || fmt.Sprint(got) != fmt.Sprint(want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		c.Fail("decode", "vim %v chunks %q\nwere decoded as\n%d\nand must be\n%d\n(they differ at key %d)", vim, chunks, got, want, i)
	}
}

// vimDecode is what arrives in vim mode: every character but NUL.
func vimDecode(b string) []rune {
	var o []rune
	for _, r := range b {
		if r != 0 {
			o = append(o, r)
		}
	}
	return o
}

func init() {
	encs := emacsEnc()
	pairs := len(encs) * len(encs)
	h.Register(&h.Prop{
		ID:    "C22",
		Rule:  "Every ordered pair of the table's key encodings (arrows and Home/End/Delete in bracket and O forms, Meta keys, control and text characters, invalid bytes, function keys and reports) with every way of cutting it in two and into single bytes, in both modes, then random sequences cut at random; the decoded keys seen by the filter are compared with the table. Non-trivial is a distinct (pair, cut).",
		Count: "cuts",
		Min:   map[string]int64{"keys": 100000, "cuts": 20000, "offsets": 10, "interrupted": 5000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return pairs*2 + 150000
			}
			return pairs + 2500
		},
		Run: func(c *h.Ctx) {
			r := c.R
			if c.Idx < pairs || c.Tier == "thorough" && c.Idx < 2*pairs {
				i := c.Idx % pairs
				a, b := encs[i/len(encs)], encs[i%len(encs)]
				ab := a.b + b.b
				vim := c.Idx >= pairs || c.Tier != "thorough" && (i/len(encs)+i)%4 == 0
				keys := append(append([]rune{}, a.keys...), b.keys...)
				if vim {
					keys = vimDecode(ab)
				}
				var chunks [][]byte
				var want []rune
				for k := 1; k <= len(ab); k++ { // k == len: not cut
					chunks = append(chunks, []byte(ab[:k]), []byte(ab[k:]), []byte("|"))
					want = append(append(want, keys...), '|')
					c.Seen("cuts", ab, k, vim)
				}
				for k := range []byte(ab) {
					chunks = append(chunks, []byte{ab[k]})
				}
				want = append(want, keys...)
				c22Compare(c, vim, chunks, want)
				return
			}
			if c.Idx%50 == 0 {
				c22Offset(c)
				return
			}
			var sb strings.Builder
			var want []rune
			vim := r.Intn(4) == 0
			for k := 1 + r.Intn(200); k > 0; k-- {
				e := encs[r.Intn(len(encs))]
				sb.WriteString(e.b)
				want = append(want, e.keys...)
			}
			if vim {
				want = vimDecode(sb.String())
			}
			var chunks [][]byte
			rest := []byte(sb.String())
			max := []int{1, 2, 5, 40, 5000}[r.Intn(5)]
			for len(rest) > 0 {
				n := 1 + r.Intn(max)
				if n > len(rest) {
					n = len(rest)
				}
				chunks = append(chunks, rest[:n])
				rest = rest[n:]
			}
			c.Seen("cuts", sb.String(), len(chunks))
			c.Sample("vim %v: %q", vim, chunks)
			c22Compare(c, vim, chunks, want)
		},
	})
}

// c22Offset asks for the cursor position in the middle of a line.
func c22Offset(c *h.Ctx) {
	r := c.R
	s, err := sess.New(sess.Opt{Width: 80, Discard: true})
	if err != nil {
		c.Fail("setup", "NewEx: %v", err)
		return
	}
	want := fmt.Sprintf("%d;%d", 1+r.Intn(300), 1+r.Intn(300))
	rep := "\x1b[" + want + "R"
	k := 1 + r.Intn(len(rep)-1)
	got := make(chan string, 1)
	res := make(chan sess.Result, 1)
	go func() { res <- sess.Classify(s.Inst.Readline()) }()
	s.In.Feed([]byte("ab"))
	s.In.WaitIdle()
	s.Inst.Terminal.GetOffset(func(o string) { got <- o })
	s.In.Feed([]byte(rep[:k]), []byte(rep[k:]), []byte("cd\r"))
	if o := <-got; o != want {
		c.Fail("offset", "the cursor position %q was reported as %q", want, o)
	}
	if l := <-res; l.Line != "abcd" || l.Err != "" {
		c.Fail("offset-line", "with the report %q in the middle the line abcd was read as %v", rep, l)
	}
	c.Count("offsets", 1)
	s.Close()
}
