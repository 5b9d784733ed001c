package props

import (
	"fmt"
	"strings"
	"unicode"

	rl "github.com/chzyer/readline"
	rp "github.com/chzyer/readline/runes"
	"verif.local/harness/h"
)

var rsU rl.Runes

// guard calls f, and checks that the arguments are as before.
type c19 struct {
	c    *h.Ctx
	args [][]rune
	snap []string
}

func dump(l [][]rune) []string {
	var o []string
	for _, a := range l {
		o = append(o, fmt.Sprint(a[:cap(a)]))
	}
	return o
}

func (x *c19) eq(name string, got, want interface{}) {
	x.c.Count("comparisons", 1)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		var sb strings.Builder
		for _, a := range x.args {
			fmt.Fprintf(&sb, " %q", string(a))
		}
		x.c.Fail(name, "%s of%s is %v and must be %v", name, sb.String(), got, want)
	}
	for i, d := range dump(x.args) {
		if d != x.snap[i] {
			x.c.Fail(name+"-changed", "%s changed its argument %s to %s", name, x.snap[i], d)
		}
	}
}

func foldEq(a, b rune, fold bool) bool {
	if a == b {
		return true
	}
	low := func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}
	return fold && low(a) == low(b)
}

func seqEq(a, b []rune, fold bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !foldEq(a[i], b[i], fold) {
			return false
		}
	}
	return true
}

// occ is the first (last) position of b in a.
func occ(a, b []rune, fold, last bool) int {
	f := -1
	for i := 0; i+len(b) <= len(a); i++ {
		if seqEq(a[i:i+len(b)], b, fold) {
			if !last {
				return i
			}
			f = i
		}
	}
	return f
}

func refWidth(r rune, tab int) int {
	if r == '\t' {
		return tab
	}
	for _, t := range []*unicode.RangeTable{unicode.Mn, unicode.Me, unicode.Cc, unicode.Cf} {
		if unicode.Is(t, r) {
			return 0
		}
	}
	for _, t := range []*unicode.RangeTable{unicode.Han, unicode.Hangul, unicode.Hiragana, unicode.Katakana} {
		if unicode.Is(t, r) {
			return 2
		}
	}
	return 1
}

func refWidthAll(rs []rune, tab int) int {
	n := 0
	for _, r := range rs {
		n += refWidth(r, tab)
	}
	return n
}

// refUncolor drops ESC [ ... m.
func refUncolor(rs []rune) string {
	s := string(rs)
	var o strings.Builder
	for {
		i := strings.Index(s, "\x1b[")
		if i < 0 {
			break
		}
		o.WriteString(s[:i])
		j := strings.IndexByte(s[i+2:], 'm')
		if j < 0 { // not a complete sequence: only what nobody sees may go
			s = s[i+1:]
			continue
		}
		s = s[i+2+j+1:]
	}
	o.WriteString(s)
	return o.String()
}

func noEsc(s string) string { return strings.Replace(s, "\x1b", "", -1) }

func (x *c19) pair(a, b []rune) {
	x.args = [][]rune{a, b}
	x.snap = dump(x.args)
	x.eq("Equal", rsU.Equal(a, b), string(a) == string(b) && len(a) == len(b))
	x.eq("runes.Equal", rp.Equal(a, b), seqEq(a, b, false))
	x.eq("EqualFold", rsU.EqualFold(a, b), seqEq(a, b, true))
	pre := len(a) >= len(b) && seqEq(a[:len(b)], b, false)
	x.eq("HasPrefix", rsU.HasPrefix(a, b), pre)
	x.eq("runes.HasPrefix", rp.HasPrefix(a, b), pre)
	x.eq("HasPrefixFold", rsU.HasPrefixFold(a, b), len(a) >= len(b) && seqEq(a[:len(b)], b, true))
	if len(b) > 0 || len(a) > 0 { // nothing in nothing is left open
		x.eq("IndexAll", rsU.IndexAll(a, b), occ(a, b, false, false))
		x.eq("runes.IndexAll", rp.IndexAll(a, b), occ(a, b, false, false))
		x.eq("IndexAllEx", rsU.IndexAllEx(a, b, true), occ(a, b, true, false))
		x.eq("IndexAllBck", rsU.IndexAllBck(a, b), occ(a, b, false, true))
		x.eq("runes.IndexAllBck", rp.IndexAllBck(a, b), occ(a, b, false, true))
		x.eq("IndexAllBckEx", rsU.IndexAllBckEx(a, b, true), occ(a, b, true, true))
	}
	if len(b) > 0 {
		x.eq("Index", rsU.Index(b[0], a), occ(a, b[:1], false, false))
		x.eq("runes.Index", rp.Index(b[0], a), occ(a, b[:1], false, false))
		if len(a) > 0 {
			x.eq("EqualRune", rsU.EqualRune(a[0], b[0], false), a[0] == b[0])
			x.eq("EqualRune", rsU.EqualRune(a[0], b[0], true), foldEq(a[0], b[0], true))
			x.eq("EqualRuneFold", rsU.EqualRuneFold(a[0], b[0]), foldEq(a[0], b[0], true))
		}
	}
	x.c.Seen("inputs", string(a), "/", string(b))
}

func (x *c19) single(a []rune) {
	x.args = [][]rune{a}
	x.snap = dump(x.args)
	x.eq("WidthAll", rsU.WidthAll(a), refWidthAll(a, rl.TabWidth))
	x.eq("runes.WidthAll", rp.WidthAll(a), refWidthAll(a, 0))
	x.eq("Backspace", len(rsU.Backspace(a)), refWidthAll(a, rl.TabWidth))
	x.eq("runes.Backspace", string(rp.Backspace(a)), strings.Repeat("\b", refWidthAll(a, 0)))
	x.eq("ColorFilter", noEsc(string(rsU.ColorFilter(a))), noEsc(refUncolor(a)))
	x.eq("runes.ColorFilter", string(rp.ColorFilter(a)), string(rsU.ColorFilter(a)))
	if !strings.Contains(string(a), "\x1b[") {
		x.eq("ColorFilter", string(rsU.ColorFilter(a)), string(a))
	}
	cp := rsU.Copy(a)
	x.eq("Copy", string(cp), string(a))
	x.eq("runes.Copy", string(rp.Copy(a)), string(a))
	if len(a) > 0 { // a copy is a copy
		cp[0]++
		x.eq("Copy", len(cp), len(a))
	}
	i := 0
	for i < len(a) && unicode.IsSpace(a[i]) {
		i++
	}
	x.eq("TrimSpaceLeft", string(rsU.TrimSpaceLeft(a)), string(a[i:]))
	for _, r := range a {
		w := refWidth(r, rl.TabWidth)
		x.eq("Width", rsU.Width(r), w)
		if r != '\t' {
			x.eq("runes.Width", rp.Width(r), w)
		}
		x.eq("IsWordBreak", rl.IsWordBreak(r), !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'))
	}
}

func (x *c19) rows(a []rune, start, width int) {
	x.args = [][]rune{a}
	x.snap = dump(x.args)
	rows := rl.SplitByLine(start, width, a)
	x.eq("SplitByLine", strings.Join(rows, ""), string(a))
	at := start
	for i, row := range rows {
		rs := []rune(row)
		w := at + refWidthAll(rs, rl.TabWidth)
		full := w >= width
		early := false
		if len(rs) > 0 && i < len(rows)-1 {
			early = w-refWidth(rs[len(rs)-1], rl.TabWidth) >= width && len(rs) > 1
		}
		if i < len(rows)-1 && !full || i == len(rows)-1 && full && len(rs) > 0 || early {
			x.c.Fail("SplitByLine-rows", "SplitByLine(%d, %d, %q) = %q: row %d is %d columns wide", start, width, string(a), rows, i, w)
		}
		at = 0
	}
	w := refWidthAll(a, rl.TabWidth) + start
	n := 0
	for n*width < w {
		n++
	}
	x.eq("LineCount", rl.LineCount(width, w), n)
}

func (x *c19) aggregate(l [][]rune) {
	want := 0
	for ; want < len(l[0]); want++ {
		ok := true
		for _, a := range l {
			if want >= len(a) || a[want] != l[0][want] {
				ok = false
			}
		}
		if !ok {
			break
		}
	}
	x.args = append([][]rune{}, l...)
	x.snap = dump(x.args)
	for k := 0; k < 2; k++ {
		in := append([][]rune{}, l...)
		var same []rune
		var n int
		if k == 0 {
			same, n = rsU.Aggregate(in)
		} else {
			same, n = rp.Aggregate(in)
		}
		x.eq("Aggregate", n, want)
		x.eq("Aggregate", string(same), string(l[0][:want]))
		for i := range in {
			x.eq("Aggregate", string(in[i]), string(l[i][want:]))
		}
	}
}

var c19Small = []rune{'a', 'A', 'b', '字', '\u0301', '\t'}
var c19Wide = []rune("aAzZkK@[`{09 _-\t\n\x1b[m;1mméÉßſKµ字世あアㅎ한☭│\u0301\u200b\u200d\u00ad\x00\x7f\u0085\ufffd😀\u1100\uff71\uff0c\u3000\u2028")

func (x *c19) random(max int) []rune {
	r := x.c.R
	n := r.Intn(max + 1)
	o := make([]rune, 0, n+2)
	abc := c19Wide
	if r.Intn(2) == 0 {
		abc = c19Small[:2+r.Intn(4)]
	}
	for len(o) < n {
		switch {
		case r.Intn(30) == 0:
			o = append(o, rune(r.Intn(0x11000)))
		case r.Intn(12) == 0:
			o = append(o, []rune([]string{"\x1b[1m", "\x1b[31;4m", "\x1b[m", "\x1b[3", "\x1b", "\x1b[", "\x1b[\x1b[0m"}[r.Intn(7)])...)
		default:
			o = append(o, abc[r.Intn(len(abc))])
		}
	}
	return o
}

// small is the i-th of the strings of up to 3 characters of the small alphabet.
func small(i int) []rune {
	n := len(c19Small)
	for l, k := 0, 1; l <= 3; l, k = l+1, k*n {
		if i < k {
			o := make([]rune, l)
			for j := range o {
				o[j] = c19Small[i%n]
				i /= n
			}
			return o
		}
		i -= k
	}
	panic("small")
}

func init() {
	ns := 1 + 6 + 36 + 216
	h.Register(&h.Prop{
		ID:    "C19",
		Rule:  "All pairs of strings of up to 3 characters from {a, A, b, a double-width one, a combining mark, tab}, every code point below 0x30000 for width and word break, and random strings of up to 60 characters with escape sequences; both copies of the helpers are compared with independent definitions, and the arguments (to their full capacity) with what they were. Non-trivial is a distinct pair.",
		Count: "inputs",
		Min:   map[string]int64{"comparisons": 1500000, "inputs": 60000, "code_points": 0x30000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return ns + 200000
			}
			return ns + 12000
		},
		Run: func(c *h.Ctx) {
			x := &c19{c: c}
			r := c.R
			h.Progress()
			if c.Idx < ns {
				a := small(c.Idx)
				x.single(a)
				for j := 0; j < ns; j++ {
					x.pair(a, small(j))
				}
				for w := 1; w < 9; w++ {
					for st := 0; st < w; st++ {
						x.rows(a, st, w)
					}
				}
				lo, hi := 0x30000*c.Idx/ns, 0x30000*(c.Idx+1)/ns
				x.args, x.snap = nil, nil
				for p := rune(lo); p < rune(hi); p++ {
					c.Count("code_points", 1)
					w := refWidth(p, rl.TabWidth)
					if rsU.Width(p) != w || p != '\t' && rp.Width(p) != w {
						c.Fail("Width", "the width of %U is %d (%d in package runes) and must be %d", p, rsU.Width(p), rp.Width(p), w)
					}
					if rl.IsWordBreak(p) == (p >= '0' && p <= '9' || p >= 'a' && p <= 'z' || p >= 'A' && p <= 'Z') {
						c.Fail("IsWordBreak", "%U: %v", p, rl.IsWordBreak(p))
					}
				}
				return
			}
			a := x.random(60)
			b := x.random(4)
			switch r.Intn(4) {
			case 0: // a part of it
				if len(a) > 0 {
					i := r.Intn(len(a))
					j := i + r.Intn(len(a)-i) + 1
					b = append([]rune{}, a[i:j]...)
				}
			case 1: // the same with other case
				b = append([]rune{}, a...)
				for i := range b {
					if r.Intn(2) == 0 && b[i] < 128 && unicode.IsLetter(b[i]) {
						b[i] ^= 0x20
					} else if r.Intn(40) == 0 {
						b[i] ^= 0x20
					}
				}
				b = b[:r.Intn(len(b)+1)]
			}
			x.pair(a, b)
			x.single(a)
			x.rows(a, r.Intn(30), 1+r.Intn(40))
			var l [][]rune
			pre := x.random(6)
			for k := 1 + r.Intn(5); k > 0; k-- {
				l = append(l, append(append([]rune{}, pre[:r.Intn(3)*len(pre)/2]...), x.random(4)...))
			}
			x.aggregate(l)
			c.Sample("%q / %q", string(a), string(b))
		},
	})
}
