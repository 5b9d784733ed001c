package props

import (
	"bytes"
	"fmt"
	"strings"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
)

// tnode is the reference form of a tree: a node has fixed children and children computed from the
// line.
type tnode struct {
	name string // "" for a computed one
	dyn  func(line string) []string
	kids []*tnode
}

var treeWords = []string{"a", "b", "ab", "ba", "aab", "abc", "b-c", "é", "éa", "字", "字b", "A", "list", "lists", "list2", "x_1"}

// dynNames makes a function whose names depend on the line, and are distinct from the words.
func dynNames(k int) func(string) []string {
	return func(line string) []string {
		n := []string{fmt.Sprintf("d%d", k), fmt.Sprintf("d%da", k), fmt.Sprintf("e%d", k)}
		i := (len(line) + k) % 3
		return n[i:]
	}
}

func genTree(r randSrc, depth int, id *int) []*tnode {
	var out []*tnode
	used := map[string]bool{}
	for n := r.Intn(5); n > 0; n-- {
		w := treeWords[r.Intn(len(treeWords))]
		if used[w] {
			continue
		}
		used[w] = true
		t := &tnode{name: w}
		if r.Intn(5) == 0 {
			*id++
			t = &tnode{dyn: dynNames(*id)}
		}
		if depth > 0 && r.Intn(3) > 0 {
			t.kids = genTree(r, depth-1, id)
		}
		out = append(out, t)
	}
	return out
}

// own is an application's implementation of the interface.
type own struct {
	name []rune
	kids []rl.PrefixCompleterInterface
}

func (o *own) Print(prefix string, level int, buf *bytes.Buffer) { rl.Print(o, prefix, level, buf) }
func (o *own) Do(line []rune, pos int) ([][]rune, int)           { return rl.Do(o, line, pos) }
func (o *own) GetName() []rune                                   { return o.name }
func (o *own) GetChildren() []rl.PrefixCompleterInterface        { return o.kids }
func (o *own) SetChildren(k []rl.PrefixCompleterInterface)       { o.kids = k }

// build makes the library's tree. asked receives what the computing functions are given.
func buildTree(r randSrc, ts []*tnode, asked *[]string) []rl.PrefixCompleterInterface {
	var out []rl.PrefixCompleterInterface
	for _, t := range ts {
		kids := buildTree(r, t.kids, asked)
		switch {
		case t.dyn != nil:
			f := t.dyn
			out = append(out, rl.PcItemDynamic(func(l string) []string { *asked = append(*asked, l); return f(l) }, kids...))
		case r.Intn(6) == 0:
			out = append(out, &own{[]rune(t.name + " "), kids})
		case r.Intn(3) == 0:
			p := rl.PcItem(t.name)
			p.SetChildren(kids)
			out = append(out, p)
		default:
			out = append(out, rl.PcItem(t.name, kids...))
		}
	}
	return out
}

func (t *tnode) names(line string) []string {
	if t.dyn != nil {
		return t.dyn(line)
	}
	return []string{t.name}
}

// refTree is the specification: full words lead down the tree, the last word selects.
func refTree(ts []*tnode, line string, pos int) ([]string, int) {
	before := string([]rune(line)[:pos])
	words := strings.Split(strings.TrimLeft(before, " "), " ")
	last := words[len(words)-1]
	for _, w := range words[:len(words)-1] {
		if w == "" { // several blanks separate as one does
			continue
		}
		var next *tnode
		for _, t := range ts {
			for _, n := range t.names(line) {
				if n == w {
					next = t
				}
			}
		}
		if next == nil {
			return nil, 0
		}
		ts = next.kids
	}
	var out []string
	for _, t := range ts {
		for _, n := range t.names(line) {
			if strings.HasPrefix(n, last) {
				out = append(out, n[len(last):]+" ")
			}
		}
	}
	return out, len([]rune(last))
}

func treePrint(sb *strings.Builder, ts []*tnode, prefix string, level int) {
	for _, t := range ts {
		l := level
		if t.dyn == nil {
			sb.WriteString(prefix)
			if level > 0 {
				sb.WriteString("├" + strings.Repeat("─", level*4-2) + " ")
			}
			sb.WriteString(t.name + "\n")
			l++
		}
		treePrint(sb, t.kids, prefix, l)
	}
}

func trimRows(s string) string {
	rows := strings.Split(s, "\n")
	for i := range rows {
		rows[i] = strings.TrimRight(rows[i], " ")
	}
	return strings.Join(rows, "\n")
}

func flat(ts []rl.PrefixCompleterInterface, sb *strings.Builder) {
	for _, t := range ts {
		fmt.Fprintf(sb, "(%q", string(t.GetName()))
		flat(t.GetChildren(), sb)
		sb.WriteByte(')')
	}
}

func genTreeLine(r randSrc, ts []*tnode) string {
	var sb strings.Builder
	for k := r.Intn(3); k > 0 && r.Intn(3) == 0; k-- {
		sb.WriteByte(' ')
	}
	for d := 0; d < 5; d++ {
		w := treeWords[r.Intn(len(treeWords))]
		var next []*tnode
		if len(ts) > 0 && r.Intn(8) > 0 {
			t := ts[r.Intn(len(ts))]
			ns := t.names(sb.String())
			w = ns[r.Intn(len(ns))]
			next = t.kids
		}
		if r.Intn(3) == 0 {
			rs := []rune(w)
			sb.WriteString(string(rs[:r.Intn(len(rs)+1)]))
			if r.Intn(3) > 0 {
				break
			}
		} else {
			sb.WriteString(w)
		}
		if r.Intn(5) == 0 {
			break
		}
		sb.WriteByte(' ')
		for r.Intn(5) == 0 {
			sb.WriteByte(' ')
		}
		ts = next
		if r.Intn(6) == 0 {
			break
		}
	}
	return sb.String()
}

func strs(l [][]rune) []string {
	var o []string
	for _, x := range l {
		o = append(o, string(x))
	}
	return o
}

func c12Tree(c *h.Ctx) {
	r := c.R
	id := 0
	ref := genTree(r, 3, &id)
	var asked []string
	kids := buildTree(r, ref, &asked)
	root := rl.NewPrefixCompleter(kids...)
	var shape strings.Builder
	flat(kids, &shape)
	for i := 0; i < 60; i++ {
		text := genTreeLine(r, ref)
		rs := []rune(text)
		pos := len(rs)
		if r.Intn(3) == 0 {
			pos = r.Intn(len(rs) + 1)
		}
		want, wn := refTree(ref, text, pos)
		in := append(append([]rune{}, rs...), '#')[:len(rs)]
		asked = asked[:0]
		var got [][]rune
		var n int
		if i%2 == 0 {
			got, n = root.Do(in, pos)
		} else {
			got, n = rl.Do(root, in, pos)
		}
		c.Count("questions", 1)
		gs := strs(got)
		if fmt.Sprintf("%q", gs) != fmt.Sprintf("%q", want) || len(want) > 0 && n != wn {
			c.Fail("tree", "tree %s line %q cursor %d: offered %q with length %d, must be %q with %d", shape.String(), text, pos, gs, n, want, wn)
			return
		}
		if string(in[:len(in)+1]) != text+"#" {
			c.Fail("line-changed", "the line %q was changed to %q", text+"#", string(in[:len(in)+1]))
			return
		}
		for _, a := range asked {
			c.Count("computed", 1)
			if a != text {
				c.Fail("dynamic-line", "a computing function was given %q and not the line %q", a, text)
				return
			}
		}
		if len(want) > 0 {
			c.Count("offered", len(want))
			c.Seen("answers", strings.Join(want, "|"), wn, text[:0]+string(rs[:pos]))
		} else {
			c.Count("nothing", 1)
		}
		c.Sample("tree %s line %q cursor %d -> %q", shape.String(), text, pos, gs)
	}
	var after strings.Builder
	flat(root.GetChildren(), &after)
	if after.String() != shape.String() {
		c.Fail("tree-changed", "the tree was changed from %s to %s", shape.String(), after.String())
	}
	var sb strings.Builder
	prefix := []string{"", "  ", "# "}[r.Intn(3)]
	treePrint(&sb, ref, prefix, 0)
	c.Count("trees_printed", 1)
	if got := root.Tree(prefix); trimRows(got) != trimRows(sb.String()) {
		c.Fail("print", "the tree prints as\n%s\nand must print as\n%s", got, sb.String())
	}
	if len(kids) > 0 {
		if p, ok := kids[0].(*rl.PrefixCompleter); ok {
			var b bytes.Buffer
			p.Print(prefix, 2, &b)
			sb.Reset()
			treePrint(&sb, ref[:1], prefix, 2)
			if trimRows(b.String()) != trimRows(sb.String()) {
				c.Fail("print", "a branch prints as\n%s\nand must print as\n%s", b.String(), sb.String())
			}
		}
	}
}

type segSrc struct {
	f func([][]rune, int) [][]rune
}

func (s *segSrc) DoSegment(a [][]rune, n int) [][]rune { return s.f(a, n) }

func c12Segment(c *h.Ctx) {
	r := c.R
	for i := 0; i < 60; i++ {
		var rs []rune
		for k := r.Intn(12); k > 0; k-- {
			rs = append(rs, []rune("ab a字é\t ")[r.Intn(8)])
		}
		text := string(rs)
		pos := len(rs)
		if r.Intn(3) == 0 {
			pos = r.Intn(len(rs) + 1)
		}
		segs := strings.Split(string(rs[:pos]), " ")
		last := segs[len(segs)-1]
		var cands [][]rune
		var want []string
		var back []rune
		var ends []int
		for k := r.Intn(6); k > 0; k-- {
			w := treeWords[r.Intn(len(treeWords))]
			switch r.Intn(3) {
			case 0:
				w = last + w
			case 1:
				w = last
			}
			back = append(back, []rune(w)...)
			ends = append(ends, len(back))
			back = append(back, '#')
			if strings.HasPrefix(w, last) {
				want = append(want, w[len(last):]+" ")
			}
		}
		j := 0
		for _, e := range ends {
			cands = append(cands, back[j:e])
			j = e + 1
		}
		copyOf := fmt.Sprintf("%q", strs(cands))
		backOf := string(back)
		calls, bad := 0, ""
		f := func(a [][]rune, n int) [][]rune {
			calls++
			if strings.Join(strs(a), " ") != strings.Join(segs, " ") || len(a) != len(segs) || n != len([]rune(last)) {
				bad = fmt.Sprintf("line %q cursor %d: the function was given %q and %d, must be %q and %d", text, pos, strs(a), n, segs, len([]rune(last)))
			}
			return cands
		}
		var got [][]rune
		var n int
		in := append([]rune{}, rs...)
		if i%2 == 0 {
			got, n = rl.SegmentFunc(f).Do(in, pos)
		} else {
			got, n = rl.SegmentAutoComplete(&segSrc{f}).Do(in, pos)
		}
		c.Count("segment_questions", 1)
		if bad != "" || calls != 1 {
			c.Fail("segments", "called %d times; %s", calls, bad)
			return
		}
		if fmt.Sprintf("%q", strs(got)) != fmt.Sprintf("%q", want) || n != len([]rune(last)) {
			c.Fail("segment", "line %q cursor %d answers %s: offered %q with %d, must be %q with %d", text, pos, copyOf, strs(got), n, want, len([]rune(last)))
			return
		}
		if fmt.Sprintf("%q", strs(cands)) != copyOf || string(back) != backOf || string(in) != text {
			c.Fail("answers-changed", "the answers %s (memory %q) were changed to %q (memory %q)", copyOf, backOf, strs(cands), string(back))
			return
		}
		c.Seen("answers", "seg", string(rs[:pos]), copyOf)
		// the exported parts
		ss, k := rl.SplitSegment(rs, pos)
		if strings.Join(strs(ss), " ") != strings.Join(segs, " ") || len(ss) != len(segs) || k != len([]rune(last)) {
			c.Fail("split", "SplitSegment(%q, %d) = %q, %d", text, pos, strs(ss), k)
			return
		}
		rt, k2 := rl.RetSegment(ss, cands, k)
		for q := range want {
			want[q] = strings.TrimSuffix(want[q], " ")
		}
		if fmt.Sprintf("%q", strs(rt)) != fmt.Sprintf("%q", want) || k2 != k {
			c.Fail("ret", "RetSegment(%q, %s, %d) = %q, %d", strs(ss), copyOf, k, strs(rt), k2)
			return
		}
	}
}

func init() {
	h.Register(&h.Prop{
		ID:    "C12",
		Rule:  "Random trees (depth up to 4, fixed, computed and application-implemented nodes) and segment functions, 60 lines each with the cursor anywhere, built mostly from words of the tree; candidates and length are compared with an independent specification, the computing functions' arguments, the tree's print-out and the caller's memory are checked. Non-trivial is a distinct question with candidates.",
		Count: "answers",
		Min:   map[string]int64{"questions": 100000, "segment_questions": 100000, "offered": 50000, "computed": 10000, "answers": 30000},
		Cases: func(tier string) int {
			if tier == "thorough" {
				return 150000
			}
			return 12000
		},
		Run: func(c *h.Ctx) {
			if c.Idx%2 == 0 {
				c12Tree(c)
			} else {
				c12Segment(c)
			}
			h.Progress()
		},
	})
}
