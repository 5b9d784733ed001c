// Package vt is a small terminal emulator used as the display oracle. It implements the subset of
// ECMA-48/xterm that an interactive line editor on a cooked-output tty (ONLCR on) relies on, with
// xterm's deferred wrap in the last column.
package vt

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

type Cell struct {
	S    string // "" = blank
	Wide bool   // left half of a wide character
	Cont bool   // right half of a wide character
	Attr string // SGR parameters in force
}

type Term struct {
	mu      sync.Mutex
	W, H    int
	Width   func(rune) int
	lines   [][]Cell
	soft    map[int]bool // rows that go on in the next one
	row     int          // absolute
	col     int
	pending bool
	saved   [2]int // row below the top of the screen, column
	attr    string
	part    []byte // undecoded tail (escape sequence or UTF-8)

	// counters, for evidence
	Writes, Bytes, Bells, Unknown int
	UnknownSeq                    string
	// OnWrite, when set, sees every chunk before it is interpreted.
	OnWrite func([]byte)
	// Discard drops what is written (for byte-only sessions).
	Discard bool
}

func New(w, h int, width func(rune) int) *Term {
	return &Term{W: w, H: h, Width: width, lines: [][]Cell{nil}, soft: map[int]bool{}}
}

// Resize changes the width; rows keep their content.
func (t *Term) Resize(w int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.pending {
		t.col, t.pending = t.W, false
	}
	t.W = w
	if t.col >= w {
		t.col, t.pending = w-1, true
	}
}

// Reflow changes the width as terminals do that wrap again what they had wrapped: the rows of the
// text the cursor is in, and those after it, are laid out anew; the ones above keep their place.
func (t *Term) Reflow(w int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	first := t.row
	for first > 0 && t.soft[first-1] {
		first--
	}
	old, oldSoft := t.lines[first:], t.soft
	row, col := t.row-first, t.col
	if t.pending {
		col++
	}
	t.lines = append([][]Cell{}, t.lines[:first]...)
	t.soft = map[int]bool{}
	for r := range oldSoft {
		if r < first {
			t.soft[r] = true
		}
	}
	for i := 0; i < len(old); {
		var text []Cell // the rows that belong together
		at := -1        // where the cursor is in it
		for {
			l := old[i]
			if len(l) > t.W { // blanks of a wider screen
				l = l[:t.W]
			}
			goesOn := oldSoft[first+i]
			if goesOn {
				for len(l) < t.W {
					l = append(l, Cell{})
				}
			}
			if i == row {
				at = len(text) + col
			}
			text = append(text, l...)
			i++
			if !goesOn || i >= len(old) {
				break
			}
		}
		for at > len(text) {
			text = append(text, Cell{})
		}
		var l []Cell
		for j := 0; j <= len(text); j++ {
			if j < len(text) && (len(l) == w || text[j].Wide && len(l) == w-1 && w > 1) {
				t.soft[len(t.lines)] = true
				t.lines = append(t.lines, l)
				l = nil
			}
			if j == at {
				t.row, t.col = len(t.lines), len(l)
			}
			if j < len(text) {
				l = append(l, text[j])
			}
		}
		t.lines = append(t.lines, l)
	}
	t.W = w
	t.pending = false
	if t.col >= w {
		t.col, t.pending = w-1, true
	}
}

func (t *Term) Close() error { return nil }

func (t *Term) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Writes++
	t.Bytes += len(b)
	if t.OnWrite != nil {
		t.OnWrite(b)
	}
	if !t.Discard {
		t.feed(b)
	}
	return len(b), nil
}

func (t *Term) top() int {
	n := len(t.lines) - t.H
	if n < 0 {
		n = 0
	}
	return n
}

func (t *Term) ensure(r int) {
	for len(t.lines) <= r {
		t.lines = append(t.lines, nil)
	}
}

func (t *Term) lineFeed() {
	t.row++
	t.ensure(t.row)
}

func (t *Term) setCell(r, c int, cell Cell) {
	t.ensure(r)
	l := t.lines[r]
	for len(l) <= c {
		l = append(l, Cell{})
	}
	// overwriting half of a wide character blanks the other half
	if l[c].Cont && c > 0 {
		l[c-1] = Cell{}
	}
	if l[c].Wide && c+1 < len(l) {
		l[c+1] = Cell{}
	}
	l[c] = cell
	t.lines[r] = l
}

func (t *Term) put(r rune) {
	w := 1
	if t.Width != nil {
		w = t.Width(r)
	}
	if w == 0 {
		// combining: attach to the previous cell
		c := t.col - 1
		if t.pending {
			c = t.col
		}
		if c >= 0 && c < len(t.lines[t.row]) {
			cell := &t.lines[t.row][c]
			if cell.Cont && c > 0 {
				cell = &t.lines[t.row][c-1]
			}
			if !strings.ContainsRune(cell.S, r) { // a mark printed again, as by a highlight, shows once
				cell.S += string(r)
			}
		}
		return
	}
	if t.pending || (w == 2 && t.col == t.W-1 && t.W > 1) {
		t.pending = false
		t.col = 0
		t.soft[t.row] = true
		t.lineFeed()
	}
	if w == 2 {
		t.setCell(t.row, t.col, Cell{S: string(r), Wide: true, Attr: t.attr})
		if t.col+1 < t.W {
			t.setCell(t.row, t.col+1, Cell{Cont: true, Attr: t.attr})
		}
	} else {
		t.setCell(t.row, t.col, Cell{S: string(r), Attr: t.attr})
	}
	t.col += w
	if t.col >= t.W {
		t.col = t.W - 1
		t.pending = true
	}
}

func (t *Term) feed(b []byte) {
	if len(t.part) > 0 {
		b = append(append([]byte{}, t.part...), b...)
		t.part = nil
	}
	for len(b) > 0 {
		c := b[0]
		switch {
		case c == 0x1b:
			n, ok := t.escape(b)
			if !ok {
				t.part = append([]byte{}, b...)
				return
			}
			b = b[n:]
		case c == '\r':
			t.col, t.pending = 0, false
			b = b[1:]
		case c == '\n': // ONLCR
			t.col, t.pending = 0, false
			t.lineFeed()
			b = b[1:]
		case c == '\b':
			t.pending = false
			if t.col > 0 {
				t.col--
			}
			b = b[1:]
		case c == '\a':
			t.Bells++
			b = b[1:]
		case c == '\t':
			t.pending = false
			t.col = (t.col/8 + 1) * 8
			if t.col >= t.W {
				t.col = t.W - 1
			}
			b = b[1:]
		case c < 0x20 || c == 0x7f:
			b = b[1:]
		default:
			if !utf8.FullRune(b) {
				t.part = append([]byte{}, b...)
				return
			}
			r, n := utf8.DecodeRune(b)
			t.put(r)
			b = b[n:]
		}
	}
}

// escape interprets one escape sequence at the head of b and returns its length.
func (t *Term) escape(b []byte) (int, bool) {
	if len(b) < 2 {
		return 0, false
	}
	if b[1] == ']' { // OSC ... BEL
		for i := 2; i < len(b); i++ {
			if b[i] == 7 {
				return i + 1, true
			}
		}
		return 0, false
	}
	switch b[1] {
	case '7':
		t.saved = [2]int{t.row - t.top(), t.col}
		return 2, true
	case '8':
		t.restore()
		return 2, true
	case '[':
	default:
		t.unknown(b[:2])
		return 2, true
	}
	i := 2
	for i < len(b) && (b[i] >= 0x20 && b[i] <= 0x3f) {
		i++
	}
	if i >= len(b) {
		return 0, false
	}
	params, fin := string(b[2:i]), b[i]
	arg := func(def int) int {
		n, err := strconv.Atoi(strings.SplitN(params, ";", 2)[0])
		if err != nil {
			return def
		}
		return n
	}
	arg1 := func() int {
		n := arg(1)
		if n == 0 {
			n = 1
		}
		return n
	}
	switch fin {
	case 'A':
		t.pending = false
		t.row -= arg1()
		if t.row < t.top() {
			t.row = t.top()
		}
	case 'B':
		t.pending = false
		t.row += arg1()
		if m := t.top() + t.H - 1; t.row > m {
			t.row = m
		}
		t.ensure(t.row)
	case 'C':
		t.pending = false
		t.col += arg1()
		if t.col > t.W-1 {
			t.col = t.W - 1
		}
	case 'D':
		t.pending = false
		t.col -= arg1()
		if t.col < 0 {
			t.col = 0
		}
	case 'G':
		t.pending = false
		t.col = arg1() - 1
		if t.col > t.W-1 {
			t.col = t.W - 1
		}
	case 'H', 'f':
		t.pending = false
		r, c := 1, 1
		if params != "" {
			p := strings.Split(params, ";")
			if n, e := strconv.Atoi(p[0]); e == nil && n > 0 {
				r = n
			}
			if len(p) > 1 {
				if n, e := strconv.Atoi(p[1]); e == nil && n > 0 {
					c = n
				}
			}
		}
		t.row, t.col = t.top()+r-1, c-1
		t.ensure(t.row)
	case 'J':
		// erase in display
		t.pending = false
		switch arg(0) {
		case 0:
			t.eraseLine(t.col, t.W)
			for r := t.row + 1; r < len(t.lines); r++ {
				t.lines[r] = nil
				delete(t.soft, r)
			}
		case 1:
			t.eraseLine(0, t.col+1)
			for r := t.top(); r < t.row; r++ {
				t.lines[r] = nil
				delete(t.soft, r)
			}
		default:
			for r := t.top(); r < len(t.lines); r++ {
				t.lines[r] = nil
				delete(t.soft, r)
			}
		}
	case 'K':
		t.pending = false
		switch arg(0) {
		case 0:
			t.eraseLine(t.col, t.W)
		case 1:
			t.eraseLine(0, t.col+1)
		default:
			t.eraseLine(0, t.W)
		}
	case 'm':
		if params == "" || params == "0" {
			t.attr = ""
		} else {
			t.attr = params
		}
	case 'E', 'F':
		t.pending = false
		t.col = 0
		if fin == 'E' {
			t.row += arg1()
		} else {
			t.row -= arg1()
		}
		if t.row < t.top() {
			t.row = t.top()
		}
		if m := t.top() + t.H - 1; t.row > m {
			t.row = m
		}
		t.ensure(t.row)
	case 'X':
		t.pending = false
		if n := t.col + arg1(); n < t.W {
			t.eraseLine(t.col, n)
		} else {
			t.eraseLine(t.col, t.W)
		}
	case 's':
		t.saved = [2]int{t.row - t.top(), t.col}
	case 'u':
		t.restore()
	case 'n', 'h', 'l': // reports and modes that do not change what is shown
	default:
		t.unknown(b[:i+1])
	}
	return i + 1, true
}

func (t *Term) restore() {
	t.pending = false
	t.row, t.col = t.top()+t.saved[0], t.saved[1]
	t.ensure(t.row)
}

func (t *Term) unknown(b []byte) {
	t.Unknown++
	t.UnknownSeq = fmt.Sprintf("%q", b)
}

func (t *Term) eraseLine(from, to int) {
	t.ensure(t.row)
	l := t.lines[t.row]
	if to >= t.W {
		to = len(l) // what a wider screen left as well
		delete(t.soft, t.row)
	}
	if from > 0 && from < len(l) && l[from].Cont {
		l[from-1] = Cell{}
	}
	for c := from; c < to && c < len(l); c++ {
		l[c] = Cell{}
	}
	if to >= len(l) && from < len(l) {
		l = l[:from]
	}
	t.lines[t.row] = l
}

// RowText renders one row; blanks become spaces and trailing blanks are dropped.
func RowText(l []Cell) string {
	var sb strings.Builder
	for _, c := range l {
		if c.Cont {
			continue
		}
		if c.S == "" {
			sb.WriteByte(' ')
		} else {
			sb.WriteString(c.S)
		}
	}
	return strings.TrimRight(sb.String(), " ")
}

type Snapshot struct {
	Rows     []string // every row since the start, scrollback included; trailing blank rows dropped
	Row, Col int
	Pending  bool
}

func (t *Term) Snap() Snapshot { return t.SnapFrom(0) }

// SnapFrom renders only the rows from row `from` on (Rows[0] is that row).
func (t *Term) SnapFrom(from int) Snapshot {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := Snapshot{Row: t.row, Col: t.col, Pending: t.pending}
	last := len(t.lines) - 1
	for ; last >= from; last-- {
		if RowText(t.lines[last]) != "" {
			break
		}
	}
	for r := from; r <= last; r++ {
		s.Rows = append(s.Rows, RowText(t.lines[r]))
	}
	return s
}

// Cells returns a copy of the cells of one absolute row.
func (t *Term) Cells(r int) []Cell {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r < 0 || r >= len(t.lines) {
		return nil
	}
	return append([]Cell{}, t.lines[r]...)
}

func (t *Term) NumRows() int { t.mu.Lock(); defer t.mu.Unlock(); return len(t.lines) }
