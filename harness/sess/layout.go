package sess

import "strings"

// Layout is where the characters of a prompt and a line end up on a terminal of a given width that
// wraps only when the next character arrives and never splits a double-width character.
type Layout struct {
	Rows       []string
	Row, Col   int // where the cursor belongs
	EndRow     int
	EndCol     int
	WideGap    bool // a double-width character did not fit in the last column of some row
	Zero       bool // there is a zero-width character
	CursorTrap bool // the cursor sits where a wide character was pushed to the next row
}

const TabStop = 4 // the library renders a tab as this many blanks

// StripSGR removes ESC [ ... m sequences.
func StripSGR(s []rune) []rune {
	var out []rune
	for i := 0; i < len(s); i++ {
		if s[i] == 0x1b && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && s[j] != 'm' {
				j++
			}
			if j < len(s) {
				i = j
				continue
			}
		}
		out = append(out, s[i])
	}
	return out
}

func LayOut(width int, prompt, line []rune, pos int) Layout {
	var l Layout
	row, col := 0, 0
	cells := [][]string{nil}
	put := func(r rune) {
		w := vtWidth(r)
		if w == 0 {
			l.Zero = true
			pr, pc := row, col-1
			if pc < 0 && row > 0 {
				pr, pc = row-1, len(cells[row-1])-1
			}
			if pc >= 0 && pc < len(cells[pr]) {
				for pc > 0 && cells[pr][pc] == "" {
					pc--
				}
				if !strings.ContainsRune(cells[pr][pc], r) {
					cells[pr][pc] += string(r)
				}
			}
			return
		}
		if col+w > width {
			l.WideGap = true
			row, col = row+1, 0
			cells = append(cells, nil)
		}
		cells[row] = append(cells[row], string(r))
		if w == 2 {
			cells[row] = append(cells[row], "")
		}
		col += w
		if col >= width {
			row, col = row+1, 0
			cells = append(cells, nil)
		}
	}
	emit := func(r rune) {
		if r == '\t' {
			for i := 0; i < TabStop; i++ {
				put(' ')
			}
			return
		}
		put(r)
	}
	for _, r := range StripSGR(prompt) {
		put(r)
	}
	for i, r := range line {
		if i == pos {
			l.Row, l.Col = row, col
			if col+vtWidth(r) > width {
				l.CursorTrap = true
			}
		}
		emit(r)
	}
	if pos >= len(line) {
		l.Row, l.Col = row, col
	}
	l.EndRow, l.EndCol = row, col
	for _, c := range cells {
		l.Rows = append(l.Rows, strings.TrimRight(strings.Join(c, ""), " "))
	}
	return l
}
