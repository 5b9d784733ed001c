package model

// Comp is the completion state: a list of candidates may be shown below the line, and one of them
// may be chosen.
type Comp struct {
	Do     func(line []rune, pos int) ([][]rune, int) // nil: Tab inserts TabText
	Cols   func() int                                 // candidates per row of the list
	Listed bool                                       // the list is shown
	Select bool
	Cands  [][]rune
	Off    int
	Choice int
	source []rune
	valid  bool // source is the line the list belongs to
	Accept int  // candidates inserted, for evidence
}

func (c *Comp) leaveSelect() { c.Select, c.Cands, c.Choice, c.Off, c.valid = false, nil, -1, -1, false }
func (c *Comp) leave()       { c.Listed = false; c.leaveSelect() }

// Display is how candidate i shows in the list.
func (s *Session) Display(i int) []rune {
	o := s.C.Off
	if o > s.Pos {
		o = s.Pos
	}
	return append(cp(s.Buf[s.Pos-o:s.Pos]), s.C.Cands[i]...)
}

// choose steps to the next candidate; a single one is taken at once.
func (s *Session) choose() {
	c := &s.C
	if len(c.Cands) == 1 {
		s.Insert(c.Cands[0])
		c.Accept++
		c.leave()
		return
	}
	c.Choice = (c.Choice + 1) % len(c.Cands)
}

// complete asks the completer (Tab, or a key that changed the line while the list is shown).
func (s *Session) complete() {
	c := &s.C
	if c.Select {
		s.choose()
		return
	}
	if c.Listed && c.valid && same(c.source, s.Buf) {
		c.Select, c.Choice = true, -1
		s.choose()
		return
	}
	c.leaveSelect()
	cands, off := c.Do(cp(s.Buf), s.Pos)
	if len(cands) == 0 {
		c.leave()
		return
	}
	if !c.Listed {
		p := cands[0]
		for _, x := range cands[1:] {
			i := 0
			for i < len(p) && i < len(x) && p[i] == x[i] {
				i++
			}
			p = p[:i]
		}
		if len(cands) == 1 || len(p) > 0 {
			s.Insert(p)
			c.Accept++
			c.leave()
			return
		}
	}
	c.Listed, c.Cands, c.Off = true, cands, off
	c.source, c.valid = cp(s.Buf), true
}

// selectKey handles a key while a candidate is being chosen. It returns false when the key is to be
// handled as usual.
func (s *Session) selectKey(r rune) bool {
	c := &s.C
	n := len(c.Cands)
	switch r {
	case KeyEnter, KeyCtrlJ:
		s.Insert(c.Cands[c.Choice])
		c.Accept++
		c.leave()
		s.H.Edited(s.Buf)
	case KeyTab, KeyForward:
		s.choose()
	case KeyBackward:
		c.Choice = (c.Choice + n - 1) % n
	case KeyLineStart:
		c.Choice -= c.Choice % c.Cols()
	case KeyLineEnd:
		k := c.Cols()
		c.Choice += k - 1 - c.Choice%k
		if c.Choice >= n {
			c.Choice = n - 1
		}
	case KeyNext, KeyPrev:
		// up and down stay in the column
		k := c.Cols()
		col, row := c.Choice%k, c.Choice/k
		rows := (n - col + k - 1) / k // rows that have this column
		if r == KeyNext {
			row = (row + 1) % rows
		} else {
			row = (row + rows - 1) % rows
		}
		c.Choice = row*k + col
	case KeyBell, KeyInterrupt:
		c.leave()
	default:
		c.leaveSelect()
		return false
	}
	return true
}

// EndOfInput gives up the choice.
func (c *Comp) EndOfInput() { c.leave() }
