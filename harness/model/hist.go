package model

// Hist is the command history as a user sees it: the committed entries, oldest first, the position
// of the cursor in it (len(Entries) is the line being composed), and the uncommitted edits that each
// position shows until the line is submitted or abandoned.
type Hist struct {
	Entries [][]rune
	Pos     int
	edits   map[int][]rune
	Limit   int // as configured: negative for none
	Off     bool
	Fold    bool
	Saved   func([]rune) // told of every entry added
}

func NewHist(limit int) *Hist { return &Hist{Limit: limit, edits: map[int][]rune{}} }

func same(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (h *Hist) Shown(i int) []rune {
	if e, ok := h.edits[i]; ok {
		return e
	}
	if i < len(h.Entries) {
		return h.Entries[i]
	}
	return nil
}

// Edited records what the line at the current position looks like now.
func (h *Hist) Edited(s []rune) {
	h.edits[h.Pos] = cp(s)
}

func (h *Hist) Prev() ([]rune, bool) {
	if h.Pos == 0 {
		return nil, false
	}
	h.Pos--
	return h.Shown(h.Pos), true
}

func (h *Hist) Next() ([]rune, bool) {
	if h.Pos >= len(h.Entries) {
		return nil, false
	}
	h.Pos++
	return h.Shown(h.Pos), true
}

// Abandon drops the uncommitted edits (interrupt, end of file).
func (h *Hist) Abandon() {
	h.edits = map[int][]rune{}
	h.Pos = len(h.Entries)
}

// Reset forgets everything.
func (h *Hist) Reset() {
	h.Entries = nil
	h.Abandon()
}

// Commit saves a submitted line. It reports whether an entry was added.
func (h *Hist) Commit(s []rune) bool {
	h.Abandon()
	if h.Off || h.Limit < 0 {
		return false
	}
	if len(s) == 0 {
		return false
	}
	if n := len(h.Entries); n > 0 && same(h.Entries[n-1], s) {
		return false
	}
	h.Entries = append(h.Entries, cp(s))
	if h.Saved != nil {
		h.Saved(s)
	}
	h.Pos = len(h.Entries)
	if h.Limit > 0 && len(h.Entries) > h.Limit {
		h.Entries = h.Entries[len(h.Entries)-h.Limit:]
		h.Pos = len(h.Entries)
	}
	return true
}

func eqRune(a, b rune, fold bool) bool {
	if a == b {
		return true
	}
	if !fold {
		return false
	}
	lo := func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}
	return lo(a) == lo(b)
}

func matchAt(s, p []rune, i int, fold bool) bool {
	if i < 0 || i+len(p) > len(s) {
		return false
	}
	for j := range p {
		if !eqRune(s[i+j], p[j], fold) {
			return false
		}
	}
	return true
}

// FindBack looks for the last match that ends at or before `end` in the line at the current
// position, then for the last match in each older line.
func (h *Hist) FindBack(p []rune, end int) (pos, at int, ok bool) {
	for i := h.Pos; i >= 0; i-- {
		s := h.Shown(i)
		if i == h.Pos && end < len(s) {
			s = s[:end]
		}
		for a := len(s) - len(p); a >= 0; a-- {
			if matchAt(s, p, a, h.Fold) {
				return i, a, true
			}
		}
	}
	return 0, 0, false
}

// FindForward looks for the first match that starts at or after `from` in the line at the current
// position, then for the first match in each newer line.
func (h *Hist) FindForward(p []rune, from int) (pos, at int, ok bool) {
	for i := h.Pos; i <= len(h.Entries); i++ {
		s := h.Shown(i)
		a := 0
		if i == h.Pos {
			a = from
		}
		for ; a+len(p) <= len(s); a++ {
			if matchAt(s, p, a, h.Fold) {
				return i, a, true
			}
		}
	}
	return 0, 0, false
}
