package model

// What one key did, as far as the read call is concerned.
type Outcome int

const (
	None      Outcome = iota
	Submit            // the read call returns the line
	Interrupt         // the read call returns the interrupt error and the line
	EOF               // the read call returns end of file
)

// Session is the whole editor state of one instance .
type Session struct {
	Line
	H *Hist
	C Comp

	Vim       bool
	VimNormal bool
	AutoSave  bool
	TabText   []rune // what an accepted completion inserts
	NoTab     bool   // width unknown: completion is refused
	NoSearch  bool   // width unknown: search is refused

	InSearch bool
	SearchFw bool
	Pat      []rune
	origin   int
	Failing  bool
	Match    int // number of successful searches, for evidence
	MatchAt  int // where in the line the last match is
	MatchLen int
}

func NewSession(limit int) *Session {
	return &Session{H: NewHist(limit), AutoSave: true, TabText: []rune("\t")}
}

// Result of Step.
type Step struct {
	Out    Outcome
	Text   []rune
	Silent bool // the key listener is not told about this key
	Saved  bool // an entry was added to the history
	Key    rune // what the key means in the vi mode it met
	Edit   bool // the line counts as the current history entry's pending edit
}

// Step processes one decoded key. next supplies the argument of vim commands that take one.
func (s *Session) Step(r rune, next func() rune) Step {
	if s.C.Select && s.selectKey(r) {
		return Step{Silent: true}
	}
	if s.Vim {
		if s.VimNormal {
			var ok bool
			r, ok = s.vimNormal(r, next)
			if !ok {
				s.H.Edited(s.Buf)
				return Step{Silent: true}
			}
		} else if r == KeyEsc {
			s.VimNormal = true
			s.leaveSearch()
			s.C.leave()
			s.H.Edited(s.Buf)
			return Step{Silent: true}
		}
	}
	keepSearch, keepList, update := false, false, true
	st := Step{Key: r}
	switch r {
	case KeyBell:
		if s.InSearch {
			s.cancelSearch()
		}
	case KeyTab:
		if s.C.Do == nil {
			s.Insert(s.TabText)
			break
		}
		if !s.NoTab {
			s.complete()
			keepList = true
		}
	case KeyBck, KeyFwd:
		if s.NoSearch {
			break
		}
		s.SearchFw = r == KeyFwd
		if s.InSearch {
			s.search(false)
		} else {
			s.InSearch, s.Pat, s.Failing = true, nil, false
			s.origin = s.H.Pos
		}
		keepSearch = true
	case KeyCtrlU:
		s.KillToStart()
	case KeyKill:
		s.KillToEnd()
		keepList = true
	case KeyMetaF:
		s.NextWord()
	case KeyMetaB:
		s.PrevWord()
	case KeyTranspose:
		s.Transpose()
	case KeyMetaD:
		s.DeleteWord()
	case KeyLineStart:
		s.Home()
	case KeyLineEnd:
		s.End()
	case KeyBackspace, KeyCtrlH:
		if s.InSearch {
			if len(s.Pat) > 0 {
				s.Pat = s.Pat[:len(s.Pat)-1]
				s.search(true)
			}
			keepSearch = true
			break
		}
		if len(s.Buf) > 0 {
			s.Backspace()
			if s.C.Listed {
				s.complete() // the completer is asked although the list goes
			}
		}
	case KeyCtrlL, KeyMetaT:
	case KeyMetaBS, KeyCtrlW:
		s.CutPrevWord()
	case KeyCtrlY:
		s.Yank()
	case KeyEnter, KeyCtrlJ:
		st.Out, st.Text = Submit, cp(s.Buf)
		s.leaveSearch()
		s.Buf, s.Pos = nil, 0
		if s.AutoSave {
			st.Saved = s.H.Commit(st.Text)
		} else {
			s.H.Abandon()
			update = false
		}
	case KeyBackward:
		s.Left()
	case KeyForward:
		s.Right()
	case KeyPrev:
		if t, ok := s.H.Prev(); ok {
			s.Set(t)
		}
	case KeyNext:
		if t, ok := s.H.Next(); ok {
			s.Set(t)
		}
	case KeyDelete:
		if len(s.Buf) > 0 || s.InSearch || s.C.Listed {
			s.Delete()
			break
		}
		st.Out = EOF
		s.Buf, s.Pos = nil, 0
		s.H.Abandon()
		update = false
	case KeyInterrupt:
		if s.InSearch {
			s.cancelSearch()
			break
		}
		if s.C.Listed {
			break
		}
		st.Out, st.Text = Interrupt, cp(s.Buf)
		s.Buf, s.Pos = nil, 0
		s.H.Abandon()
		update = false
	default:
		if s.InSearch {
			s.Pat = append(s.Pat, r)
			s.search(true)
			keepSearch = true
			break
		}
		s.Insert([]rune{r})
		if s.C.Listed {
			s.complete()
			keepList = true
		}
	}
	if !keepList {
		s.C.leave()
	}
	if !keepSearch {
		s.leaveSearch()
	}
	if update && !s.InSearch {
		s.H.Edited(s.Buf)
		st.Edit = true
	}
	return st
}

func (s *Session) leaveSearch() {
	s.InSearch, s.Pat, s.Failing = false, nil, false
	s.MatchLen = 0
}

func (s *Session) cancelSearch() {
	s.H.Pos = s.origin
	s.Set(s.H.Shown(s.H.Pos))
	s.leaveSearch()
}

// search moves to the nearest match. refine is set when the pattern changed: the match under the
// cursor still counts then; otherwise the search continues past it.
func (s *Session) search(refine bool) {
	if len(s.Pat) == 0 {
		s.Failing = false
		return
	}
	var pos, at int
	var ok bool
	if s.SearchFw {
		from := s.Pos
		if refine {
			from -= len(s.Pat)
			if from < 0 {
				from = 0
			}
		}
		pos, at, ok = s.H.FindForward(s.Pat, from)
	} else {
		end := s.Pos
		if refine {
			end += len(s.Pat)
		}
		pos, at, ok = s.H.FindBack(s.Pat, end)
	}
	if !ok {
		s.Failing = true
		return
	}
	s.Failing = false
	s.Match++
	s.MatchAt, s.MatchLen = at, len(s.Pat)
	s.H.Pos = pos
	c := at
	if s.SearchFw {
		c += len(s.Pat)
	}
	s.SetAt(s.H.Shown(pos), c)
}

func (s *Session) vimNormal(r rune, next func() rune) (rune, bool) {
	switch r {
	case KeyEnter, KeyCtrlJ, KeyInterrupt:
		s.VimNormal = false
		return r, true
	case 'h':
		return KeyBackward, true
	case 'j':
		return KeyNext, true
	case 'k':
		return KeyPrev, true
	case 'l':
		return KeyForward, true
	case '0', '^':
		s.Home()
	case '$':
		s.End()
	case 'x':
		s.Delete()
		if s.Pos == len(s.Buf) {
			s.Left()
		}
	case 'r':
		c := next()
		if s.Pos < len(s.Buf) && c != 0 { // 0 is the end of the input
			b := cp(s.Buf)
			b[s.Pos] = c
			s.Buf = b
		}
	case 'd':
		s.vimObject(next(), 'd')
	case 'p':
		s.Yank()
	case 'b', 'B':
		s.PrevWord()
	case 'w', 'W':
		s.NextWord()
	case 'e', 'E':
		s.EndWord()
	case 'f', 'F', 't', 'T':
		c := next()
		if c != KeyEsc {
			s.Find(c, r == 't' || r == 'T', r == 'F' || r == 'T')
		}
	case 'i':
		s.VimNormal = false
	case 'I':
		s.VimNormal = false
		s.Home()
	case 'a':
		s.VimNormal = false
		s.Right()
	case 'A':
		s.VimNormal = false
		s.End()
	case 's':
		s.VimNormal = false
		s.Delete()
	case 'S':
		s.VimNormal = false
		s.Erase()
	case 'c':
		s.VimNormal = false
		s.vimObject(next(), 'c')
	}
	return 0, false
}

func (s *Session) vimObject(o, verb rune) {
	switch o {
	case verb:
		s.Erase()
	case 'w':
		s.DeleteWord()
	case 'h':
		s.Backspace()
	case 'l':
		s.Delete()
	}
}
