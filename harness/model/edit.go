// Package model holds the executable specifications that recorded executions are compared with.
// It is written from the documentation (doc/shortcut.md, the API comments) and describes what a
// user can observe: the line, the cursor, what each read call returns, and the history.
package model

// Keys as the library's documentation numbers them (control characters, and negative values for
// Meta combinations).
const (
	KeyLineStart = 1
	KeyBackward  = 2
	KeyInterrupt = 3
	KeyDelete    = 4
	KeyLineEnd   = 5
	KeyForward   = 6
	KeyBell      = 7
	KeyCtrlH     = 8
	KeyTab       = 9
	KeyCtrlJ     = 10
	KeyKill      = 11
	KeyCtrlL     = 12
	KeyEnter     = 13
	KeyNext      = 14
	KeyPrev      = 16
	KeyBck       = 18
	KeyFwd       = 19
	KeyTranspose = 20
	KeyCtrlU     = 21
	KeyCtrlW     = 23
	KeyCtrlY     = 25
	KeyCtrlZ     = 26
	KeyEsc       = 27
	KeyBackspace = 127

	KeyMetaB  = -1
	KeyMetaF  = -2
	KeyMetaD  = -3
	KeyMetaBS = -4
	KeyMetaT  = -5
)

func wordChar(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9'
}

// Line is the edited line: the text, the cursor (number of runes before it) and the last cut text.
type Line struct {
	Buf  []rune
	Pos  int
	Kill []rune
}

func cp(r []rune) []rune { return append([]rune{}, r...) }

func (l *Line) Set(s []rune)          { l.Buf = cp(s); l.Pos = len(s) }
func (l *Line) SetAt(s []rune, p int) { l.Buf = cp(s); l.Pos = p }
func (l *Line) Insert(s []rune) {
	n := cp(l.Buf[:l.Pos])
	n = append(n, s...)
	n = append(n, l.Buf[l.Pos:]...)
	l.Buf = n
	l.Pos += len(s)
}

// cut removes [a,b) and leaves the cursor at a; it does not touch Kill.
func (l *Line) cut(a, b int) []rune {
	t := cp(l.Buf[a:b])
	l.Buf = append(cp(l.Buf[:a]), l.Buf[b:]...)
	l.Pos = a
	return t
}

// wordStartLeft is the nearest start of a word strictly left of p, or 0.
func (l *Line) wordStartLeft(p int) int {
	for i := p - 1; i > 0; i-- {
		if wordChar(l.Buf[i]) && !wordChar(l.Buf[i-1]) {
			return i
		}
	}
	return 0
}

// wordStartRight is the nearest start of a word strictly right of p, or the end.
func (l *Line) wordStartRight(p int) int {
	for i := p + 1; i < len(l.Buf); i++ {
		if wordChar(l.Buf[i]) && !wordChar(l.Buf[i-1]) {
			return i
		}
	}
	return len(l.Buf)
}

func (l *Line) Home() { l.Pos = 0 }
func (l *Line) End()  { l.Pos = len(l.Buf) }
func (l *Line) Left() {
	if l.Pos > 0 {
		l.Pos--
	}
}
func (l *Line) Right() {
	if l.Pos < len(l.Buf) {
		l.Pos++
	}
}
func (l *Line) PrevWord() { l.Pos = l.wordStartLeft(l.Pos) }
func (l *Line) NextWord() { l.Pos = l.wordStartRight(l.Pos) }

func (l *Line) Backspace() {
	if l.Pos > 0 {
		l.cut(l.Pos-1, l.Pos)
	}
}
func (l *Line) Delete() bool {
	if l.Pos == len(l.Buf) {
		return false
	}
	l.Kill = l.cut(l.Pos, l.Pos+1)
	return true
}
func (l *Line) KillToEnd() { l.Kill = l.cut(l.Pos, len(l.Buf)) }
func (l *Line) KillToStart() {
	if l.Pos > 0 {
		l.Kill = l.cut(0, l.Pos)
	}
}
func (l *Line) CutPrevWord() {
	if l.Pos > 0 {
		l.Kill = l.cut(l.wordStartLeft(l.Pos), l.Pos)
	}
}

// DeleteWord removes the separators under the cursor and the word that follows, and keeps one
// separator before the next word (that is how the library defines it).
func (l *Line) DeleteWord() {
	if l.Pos == len(l.Buf) {
		return
	}
	p := l.Pos
	for p < len(l.Buf) && !wordChar(l.Buf[p]) {
		p++
	}
	for i := p + 1; i < len(l.Buf); i++ {
		if wordChar(l.Buf[i]) && !wordChar(l.Buf[i-1]) {
			l.Kill = l.cut(l.Pos, i-1)
			return
		}
	}
	l.KillToEnd()
}
func (l *Line) Yank() { l.Insert(cp(l.Kill)) }
func (l *Line) Erase() {
	l.Kill = cp(l.Buf)
	l.Buf, l.Pos = nil, 0
}

// Transpose swaps the character before the cursor with the one under it (the last two at the end of
// the line, the first two at its start) and moves past them.
func (l *Line) Transpose() {
	n := len(l.Buf)
	if n == 1 {
		l.Pos = 1
	}
	if n < 2 {
		return
	}
	switch {
	case l.Pos == 0:
		l.Pos = 1
	case l.Pos >= n:
		l.Pos = n - 1
	}
	b := cp(l.Buf)
	b[l.Pos-1], b[l.Pos] = b[l.Pos], b[l.Pos-1]
	l.Buf = b
	l.Pos++
}

// EndWord: vim's e.
func (l *Line) EndWord() {
	n := len(l.Buf)
	if l.Pos == n {
		return
	}
	p := l.Pos
	if wordChar(l.Buf[p]) && p+1 < n && !wordChar(l.Buf[p+1]) {
		p++
	}
	for i := p + 1; i < n; i++ {
		if !wordChar(l.Buf[i]) && wordChar(l.Buf[i-1]) {
			l.Pos = i - 1
			return
		}
	}
	l.Pos = n
}

func (l *Line) Find(ch rune, till, back bool) {
	if back {
		for i := l.Pos - 1; i >= 0; i-- {
			if l.Buf[i] == ch {
				l.Pos = i
				if till {
					l.Pos++
				}
				return
			}
		}
		return
	}
	for i := l.Pos + 1; i < len(l.Buf); i++ {
		if l.Buf[i] == ch {
			l.Pos = i
			if till {
				l.Pos--
			}
			return
		}
	}
}
