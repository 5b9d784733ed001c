package model

import "strings"

// HFile is a history file.
type HFile struct {
	Content string
	Exists  bool
}

// Lines are the entries of a file's content.
func Lines(content string) [][]rune {
	var out [][]rune
	for _, l := range strings.Split(content, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			out = append(out, []rune(l))
		}
	}
	return out
}

// Ended is the content with its last line ended.
func Ended(content string) string {
	if content != "" && !strings.HasSuffix(content, "\n") {
		content += "\n"
	}
	return content
}

// Trimmed is what a history of at most limit entries makes of the content.
func Trimmed(content string, limit int) string {
	content = Ended(content)
	if strings.Count(content, "\n") <= limit {
		return content
	}
	l := Lines(content)
	if len(l) > limit {
		l = l[len(l)-limit:]
	}
	var sb strings.Builder
	for _, e := range l {
		sb.WriteString(string(e) + "\n")
	}
	return sb.String()
}

// Open is a new history on the file.
func (f *HFile) Open(limit int) *Hist {
	h := NewHist(limit)
	if limit < 0 {
		return h
	}
	f.Exists = true
	f.Content = Trimmed(f.Content, limit)
	h.Entries = Lines(f.Content)
	if len(h.Entries) > limit {
		h.Entries = h.Entries[len(h.Entries)-limit:]
	}
	h.Saved = func(s []rune) { f.Content += string(s) + "\n" }
	h.Abandon()
	return h
}
