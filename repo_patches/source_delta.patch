From 1844089efc488e3d3993acd60ffbf7414f300889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:38 +0000
Subject: [PATCH 01/83] fix: cutting the first word keeps the text after the
 cursor

BackEscapeWord emptied the whole line when no word starts before the
cursor, and did not remember the cut text for Yank.
---
 runebuf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index d95df1e..a87805f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -340,7 +340,8 @@ func (r *RuneBuffer) BackEscapeWord() {
 			}
 		}
 
-		r.buf = r.buf[:0]
+		r.pushKill(r.buf[:r.idx])
+		r.buf = append(r.buf[:0], r.buf[r.idx:]...)
 		r.idx = 0
 	})
 }
-- 
2.43.0


From f25b88504335ea56ff5586e6e973ca2bdd372027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:39 +0000
Subject: [PATCH 02/83] fix: Transpose leaves the cursor inside a one-character
 line

The cursor moved past the end of the line and the next edit panicked.
---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index a87805f..d8e7c71 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -274,7 +274,7 @@ func (r *RuneBuffer) Kill() {
 func (r *RuneBuffer) Transpose() {
 	r.Refresh(func() {
 		if len(r.buf) == 1 {
-			r.idx++
+			r.idx = 1
 		}
 
 		if len(r.buf) < 2 {
-- 
2.43.0


From 58046a8d8c2aab2ee256abd1f254f3489b584eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 03/83] fix: a history without a file has a line being composed
 from the start

Until the first key there was no current history item: cancelling a search
at the first prompt panicked, an empty first line was recorded, and
SaveHistory right after ResetHistory did not reach the history file. Loading
the file again after a ReadPassword also duplicated its lines in memory.
---
 history.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 6b17c46..df86cb9 100644
--- a/history.go
+++ b/history.go
@@ -36,12 +36,14 @@ func newOpHistory(cfg *Config) (o *opHistory) {
 		history: list.New(),
 		enable:  true,
 	}
+	// the line being composed
+	o.Push(nil)
 	return o
 }
 
 func (o *opHistory) Reset() {
 	o.history = list.New()
-	o.current = nil
+	o.Push(nil)
 }
 
 func (o *opHistory) IsHistoryClosed() bool {
@@ -71,6 +73,7 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.fd = f
+	o.history.Init()
 	r := bufio.NewReader(o.fd)
 	total := 0
 	for ; ; total++ {
-- 
2.43.0


From fc65173f0e94f67ed8ae2923027cef0f8b9e79f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 04/83] fix: save the submitted line when it came from an older
 history item

New replaced the line it was given by the item's last recorded edit, which
is empty or stale when the item was reached by a search, and is not what the
caller of SaveHistory passed.
---
 history.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/history.go b/history.go
index df86cb9..5d80f3c 100644
--- a/history.go
+++ b/history.go
@@ -278,14 +278,8 @@ func (o *opHistory) New(current []rune) (err error) {
 		}
 	}
 
-	if o.current != o.history.Back() {
-		// move history item to current command
-		currentItem := o.current.Value.(*hisItem)
-		// set current to last item
-		o.current = o.history.Back()
-
-		current = runes.Copy(currentItem.Tmp)
-	}
+	// an edited history item is saved as the current command
+	o.current = o.history.Back()
 
 	// err only can be a IO error, just report
 	err = o.Update(current, true)
-- 
2.43.0


From 42634ee77a19c7d68e2392aa88a114fa5c89f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 05/83] fix: cancelling a search returns to the line where it
 started

Pressing the search key again replaced the starting point by the match.
---
 search.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index 52e8ff0..67f9389 100644
--- a/search.go
+++ b/search.go
@@ -103,7 +103,9 @@ func (o *opSearch) SearchMode(dir int) bool {
 	alreadyInMode := o.inMode
 	o.inMode = true
 	o.dir = dir
-	o.source = o.history.current
+	if !alreadyInMode {
+		o.source = o.history.current
+	}
 	if alreadyInMode {
 		o.search(false)
 	} else {
-- 
2.43.0


From 40ff69dc9bad007bfe97a4361dcaa01c27449df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 06/83] fix: editing a line found by search no longer edits the
 history item

The edit buffer shared the item's storage. Also do not panic when a search
is cancelled while the history is disabled and holds no item.
---
 search.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/search.go b/search.go
index 67f9389..c0c5e39 100644
--- a/search.go
+++ b/search.go
@@ -77,7 +77,7 @@ func (o *opSearch) search(isChange bool) bool {
 	}
 	o.history.current = elem
 
-	item := o.history.showItem(o.history.current.Value)
+	item := runes.Copy(o.history.showItem(o.history.current.Value))
 	start, end := 0, 0
 	if o.dir == S_DIR_BCK {
 		start, end = idx, idx+len(o.data)
@@ -117,7 +117,9 @@ func (o *opSearch) SearchMode(dir int) bool {
 func (o *opSearch) ExitSearchMode(revert bool) {
 	if revert {
 		o.history.current = o.source
-		o.buf.Set(o.history.showItem(o.history.current.Value))
+		if o.source != nil {
+			o.buf.Set(runes.Copy(o.history.showItem(o.source.Value)))
+		}
 	}
 	o.markStart, o.markEnd = 0, 0
 	o.state = S_STATE_FOUND
-- 
2.43.0


From 2de18443ff0f5367e7460a74a488b4a35a06366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:30 +0000
Subject: [PATCH 07/83] fix: deliver a line only after it is saved and the key
 is processed

The read returned before the line was saved to the history: a password could
end up in the main history (and its file) when the configuration had been
switched back by then, and the last line was lost when the reader closed the
instance at once.
---
 operation.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index b60939a..7f7751c 100644
--- a/operation.go
+++ b/operation.go
@@ -108,6 +108,8 @@ func (o *Operation) ioloop() {
 	for {
 		keepInSearchMode := false
 		keepInCompleteMode := false
+		// what this key delivers to the pending read, if anything
+		var deliver func()
 		r := o.t.ReadRune()
 
 		if o.GetConfig().FuncFilterInputRune != nil {
@@ -253,7 +255,7 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
-			o.outchan <- data
+			deliver = func() { o.outchan <- data }
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
@@ -294,7 +296,7 @@ func (o *Operation) ioloop() {
 			o.buf.Reset()
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- io.EOF
+			deliver = func() { o.errchan <- io.EOF }
 			if o.GetConfig().UniqueEditLine {
 				o.buf.Clean()
 			}
@@ -322,7 +324,7 @@ func (o *Operation) ioloop() {
 			}
 			isUpdateHistory = false
 			o.history.Revert()
-			o.errchan <- &InterruptError{remain}
+			deliver = func() { o.errchan <- &InterruptError{remain} }
 		default:
 			if o.IsSearchMode() {
 				o.SearchChar(r)
@@ -362,6 +364,12 @@ func (o *Operation) ioloop() {
 			o.history.Update(o.buf.Runes(), false)
 		}
 		o.m.Unlock()
+
+		// Last: the reader may go on to change the configuration or close
+		// the history as soon as it has the line.
+		if deliver != nil {
+			deliver()
+		}
 	}
 }
 
-- 
2.43.0


From 588c9b8d0a4df54b824e8b7c10c75063e4c23262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:30 +0000
Subject: [PATCH 08/83] fix: vim e and r at the end of the line do not panic

---
 runebuf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index d8e7c71..6aa088f 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -187,6 +187,9 @@ func (r *RuneBuffer) IsCursorInEnd() bool {
 
 func (r *RuneBuffer) Replace(ch rune) {
 	r.Refresh(func() {
+		if r.idx == len(r.buf) {
+			return
+		}
 		r.buf[r.idx] = ch
 	})
 }
@@ -311,7 +314,7 @@ func (r *RuneBuffer) MoveToEndWord() {
 			return
 		}
 		// if we are at the end of a word already, go to next
-		if !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
+		if r.idx+1 < len(r.buf) && !IsWordBreak(r.buf[r.idx]) && IsWordBreak(r.buf[r.idx+1]) {
 			r.idx++
 		}
 
-- 
2.43.0


From d9b2479e20c88d6f02bfebdba2ec0a2310b4d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:30 +0000
Subject: [PATCH 09/83] fix: vim normal mode does not stop reading after a key
 it ignores

The terminal waits after Enter, ^J, ^C and ^D until it is told to go on, so
^D or ^J in normal mode, or one of these as the argument of a command, left
the read hanging forever. ^J now submits like Enter, and an edit made in
normal mode is recorded like any other before the history is browsed.
---
 operation.go | 12 +++++++++++-
 vim.go       |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/operation.go b/operation.go
index 7f7751c..07f9100 100644
--- a/operation.go
+++ b/operation.go
@@ -158,8 +158,18 @@ func (o *Operation) ioloop() {
 		}
 
 		if o.IsEnableVimMode() {
-			r = o.HandleVim(r, o.t.ReadRune)
+			last := r
+			r = o.HandleVim(r, func() rune {
+				last = o.t.ReadRune()
+				return last
+			})
 			if r == 0 {
+				switch last {
+				case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+					// the terminal stopped after this key, but the line goes on
+					o.t.KickRead()
+				}
+				o.history.Update(o.buf.Runes(), false)
 				continue
 			}
 		}
diff --git a/vim.go b/vim.go
index bedf2c1..7c5ef2e 100644
--- a/vim.go
+++ b/vim.go
@@ -132,7 +132,7 @@ func (o *opVim) handleVimNormalEnterInsert(r rune, readNext func() rune) (t rune
 
 func (o *opVim) HandleVimNormal(r rune, readNext func() rune) (t rune) {
 	switch r {
-	case CharEnter, CharInterrupt:
+	case CharEnter, CharCtrlJ, CharInterrupt:
 		o.ExitVimMode()
 		return r
 	}
-- 
2.43.0


From 4811d76bc427661744655430f9bb53895d3cc518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:42 +0000
Subject: [PATCH 10/83] fix: cursor position on multi-row lines with wide
 characters, tabs, masks or a long prompt

---
 runebuf.go | 87 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 48 insertions(+), 39 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 6aa088f..e00f885 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -421,16 +421,36 @@ func (r *RuneBuffer) MoveTo(ch rune, prevChar, reverse bool) (success bool) {
 	return
 }
 
+// screenPos is where the cursor is, relative to the start of the prompt, after
+// the prompt and rs (a part of the line) were printed.
+func (r *RuneBuffer) screenPos(rs []rune) (row, col int) {
+	width := r.width
+	if width <= 0 {
+		return 0, 0
+	}
+	start := r.promptLen()
+	row, col = start/width, start%width
+	for _, c := range rs {
+		if r.cfg.EnableMask && c != '\n' {
+			c = r.cfg.MaskRune
+		}
+		w := runes.Width(c)
+		if c != '\t' && col+w > width {
+			// a wide rune that does not fit is not split
+			row, col = row+1, 0
+		}
+		col += w
+		row, col = row+col/width, col%width
+	}
+	return row, col
+}
+
 func (r *RuneBuffer) isInLineEdge() bool {
 	if isWindows {
 		return false
 	}
-	sp := r.getSplitByLine(r.buf)
-	return len(sp[len(sp)-1]) == 0
-}
-
-func (r *RuneBuffer) getSplitByLine(rs []rune) []string {
-	return SplitByLine(r.promptLen(), r.width, rs)
+	_, col := r.screenPos(r.buf)
+	return col == 0
 }
 
 func (r *RuneBuffer) IdxLine(width int) int {
@@ -443,12 +463,16 @@ func (r *RuneBuffer) idxLine(width int) int {
 	if width == 0 {
 		return 0
 	}
-	sp := r.getSplitByLine(r.buf[:r.idx])
-	return len(sp) - 1
+	row, _ := r.screenPos(r.buf[:r.idx])
+	return row
 }
 
+// CursorLineCount is how many rows down from the cursor the screen is free.
 func (r *RuneBuffer) CursorLineCount() int {
-	return r.LineCount(r.width) - r.IdxLine(r.width)
+	r.Lock()
+	defer r.Unlock()
+	endRow, _ := r.screenPos(r.buf)
+	return endRow - r.idxLine(r.width) + 1
 }
 
 func (r *RuneBuffer) Refresh(f func()) {
@@ -490,10 +514,6 @@ func (r *RuneBuffer) output() []byte {
 		} else {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
-		if len(r.buf) > r.idx {
-			buf.Write(r.getBackspaceSequence())
-		}
-
 	} else {
 		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
 			if e == '\t' {
@@ -502,9 +522,9 @@ func (r *RuneBuffer) output() []byte {
 				buf.WriteRune(e)
 			}
 		}
-		if r.isInLineEdge() {
-			buf.Write([]byte(" \b"))
-		}
+	}
+	if r.isInLineEdge() {
+		buf.Write([]byte(" \b"))
 	}
 	// cursor position
 	if len(r.buf) > r.idx {
@@ -513,34 +533,23 @@ func (r *RuneBuffer) output() []byte {
 	return buf.Bytes()
 }
 
+// getBackspaceSequence moves the cursor from the end of the line to r.idx.
 func (r *RuneBuffer) getBackspaceSequence() []byte {
-	var sep = map[int]bool{}
-
-	var i int
-	for {
-		if i >= runes.WidthAll(r.buf) {
-			break
-		}
-
-		if i == 0 {
-			i -= r.promptLen()
-		}
-		i += r.width
-
-		sep[i] = true
+	if r.width <= 0 {
+		return runes.Backspace(r.buf[r.idx:])
 	}
+	endRow, _ := r.screenPos(r.buf)
+	row, col := r.screenPos(r.buf[:r.idx])
+
 	var buf []byte
-	for i := len(r.buf); i > r.idx; i-- {
-		// move input to the left of one
-		buf = append(buf, '\b')
-		if sep[i] {
-			// up one line, go to the start of the line and move cursor right to the end (r.width)
-			buf = append(buf, "\033[A\r"+"\033["+strconv.Itoa(r.width)+"C"...)
-		}
+	if endRow > row {
+		buf = append(buf, "\033["+strconv.Itoa(endRow-row)+"A"...)
+	}
+	buf = append(buf, '\r')
+	if col > 0 {
+		buf = append(buf, "\033["+strconv.Itoa(col)+"C"...)
 	}
-
 	return buf
-
 }
 
 func (r *RuneBuffer) Reset() []rune {
-- 
2.43.0


From 4d4c30f61c09194d1c4f03da8ad9537de8aa7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:16 +0000
Subject: [PATCH 11/83] fix: search display on lines of several rows, and
 prompts wider than the screen

---
 runebuf.go | 85 +++++++++++++++++++++++++++++++++++++++---------------
 search.go  | 28 +++++++++++-------
 2 files changed, 78 insertions(+), 35 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index e00f885..703a347 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -30,6 +30,12 @@ type RuneBuffer struct {
 
 	offset string
 
+	// the row the cursor was left in when the line was last printed, and the
+	// screen width it was printed for
+	printed   bool
+	cursorRow int
+	rowWidth  int
+
 	lastKill []rune
 
 	sync.Mutex
@@ -91,6 +97,14 @@ func (r *RuneBuffer) CurrentWidth(x int) int {
 	return runes.WidthAll(r.buf[:x])
 }
 
+// cursorCol is the column of the i-th rune.
+func (r *RuneBuffer) cursorCol(i int) int {
+	r.Lock()
+	defer r.Unlock()
+	_, col := r.screenPos(r.buf[:i])
+	return col
+}
+
 func (r *RuneBuffer) PromptLen() int {
 	r.Lock()
 	width := r.promptLen()
@@ -428,12 +442,23 @@ func (r *RuneBuffer) screenPos(rs []rune) (row, col int) {
 	if width <= 0 {
 		return 0, 0
 	}
+	if r.cfg.EnableMask {
+		masked := make([]rune, len(rs))
+		for i, c := range rs {
+			masked[i] = c
+			if c != '\n' {
+				masked[i] = r.cfg.MaskRune
+			}
+		}
+		rs = masked
+	}
 	start := r.promptLen()
-	row, col = start/width, start%width
+	return wrapPos(width, start/width, start%width, rs)
+}
+
+// wrapPos is where the cursor is after rs was printed from row, col on.
+func wrapPos(width, row, col int, rs []rune) (int, int) {
 	for _, c := range rs {
-		if r.cfg.EnableMask && c != '\n' {
-			c = r.cfg.MaskRune
-		}
 		w := runes.Width(c)
 		if c != '\t' && col+w > width {
 			// a wide rune that does not fit is not split
@@ -502,6 +527,8 @@ func (r *RuneBuffer) SetOffset(offset string) {
 func (r *RuneBuffer) print() {
 	r.w.Write(r.output())
 	r.hadClean = false
+	r.printed = true
+	r.cursorRow, r.rowWidth = r.idxLine(r.width), r.width
 }
 
 func (r *RuneBuffer) output() []byte {
@@ -539,11 +566,18 @@ func (r *RuneBuffer) getBackspaceSequence() []byte {
 		return runes.Backspace(r.buf[r.idx:])
 	}
 	endRow, _ := r.screenPos(r.buf)
-	row, col := r.screenPos(r.buf[:r.idx])
+	return r.moveCursor(endRow, r.idx)
+}
+
+// moveCursor moves the cursor from the row fromRow to the i-th rune.
+func (r *RuneBuffer) moveCursor(fromRow, i int) []byte {
+	row, col := r.screenPos(r.buf[:i])
 
 	var buf []byte
-	if endRow > row {
-		buf = append(buf, "\033["+strconv.Itoa(endRow-row)+"A"...)
+	if fromRow > row {
+		buf = append(buf, "\033["+strconv.Itoa(fromRow-row)+"A"...)
+	} else if fromRow < row {
+		buf = append(buf, "\033["+strconv.Itoa(row-fromRow)+"B"...)
 	}
 	buf = append(buf, '\r')
 	if col > 0 {
@@ -556,32 +590,29 @@ func (r *RuneBuffer) Reset() []rune {
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
+	r.printed = false
 	return ret
 }
 
-func (r *RuneBuffer) calWidth(m int) int {
-	if m > 0 {
-		return runes.WidthAll(r.buf[r.idx : r.idx+m])
-	}
-	return runes.WidthAll(r.buf[r.idx+m : r.idx])
-}
-
 func (r *RuneBuffer) SetStyle(start, end int, style string) {
 	if end < start {
 		panic("end < start")
 	}
 
-	// goto start
-	move := start - r.idx
-	if move > 0 {
-		r.w.Write([]byte(string(r.buf[r.idx : r.idx+move])))
-	} else {
-		r.w.Write(bytes.Repeat([]byte("\b"), r.calWidth(move)))
-	}
+	r.Lock()
+	defer r.Unlock()
+
+	idxRow, _ := r.screenPos(r.buf[:r.idx])
+	r.w.Write(r.moveCursor(idxRow, start))
 	r.w.Write([]byte("\033[" + style + "m"))
-	r.w.Write([]byte(string(r.buf[start:end])))
+	text := strings.Replace(string(r.buf[start:end]), "\t", strings.Repeat(" ", TabWidth), -1)
+	r.w.Write([]byte(text))
 	r.w.Write([]byte("\033[0m"))
-	// TODO: move back
+	endRow, endCol := r.screenPos(r.buf[:end])
+	if endCol == 0 && end > start {
+		endRow-- // the terminal has not wrapped yet
+	}
+	r.w.Write(r.moveCursor(endRow, r.idx))
 }
 
 func (r *RuneBuffer) SetWithIdx(idx int, buf []rune) {
@@ -630,7 +661,13 @@ func (r *RuneBuffer) Clean() {
 }
 
 func (r *RuneBuffer) clean() {
-	r.cleanWithIdxLine(r.idxLine(r.width))
+	row := 0
+	if r.printed && r.rowWidth == r.width {
+		row = r.cursorRow
+	} else if r.printed {
+		row = r.idxLine(r.width)
+	}
+	r.cleanWithIdxLine(row)
 }
 
 func (r *RuneBuffer) cleanWithIdxLine(idxLine int) {
diff --git a/search.go b/search.go
index c0c5e39..0af969c 100644
--- a/search.go
+++ b/search.go
@@ -134,14 +134,15 @@ func (o *opSearch) SearchRefresh(x int) {
 	} else if x >= 0 {
 		o.state = S_STATE_FOUND
 	}
+	if o.width <= 0 {
+		return
+	}
 	if x < 0 {
 		x = o.buf.idx
 	}
-	x = o.buf.CurrentWidth(x)
-	x += o.buf.PromptLen()
-	x = x % o.width
+	x = o.buf.cursorCol(x)
 
-	if o.markStart > 0 {
+	if o.markEnd > o.markStart {
 		o.buf.SetStyle(o.markStart, o.markEnd, "4")
 	}
 
@@ -149,17 +150,22 @@ func (o *opSearch) SearchRefresh(x int) {
 	buf := bytes.NewBuffer(nil)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 	buf.WriteString("\033[J")
+	label := ""
 	if o.state == S_STATE_FAILING {
-		buf.WriteString("failing ")
+		label = "failing "
 	}
 	if o.dir == S_DIR_BCK {
-		buf.WriteString("bck")
+		label += "bck"
 	} else if o.dir == S_DIR_FWD {
-		buf.WriteString("fwd")
-	}
-	buf.WriteString("-i-search: ")
-	buf.WriteString(string(o.data))         // keyword
-	buf.WriteString("\033[4m \033[0m")      // _
+		label += "fwd"
+	}
+	label += "-i-search: "
+	label += string(o.data) // keyword
+	buf.WriteString(label)
+	buf.WriteString("\033[4m \033[0m") // _
+	// the label may take more than one row
+	labelRow, _ := wrapPos(o.width, 0, 0, []rune(label))
+	lineCnt += labelRow
 	fmt.Fprintf(buf, "\r\033[%dA", lineCnt) // move prev
 	if x > 0 {
 		fmt.Fprintf(buf, "\033[%dC", x) // move forward
-- 
2.43.0


From 5b9e5897fd2c56da7a01a53ff2c2f83b57406599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 12/83] fix: a NUL typed by the user is not taken for the end
 of the input

---
 terminal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terminal.go b/terminal.go
index 38413d0..c506ee7 100644
--- a/terminal.go
+++ b/terminal.go
@@ -197,6 +197,8 @@ func (t *Terminal) ioloop() {
 
 		expectNextChar = true
 		switch r {
+		case 0:
+			// a NUL (Ctrl+Space) is not the end of the input
 		case CharEsc:
 			if t.cfg.VimMode {
 				t.outchan <- r
-- 
2.43.0


From 36df1494b5b0ecb47ae6eb80ef3e3c4dd9f3de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:49 +0000
Subject: [PATCH 13/83] fix: an unsupported Meta key does not insert an invalid
 character

---
 operation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operation.go b/operation.go
index 07f9100..a1699ea 100644
--- a/operation.go
+++ b/operation.go
@@ -219,6 +219,9 @@ func (o *Operation) ioloop() {
 			o.buf.Transpose()
 		case MetaBackward:
 			o.buf.MoveToPrevWord()
+		case MetaTranspose:
+			// not supported
+			o.t.Bell()
 		case MetaDelete:
 			o.buf.DeleteWord()
 		case CharLineStart:
-- 
2.43.0


From 6bbc079098eaaf4fc0cc07778856b4157e6f6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 14/83] fix: a config without a Painter can be set at runtime

---
 readline.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readline.go b/readline.go
index 63b9171..1ab479b 100644
--- a/readline.go
+++ b/readline.go
@@ -124,6 +124,9 @@ func (c *Config) Init() error {
 		c.EOFPrompt = ""
 	}
 
+	if c.Painter == nil {
+		c.Painter = &defaultPainter{}
+	}
 	if c.AutoComplete == nil {
 		c.AutoComplete = &TabCompleter{}
 	}
@@ -167,9 +170,6 @@ func NewEx(cfg *Config) (*Instance, error) {
 		return nil, err
 	}
 	rl := t.Readline()
-	if cfg.Painter == nil {
-		cfg.Painter = &defaultPainter{}
-	}
 	return &Instance{
 		Config:    cfg,
 		Terminal:  t,
-- 
2.43.0


From 46b115025d638d1d6547b52b077fe15b7109e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:50 +0000
Subject: [PATCH 15/83] fix: VimMode of a config set at runtime takes effect

---
 readline.go | 1 +
 vim.go      | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/readline.go b/readline.go
index 1ab479b..59ee648 100644
--- a/readline.go
+++ b/readline.go
@@ -319,6 +319,7 @@ func (i *Instance) SetConfig(cfg *Config) *Config {
 	old := i.Config
 	i.Config = cfg
 	i.Operation.SetConfig(cfg)
+	i.Operation.opVim.SetConfig(cfg)
 	i.Terminal.SetConfig(cfg)
 	return old
 }
diff --git a/vim.go b/vim.go
index 7c5ef2e..9148bac 100644
--- a/vim.go
+++ b/vim.go
@@ -29,6 +29,11 @@ func (o *opVim) SetVimMode(on bool) {
 	o.vimMode = VIM_INSERT
 }
 
+func (o *opVim) SetConfig(cfg *Config) {
+	o.cfg = cfg
+	o.vimMode = VIM_INSERT
+}
+
 func (o *opVim) ExitVimMode() {
 	o.vimMode = VIM_INSERT
 }
-- 
2.43.0


From 0faf90a5f90cae9ac0ad5d336d035872c5a93f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:10 +0000
Subject: [PATCH 16/83] fix: reading again after the end of the input returns
 io.EOF instead of blocking

---
 operation.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index a1699ea..8e65e8e 100644
--- a/operation.go
+++ b/operation.go
@@ -25,6 +25,7 @@ type Operation struct {
 	buf     *RuneBuffer
 	outchan chan []rune
 	errchan chan error
+	eof     chan struct{} // closed when the input has ended
 	w       io.Writer
 
 	history *opHistory
@@ -73,6 +74,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
 		errchan: make(chan error, 1),
+		eof:     make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -125,9 +127,7 @@ func (o *Operation) ioloop() {
 		if r == 0 { // io.EOF
 			if o.buf.Len() == 0 {
 				o.buf.Clean()
-				select {
-				case o.errchan <- io.EOF:
-				}
+				close(o.eof)
 				break
 			} else {
 				// if stdin got io.EOF and there is something left in buffer,
@@ -418,6 +418,8 @@ func (o *Operation) Runes() ([]rune, error) {
 			return e.Line, ErrInterrupt
 		}
 		return nil, err
+	case <-o.eof:
+		return nil, io.EOF
 	}
 }
 
-- 
2.43.0


From 1d1ad26d584944976fbd17fe2f25c65b24f1328f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 17/83] fix: FuncFilterInputRune cannot reject the end of the
 input (busy loop)

---
 operation.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 8e65e8e..ef9e89c 100644
--- a/operation.go
+++ b/operation.go
@@ -114,7 +114,8 @@ func (o *Operation) ioloop() {
 		var deliver func()
 		r := o.t.ReadRune()
 
-		if o.GetConfig().FuncFilterInputRune != nil {
+		// the end of the input is not a key
+		if r != 0 && o.GetConfig().FuncFilterInputRune != nil {
 			var process bool
 			r, process = o.GetConfig().FuncFilterInputRune(r)
 			if !process {
-- 
2.43.0


From f1c91d3872066d9cbfbf5cbdef8736ab1ab31a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 18/83] fix: every read returns io.EOF after Close, and a line
 left unread does not block Close

---
 operation.go | 27 +++++++++++++++++++++++----
 readline.go  |  2 +-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/operation.go b/operation.go
index ef9e89c..990befe 100644
--- a/operation.go
+++ b/operation.go
@@ -26,6 +26,8 @@ type Operation struct {
 	outchan chan []rune
 	errchan chan error
 	eof     chan struct{} // closed when the input has ended
+	stop    chan struct{} // closed by Close
+	closed  sync.Once
 	w       io.Writer
 
 	history *opHistory
@@ -75,6 +77,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		outchan: make(chan []rune),
 		errchan: make(chan error, 1),
 		eof:     make(chan struct{}),
+		stop:    make(chan struct{}),
 	}
 	op.w = op.buf.w
 	op.SetConfig(cfg)
@@ -126,7 +129,10 @@ func (o *Operation) ioloop() {
 		}
 
 		if r == 0 { // io.EOF
-			if o.buf.Len() == 0 {
+			if o.isClosed() {
+				close(o.eof)
+				break
+			} else if o.buf.Len() == 0 {
 				o.buf.Clean()
 				close(o.eof)
 				break
@@ -269,7 +275,12 @@ func (o *Operation) ioloop() {
 				o.buf.Clean()
 				data = o.buf.Reset()
 			}
-			deliver = func() { o.outchan <- data }
+			deliver = func() {
+				select {
+				case o.outchan <- data:
+				case <-o.stop:
+				}
+			}
 			if !o.GetConfig().DisableAutoSaveHistory {
 				// ignore IO error
 				_ = o.history.New(data)
@@ -421,6 +432,8 @@ func (o *Operation) Runes() ([]rune, error) {
 		return nil, err
 	case <-o.eof:
 		return nil, io.EOF
+	case <-o.stop:
+		return nil, io.EOF
 	}
 }
 
@@ -460,11 +473,17 @@ func (o *Operation) Slice() ([]byte, error) {
 }
 
 func (o *Operation) Close() {
+	o.closed.Do(func() { close(o.stop) })
+	o.history.Close()
+}
+
+func (o *Operation) isClosed() bool {
 	select {
-	case o.errchan <- io.EOF:
+	case <-o.stop:
+		return true
 	default:
+		return false
 	}
-	o.history.Close()
 }
 
 func (o *Operation) SetHistoryPath(path string) {
diff --git a/readline.go b/readline.go
index 59ee648..d61f32b 100644
--- a/readline.go
+++ b/readline.go
@@ -275,8 +275,8 @@ func (i *Instance) ReadSlice() ([]byte, error) {
 // if there has a pending reading operation, that reading will be interrupted.
 // so you can capture the signal and call Instance.Close(), it's thread-safe.
 func (i *Instance) Close() error {
-	i.Config.Stdin.Close()
 	i.Operation.Close()
+	i.Config.Stdin.Close()
 	if err := i.Terminal.Close(); err != nil {
 		return err
 	}
-- 
2.43.0


From a7fb4d30848de54328ccdd7be938fc3e25fa0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 19/83] fix: a key replaced by FuncFilterInputRune neither
 stops the input nor leaves it running

---
 operation.go | 9 ++++++---
 terminal.go  | 9 +++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index 990befe..45fe9e3 100644
--- a/operation.go
+++ b/operation.go
@@ -120,9 +120,13 @@ func (o *Operation) ioloop() {
 		// the end of the input is not a key
 		if r != 0 && o.GetConfig().FuncFilterInputRune != nil {
 			var process bool
+			typed := r
 			r, process = o.GetConfig().FuncFilterInputRune(r)
-			if !process {
+			if stopsReading(typed) && !(process && stopsReading(r)) {
+				// the terminal waits, but the line goes on
 				o.t.KickRead()
+			}
+			if !process {
 				o.buf.Refresh(nil) // to refresh the line
 				continue           // ignore this rune
 			}
@@ -171,8 +175,7 @@ func (o *Operation) ioloop() {
 				return last
 			})
 			if r == 0 {
-				switch last {
-				case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+				if stopsReading(last) {
 					// the terminal stopped after this key, but the line goes on
 					o.t.KickRead()
 				}
diff --git a/terminal.go b/terminal.go
index c506ee7..0af6e2d 100644
--- a/terminal.go
+++ b/terminal.go
@@ -115,6 +115,15 @@ func (t *Terminal) KickRead() {
 	}
 }
 
+// stopsReading tells whether the terminal waits for KickRead after r.
+func stopsReading(r rune) bool {
+	switch r {
+	case CharInterrupt, CharEnter, CharCtrlJ, CharDelete:
+		return true
+	}
+	return false
+}
+
 func (t *Terminal) ioloop() {
 	t.wg.Add(1)
 	defer func() {
-- 
2.43.0


From 3631e7903f0c7639234f0ecc2109f76e98f6611b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:11 +0000
Subject: [PATCH 20/83] fix: FillableStdin keeps what does not fit, has the
 data when Write returns, and closes its stdin

---
 std.go | 63 +++++++++++++++++++++-------------------------------------
 1 file changed, 23 insertions(+), 40 deletions(-)

diff --git a/std.go b/std.go
index 61d44b7..b49317d 100644
--- a/std.go
+++ b/std.go
@@ -136,62 +136,45 @@ func (c *CancelableStdin) Close() error {
 // reading into the real stdin
 type FillableStdin struct {
 	sync.Mutex
-	stdin       io.Reader
-	stdinBuffer io.ReadCloser
-	buf         []byte
-	bufErr      error
+	stdin io.Reader
+	buf   []byte
 }
 
 // NewFillableStdin gives you FillableStdin
 func NewFillableStdin(stdin io.Reader) (io.ReadCloser, io.Writer) {
-	r, w := io.Pipe()
-	s := &FillableStdin{
-		stdinBuffer: r,
-		stdin:       stdin,
-	}
-	s.ioloop()
-	return s, w
-}
-
-func (s *FillableStdin) ioloop() {
-	go func() {
-		for {
-			bufR := make([]byte, 100)
-			var n int
-			n, s.bufErr = s.stdinBuffer.Read(bufR)
-			if s.bufErr != nil {
-				if s.bufErr == io.ErrClosedPipe {
-					break
-				}
-			}
-			s.Lock()
-			s.buf = append(s.buf, bufR[:n]...)
-			s.Unlock()
-		}
-	}()
+	s := &FillableStdin{stdin: stdin}
+	return s, &fillableWriter{s}
+}
+
+type fillableWriter struct {
+	s *FillableStdin
+}
+
+func (w *fillableWriter) Write(p []byte) (int, error) {
+	w.s.Lock()
+	w.s.buf = append(w.s.buf, p...)
+	w.s.Unlock()
+	return len(p), nil
 }
 
 // Read will read from the local buffer and if no data, read from stdin
 func (s *FillableStdin) Read(p []byte) (n int, err error) {
 	s.Lock()
-	i := len(s.buf)
-	if len(p) < i {
-		i = len(p)
-	}
-	if i > 0 {
-		n := copy(p, s.buf)
-		s.buf = s.buf[:0]
-		cerr := s.bufErr
-		s.bufErr = nil
+	if len(s.buf) > 0 {
+		n = copy(p, s.buf)
+		s.buf = s.buf[n:]
 		s.Unlock()
-		return n, cerr
+		return n, nil
 	}
 	s.Unlock()
 	n, err = s.stdin.Read(p)
 	return n, err
 }
 
+// Close closes the real stdin, if it can be closed, to end a pending Read.
 func (s *FillableStdin) Close() error {
-	s.stdinBuffer.Close()
+	if closer, ok := s.stdin.(io.Closer); ok {
+		return closer.Close()
+	}
 	return nil
 }
-- 
2.43.0


From 5c0e191881ffb4f45fb96ed6d0b053abe4b5ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 21/83] fix: CancelableStdin does not write into the buffer of
 a cancelled Read

---
 std.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/std.go b/std.go
index b49317d..c9bdf39 100644
--- a/std.go
+++ b/std.go
@@ -73,6 +73,7 @@ type CancelableStdin struct {
 	closed int32
 	notify chan struct{}
 	data   []byte
+	own    []byte
 	read   int
 	err    error
 }
@@ -92,7 +93,12 @@ loop:
 	for {
 		select {
 		case <-c.notify:
-			c.read, c.err = c.r.Read(c.data)
+			// not into the buffer of the caller, who may be gone
+			if cap(c.own) < len(c.data) {
+				c.own = make([]byte, len(c.data))
+			}
+			c.own = c.own[:len(c.data)]
+			c.read, c.err = c.r.Read(c.own)
 			select {
 			case c.notify <- struct{}{}:
 			case <-c.stop:
@@ -119,6 +125,7 @@ func (c *CancelableStdin) Read(b []byte) (n int, err error) {
 	}
 	select {
 	case <-c.notify:
+		copy(b, c.own[:c.read])
 		return c.read, c.err
 	case <-c.stop:
 		return 0, io.EOF
-- 
2.43.0


From f23d42f05eaa84bbc270e5c9ff9f75ddf3b94c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:39 +0000
Subject: [PATCH 22/83] fix: Terminal.Close waits for an input loop that has
 just been started

---
 terminal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 0af6e2d..811094b 100644
--- a/terminal.go
+++ b/terminal.go
@@ -35,6 +35,7 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 		sizeChan: make(chan string, 1),
 	}
 
+	t.wg.Add(1)
 	go t.ioloop()
 	return t, nil
 }
@@ -125,7 +126,6 @@ func stopsReading(r rune) bool {
 }
 
 func (t *Terminal) ioloop() {
-	t.wg.Add(1)
 	defer func() {
 		t.wg.Done()
 		close(t.outchan)
-- 
2.43.0


From febfe1fcf2f307964cbc9cdc3f75f924f63b4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:39 +0000
Subject: [PATCH 23/83] fix: the last history line counts without its newline,
 and the next entry is not glued to it

---
 history.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 5d80f3c..924dd71 100644
--- a/history.go
+++ b/history.go
@@ -78,9 +78,13 @@ func (o *opHistory) historyUpdatePath(path string) {
 	total := 0
 	for ; ; total++ {
 		line, err := r.ReadString('\n')
-		if err != nil {
+		if err != nil && len(line) == 0 {
 			break
 		}
+		if err != nil {
+			// the last line has no newline; end it before more is added
+			o.fd.Write([]byte("\n"))
+		}
 		// ignore the empty line
 		line = strings.TrimSpace(line)
 		if len(line) == 0 {
-- 
2.43.0


From f4350f82bb3a58e707b7d21da4d266c8127f2a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:39 +0000
Subject: [PATCH 24/83] fix: disabling the history does not empty the history
 file

---
 history.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 924dd71..e21c682 100644
--- a/history.go
+++ b/history.go
@@ -59,7 +59,8 @@ func (o *opHistory) Init() {
 }
 
 func (o *opHistory) initHistory() {
-	if o.cfg.HistoryFile != "" {
+	// HistoryLimit -1 disables history: leave the file alone
+	if o.cfg.HistoryFile != "" && o.cfg.HistoryLimit >= 0 {
 		o.historyUpdatePath(o.cfg.HistoryFile)
 	}
 }
-- 
2.43.0


From 25dd64dfc92fa42dcaf21573711440d0e55179dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 25/83] fix: a history rewrite that fails keeps the old file

---
 history.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index e21c682..04ddb3e 100644
--- a/history.go
+++ b/history.go
@@ -129,11 +129,17 @@ func (o *opHistory) rewriteLocked() {
 	for elem := o.history.Front(); elem != nil; elem = elem.Next() {
 		buf.WriteString(string(elem.Value.(*hisItem).Source) + "\n")
 	}
-	buf.Flush()
+	if err = buf.Flush(); err != nil {
+		// keep the old file rather than a part of it
+		fd.Close()
+		os.Remove(tmpFile)
+		return
+	}
 
 	// replace history file
 	if err = os.Rename(tmpFile, o.cfg.HistoryFile); err != nil {
 		fd.Close()
+		os.Remove(tmpFile)
 		return
 	}
 
-- 
2.43.0


From df2c3a89f82fee1b35fcac98383eeb3c5fb7b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:40 +0000
Subject: [PATCH 26/83] fix: SetHistoryPath at runtime loads and writes the new
 file

---
 operation.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 45fe9e3..fd3c024 100644
--- a/operation.go
+++ b/operation.go
@@ -490,6 +490,15 @@ func (o *Operation) isClosed() bool {
 }
 
 func (o *Operation) SetHistoryPath(path string) {
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.setHistoryPath(path)
+	o.history.Init()
+	o.cfg.opHistory = o.history
+	o.cfg.opSearch.history = o.history
+}
+
+func (o *Operation) setHistoryPath(path string) {
 	if o.history != nil {
 		o.history.Close()
 	}
@@ -518,7 +527,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	width := op.cfg.FuncGetWidth()
 
 	if cfg.opHistory == nil {
-		op.SetHistoryPath(cfg.HistoryFile)
+		op.setHistoryPath(cfg.HistoryFile)
 		cfg.opHistory = op.history
 		cfg.opSearch = newOpSearch(op.buf.w, op.buf, op.history, cfg, width)
 	}
-- 
2.43.0


From e0b05d8e14c507b0ee36b04bba126936915b5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 27/83] fix: the history in memory is kept as it is while a
 password is read

---
 history.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 04ddb3e..06a92d7 100644
--- a/history.go
+++ b/history.go
@@ -27,6 +27,7 @@ type opHistory struct {
 	current    *list.Element
 	fd         *os.File
 	fdLock     sync.Mutex
+	loaded     bool
 	enable     bool
 }
 
@@ -59,13 +60,26 @@ func (o *opHistory) Init() {
 }
 
 func (o *opHistory) initHistory() {
+	if o.loaded {
+		o.reopen()
+		return
+	}
 	// HistoryLimit -1 disables history: leave the file alone
 	if o.cfg.HistoryFile != "" && o.cfg.HistoryLimit >= 0 {
 		o.historyUpdatePath(o.cfg.HistoryFile)
 	}
 }
 
-// only called by newOpHistory
+// reopen goes on with a history that was loaded and then closed.
+func (o *opHistory) reopen() {
+	o.fdLock.Lock()
+	defer o.fdLock.Unlock()
+	f, err := os.OpenFile(o.cfg.HistoryFile, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
+	if err == nil {
+		o.fd = f
+	}
+}
+
 func (o *opHistory) historyUpdatePath(path string) {
 	o.fdLock.Lock()
 	defer o.fdLock.Unlock()
@@ -74,6 +88,7 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.fd = f
+	o.loaded = true
 	o.history.Init()
 	r := bufio.NewReader(o.fd)
 	total := 0
-- 
2.43.0


From 205c93d9f788c7e9bd04575a2c92f64f61134dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:19 +0000
Subject: [PATCH 28/83] fix: ColorFilter does not panic on text that ends with
 an escape

---
 runes.go       | 2 +-
 runes/runes.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/runes.go b/runes.go
index a669bc4..a6fb97c 100644
--- a/runes.go
+++ b/runes.go
@@ -116,7 +116,7 @@ func (Runes) Index(r rune, rs []rune) int {
 func (Runes) ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := runes.Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
diff --git a/runes/runes.go b/runes/runes.go
index b069440..925b09c 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -69,7 +69,7 @@ func Index(r rune, rs []rune) int {
 func ColorFilter(r []rune) []rune {
 	newr := make([]rune, 0, len(r))
 	for pos := 0; pos < len(r); pos++ {
-		if r[pos] == '\033' && r[pos+1] == '[' {
+		if r[pos] == '\033' && pos+1 < len(r) && r[pos+1] == '[' {
 			idx := Index('m', r[pos+2:])
 			if idx == -1 {
 				continue
-- 
2.43.0


From 7dd9dd38028d8904b739e4153486b5185495a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:19 +0000
Subject: [PATCH 29/83] fix: completion does not write into the candidates of
 the completer

---
 complete.go         | 2 ++
 complete_segment.go | 3 ++-
 runebuf.go          | 4 +++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/complete.go b/complete.go
index c08c994..b8630c5 100644
--- a/complete.go
+++ b/complete.go
@@ -98,6 +98,8 @@ func (o *opCompleter) OnComplete() bool {
 			return true
 		}
 
+		// Aggregate rewrites the list, which belongs to the completer
+		newLines = append([][]rune{}, newLines...)
 		same, size := runes.Aggregate(newLines)
 		if size > 0 {
 			buf.WriteRunes(same)
diff --git a/complete_segment.go b/complete_segment.go
index 5ceadd8..4d91029 100644
--- a/complete_segment.go
+++ b/complete_segment.go
@@ -76,7 +76,8 @@ func (c *SegmentComplete) Do(line []rune, pos int) (newLine [][]rune, offset int
 	cands := c.DoSegment(segment, idx)
 	newLine, offset = RetSegment(segment, cands, idx)
 	for idx := range newLine {
-		newLine[idx] = append(newLine[idx], ' ')
+		// the candidate belongs to the completer
+		newLine[idx] = append(runes.Copy(newLine[idx]), ' ')
 	}
 	return newLine, offset
 }
diff --git a/runebuf.go b/runebuf.go
index 703a347..fb46501 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -178,7 +178,9 @@ func (r *RuneBuffer) WriteRune(s rune) {
 
 func (r *RuneBuffer) WriteRunes(s []rune) {
 	r.Refresh(func() {
-		tail := append(s, r.buf[r.idx:]...)
+		tail := make([]rune, 0, len(s)+len(r.buf)-r.idx)
+		tail = append(tail, s...) // s belongs to the caller
+		tail = append(tail, r.buf[r.idx:]...)
 		r.buf = append(r.buf[:r.idx], tail...)
 		r.idx += len(s)
 	})
-- 
2.43.0


From fbf7c43fa1fb9b5f8f16028d6bd932e36046979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:52 +0000
Subject: [PATCH 30/83] fix: candidates are listed on narrow screens, and with
 wide text or a long line before them

---
 complete.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/complete.go b/complete.go
index b8630c5..9937554 100644
--- a/complete.go
+++ b/complete.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"strings"
 )
 
 type AutoCompleter interface {
@@ -188,10 +189,17 @@ func (o *opCompleter) OnWidthChange(newWidth int) {
 }
 
 func (o *opCompleter) CompleteRefresh() {
-	if !o.inCompleteMode {
+	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
 	lineCnt := o.op.buf.CursorLineCount()
+	pos := o.op.buf.Pos()
+	off := o.candidateOff
+	if off > pos {
+		off = pos
+	}
+	same := o.op.buf.RuneSlice(-off)
+	sameWidth := runes.WidthAll(same)
 	colWidth := 0
 	for _, c := range o.candidate {
 		w := runes.WidthAll(c)
@@ -199,14 +207,17 @@ func (o *opCompleter) CompleteRefresh() {
 			colWidth = w
 		}
 	}
-	colWidth += o.candidateOff + 1
-	same := o.op.buf.RuneSlice(-o.candidateOff)
+	colWidth += sameWidth + 1
 
 	// -1 to avoid reach the end of line
 	width := o.width - 1
 	colNum := width / colWidth
-	if colNum != 0 {
+	if colNum > 0 {
 		colWidth += (width - (colWidth * colNum)) / colNum
+	} else {
+		// one column, of candidates that may take several rows
+		colNum = 1
+		colWidth = width
 	}
 
 	o.candidateColNum = colNum
@@ -221,9 +232,23 @@ func (o *opCompleter) CompleteRefresh() {
 		if inSelect {
 			buf.WriteString("\033[30;47m")
 		}
-		buf.WriteString(string(same))
-		buf.WriteString(string(c))
-		buf.Write(bytes.Repeat([]byte(" "), colWidth-runes.WidthAll(c)-runes.WidthAll(same)))
+		text := append(runes.Copy(same), c...)
+		for _, r := range text {
+			if r == '\t' {
+				buf.WriteString(strings.Repeat(" ", TabWidth))
+			} else {
+				buf.WriteRune(r)
+			}
+		}
+		if pad := colWidth - runes.WidthAll(text); pad >= 0 {
+			buf.Write(bytes.Repeat([]byte(" "), pad))
+		} else if o.width > 0 {
+			row, col := wrapPos(o.width, 0, 0, text)
+			if col == 0 {
+				row-- // the terminal has not wrapped yet
+			}
+			lines += row
+		}
 
 		if inSelect {
 			buf.WriteString("\033[0m")
@@ -239,7 +264,9 @@ func (o *opCompleter) CompleteRefresh() {
 
 	// move back
 	fmt.Fprintf(buf, "\033[%dA\r", lineCnt-1+lines)
-	fmt.Fprintf(buf, "\033[%dC", o.op.buf.idx+o.op.buf.PromptLen())
+	if col := o.op.buf.cursorCol(pos); col > 0 {
+		fmt.Fprintf(buf, "\033[%dC", col)
+	}
 	buf.Flush()
 }
 
-- 
2.43.0


From 5eacae3a4e593874539446674ceb4e28e683dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 31/83] fix: data races between the editor and those who write
 to Stdout() or close the terminal

---
 complete.go  | 103 +++++++++++++++++++++++++++++++++++++--------------
 operation.go |  17 +++++----
 runebuf.go   |  70 ++++++++++++++++++++--------------
 search.go    |  49 +++++++++++++++++-------
 terminal.go  |  22 +++++++----
 utils.go     |   5 +++
 vim.go       |   2 +
 7 files changed, 184 insertions(+), 84 deletions(-)

diff --git a/complete.go b/complete.go
index 9937554..d34d361 100644
--- a/complete.go
+++ b/complete.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"sync"
 )
 
 type AutoCompleter interface {
@@ -26,6 +27,9 @@ func (t *TabCompleter) Do([]rune, int) ([][]rune, int) {
 }
 
 type opCompleter struct {
+	// the display is also refreshed by those who write to Stdout()
+	m sync.Mutex
+
 	w     io.Writer
 	op    *Operation
 	width int
@@ -50,11 +54,11 @@ func newOpCompleter(w io.Writer, op *Operation, width int) *opCompleter {
 func (o *opCompleter) doSelect() {
 	if len(o.candidate) == 1 {
 		o.op.buf.WriteRunes(o.candidate[0])
-		o.ExitCompleteMode(false)
+		o.exitCompleteMode()
 		return
 	}
 	o.nextCandidate(1)
-	o.CompleteRefresh()
+	o.completeRefresh()
 }
 
 func (o *opCompleter) nextCandidate(i int) {
@@ -66,10 +70,12 @@ func (o *opCompleter) nextCandidate(i int) {
 }
 
 func (o *opCompleter) OnComplete() bool {
+	o.m.Lock()
+	defer o.m.Unlock()
 	if o.width == 0 {
 		return false
 	}
-	if o.IsInCompleteSelectMode() {
+	if o.inSelectMode {
 		o.doSelect()
 		return true
 	}
@@ -77,25 +83,27 @@ func (o *opCompleter) OnComplete() bool {
 	buf := o.op.buf
 	rs := buf.Runes()
 
-	if o.IsInCompleteMode() && o.candidateSource != nil && runes.Equal(rs, o.candidateSource) {
-		o.EnterCompleteSelectMode()
+	if o.inCompleteMode && o.candidateSource != nil && runes.Equal(rs, o.candidateSource) {
+		o.enterCompleteSelectMode()
 		o.doSelect()
 		return true
 	}
 
-	o.ExitCompleteSelectMode()
+	o.exitCompleteSelectMode()
 	o.candidateSource = rs
-	newLines, offset := o.op.cfg.AutoComplete.Do(rs, buf.idx)
+	o.m.Unlock() // the completer may write to Stdout()
+	newLines, offset := o.op.GetConfig().AutoComplete.Do(rs, buf.Pos())
+	o.m.Lock()
 	if len(newLines) == 0 {
-		o.ExitCompleteMode(false)
+		o.exitCompleteMode()
 		return true
 	}
 
 	// only Aggregate candidates in non-complete mode
-	if !o.IsInCompleteMode() {
+	if !o.inCompleteMode {
 		if len(newLines) == 1 {
 			buf.WriteRunes(newLines[0])
-			o.ExitCompleteMode(false)
+			o.exitCompleteMode()
 			return true
 		}
 
@@ -104,30 +112,36 @@ func (o *opCompleter) OnComplete() bool {
 		same, size := runes.Aggregate(newLines)
 		if size > 0 {
 			buf.WriteRunes(same)
-			o.ExitCompleteMode(false)
+			o.exitCompleteMode()
 			return true
 		}
 	}
 
-	o.EnterCompleteMode(offset, newLines)
+	o.enterCompleteMode(offset, newLines)
 	return true
 }
 
 func (o *opCompleter) IsInCompleteSelectMode() bool {
+	o.m.Lock()
+	defer o.m.Unlock()
 	return o.inSelectMode
 }
 
 func (o *opCompleter) IsInCompleteMode() bool {
+	o.m.Lock()
+	defer o.m.Unlock()
 	return o.inCompleteMode
 }
 
 func (o *opCompleter) HandleCompleteSelect(r rune) bool {
+	o.m.Lock()
+	defer o.m.Unlock()
 	next := true
 	switch r {
 	case CharEnter, CharCtrlJ:
 		next = false
-		o.op.buf.WriteRunes(o.op.candidate[o.op.candidateChoise])
-		o.ExitCompleteMode(false)
+		o.op.buf.WriteRunes(o.candidate[o.candidateChoise])
+		o.exitCompleteMode()
 	case CharLineStart:
 		num := o.candidateChoise % o.candidateColNum
 		o.nextCandidate(-num)
@@ -138,12 +152,12 @@ func (o *opCompleter) HandleCompleteSelect(r rune) bool {
 			o.candidateChoise = len(o.candidate) - 1
 		}
 	case CharBackspace:
-		o.ExitCompleteSelectMode()
+		o.exitCompleteSelectMode()
 		next = false
 	case CharTab, CharForward:
 		o.doSelect()
 	case CharBell, CharInterrupt:
-		o.ExitCompleteMode(true)
+		o.exitCompleteMode()
 		next = false
 	case CharNext:
 		tmpChoise := o.candidateChoise + o.candidateColNum
@@ -167,10 +181,10 @@ func (o *opCompleter) HandleCompleteSelect(r rune) bool {
 		o.candidateChoise = tmpChoise
 	default:
 		next = false
-		o.ExitCompleteSelectMode()
+		o.exitCompleteSelectMode()
 	}
 	if next {
-		o.CompleteRefresh()
+		o.completeRefresh()
 		return true
 	}
 	return false
@@ -185,20 +199,29 @@ func (o *opCompleter) getMatrixSize() int {
 }
 
 func (o *opCompleter) OnWidthChange(newWidth int) {
+	o.m.Lock()
 	o.width = newWidth
+	o.m.Unlock()
 }
 
 func (o *opCompleter) CompleteRefresh() {
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.completeRefresh()
+}
+
+func (o *opCompleter) completeRefresh() {
 	if !o.inCompleteMode || len(o.candidate) == 0 {
 		return
 	}
-	lineCnt := o.op.buf.CursorLineCount()
-	pos := o.op.buf.Pos()
+	o.op.buf.Lock()
+	defer o.op.buf.Unlock()
+	lineCnt := o.op.buf.cursorLineCount()
 	off := o.candidateOff
-	if off > pos {
-		off = pos
+	if off > o.op.buf.idx {
+		off = o.op.buf.idx
 	}
-	same := o.op.buf.RuneSlice(-off)
+	same := o.op.buf.runeSlice(-off)
 	sameWidth := runes.WidthAll(same)
 	colWidth := 0
 	for _, c := range o.candidate {
@@ -228,7 +251,7 @@ func (o *opCompleter) CompleteRefresh() {
 	lines := 1
 	buf.WriteString("\033[J")
 	for idx, c := range o.candidate {
-		inSelect := idx == o.candidateChoise && o.IsInCompleteSelectMode()
+		inSelect := idx == o.candidateChoise && o.inSelectMode
 		if inSelect {
 			buf.WriteString("\033[30;47m")
 		}
@@ -264,7 +287,7 @@ func (o *opCompleter) CompleteRefresh() {
 
 	// move back
 	fmt.Fprintf(buf, "\033[%dA\r", lineCnt-1+lines)
-	if col := o.op.buf.cursorCol(pos); col > 0 {
+	if col := o.op.buf.cursorCol(); col > 0 {
 		fmt.Fprintf(buf, "\033[%dC", col)
 	}
 	buf.Flush()
@@ -288,19 +311,37 @@ aggregate:
 }
 
 func (o *opCompleter) EnterCompleteSelectMode() {
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.enterCompleteSelectMode()
+}
+
+func (o *opCompleter) enterCompleteSelectMode() {
 	o.inSelectMode = true
 	o.candidateChoise = -1
-	o.CompleteRefresh()
+	o.completeRefresh()
 }
 
 func (o *opCompleter) EnterCompleteMode(offset int, candidate [][]rune) {
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.enterCompleteMode(offset, candidate)
+}
+
+func (o *opCompleter) enterCompleteMode(offset int, candidate [][]rune) {
 	o.inCompleteMode = true
 	o.candidate = candidate
 	o.candidateOff = offset
-	o.CompleteRefresh()
+	o.completeRefresh()
 }
 
 func (o *opCompleter) ExitCompleteSelectMode() {
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.exitCompleteSelectMode()
+}
+
+func (o *opCompleter) exitCompleteSelectMode() {
 	o.inSelectMode = false
 	o.candidate = nil
 	o.candidateChoise = -1
@@ -309,6 +350,12 @@ func (o *opCompleter) ExitCompleteSelectMode() {
 }
 
 func (o *opCompleter) ExitCompleteMode(revent bool) {
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.exitCompleteMode()
+}
+
+func (o *opCompleter) exitCompleteMode() {
 	o.inCompleteMode = false
-	o.ExitCompleteSelectMode()
+	o.exitCompleteSelectMode()
 }
diff --git a/operation.go b/operation.go
index fd3c024..0861974 100644
--- a/operation.go
+++ b/operation.go
@@ -60,12 +60,11 @@ func (w *wrapWriter) Write(b []byte) (int, error) {
 		n, err = w.target.Write(b)
 	})
 
-	if w.r.IsSearchMode() {
-		w.r.SearchRefresh(-1)
-	}
-	if w.r.IsInCompleteMode() {
-		w.r.CompleteRefresh()
-	}
+	w.r.m.Lock()
+	search, completer := w.r.opSearch, w.r.opCompleter
+	w.r.m.Unlock()
+	search.SearchRefresh(-1)
+	completer.CompleteRefresh()
 	return n, err
 }
 
@@ -86,8 +85,10 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 	op.opPassword = newOpPassword(op)
 	op.cfg.FuncOnWidthChanged(func() {
 		newWidth := cfg.FuncGetWidth()
+		op.m.Lock()
 		op.opCompleter.OnWidthChange(newWidth)
 		op.opSearch.OnWidthChange(newWidth)
+		op.m.Unlock()
 		op.buf.OnWidthChange(newWidth)
 	})
 	go op.ioloop()
@@ -99,6 +100,8 @@ func (o *Operation) SetPrompt(s string) {
 }
 
 func (o *Operation) SetMaskRune(r rune) {
+	o.m.Lock()
+	defer o.m.Unlock()
 	o.buf.SetMask(r)
 }
 
@@ -522,7 +525,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	old := op.cfg
 	op.cfg = cfg
 	op.SetPrompt(cfg.Prompt)
-	op.SetMaskRune(cfg.MaskRune)
+	op.buf.SetMask(cfg.MaskRune)
 	op.buf.SetConfig(cfg)
 	width := op.cfg.FuncGetWidth()
 
diff --git a/runebuf.go b/runebuf.go
index fb46501..08748c6 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -97,11 +97,9 @@ func (r *RuneBuffer) CurrentWidth(x int) int {
 	return runes.WidthAll(r.buf[:x])
 }
 
-// cursorCol is the column of the i-th rune.
-func (r *RuneBuffer) cursorCol(i int) int {
-	r.Lock()
-	defer r.Unlock()
-	_, col := r.screenPos(r.buf[:i])
+// cursorCol is the column the cursor is in.
+func (r *RuneBuffer) cursorCol() int {
+	_, col := r.screenPos(r.buf[:r.idx])
 	return col
 }
 
@@ -119,7 +117,10 @@ func (r *RuneBuffer) promptLen() int {
 func (r *RuneBuffer) RuneSlice(i int) []rune {
 	r.Lock()
 	defer r.Unlock()
+	return r.runeSlice(i)
+}
 
+func (r *RuneBuffer) runeSlice(i int) []rune {
 	if i > 0 {
 		rs := make([]rune, i)
 		copy(rs, r.buf[r.idx:r.idx+i])
@@ -231,23 +232,23 @@ func (r *RuneBuffer) Delete() (success bool) {
 }
 
 func (r *RuneBuffer) DeleteWord() {
-	if r.idx == len(r.buf) {
-		return
-	}
-	init := r.idx
-	for init < len(r.buf) && IsWordBreak(r.buf[init]) {
-		init++
-	}
-	for i := init + 1; i < len(r.buf); i++ {
-		if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
-			r.pushKill(r.buf[r.idx : i-1])
-			r.Refresh(func() {
-				r.buf = append(r.buf[:r.idx], r.buf[i-1:]...)
-			})
+	r.Refresh(func() {
+		if r.idx == len(r.buf) {
 			return
 		}
-	}
-	r.Kill()
+		init := r.idx
+		for init < len(r.buf) && IsWordBreak(r.buf[init]) {
+			init++
+		}
+		for i := init + 1; i < len(r.buf); i++ {
+			if !IsWordBreak(r.buf[i]) && IsWordBreak(r.buf[i-1]) {
+				r.pushKill(r.buf[r.idx : i-1])
+				r.buf = append(r.buf[:r.idx], r.buf[i-1:]...)
+				return
+			}
+		}
+		r.kill()
+	})
 }
 
 func (r *RuneBuffer) MoveToPrevWord() (success bool) {
@@ -284,10 +285,12 @@ func (r *RuneBuffer) KillFront() {
 }
 
 func (r *RuneBuffer) Kill() {
-	r.Refresh(func() {
-		r.pushKill(r.buf[r.idx:])
-		r.buf = r.buf[:r.idx]
-	})
+	r.Refresh(r.kill)
+}
+
+func (r *RuneBuffer) kill() {
+	r.pushKill(r.buf[r.idx:])
+	r.buf = r.buf[:r.idx]
 }
 
 func (r *RuneBuffer) Transpose() {
@@ -366,10 +369,10 @@ func (r *RuneBuffer) BackEscapeWord() {
 }
 
 func (r *RuneBuffer) Yank() {
-	if len(r.lastKill) == 0 {
-		return
-	}
 	r.Refresh(func() {
+		if len(r.lastKill) == 0 {
+			return
+		}
 		buf := make([]rune, 0, len(r.buf)+len(r.lastKill))
 		buf = append(buf, r.buf[:r.idx]...)
 		buf = append(buf, r.lastKill...)
@@ -401,11 +404,13 @@ func (r *RuneBuffer) MoveToLineEnd() {
 }
 
 func (r *RuneBuffer) LineCount(width int) int {
+	r.Lock()
+	defer r.Unlock()
 	if width == -1 {
 		width = r.width
 	}
 	return LineCount(width,
-		runes.WidthAll(r.buf)+r.PromptLen())
+		runes.WidthAll(r.buf)+r.promptLen())
 }
 
 func (r *RuneBuffer) MoveTo(ch rune, prevChar, reverse bool) (success bool) {
@@ -498,6 +503,10 @@ func (r *RuneBuffer) idxLine(width int) int {
 func (r *RuneBuffer) CursorLineCount() int {
 	r.Lock()
 	defer r.Unlock()
+	return r.cursorLineCount()
+}
+
+func (r *RuneBuffer) cursorLineCount() int {
 	endRow, _ := r.screenPos(r.buf)
 	return endRow - r.idxLine(r.width) + 1
 }
@@ -589,6 +598,8 @@ func (r *RuneBuffer) moveCursor(fromRow, i int) []byte {
 }
 
 func (r *RuneBuffer) Reset() []rune {
+	r.Lock()
+	defer r.Unlock()
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
@@ -603,7 +614,10 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 
 	r.Lock()
 	defer r.Unlock()
+	r.setStyle(start, end, style)
+}
 
+func (r *RuneBuffer) setStyle(start, end int, style string) {
 	idxRow, _ := r.screenPos(r.buf[:r.idx])
 	r.w.Write(r.moveCursor(idxRow, start))
 	r.w.Write([]byte("\033[" + style + "m"))
diff --git a/search.go b/search.go
index 0af969c..e280cf9 100644
--- a/search.go
+++ b/search.go
@@ -5,6 +5,7 @@ import (
 	"container/list"
 	"fmt"
 	"io"
+	"sync"
 )
 
 const (
@@ -18,6 +19,9 @@ const (
 )
 
 type opSearch struct {
+	// the display is also refreshed by those who write to Stdout()
+	m sync.Mutex
+
 	inMode    bool
 	state     int
 	dir       int
@@ -43,14 +47,20 @@ func newOpSearch(w io.Writer, buf *RuneBuffer, history *opHistory, cfg *Config,
 }
 
 func (o *opSearch) OnWidthChange(newWidth int) {
+	o.m.Lock()
 	o.width = newWidth
+	o.m.Unlock()
 }
 
 func (o *opSearch) IsSearchMode() bool {
+	o.m.Lock()
+	defer o.m.Unlock()
 	return o.inMode
 }
 
 func (o *opSearch) SearchBackspace() {
+	o.m.Lock()
+	defer o.m.Unlock()
 	if len(o.data) > 0 {
 		o.data = o.data[:len(o.data)-1]
 		o.search(true)
@@ -59,20 +69,20 @@ func (o *opSearch) SearchBackspace() {
 
 func (o *opSearch) findHistoryBy(isNewSearch bool) (int, *list.Element) {
 	if o.dir == S_DIR_BCK {
-		return o.history.FindBck(isNewSearch, o.data, o.buf.idx)
+		return o.history.FindBck(isNewSearch, o.data, o.buf.Pos())
 	}
-	return o.history.FindFwd(isNewSearch, o.data, o.buf.idx)
+	return o.history.FindFwd(isNewSearch, o.data, o.buf.Pos())
 }
 
 func (o *opSearch) search(isChange bool) bool {
 	if len(o.data) == 0 {
 		o.state = S_STATE_FOUND
-		o.SearchRefresh(-1)
+		o.searchRefresh(-1)
 		return true
 	}
 	idx, elem := o.findHistoryBy(isChange)
 	if elem == nil {
-		o.SearchRefresh(-2)
+		o.searchRefresh(-2)
 		return false
 	}
 	o.history.current = elem
@@ -87,16 +97,20 @@ func (o *opSearch) search(isChange bool) bool {
 	}
 	o.buf.SetWithIdx(idx, item)
 	o.markStart, o.markEnd = start, end
-	o.SearchRefresh(idx)
+	o.searchRefresh(idx)
 	return true
 }
 
 func (o *opSearch) SearchChar(r rune) {
+	o.m.Lock()
+	defer o.m.Unlock()
 	o.data = append(o.data, r)
 	o.search(true)
 }
 
 func (o *opSearch) SearchMode(dir int) bool {
+	o.m.Lock()
+	defer o.m.Unlock()
 	if o.width == 0 {
 		return false
 	}
@@ -109,12 +123,14 @@ func (o *opSearch) SearchMode(dir int) bool {
 	if alreadyInMode {
 		o.search(false)
 	} else {
-		o.SearchRefresh(-1)
+		o.searchRefresh(-1)
 	}
 	return true
 }
 
 func (o *opSearch) ExitSearchMode(revert bool) {
+	o.m.Lock()
+	defer o.m.Unlock()
 	if revert {
 		o.history.current = o.source
 		if o.source != nil {
@@ -129,6 +145,14 @@ func (o *opSearch) ExitSearchMode(revert bool) {
 }
 
 func (o *opSearch) SearchRefresh(x int) {
+	o.m.Lock()
+	defer o.m.Unlock()
+	if o.inMode {
+		o.searchRefresh(x)
+	}
+}
+
+func (o *opSearch) searchRefresh(x int) {
 	if x == -2 {
 		o.state = S_STATE_FAILING
 	} else if x >= 0 {
@@ -137,16 +161,15 @@ func (o *opSearch) SearchRefresh(x int) {
 	if o.width <= 0 {
 		return
 	}
-	if x < 0 {
-		x = o.buf.idx
-	}
-	x = o.buf.cursorCol(x)
 
-	if o.markEnd > o.markStart {
-		o.buf.SetStyle(o.markStart, o.markEnd, "4")
+	o.buf.Lock()
+	defer o.buf.Unlock()
+	x = o.buf.cursorCol()
+	if o.markEnd > o.markStart && o.markEnd <= len(o.buf.buf) {
+		o.buf.setStyle(o.markStart, o.markEnd, "4")
 	}
 
-	lineCnt := o.buf.CursorLineCount()
+	lineCnt := o.buf.cursorLineCount()
 	buf := bytes.NewBuffer(nil)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 	buf.WriteString("\033[J")
diff --git a/terminal.go b/terminal.go
index 811094b..cf05b6c 100644
--- a/terminal.go
+++ b/terminal.go
@@ -55,21 +55,21 @@ func (t *Terminal) SleepToResume() {
 }
 
 func (t *Terminal) EnterRawMode() (err error) {
-	return t.cfg.FuncMakeRaw()
+	return t.config().FuncMakeRaw()
 }
 
 func (t *Terminal) ExitRawMode() (err error) {
-	return t.cfg.FuncExitRaw()
+	return t.config().FuncExitRaw()
 }
 
 func (t *Terminal) Write(b []byte) (int, error) {
-	return t.cfg.Stdout.Write(b)
+	return t.config().Stdout.Write(b)
 }
 
 // WriteStdin prefill the next Stdin fetch
 // Next time you call ReadLine() this value will be writen before the user input
 func (t *Terminal) WriteStdin(b []byte) (int, error) {
-	return t.cfg.StdinWriter.Write(b)
+	return t.config().StdinWriter.Write(b)
 }
 
 type termSize struct {
@@ -85,11 +85,11 @@ func (t *Terminal) GetOffset(f func(offset string)) {
 }
 
 func (t *Terminal) Print(s string) {
-	fmt.Fprintf(t.cfg.Stdout, "%s", s)
+	fmt.Fprintf(t.config().Stdout, "%s", s)
 }
 
 func (t *Terminal) PrintRune(r rune) {
-	fmt.Fprintf(t.cfg.Stdout, "%c", r)
+	fmt.Fprintf(t.config().Stdout, "%c", r)
 }
 
 func (t *Terminal) Readline() *Operation {
@@ -209,7 +209,7 @@ func (t *Terminal) ioloop() {
 		case 0:
 			// a NUL (Ctrl+Space) is not the end of the input
 		case CharEsc:
-			if t.cfg.VimMode {
+			if t.config().VimMode {
 				t.outchan <- r
 				break
 			}
@@ -232,7 +232,7 @@ func (t *Terminal) Close() error {
 	if atomic.SwapInt32(&t.closed, 1) != 0 {
 		return nil
 	}
-	if closer, ok := t.cfg.Stdin.(io.Closer); ok {
+	if closer, ok := t.getStdin().(io.Closer); ok {
 		closer.Close()
 	}
 	close(t.stopChan)
@@ -247,6 +247,12 @@ func (t *Terminal) GetConfig() *Config {
 	return &cfg
 }
 
+func (t *Terminal) config() *Config {
+	t.m.Lock()
+	defer t.m.Unlock()
+	return t.cfg
+}
+
 func (t *Terminal) getStdin() io.Reader {
 	t.m.Lock()
 	r := t.cfg.Stdin
diff --git a/utils.go b/utils.go
index 0706dd4..d4ff82d 100644
--- a/utils.go
+++ b/utils.go
@@ -262,15 +262,20 @@ func GetInt(s []string, def int) int {
 }
 
 type RawMode struct {
+	m     sync.Mutex
 	state *State
 }
 
 func (r *RawMode) Enter() (err error) {
+	r.m.Lock()
+	defer r.m.Unlock()
 	r.state, err = MakeRaw(GetStdin())
 	return err
 }
 
 func (r *RawMode) Exit() error {
+	r.m.Lock()
+	defer r.m.Unlock()
 	if r.state == nil {
 		return nil
 	}
diff --git a/vim.go b/vim.go
index 9148bac..3b8779a 100644
--- a/vim.go
+++ b/vim.go
@@ -22,6 +22,8 @@ func newVimMode(op *Operation) *opVim {
 }
 
 func (o *opVim) SetVimMode(on bool) {
+	o.op.m.Lock()
+	defer o.op.m.Unlock()
 	if o.cfg.VimMode && !on { // turn off
 		o.ExitVimMode()
 	}
-- 
2.43.0


From fe567c931e9adbd4d71c6232f76afe6cf47220e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 32/83] fix: an invalid message does not crash the remote peer

---
 remote.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/remote.go b/remote.go
index 74dbf56..7b4bc90 100644
--- a/remote.go
+++ b/remote.go
@@ -84,6 +84,9 @@ func (r *RemoteSvr) init(buf *bufio.Reader) error {
 	if m.Type != T_ISTTY_REPORT {
 		return fmt.Errorf("unexpected init message")
 	}
+	if len(m.Data) < 2 {
+		return fmt.Errorf("invalid init message")
+	}
 	r.GotIsTerminal(m.Data)
 
 	// receive width
@@ -94,6 +97,9 @@ func (r *RemoteSvr) init(buf *bufio.Reader) error {
 	if m.Type != T_WIDTH_REPORT {
 		return fmt.Errorf("unexpected init message")
 	}
+	if len(m.Data) < 2 {
+		return fmt.Errorf("invalid init message")
+	}
 	r.GotReportWidth(m.Data)
 
 	return nil
@@ -228,6 +234,9 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 }
 
 func (r *RemoteSvr) GotIsTerminal(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	if binary.BigEndian.Uint16(data) == 0 {
 		r.isTerminal = false
 	} else {
@@ -236,6 +245,9 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 }
 
 func (r *RemoteSvr) GotReportWidth(data []byte) {
+	if len(data) < 2 {
+		return
+	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
 	if r.funcWidthChan != nil {
 		r.funcWidthChan()
@@ -262,10 +274,18 @@ func ReadMessage(r io.Reader) (*Message, error) {
 	if err := binary.Read(r, binary.BigEndian, &m.Type); err != nil {
 		return nil, err
 	}
-	m.Data = make([]byte, int(length)-2)
-	if _, err := io.ReadFull(r, m.Data); err != nil {
+	if length < 2 {
+		return nil, fmt.Errorf("invalid message length: %d", length)
+	}
+	// the peer may announce more than it sends
+	buf := bytes.NewBuffer(nil)
+	if n, err := io.CopyN(buf, r, int64(length)-2); err != nil {
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
+	m.Data = buf.Bytes()
 	return m, nil
 }
 
-- 
2.43.0


From 1ebb978fe59f53217d95715efbe8fa4c2f561608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 33/83] fix: RemoteSvr.Write returns how many bytes of its
 argument it wrote

---
 remote.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/remote.go b/remote.go
index 7b4bc90..becc7cc 100644
--- a/remote.go
+++ b/remote.go
@@ -163,10 +163,10 @@ func (r *RemoteSvr) writeMsg(m *Message) error {
 }
 
 func (r *RemoteSvr) Write(b []byte) (int, error) {
-	ctx := newWriteCtx(NewMessage(T_DATA, b))
-	r.writeChan <- ctx
-	reply := <-ctx.reply
-	return reply.n, reply.err
+	if err := r.writeMsg(NewMessage(T_DATA, b)); err != nil {
+		return 0, err
+	}
+	return len(b), nil
 }
 
 func (r *RemoteSvr) EnterRawMode() error {
-- 
2.43.0


From d9e918b28af6bf0625f412ef47db5b6d1e3967ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:57 +0000
Subject: [PATCH 34/83] fix: remote: no input or end of input is missed by
 Read, and nothing blocks after Close

---
 remote.go | 68 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 38 insertions(+), 30 deletions(-)

diff --git a/remote.go b/remote.go
index becc7cc..34a3dc9 100644
--- a/remote.go
+++ b/remote.go
@@ -61,7 +61,7 @@ func NewRemoteSvr(conn net.Conn) (*RemoteSvr, error) {
 		width:      -1,
 		conn:       conn,
 		writeChan:  make(chan *writeCtx),
-		reciveChan: make(chan struct{}),
+		reciveChan: make(chan struct{}, 1),
 		stopChan:   make(chan struct{}),
 	}
 	buf := bufio.NewReader(rs.conn)
@@ -131,33 +131,30 @@ func (r *RemoteSvr) checkEOF() error {
 }
 
 func (r *RemoteSvr) Read(b []byte) (int, error) {
-	r.dataBufM.Lock()
-	n, err := r.dataBuf.Read(b)
-	r.dataBufM.Unlock()
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
-		}
-	}
-
-	if n == 0 && err == io.EOF {
-		<-r.reciveChan
+	for {
+		// the end comes after the data
+		eof := r.checkEOF()
 		r.dataBufM.Lock()
-		n, err = r.dataBuf.Read(b)
+		n, _ := r.dataBuf.Read(b)
 		r.dataBufM.Unlock()
-	}
-	if n == 0 {
-		if err := r.checkEOF(); err != nil {
-			return 0, err
+		if n > 0 || len(b) == 0 {
+			return n, nil
+		}
+		if eof != nil {
+			r.notifyRead() // every pending Read
+			return 0, eof
 		}
+		<-r.reciveChan
 	}
-
-	return n, err
 }
 
 func (r *RemoteSvr) writeMsg(m *Message) error {
 	ctx := newWriteCtx(m)
-	r.writeChan <- ctx
+	select {
+	case r.writeChan <- ctx:
+	case <-r.stopChan:
+		return io.ErrClosedPipe
+	}
 	reply := <-ctx.reply
 	return reply.err
 }
@@ -174,7 +171,12 @@ func (r *RemoteSvr) EnterRawMode() error {
 }
 
 func (r *RemoteSvr) ExitRawMode() error {
-	return r.writeMsg(NewMessage(T_ERAW, nil))
+	err := r.writeMsg(NewMessage(T_ERAW, nil))
+	if atomic.LoadInt32(&r.closed) == 1 {
+		// the client exits raw mode when the connection ends
+		return nil
+	}
+	return err
 }
 
 func (r *RemoteSvr) writeLoop() {
@@ -199,10 +201,23 @@ func (r *RemoteSvr) Close() error {
 	if atomic.CompareAndSwapInt32(&r.closed, 0, 1) {
 		close(r.stopChan)
 		r.conn.Close()
+		r.gotEOF()
 	}
 	return nil
 }
 
+func (r *RemoteSvr) gotEOF() {
+	atomic.StoreInt32(&r.eof, 1)
+	r.notifyRead()
+}
+
+func (r *RemoteSvr) notifyRead() {
+	select {
+	case r.reciveChan <- struct{}{}:
+	default:
+	}
+}
+
 func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 	defer r.Close()
 	for {
@@ -212,19 +227,12 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 		}
 		switch m.Type {
 		case T_EOF:
-			atomic.StoreInt32(&r.eof, 1)
-			select {
-			case r.reciveChan <- struct{}{}:
-			default:
-			}
+			r.gotEOF()
 		case T_DATA:
 			r.dataBufM.Lock()
 			r.dataBuf.Write(m.Data)
 			r.dataBufM.Unlock()
-			select {
-			case r.reciveChan <- struct{}{}:
-			default:
-			}
+			r.notifyRead()
 		case T_WIDTH_REPORT:
 			r.GotReportWidth(m.Data)
 		case T_ISTTY_REPORT:
-- 
2.43.0


From c1721c668ede5cb72f220427d2daacc57a7009a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:00 +0000
Subject: [PATCH 35/83] fix: data races between the remote server and what the
 client reports

---
 remote.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/remote.go b/remote.go
index 34a3dc9..93578e4 100644
--- a/remote.go
+++ b/remote.go
@@ -31,7 +31,8 @@ type RemoteSvr struct {
 	reciveChan    chan struct{}
 	writeChan     chan *writeCtx
 	conn          net.Conn
-	isTerminal    bool
+	isTerminal    int32
+	widthChanM    sync.Mutex
 	funcWidthChan func()
 	stopChan      chan struct{}
 
@@ -115,12 +116,14 @@ func (r *RemoteSvr) HandleConfig(cfg *Config) {
 	cfg.FuncExitRaw = r.ExitRawMode
 	cfg.FuncGetWidth = r.GetWidth
 	cfg.FuncOnWidthChanged = func(f func()) {
+		r.widthChanM.Lock()
 		r.funcWidthChan = f
+		r.widthChanM.Unlock()
 	}
 }
 
 func (r *RemoteSvr) IsTerminal() bool {
-	return r.isTerminal
+	return atomic.LoadInt32(&r.isTerminal) == 1
 }
 
 func (r *RemoteSvr) checkEOF() error {
@@ -246,9 +249,9 @@ func (r *RemoteSvr) GotIsTerminal(data []byte) {
 		return
 	}
 	if binary.BigEndian.Uint16(data) == 0 {
-		r.isTerminal = false
+		atomic.StoreInt32(&r.isTerminal, 0)
 	} else {
-		r.isTerminal = true
+		atomic.StoreInt32(&r.isTerminal, 1)
 	}
 }
 
@@ -257,8 +260,11 @@ func (r *RemoteSvr) GotReportWidth(data []byte) {
 		return
 	}
 	atomic.StoreInt32(&r.width, int32(binary.BigEndian.Uint16(data)))
-	if r.funcWidthChan != nil {
-		r.funcWidthChan()
+	r.widthChanM.Lock()
+	f := r.funcWidthChan
+	r.widthChanM.Unlock()
+	if f != nil {
+		f()
 	}
 }
 
-- 
2.43.0


From 8bde1052e942f36249b7379e01113efaa5f27b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:31 +0000
Subject: [PATCH 36/83] fix: a password is read with the terminal functions of
 the instance

---
 password.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/password.go b/password.go
index 414288c..d622537 100644
--- a/password.go
+++ b/password.go
@@ -20,6 +20,7 @@ func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
 }
 
 func (o *opPassword) PasswordConfig() *Config {
+	cfg := o.o.GetConfig()
 	return &Config{
 		EnableMask:      true,
 		InterruptPrompt: "\n",
@@ -27,7 +28,16 @@ func (o *opPassword) PasswordConfig() *Config {
 		HistoryLimit:    -1,
 		Painter:         &defaultPainter{},
 
-		Stdout: o.o.cfg.Stdout,
-		Stderr: o.o.cfg.Stderr,
+		Stdin:  cfg.Stdin,
+		Stdout: cfg.Stdout,
+		Stderr: cfg.Stderr,
+
+		// the password is read from the same terminal
+		FuncGetWidth:        cfg.FuncGetWidth,
+		FuncIsTerminal:      cfg.FuncIsTerminal,
+		FuncMakeRaw:         cfg.FuncMakeRaw,
+		FuncExitRaw:         cfg.FuncExitRaw,
+		FuncOnWidthChanged:  cfg.FuncOnWidthChanged,
+		ForceUseInteractive: cfg.ForceUseInteractive,
 	}
 }
-- 
2.43.0


From d7c49904e85acb4ff9e525c515bd520fe9359132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 37/83] fix: no history search in a masked line, which would
 show what is typed

---
 search.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search.go b/search.go
index e280cf9..83cc16f 100644
--- a/search.go
+++ b/search.go
@@ -111,7 +111,8 @@ func (o *opSearch) SearchChar(r rune) {
 func (o *opSearch) SearchMode(dir int) bool {
 	o.m.Lock()
 	defer o.m.Unlock()
-	if o.width == 0 {
+	// the display of the search would show what is masked
+	if o.width == 0 || o.cfg.EnableMask {
 		return false
 	}
 	alreadyInMode := o.inMode
-- 
2.43.0


From 558b676ebf3a580ee2e4a6e99aa67ae710bf8d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:59 +0000
Subject: [PATCH 38/83] fix: text written to Stdout() while a line is submitted
 neither garbles it nor shows it twice

---
 operation.go | 43 ++++++++++---------------------------------
 runebuf.go   | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/operation.go b/operation.go
index 0861974..588d288 100644
--- a/operation.go
+++ b/operation.go
@@ -48,15 +48,14 @@ type wrapWriter struct {
 }
 
 func (w *wrapWriter) Write(b []byte) (int, error) {
-	if !w.t.IsReading() {
-		return w.target.Write(b)
-	}
-
 	var (
 		n   int
 		err error
 	)
-	w.r.buf.Refresh(func() {
+	if w.r.isClosed() {
+		return w.target.Write(b)
+	}
+	w.r.buf.refreshShown(func() {
 		n, err = w.target.Write(b)
 	})
 
@@ -140,7 +139,7 @@ func (o *Operation) ioloop() {
 				close(o.eof)
 				break
 			} else if o.buf.Len() == 0 {
-				o.buf.Clean()
+				o.buf.finish("", true)
 				close(o.eof)
 				break
 			} else {
@@ -272,15 +271,7 @@ func (o *Operation) ioloop() {
 				o.ExitSearchMode(false)
 			}
 			o.buf.MoveToLineEnd()
-			var data []rune
-			if !o.GetConfig().UniqueEditLine {
-				o.buf.WriteRune('\n')
-				data = o.buf.Reset()
-				data = data[:len(data)-1] // trim \n
-			} else {
-				o.buf.Clean()
-				data = o.buf.Reset()
-			}
+			data := o.buf.finish("\n", o.GetConfig().UniqueEditLine)
 			deliver = func() {
 				select {
 				case o.outchan <- data:
@@ -321,16 +312,10 @@ func (o *Operation) ioloop() {
 			}
 
 			// treat as EOF
-			if !o.GetConfig().UniqueEditLine {
-				o.buf.WriteString(o.GetConfig().EOFPrompt + "\n")
-			}
-			o.buf.Reset()
+			o.buf.finish(o.GetConfig().EOFPrompt+"\n", o.GetConfig().UniqueEditLine)
 			isUpdateHistory = false
 			o.history.Revert()
 			deliver = func() { o.errchan <- io.EOF }
-			if o.GetConfig().UniqueEditLine {
-				o.buf.Clean()
-			}
 		case CharInterrupt:
 			if o.IsSearchMode() {
 				o.t.KickRead()
@@ -345,14 +330,7 @@ func (o *Operation) ioloop() {
 			}
 			o.buf.MoveToLineEnd()
 			o.buf.Refresh(nil)
-			hint := o.GetConfig().InterruptPrompt + "\n"
-			if !o.GetConfig().UniqueEditLine {
-				o.buf.WriteString(hint)
-			}
-			remain := o.buf.Reset()
-			if !o.GetConfig().UniqueEditLine {
-				remain = remain[:len(remain)-len([]rune(hint))]
-			}
+			remain := o.buf.finish(o.GetConfig().InterruptPrompt+"\n", o.GetConfig().UniqueEditLine)
 			isUpdateHistory = false
 			o.history.Revert()
 			deliver = func() { o.errchan <- &InterruptError{remain} }
@@ -437,6 +415,7 @@ func (o *Operation) Runes() ([]rune, error) {
 		}
 		return nil, err
 	case <-o.eof:
+		o.buf.finish("", true)
 		return nil, io.EOF
 	case <-o.stop:
 		return nil, io.EOF
@@ -559,9 +538,7 @@ func (o *Operation) SaveHistory(content string) error {
 }
 
 func (o *Operation) Refresh() {
-	if o.t.IsReading() {
-		o.buf.Refresh(nil)
-	}
+	o.buf.refreshShown(nil)
 }
 
 func (o *Operation) Clean() {
diff --git a/runebuf.go b/runebuf.go
index 08748c6..05e89de 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -529,6 +529,24 @@ func (r *RuneBuffer) Refresh(f func()) {
 	r.print()
 }
 
+// refreshShown is Refresh while the line is on the screen; otherwise, between
+// two reads, it only calls f.
+func (r *RuneBuffer) refreshShown(f func()) {
+	r.Lock()
+	defer r.Unlock()
+
+	shown := r.interactive && r.printed
+	if shown {
+		r.clean()
+	}
+	if f != nil {
+		f()
+	}
+	if shown {
+		r.print()
+	}
+}
+
 func (r *RuneBuffer) SetOffset(offset string) {
 	r.Lock()
 	r.offset = offset
@@ -600,6 +618,31 @@ func (r *RuneBuffer) moveCursor(fromRow, i int) []byte {
 func (r *RuneBuffer) Reset() []rune {
 	r.Lock()
 	defer r.Unlock()
+	return r.reset()
+}
+
+// finish ends the line: it stays on the screen, with hint behind it, or is
+// erased. Nobody who writes to Stdout() can see it half finished.
+func (r *RuneBuffer) finish(hint string, erase bool) []rune {
+	r.Lock()
+	defer r.Unlock()
+	if erase {
+		r.clean()
+		return r.reset()
+	}
+	if r.interactive {
+		r.clean()
+	}
+	n := len(r.buf)
+	r.buf = append(r.buf, []rune(hint)...)
+	r.idx = len(r.buf)
+	if r.interactive {
+		r.print()
+	}
+	return r.reset()[:n]
+}
+
+func (r *RuneBuffer) reset() []rune {
 	ret := runes.Copy(r.buf)
 	r.buf = r.buf[:0]
 	r.idx = 0
-- 
2.43.0


From fa56810a38798f47b66267f6ab9c50c8328667fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:31 +0000
Subject: [PATCH 39/83] fix: wide characters of a prompt of several rows are
 not split at the edge

---
 runebuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index 05e89de..b3224e5 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -459,8 +459,8 @@ func (r *RuneBuffer) screenPos(rs []rune) (row, col int) {
 		}
 		rs = masked
 	}
-	start := r.promptLen()
-	return wrapPos(width, start/width, start%width, rs)
+	row, col = wrapPos(width, 0, 0, runes.ColorFilter(r.prompt))
+	return wrapPos(width, row, col, rs)
 }
 
 // wrapPos is where the cursor is after rs was printed from row, col on.
-- 
2.43.0


From 340302a3672761d6e6761e6ea1bf5dc879cbe96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:31 +0000
Subject: [PATCH 40/83] fix: a line that is not saved also ends the recall of
 older lines

---
 operation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operation.go b/operation.go
index 588d288..8fc2d77 100644
--- a/operation.go
+++ b/operation.go
@@ -284,6 +284,8 @@ func (o *Operation) ioloop() {
 			} else {
 				isUpdateHistory = false
 			}
+			// also if nothing was saved, the next line starts at the end
+			o.history.Revert()
 		case CharBackward:
 			o.buf.MoveBackward()
 		case CharForward:
-- 
2.43.0


From 9b6c81915dd6651400ef5c6702df16c9a011bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:32 +0000
Subject: [PATCH 41/83] fix: the history keeps as many lines as configured, and
 never drops the one being shown

---
 history.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/history.go b/history.go
index 06a92d7..5c218ae 100644
--- a/history.go
+++ b/history.go
@@ -338,11 +338,12 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 			// just report the error
 			_, err = o.fd.Write([]byte(string(r.Source) + "\n"))
 		}
+		// only now: the line being composed does not count, and the entry
+		// being shown must not be dropped
+		o.Compact()
 	} else {
 		r.Tmp = append(r.Tmp[:0], s...)
 	}
-	o.current.Value = r
-	o.Compact()
 	return
 }
 
-- 
2.43.0


From 9c727a4a8addeef55f8f5be2dfb762d33df79ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:38 +0000
Subject: [PATCH 42/83] fix: Esc in vim mode ends a search or a completion

---
 operation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/operation.go b/operation.go
index 8fc2d77..db566c5 100644
--- a/operation.go
+++ b/operation.go
@@ -181,6 +181,15 @@ func (o *Operation) ioloop() {
 					// the terminal stopped after this key, but the line goes on
 					o.t.KickRead()
 				}
+				// Esc ends a search and a completion
+				if o.IsSearchMode() {
+					o.ExitSearchMode(false)
+					o.buf.Refresh(nil)
+				}
+				if o.IsInCompleteMode() {
+					o.ExitCompleteMode(false)
+					o.buf.Refresh(nil)
+				}
 				o.history.Update(o.buf.Runes(), false)
 				continue
 			}
-- 
2.43.0


From 5cb4560bb375731f2c00636e94945cd985a990b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:53 +0000
Subject: [PATCH 43/83] fix: highlighting a match keeps the combining marks
 behind it

---
 runebuf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index b3224e5..271fe95 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -661,6 +661,10 @@ func (r *RuneBuffer) SetStyle(start, end int, style string) {
 }
 
 func (r *RuneBuffer) setStyle(start, end int, style string) {
+	// a rune printed again loses its combining marks
+	for end > start && end < len(r.buf) && runes.Width(r.buf[end]) == 0 {
+		end++
+	}
 	idxRow, _ := r.screenPos(r.buf[:r.idx])
 	r.w.Write(r.moveCursor(idxRow, start))
 	r.w.Write([]byte("\033[" + style + "m"))
@@ -668,7 +672,7 @@ func (r *RuneBuffer) setStyle(start, end int, style string) {
 	r.w.Write([]byte(text))
 	r.w.Write([]byte("\033[0m"))
 	endRow, endCol := r.screenPos(r.buf[:end])
-	if endCol == 0 && end > start {
+	if endCol == 0 && runes.WidthAll(r.buf[start:end]) > 0 {
 		endRow-- // the terminal has not wrapped yet
 	}
 	r.w.Write(r.moveCursor(endRow, r.idx))
-- 
2.43.0


From 46550868d407f6ba1e1cf65a88194581f0203d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 44/83] fix: a search started while completing, and a list
 asked for while searching, are shown

---
 operation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index db566c5..bb91ed8 100644
--- a/operation.go
+++ b/operation.go
@@ -370,10 +370,12 @@ func (o *Operation) ioloop() {
 		if !keepInSearchMode && o.IsSearchMode() {
 			o.ExitSearchMode(false)
 			o.buf.Refresh(nil)
-		} else if o.IsInCompleteMode() {
+		}
+		if o.IsInCompleteMode() {
 			if !keepInCompleteMode {
 				o.ExitCompleteMode(false)
 				o.Refresh()
+				o.SearchRefresh(-1) // if that is what ended it
 			} else {
 				o.buf.Refresh(nil)
 				o.CompleteRefresh()
-- 
2.43.0


From a9e400776e45c3dc59af3ba3942dcb09136ceb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 45/83] fix: the end of the input does not accept the
 highlighted candidate

---
 operation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/operation.go b/operation.go
index bb91ed8..1df22cf 100644
--- a/operation.go
+++ b/operation.go
@@ -146,6 +146,8 @@ func (o *Operation) ioloop() {
 				// if stdin got io.EOF and there is something left in buffer,
 				// let's flush them by sending CharEnter.
 				// And we will got io.EOF int next loop.
+				// A candidate that was not accepted is not part of it.
+				o.ExitCompleteMode(false)
 				r = CharEnter
 			}
 		}
-- 
2.43.0


From 9c98759055b29aaef277e9dbdb2132b7da7d8dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:26 +0000
Subject: [PATCH 46/83] fix: the common beginning of no candidates is empty

---
 runes.go       | 3 +++
 runes/runes.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/runes.go b/runes.go
index a6fb97c..bee6838 100644
--- a/runes.go
+++ b/runes.go
@@ -188,6 +188,9 @@ func (Runes) HasPrefix(r, prefix []rune) bool {
 }
 
 func (Runes) Aggregate(candicate [][]rune) (same []rune, size int) {
+	if len(candicate) == 0 {
+		return
+	}
 	for i := 0; i < len(candicate[0]); i++ {
 		for j := 0; j < len(candicate)-1; j++ {
 			if i >= len(candicate[j]) || i >= len(candicate[j+1]) {
diff --git a/runes/runes.go b/runes/runes.go
index 925b09c..a97ee4b 100644
--- a/runes/runes.go
+++ b/runes/runes.go
@@ -131,6 +131,9 @@ func HasPrefix(r, prefix []rune) bool {
 }
 
 func Aggregate(candicate [][]rune) (same []rune, size int) {
+	if len(candicate) == 0 {
+		return
+	}
 	for i := 0; i < len(candicate[0]); i++ {
 		for j := 0; j < len(candicate)-1; j++ {
 			if i >= len(candicate[j]) || i >= len(candicate[j+1]) {
-- 
2.43.0


From d188bdeca473920d68a017f56286325a3d4b2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:26 +0000
Subject: [PATCH 47/83] fix: ReadPassword(fd) restores the terminal (echo
 stayed off)

---
 term.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/term.go b/term.go
index ea5db93..062b668 100644
--- a/term.go
+++ b/term.go
@@ -85,11 +85,11 @@ func ReadPassword(fd int) ([]byte, error) {
 		return nil, err
 	}
 
-	newState := oldState
+	newState := *oldState
 	newState.Lflag &^= syscall.ECHO
 	newState.Lflag |= syscall.ICANON | syscall.ISIG
 	newState.Iflag |= syscall.ICRNL
-	if err := setTermios(fd, newState); err != nil {
+	if err := setTermios(fd, &newState); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 9c3d8017f113be6157aa3aa431754dc4727cf750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:56 +0000
Subject: [PATCH 48/83] fix: Up and Down come back to the default text of
 ReadlineWithDefault

---
 readline.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readline.go b/readline.go
index d61f32b..156243d 100644
--- a/readline.go
+++ b/readline.go
@@ -259,6 +259,8 @@ func (i *Instance) Readline() (string, error) {
 
 func (i *Instance) ReadlineWithDefault(what string) (string, error) {
 	i.Operation.SetBuffer(what)
+	// Up and Down come back to it
+	_ = i.Operation.history.Update([]rune(what), false)
 	return i.Operation.String()
 }
 
-- 
2.43.0


From 67267020781a70eb5a23a9e87c68afde49526d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:47 +0000
Subject: [PATCH 49/83] fix: vim r at the end of the input does not put a NUL
 into the line

---
 vim.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vim.go b/vim.go
index 3b8779a..c2863bd 100644
--- a/vim.go
+++ b/vim.go
@@ -66,7 +66,9 @@ func (o *opVim) handleVimNormalMovement(r rune, readNext func() rune) (t rune, h
 			rb.MoveBackward()
 		}
 	case 'r':
-		rb.Replace(readNext())
+		if next := readNext(); next != 0 { // unless the input ends
+			rb.Replace(next)
+		}
 	case 'd':
 		next := readNext()
 		switch next {
-- 
2.43.0


From 3c1192d0f32f8b9b19dc41bf50865e352e6e8848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:50 +0000
Subject: [PATCH 50/83] fix: a text written after a line was submitted from a
 completion listing started in the wrong column

---
 complete.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/complete.go b/complete.go
index d34d361..9ab2bd1 100644
--- a/complete.go
+++ b/complete.go
@@ -216,6 +216,9 @@ func (o *opCompleter) completeRefresh() {
 	}
 	o.op.buf.Lock()
 	defer o.op.buf.Unlock()
+	if o.op.buf.interactive && !o.op.buf.printed {
+		return // the line was submitted, and its list cleared with it
+	}
 	lineCnt := o.op.buf.cursorLineCount()
 	off := o.candidateOff
 	if off > o.op.buf.idx {
-- 
2.43.0


From b839ef059a75e28c909ef2f07f35959c591fcca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:12 +0000
Subject: [PATCH 51/83] fix: a read after Close could return an interrupt from
 before it

---
 operation.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/operation.go b/operation.go
index 1df22cf..417413b 100644
--- a/operation.go
+++ b/operation.go
@@ -73,7 +73,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		t:       t,
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
-		errchan: make(chan error, 1),
+		errchan: make(chan error),
 		eof:     make(chan struct{}),
 		stop:    make(chan struct{}),
 	}
@@ -328,7 +328,7 @@ func (o *Operation) ioloop() {
 			o.buf.finish(o.GetConfig().EOFPrompt+"\n", o.GetConfig().UniqueEditLine)
 			isUpdateHistory = false
 			o.history.Revert()
-			deliver = func() { o.errchan <- io.EOF }
+			deliver = func() { o.deliverError(io.EOF) }
 		case CharInterrupt:
 			if o.IsSearchMode() {
 				o.t.KickRead()
@@ -346,7 +346,7 @@ func (o *Operation) ioloop() {
 			remain := o.buf.finish(o.GetConfig().InterruptPrompt+"\n", o.GetConfig().UniqueEditLine)
 			isUpdateHistory = false
 			o.history.Revert()
-			deliver = func() { o.errchan <- &InterruptError{remain} }
+			deliver = func() { o.deliverError(&InterruptError{remain}) }
 		default:
 			if o.IsSearchMode() {
 				o.SearchChar(r)
@@ -397,6 +397,13 @@ func (o *Operation) ioloop() {
 	}
 }
 
+func (o *Operation) deliverError(err error) {
+	select {
+	case o.errchan <- err:
+	case <-o.stop:
+	}
+}
+
 func (o *Operation) Stderr() io.Writer {
 	return &wrapWriter{target: o.GetConfig().Stderr, r: o, t: o.t}
 }
-- 
2.43.0


From dbc94f0acca4424d795e9ec4368b06e2c41f2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:21 +0000
Subject: [PATCH 52/83] fix: Close raced with the history of a password read
 and left its file open

---
 operation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 417413b..7e77a97 100644
--- a/operation.go
+++ b/operation.go
@@ -481,6 +481,8 @@ func (o *Operation) Slice() ([]byte, error) {
 
 func (o *Operation) Close() {
 	o.closed.Do(func() { close(o.stop) })
+	o.m.Lock()
+	defer o.m.Unlock()
 	o.history.Close()
 }
 
@@ -539,7 +541,9 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 
 	// SetHistoryPath will close opHistory which already exists
 	// so if we use it next time, we need to reopen it by `InitHistory()`
-	op.history.Init()
+	if !op.isClosed() {
+		op.history.Init()
+	}
 
 	if op.cfg.AutoComplete != nil {
 		op.opCompleter = newOpCompleter(op.buf.w, op, width)
-- 
2.43.0


From 176c250ca71d21378ee57416a3d3857f23653bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 53/83] fix: a read ended by Close returned while the editor
 was still using the configuration

---
 operation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/operation.go b/operation.go
index 7e77a97..73d6beb 100644
--- a/operation.go
+++ b/operation.go
@@ -440,6 +440,7 @@ func (o *Operation) Runes() ([]rune, error) {
 		o.buf.finish("", true)
 		return nil, io.EOF
 	case <-o.stop:
+		<-o.eof // the caller may change the configuration now
 		return nil, io.EOF
 	}
 }
-- 
2.43.0


From 9fd74817b615875255541e5a00f75a3355a814c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 54/83] fix: a completer's negative offset crashed the listing

---
 complete.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/complete.go b/complete.go
index 9ab2bd1..e16e816 100644
--- a/complete.go
+++ b/complete.go
@@ -224,6 +224,9 @@ func (o *opCompleter) completeRefresh() {
 	if off > o.op.buf.idx {
 		off = o.op.buf.idx
 	}
+	if off < 0 {
+		off = 0
+	}
 	same := o.op.buf.runeSlice(-off)
 	sameWidth := runes.WidthAll(same)
 	colWidth := 0
-- 
2.43.0


From 0477ae7c653452a9802d28e973795996c08cd756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 55/83] fix: Close hung when the editor took no more keys

---
 terminal.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index cf05b6c..2e0a629 100644
--- a/terminal.go
+++ b/terminal.go
@@ -210,7 +210,9 @@ func (t *Terminal) ioloop() {
 			// a NUL (Ctrl+Space) is not the end of the input
 		case CharEsc:
 			if t.config().VimMode {
-				t.outchan <- r
+				if !t.deliver(r) {
+					return
+				}
 				break
 			}
 			isEscape = true
@@ -218,12 +220,24 @@ func (t *Terminal) ioloop() {
 			expectNextChar = false
 			fallthrough
 		default:
-			t.outchan <- r
+			if !t.deliver(r) {
+				return
+			}
 		}
 	}
 
 }
 
+// deliver hands r to the editor, which may be busy or gone when t is closed.
+func (t *Terminal) deliver(r rune) bool {
+	select {
+	case t.outchan <- r:
+		return true
+	case <-t.stopChan:
+		return false
+	}
+}
+
 func (t *Terminal) Bell() {
 	fmt.Fprintf(t, "%c", CharBell)
 }
-- 
2.43.0


From 3f9bc680295d189d3f3c1129dd582b6854f065ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 56/83] fix: keys translated to Enter let the editor use a
 configuration being changed

---
 operation.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/operation.go b/operation.go
index 73d6beb..fee9a7c 100644
--- a/operation.go
+++ b/operation.go
@@ -25,6 +25,7 @@ type Operation struct {
 	buf     *RuneBuffer
 	outchan chan []rune
 	errchan chan error
+	begin   chan struct{} // a read has started
 	eof     chan struct{} // closed when the input has ended
 	stop    chan struct{} // closed by Close
 	closed  sync.Once
@@ -74,6 +75,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 		buf:     NewRuneBuffer(t, cfg.Prompt, cfg, width),
 		outchan: make(chan []rune),
 		errchan: make(chan error),
+		begin:   make(chan struct{}),
 		eof:     make(chan struct{}),
 		stop:    make(chan struct{}),
 	}
@@ -112,7 +114,19 @@ func (o *Operation) GetConfig() *Config {
 }
 
 func (o *Operation) ioloop() {
+	reading := false
 	for {
+		// Keys are for the read that is pending: between two reads the
+		// program may change what they do.
+		if !reading {
+			select {
+			case <-o.begin:
+				reading = true
+			case <-o.stop:
+				close(o.eof)
+				return
+			}
+		}
 		keepInSearchMode := false
 		keepInCompleteMode := false
 		// what this key delivers to the pending read, if anything
@@ -120,10 +134,10 @@ func (o *Operation) ioloop() {
 		r := o.t.ReadRune()
 
 		// the end of the input is not a key
-		if r != 0 && o.GetConfig().FuncFilterInputRune != nil {
+		if filter := o.GetConfig().FuncFilterInputRune; r != 0 && filter != nil {
 			var process bool
 			typed := r
-			r, process = o.GetConfig().FuncFilterInputRune(r)
+			r, process = filter(r)
 			if stopsReading(typed) && !(process && stopsReading(r)) {
 				// the terminal waits, but the line goes on
 				o.t.KickRead()
@@ -393,6 +407,7 @@ func (o *Operation) ioloop() {
 		// the history as soon as it has the line.
 		if deliver != nil {
 			deliver()
+			reading = false
 		}
 	}
 }
@@ -429,6 +444,11 @@ func (o *Operation) Runes() ([]rune, error) {
 	o.buf.Refresh(nil) // print prompt
 	o.t.KickRead()
 	select {
+	case o.begin <- struct{}{}:
+	case <-o.eof:
+	case <-o.stop:
+	}
+	select {
 	case r := <-o.outchan:
 		return r, nil
 	case err := <-o.errchan:
-- 
2.43.0


From d275ad3189c53696a5171dfacc0e24908e1e05e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 57/83] fix: changing the vim mode raced with the terminal

---
 terminal.go | 8 +++++++-
 vim.go      | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/terminal.go b/terminal.go
index 2e0a629..28b6466 100644
--- a/terminal.go
+++ b/terminal.go
@@ -209,7 +209,7 @@ func (t *Terminal) ioloop() {
 		case 0:
 			// a NUL (Ctrl+Space) is not the end of the input
 		case CharEsc:
-			if t.config().VimMode {
+			if t.isVimMode() {
 				if !t.deliver(r) {
 					return
 				}
@@ -267,6 +267,12 @@ func (t *Terminal) config() *Config {
 	return t.cfg
 }
 
+func (t *Terminal) isVimMode() bool {
+	t.m.Lock()
+	defer t.m.Unlock()
+	return t.cfg.VimMode
+}
+
 func (t *Terminal) getStdin() io.Reader {
 	t.m.Lock()
 	r := t.cfg.Stdin
diff --git a/vim.go b/vim.go
index c2863bd..b1a2cea 100644
--- a/vim.go
+++ b/vim.go
@@ -27,7 +27,10 @@ func (o *opVim) SetVimMode(on bool) {
 	if o.cfg.VimMode && !on { // turn off
 		o.ExitVimMode()
 	}
+	// the terminal reads it
+	o.op.t.m.Lock()
 	o.cfg.VimMode = on
+	o.op.t.m.Unlock()
 	o.vimMode = VIM_INSERT
 }
 
-- 
2.43.0


From a6258e2d53fc8e7d5f2585500f8353072250931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:03 +0000
Subject: [PATCH 58/83] fix: a completion listing showed what was typed in a
 masked line

---
 complete.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/complete.go b/complete.go
index e16e816..b8983d5 100644
--- a/complete.go
+++ b/complete.go
@@ -250,6 +250,9 @@ func (o *opCompleter) completeRefresh() {
 	}
 
 	o.candidateColNum = colNum
+	if o.op.buf.cfg.EnableMask {
+		return // the candidates would show what was typed
+	}
 	buf := bufio.NewWriter(o.w)
 	buf.Write(bytes.Repeat([]byte("\n"), lineCnt))
 
-- 
2.43.0


From 56131a28c75fb14e72e47dc4862ed8d981949abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 59/83] fix: text cut from a password could be pasted into a
 line that is shown

---
 password.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/password.go b/password.go
index d622537..e93cba2 100644
--- a/password.go
+++ b/password.go
@@ -3,6 +3,9 @@ package readline
 type opPassword struct {
 	o         *Operation
 	backupCfg *Config
+
+	// what the buffer keeps between reads
+	backupKill []rune
 }
 
 func newOpPassword(o *Operation) *opPassword {
@@ -12,9 +15,16 @@ func newOpPassword(o *Operation) *opPassword {
 func (o *opPassword) ExitPasswordMode() {
 	o.o.SetConfig(o.backupCfg)
 	o.backupCfg = nil
+	o.o.buf.Lock()
+	// nothing cut from the password can be pasted into a line that is shown
+	o.o.buf.lastKill = o.backupKill
+	o.o.buf.Unlock()
 }
 
 func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
+	o.o.buf.Lock()
+	o.backupKill = o.o.buf.lastKill
+	o.o.buf.Unlock()
 	o.backupCfg, err = o.o.SetConfig(cfg)
 	return
 }
-- 
2.43.0


From b0b1ac38e0e2d166c0a1f86498b913a3521f9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 60/83] fix: a password read lost the prompt set with SetPrompt

---
 password.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/password.go b/password.go
index e93cba2..64a4105 100644
--- a/password.go
+++ b/password.go
@@ -5,7 +5,8 @@ type opPassword struct {
 	backupCfg *Config
 
 	// what the buffer keeps between reads
-	backupKill []rune
+	backupPrompt []rune
+	backupKill   []rune
 }
 
 func newOpPassword(o *Operation) *opPassword {
@@ -16,6 +17,7 @@ func (o *opPassword) ExitPasswordMode() {
 	o.o.SetConfig(o.backupCfg)
 	o.backupCfg = nil
 	o.o.buf.Lock()
+	o.o.buf.prompt = o.backupPrompt
 	// nothing cut from the password can be pasted into a line that is shown
 	o.o.buf.lastKill = o.backupKill
 	o.o.buf.Unlock()
@@ -23,7 +25,7 @@ func (o *opPassword) ExitPasswordMode() {
 
 func (o *opPassword) EnterPasswordMode(cfg *Config) (err error) {
 	o.o.buf.Lock()
-	o.backupKill = o.o.buf.lastKill
+	o.backupPrompt, o.backupKill = o.o.buf.prompt, o.o.buf.lastKill
 	o.o.buf.Unlock()
 	o.backupCfg, err = o.o.SetConfig(cfg)
 	return
-- 
2.43.0


From a478aed7b42f135f28498c968e8ddf68a9285d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 61/83] fix: changing the configuration wrote the new mask into
 the old one

---
 operation.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/operation.go b/operation.go
index fee9a7c..6d5855b 100644
--- a/operation.go
+++ b/operation.go
@@ -549,7 +549,6 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	old := op.cfg
 	op.cfg = cfg
 	op.SetPrompt(cfg.Prompt)
-	op.buf.SetMask(cfg.MaskRune)
 	op.buf.SetConfig(cfg)
 	width := op.cfg.FuncGetWidth()
 
-- 
2.43.0


From 39470e9a7a3fae112e65a901d129a9666c5f2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 62/83] fix: a password given up by Close could be shown by a
 refresh

---
 password.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/password.go b/password.go
index 64a4105..bd3e33c 100644
--- a/password.go
+++ b/password.go
@@ -14,6 +14,8 @@ func newOpPassword(o *Operation) *opPassword {
 }
 
 func (o *opPassword) ExitPasswordMode() {
+	// what was typed before the instance was closed is not shown later
+	o.o.buf.Reset()
 	o.o.SetConfig(o.backupCfg)
 	o.backupCfg = nil
 	o.o.buf.Lock()
-- 
2.43.0


From 971bea742b6f60282282ea59ab29b5a63794e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 63/83] fix: editing the line wrote into the line a listener
 had returned

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 6d5855b..2a3f569 100644
--- a/operation.go
+++ b/operation.go
@@ -378,7 +378,7 @@ func (o *Operation) ioloop() {
 		if listener != nil {
 			newLine, newPos, ok := listener.OnChange(o.buf.Runes(), o.buf.Pos(), r)
 			if ok {
-				o.buf.SetWithIdx(newPos, newLine)
+				o.buf.SetWithIdx(newPos, runes.Copy(newLine)) // newLine belongs to the listener
 			}
 		}
 
-- 
2.43.0


From 4ab83bc2d01f2fa24ae905524939b0be3def6c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 64/83] fix: a painter that paints in place changed the line
 being read

---
 runebuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runebuf.go b/runebuf.go
index 271fe95..d16a792 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -571,7 +571,7 @@ func (r *RuneBuffer) output() []byte {
 			buf.Write([]byte(string(r.cfg.MaskRune)))
 		}
 	} else {
-		for _, e := range r.cfg.Painter.Paint(r.buf, r.idx) {
+		for _, e := range r.cfg.Painter.Paint(runes.Copy(r.buf), r.idx) {
 			if e == '\t' {
 				buf.WriteString(strings.Repeat(" ", TabWidth))
 			} else {
-- 
2.43.0


From b57911ae9512435270d68ef66636ec147d18d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:33 +0000
Subject: [PATCH 65/83] fix: a second instance took the size changes away from
 the first, and raced with them

---
 utils_unix.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/utils_unix.go b/utils_unix.go
index fc49492..0bfb5fa 100644
--- a/utils_unix.go
+++ b/utils_unix.go
@@ -60,12 +60,15 @@ func GetStdin() int {
 // -----------------------------------------------------------------------------
 
 var (
-	widthChange         sync.Once
-	widthChangeCallback func()
+	widthChange          sync.Once
+	widthChangeLock      sync.Mutex
+	widthChangeCallbacks []func()
 )
 
 func DefaultOnWidthChanged(f func()) {
-	widthChangeCallback = f
+	widthChangeLock.Lock()
+	widthChangeCallbacks = append(widthChangeCallbacks, f)
+	widthChangeLock.Unlock()
 	widthChange.Do(func() {
 		ch := make(chan os.Signal, 1)
 		signal.Notify(ch, syscall.SIGWINCH)
@@ -76,7 +79,12 @@ func DefaultOnWidthChanged(f func()) {
 				if !ok {
 					break
 				}
-				widthChangeCallback()
+				widthChangeLock.Lock()
+				callbacks := widthChangeCallbacks[:len(widthChangeCallbacks):len(widthChangeCallbacks)]
+				widthChangeLock.Unlock()
+				for _, f := range callbacks {
+					f()
+				}
 			}
 		}()
 	})
-- 
2.43.0


From 16803c663d328dbdde60fe97aaa1a7d82528b042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:58 +0000
Subject: [PATCH 66/83] fix: a key rejected by FuncFilterInputRune erased the
 search or the candidates on screen

---
 operation.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/operation.go b/operation.go
index 2a3f569..ce4602a 100644
--- a/operation.go
+++ b/operation.go
@@ -143,8 +143,11 @@ func (o *Operation) ioloop() {
 				o.t.KickRead()
 			}
 			if !process {
-				o.buf.Refresh(nil) // to refresh the line
-				continue           // ignore this rune
+				// to refresh the line, and what is shown below it
+				o.buf.Refresh(nil)
+				o.SearchRefresh(-1)
+				o.CompleteRefresh()
+				continue // ignore this rune
 			}
 		}
 
-- 
2.43.0


From 705413db2bc1cb439d0520b7b3255b809212a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 67/83] fix: Refresh erased the search or the candidates on
 screen

---
 operation.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index ce4602a..3b556ae 100644
--- a/operation.go
+++ b/operation.go
@@ -393,7 +393,7 @@ func (o *Operation) ioloop() {
 		if o.IsInCompleteMode() {
 			if !keepInCompleteMode {
 				o.ExitCompleteMode(false)
-				o.Refresh()
+				o.buf.refreshShown(nil)
 				o.SearchRefresh(-1) // if that is what ended it
 			} else {
 				o.buf.Refresh(nil)
@@ -588,6 +588,13 @@ func (o *Operation) SaveHistory(content string) error {
 
 func (o *Operation) Refresh() {
 	o.buf.refreshShown(nil)
+
+	// and what is shown below the line
+	o.m.Lock()
+	search, completer := o.opSearch, o.opCompleter
+	o.m.Unlock()
+	search.SearchRefresh(-1)
+	completer.CompleteRefresh()
 }
 
 func (o *Operation) Clean() {
-- 
2.43.0


From a10a5c6d49028247fb8f0e1b33dee67e50ff07d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 68/83] fix: with a new configuration set, prefilled text was
 lost and Close hung on the old input

---
 terminal.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/terminal.go b/terminal.go
index 28b6466..97c5dbe 100644
--- a/terminal.go
+++ b/terminal.go
@@ -12,6 +12,8 @@ import (
 type Terminal struct {
 	m         sync.Mutex
 	cfg       *Config
+	stdin     io.ReadCloser // the input stays that of the first configuration
+	fill      io.Writer
 	outchan   chan rune
 	closed    int32
 	stopChan  chan struct{}
@@ -29,6 +31,8 @@ func NewTerminal(cfg *Config) (*Terminal, error) {
 	}
 	t := &Terminal{
 		cfg:      cfg,
+		stdin:    cfg.Stdin,
+		fill:     cfg.StdinWriter,
 		kickChan: make(chan struct{}, 1),
 		outchan:  make(chan rune),
 		stopChan: make(chan struct{}, 1),
@@ -69,7 +73,7 @@ func (t *Terminal) Write(b []byte) (int, error) {
 // WriteStdin prefill the next Stdin fetch
 // Next time you call ReadLine() this value will be writen before the user input
 func (t *Terminal) WriteStdin(b []byte) (int, error) {
-	return t.config().StdinWriter.Write(b)
+	return t.fill.Write(b)
 }
 
 type termSize struct {
@@ -138,7 +142,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.getStdin())
+	buf := bufio.NewReader(t.stdin)
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -246,9 +250,7 @@ func (t *Terminal) Close() error {
 	if atomic.SwapInt32(&t.closed, 1) != 0 {
 		return nil
 	}
-	if closer, ok := t.getStdin().(io.Closer); ok {
-		closer.Close()
-	}
+	t.stdin.Close()
 	close(t.stopChan)
 	t.wg.Wait()
 	return t.ExitRawMode()
@@ -273,13 +275,6 @@ func (t *Terminal) isVimMode() bool {
 	return t.cfg.VimMode
 }
 
-func (t *Terminal) getStdin() io.Reader {
-	t.m.Lock()
-	r := t.cfg.Stdin
-	t.m.Unlock()
-	return r
-}
-
 func (t *Terminal) SetConfig(c *Config) error {
 	if err := c.Init(); err != nil {
 		return err
-- 
2.43.0


From 3224b3b755785bfb88595e2c3b184c3734c86fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 69/83] fix: the width of a configuration set at runtime was
 ignored by the line, or by its search

---
 operation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 3b556ae..b3e1630 100644
--- a/operation.go
+++ b/operation.go
@@ -85,7 +85,7 @@ func NewOperation(t *Terminal, cfg *Config) *Operation {
 	op.opCompleter = newOpCompleter(op.buf.w, op, width)
 	op.opPassword = newOpPassword(op)
 	op.cfg.FuncOnWidthChanged(func() {
-		newWidth := cfg.FuncGetWidth()
+		newWidth := op.GetConfig().FuncGetWidth()
 		op.m.Lock()
 		op.opCompleter.OnWidthChange(newWidth)
 		op.opSearch.OnWidthChange(newWidth)
@@ -554,6 +554,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	op.SetPrompt(cfg.Prompt)
 	op.buf.SetConfig(cfg)
 	width := op.cfg.FuncGetWidth()
+	op.buf.OnWidthChange(width)
 
 	if cfg.opHistory == nil {
 		op.setHistoryPath(cfg.HistoryFile)
@@ -573,6 +574,7 @@ func (op *Operation) SetConfig(cfg *Config) (*Config, error) {
 	}
 
 	op.opSearch = cfg.opSearch
+	op.opSearch.OnWidthChange(width)
 	return old, nil
 }
 
-- 
2.43.0


From 16353ea4f0c1500b6e52eaeecc2baf68815216bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 70/83] fix: the entry after one that could not be saved
 completely was glued to it

A write that failed half way (a full disk) left part of a line at the end of
the history file, and the next entry that was saved continued that line.
---
 history.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/history.go b/history.go
index 5c218ae..f7a751f 100644
--- a/history.go
+++ b/history.go
@@ -27,6 +27,7 @@ type opHistory struct {
 	current    *list.Element
 	fd         *os.File
 	fdLock     sync.Mutex
+	torn       bool // the file ends within a line
 	loaded     bool
 	enable     bool
 }
@@ -88,6 +89,7 @@ func (o *opHistory) historyUpdatePath(path string) {
 		return
 	}
 	o.fd = f
+	o.torn = false
 	o.loaded = true
 	o.history.Init()
 	r := bufio.NewReader(o.fd)
@@ -99,7 +101,8 @@ func (o *opHistory) historyUpdatePath(path string) {
 		}
 		if err != nil {
 			// the last line has no newline; end it before more is added
-			o.fd.Write([]byte("\n"))
+			_, werr := o.fd.Write([]byte("\n"))
+			o.torn = werr != nil
 		}
 		// ignore the empty line
 		line = strings.TrimSpace(line)
@@ -163,6 +166,7 @@ func (o *opHistory) rewriteLocked() {
 	}
 	// fd is write only, just satisfy what we need.
 	o.fd = fd
+	o.torn = false
 }
 
 func (o *opHistory) Close() {
@@ -336,7 +340,7 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 		r.Source = s
 		if o.fd != nil {
 			// just report the error
-			_, err = o.fd.Write([]byte(string(r.Source) + "\n"))
+			err = o.appendLocked(string(r.Source) + "\n")
 		}
 		// only now: the line being composed does not count, and the entry
 		// being shown must not be dropped
@@ -347,6 +351,19 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 	return
 }
 
+// appendLocked adds a line to the file; what a failed write left of another
+// line before it is ended first.
+func (o *opHistory) appendLocked(line string) error {
+	if o.torn {
+		line = "\n" + line
+	}
+	n, err := o.fd.Write([]byte(line))
+	if n > 0 {
+		o.torn = line[n-1] != '\n'
+	}
+	return err
+}
+
 func (o *opHistory) Push(s []rune) {
 	s = runes.Copy(s)
 	elem := o.history.PushBack(&hisItem{Source: s})
-- 
2.43.0


From 23e4482fcb7d7a40d6eb1f9a55a7c5b4dab29f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:53 +0000
Subject: [PATCH 71/83] fix: trimming the history file changed who may read it

The trimmed file was created readable for everybody the umask allows, even
when the history file was private.
---
 history.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index f7a751f..33b3ac7 100644
--- a/history.go
+++ b/history.go
@@ -138,10 +138,19 @@ func (o *opHistory) rewriteLocked() {
 	}
 
 	tmpFile := o.cfg.HistoryFile + ".tmp"
-	fd, err := os.OpenFile(tmpFile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC|os.O_APPEND, 0666)
+	perm := os.FileMode(0666)
+	st, err := os.Stat(o.cfg.HistoryFile)
+	if err == nil {
+		perm = st.Mode().Perm()
+	}
+	fd, err := os.OpenFile(tmpFile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC|os.O_APPEND, perm)
 	if err != nil {
 		return
 	}
+	if st != nil {
+		// as readable as before, whatever the umask or an old file says
+		fd.Chmod(perm)
+	}
 
 	buf := bufio.NewWriter(fd)
 	for elem := o.history.Front(); elem != nil; elem = elem.Next() {
-- 
2.43.0


From f7bf4590e6f5ff6e13bfbd81e7a342c8f0ad0110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:12 +0000
Subject: [PATCH 72/83] fix: SaveHistory reported success when the history file
 could not be opened

---
 history.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/history.go b/history.go
index 33b3ac7..9c6d3f8 100644
--- a/history.go
+++ b/history.go
@@ -27,7 +27,8 @@ type opHistory struct {
 	current    *list.Element
 	fd         *os.File
 	fdLock     sync.Mutex
-	torn       bool // the file ends within a line
+	openErr    error // why there is no fd
+	torn       bool  // the file ends within a line
 	loaded     bool
 	enable     bool
 }
@@ -85,6 +86,7 @@ func (o *opHistory) historyUpdatePath(path string) {
 	o.fdLock.Lock()
 	defer o.fdLock.Unlock()
 	f, err := os.OpenFile(path, os.O_APPEND|os.O_CREATE|os.O_RDWR, 0666)
+	o.openErr = err
 	if err != nil {
 		return
 	}
@@ -350,6 +352,8 @@ func (o *opHistory) Update(s []rune, commit bool) (err error) {
 		if o.fd != nil {
 			// just report the error
 			err = o.appendLocked(string(r.Source) + "\n")
+		} else {
+			err = o.openErr
 		}
 		// only now: the line being composed does not count, and the entry
 		// being shown must not be dropped
-- 
2.43.0


From 3e349453d8438b70105b4e902d959f25a4af1fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:03 +0000
Subject: [PATCH 73/83] fix: a remote client went on taking its input after the
 connection failed

RemoteCli.Write reported bytes as written that were not, so that the copying
from the source never noticed and swallowed everything up to its end.
---
 remote.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/remote.go b/remote.go
index 93578e4..8639958 100644
--- a/remote.go
+++ b/remote.go
@@ -370,10 +370,10 @@ func (r *RemoteCli) writeMsg(m *Message) error {
 
 func (r *RemoteCli) Write(b []byte) (int, error) {
 	m := NewMessage(T_DATA, b)
-	r.dataM.Lock()
-	_, err := m.WriteTo(r.conn)
-	r.dataM.Unlock()
-	return len(b), err
+	if err := r.writeMsg(m); err != nil {
+		return 0, err
+	}
+	return len(b), nil
 }
 
 func (r *RemoteCli) reportWidth() error {
-- 
2.43.0


From 600f1d2171b7d4324c0073702164e8912b8efce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:09 +0000
Subject: [PATCH 74/83] fix: ListenRemote leaked goroutines for every handler
 that returned early

The connection was closed, but not the instance that reads from it.
---
 remote.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/remote.go b/remote.go
index 8639958..b373372 100644
--- a/remote.go
+++ b/remote.go
@@ -474,6 +474,7 @@ func ListenRemote(n, addr string, cfg *Config, h func(*Instance), onListen ...fu
 			if err != nil {
 				return
 			}
+			defer rl.Close()
 			h(rl)
 		}()
 	}
-- 
2.43.0


From 072d37b5c7e260f1b5d97efe39c8d73b680220ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:51 +0000
Subject: [PATCH 75/83] fix: RemoteSvr.Read returned data after the end of file
 when closed

---
 remote.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/remote.go b/remote.go
index b373372..b094178 100644
--- a/remote.go
+++ b/remote.go
@@ -233,7 +233,10 @@ func (r *RemoteSvr) readLoop(buf *bufio.Reader) {
 			r.gotEOF()
 		case T_DATA:
 			r.dataBufM.Lock()
-			r.dataBuf.Write(m.Data)
+			// once closed, Read has reported the end
+			if atomic.LoadInt32(&r.closed) == 0 {
+				r.dataBuf.Write(m.Data)
+			}
 			r.dataBufM.Unlock()
 			r.notifyRead()
 		case T_WIDTH_REPORT:
-- 
2.43.0


From 2e19d77c0e96f06ed4dcbb148c07b3b5b420855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:48 +0000
Subject: [PATCH 76/83] fix: Close restored terminal settings from before the
 last read

Settings changed since then, by the program or by another one, were undone.
---
 utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index d4ff82d..43166c7 100644
--- a/utils.go
+++ b/utils.go
@@ -279,7 +279,10 @@ func (r *RawMode) Exit() error {
 	if r.state == nil {
 		return nil
 	}
-	return Restore(GetStdin(), r.state)
+	state := r.state
+	// what happens to the terminal from now on is not ours to undo
+	r.state = nil
+	return Restore(GetStdin(), state)
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 7ab09b19bdf082fc71b6700467a12e30691c0c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:28 +0000
Subject: [PATCH 77/83] fix: entering raw mode again keeps the settings to
 restore

---
 utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 43166c7..5817d75 100644
--- a/utils.go
+++ b/utils.go
@@ -269,7 +269,11 @@ type RawMode struct {
 func (r *RawMode) Enter() (err error) {
 	r.m.Lock()
 	defer r.m.Unlock()
-	r.state, err = MakeRaw(GetStdin())
+	state, err := MakeRaw(GetStdin())
+	// entering it again must not forget how the terminal was before
+	if r.state == nil {
+		r.state = state
+	}
 	return err
 }
 
-- 
2.43.0


From 45c256e73344bb191238e79738461a619bd45b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:50 +0000
Subject: [PATCH 78/83] fix: SetAutoComplete keeps the history

---
 std.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std.go b/std.go
index c9bdf39..acbb0c0 100644
--- a/std.go
+++ b/std.go
@@ -44,6 +44,8 @@ func SetAutoComplete(completer AutoCompleter) {
 	ins := getInstance()
 	cfg := ins.Config.Clone()
 	cfg.AutoComplete = completer
+	// the history goes on
+	cfg.opHistory, cfg.opSearch = ins.Config.opHistory, ins.Config.opSearch
 	ins.SetConfig(cfg)
 }
 
-- 
2.43.0


From 9e76a12909f975614ee7f8e8fa8f3c015d676bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:24 +0000
Subject: [PATCH 79/83] fix: Close of a remote session hung when its client
 took nothing more

---
 operation.go | 6 +++++-
 readline.go  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/operation.go b/operation.go
index b3e1630..3b33bd3 100644
--- a/operation.go
+++ b/operation.go
@@ -503,8 +503,12 @@ func (o *Operation) Slice() ([]byte, error) {
 	return []byte(string(r)), nil
 }
 
-func (o *Operation) Close() {
+func (o *Operation) stopReading() {
 	o.closed.Do(func() { close(o.stop) })
+}
+
+func (o *Operation) Close() {
+	o.stopReading()
 	o.m.Lock()
 	defer o.m.Unlock()
 	o.history.Close()
diff --git a/readline.go b/readline.go
index 156243d..c5ccccb 100644
--- a/readline.go
+++ b/readline.go
@@ -277,8 +277,10 @@ func (i *Instance) ReadSlice() ([]byte, error) {
 // if there has a pending reading operation, that reading will be interrupted.
 // so you can capture the signal and call Instance.Close(), it's thread-safe.
 func (i *Instance) Close() error {
-	i.Operation.Close()
+	// the editor may be held up by what it writes to the other side of Stdin
+	i.Operation.stopReading()
 	i.Config.Stdin.Close()
+	i.Operation.Close()
 	if err := i.Terminal.Close(); err != nil {
 		return err
 	}
-- 
2.43.0


From 26959408893df8396e36c77af8146e08bd37bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:05 +0000
Subject: [PATCH 80/83] fix: Close raced with the reader changing the
 configuration

---
 readline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline.go b/readline.go
index c5ccccb..aacff3a 100644
--- a/readline.go
+++ b/readline.go
@@ -279,7 +279,7 @@ func (i *Instance) ReadSlice() ([]byte, error) {
 func (i *Instance) Close() error {
 	// the editor may be held up by what it writes to the other side of Stdin
 	i.Operation.stopReading()
-	i.Config.Stdin.Close()
+	i.Terminal.stdin.Close()
 	i.Operation.Close()
 	if err := i.Terminal.Close(); err != nil {
 		return err
-- 
2.43.0


From 68404b424ffda8472c3d5edfaf6591cbf659099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:23 +0000
Subject: [PATCH 81/83] fix: a backup of the line was changed by editing it

---
 runebuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runebuf.go b/runebuf.go
index d16a792..bf30825 100644
--- a/runebuf.go
+++ b/runebuf.go
@@ -53,7 +53,7 @@ func (r *RuneBuffer) OnWidthChange(newWidth int) {
 
 func (r *RuneBuffer) Backup() {
 	r.Lock()
-	r.bck = &runeBufferBck{r.buf, r.idx}
+	r.bck = &runeBufferBck{runes.Copy(r.buf), r.idx}
 	r.Unlock()
 }
 
@@ -62,7 +62,7 @@ func (r *RuneBuffer) Restore() {
 		if r.bck == nil {
 			return
 		}
-		r.buf = r.bck.buf
+		r.buf = runes.Copy(r.bck.buf)
 		r.idx = r.bck.idx
 	})
 }
-- 
2.43.0


From 6620c9ba7e479e3969b569426fd1dfdf122e21e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:59 +0000
Subject: [PATCH 82/83] fix: a signal in the middle of a character or key broke
 it

---
 terminal.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/terminal.go b/terminal.go
index 97c5dbe..b31c8f4 100644
--- a/terminal.go
+++ b/terminal.go
@@ -142,7 +142,7 @@ func (t *Terminal) ioloop() {
 		expectNextChar bool
 	)
 
-	buf := bufio.NewReader(t.stdin)
+	buf := bufio.NewReader(retryReader{t.stdin})
 	for {
 		if !expectNextChar {
 			atomic.StoreInt32(&t.isReading, 0)
@@ -156,10 +156,6 @@ func (t *Terminal) ioloop() {
 		expectNextChar = false
 		r, _, err := buf.ReadRune()
 		if err != nil {
-			if strings.Contains(err.Error(), "interrupted system call") {
-				expectNextChar = true
-				continue
-			}
 			break
 		}
 
@@ -232,6 +228,24 @@ func (t *Terminal) ioloop() {
 
 }
 
+// retryReader reads again when a signal interrupted the read, which may be in
+// the middle of a character or an escape sequence.
+type retryReader struct {
+	r io.Reader
+}
+
+func (r retryReader) Read(b []byte) (n int, err error) {
+	for {
+		n, err = r.r.Read(b)
+		if err == nil || !strings.Contains(err.Error(), "interrupted system call") {
+			return n, err
+		}
+		if n > 0 {
+			return n, nil
+		}
+	}
+}
+
 // deliver hands r to the editor, which may be busy or gone when t is closed.
 func (t *Terminal) deliver(r rune) bool {
 	select {
-- 
2.43.0


From 825fd3290010da6a564653c72a7bef6232418d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:45 +0000
Subject: [PATCH 83/83] fix: being resumed was guessed from a pause of the
 clock

A process that was resumed within 100 ms of being stopped never noticed:
the terminal stayed cooked and the read hung.  On a busy machine a late
tick counted as having been resumed before the process had stopped, which
left the shell a terminal in raw mode.  The system sends a signal when a
process is resumed; wait for that.
---
 utils.go         | 25 -------------------------
 utils_unix.go    | 14 ++++++++++++++
 utils_windows.go | 27 +++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 25 deletions(-)

diff --git a/utils.go b/utils.go
index 5817d75..96c0cf9 100644
--- a/utils.go
+++ b/utils.go
@@ -56,31 +56,6 @@ const (
 	MetaTranspose
 )
 
-// WaitForResume need to call before current process got suspend.
-// It will run a ticker until a long duration is occurs,
-// which means this process is resumed.
-func WaitForResume() chan struct{} {
-	ch := make(chan struct{})
-	var wg sync.WaitGroup
-	wg.Add(1)
-	go func() {
-		ticker := time.NewTicker(10 * time.Millisecond)
-		t := time.Now()
-		wg.Done()
-		for {
-			now := <-ticker.C
-			if now.Sub(t) > 100*time.Millisecond {
-				break
-			}
-			t = now
-		}
-		ticker.Stop()
-		ch <- struct{}{}
-	}()
-	wg.Wait()
-	return ch
-}
-
 func Restore(fd int, state *State) error {
 	err := restoreTerm(fd, state)
 	if err != nil {
diff --git a/utils_unix.go b/utils_unix.go
index 0bfb5fa..cc091c1 100644
--- a/utils_unix.go
+++ b/utils_unix.go
@@ -27,6 +27,20 @@ func SuspendMe() {
 	p.Signal(syscall.SIGTSTP)
 }
 
+// WaitForResume need to call before current process got suspend.
+// It waits for the signal which tells that this process is resumed.
+func WaitForResume() chan struct{} {
+	ch := make(chan struct{})
+	cont := make(chan os.Signal, 1)
+	signal.Notify(cont, syscall.SIGCONT)
+	go func() {
+		<-cont
+		signal.Stop(cont)
+		ch <- struct{}{}
+	}()
+	return ch
+}
+
 // get width of the terminal
 func getWidth(stdoutFd int) int {
 	cols, _, err := GetSize(stdoutFd)
diff --git a/utils_windows.go b/utils_windows.go
index 5bfa55d..40f1136 100644
--- a/utils_windows.go
+++ b/utils_windows.go
@@ -4,12 +4,39 @@ package readline
 
 import (
 	"io"
+	"sync"
 	"syscall"
+	"time"
 )
 
 func SuspendMe() {
 }
 
+// WaitForResume need to call before current process got suspend.
+// It will run a ticker until a long duration is occurs,
+// which means this process is resumed.
+func WaitForResume() chan struct{} {
+	ch := make(chan struct{})
+	var wg sync.WaitGroup
+	wg.Add(1)
+	go func() {
+		ticker := time.NewTicker(10 * time.Millisecond)
+		t := time.Now()
+		wg.Done()
+		for {
+			now := <-ticker.C
+			if now.Sub(t) > 100*time.Millisecond {
+				break
+			}
+			t = now
+		}
+		ticker.Stop()
+		ch <- struct{}{}
+	}()
+	wg.Wait()
+	return ch
+}
+
 func GetStdin() int {
 	return int(syscall.Stdin)
 }
-- 
2.43.0

