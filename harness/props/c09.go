package props

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"strings"
	"sync"
	"syscall"
	"time"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
	"verif.local/harness/yield"
)

// Children are what the worker does instead when it is started with VERIF_CHILD.
var Children = map[string]func(){}

var histTexts = []string{"ls", "git status", "ls", "echo 'héllo 世界'", " spaces around ", "x", "a\tb", "very " + "long long long long long long long long long long long long long long text", "#", "日本"}

func histText(r randSrc) string {
	t := histTexts[r.Intn(len(histTexts))]
	for r.Intn(3) == 0 {
		t += " " + histTexts[r.Intn(len(histTexts))]
	}
	if r.Intn(3) > 0 {
		t += fmt.Sprint(" ", r.Intn(1000))
	}
	return t
}

// histContent is what a history file may hold.
func histContent(r randSrc, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(12) {
		case 0:
			sb.WriteString("\n")
		case 1:
			sb.WriteString("  \t\n")
		case 2:
			sb.WriteString("dos line\r\n")
		default:
			sb.WriteString(histText(r) + "\n")
		}
	}
	s := sb.String()
	if r.Intn(4) == 0 {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

func readFile(path string) (string, bool) {
	b, err := os.ReadFile(path)
	return string(b), err == nil
}

// c09Sessions: sessions one after the other on the same file, with other users of the file between and beside them.
func c09Sessions(c *h.Ctx) {
	r := c.R
	path := fmt.Sprintf("%s/h%d", c.Dir, c.Idx)
	defer os.Remove(path)
	f := &model.HFile{}
	if r.Intn(3) > 0 {
		f.Content, f.Exists = histContent(r, r.Intn(30)), true
		os.WriteFile(path, []byte(f.Content), 0600)
	}
	ok := true
	for n := 1 + r.Intn(4); n > 0 && ok; n-- {
		limit := []int{500, 500, 500, 1 + r.Intn(6), 1 + r.Intn(20), -1}[r.Intn(6)]
		m := &ModelRun{C: c, M: model.NewSession(limit), Prompt: "> "}
		m.M.H = f.Open(limit)
		m.M.AutoSave = r.Intn(6) > 0
		m.M.H.Fold = r.Intn(2) == 0
		m.Opt.Width, m.Opt.Discard = 80, true
		cs := histKeys(r)
		if r.Intn(3) == 0 {
			cs = searchKeys(r)
		}
		cs[0] = Text(20+r.Intn(40), []string{"ab ", "abc字", "é字 x"}[r.Intn(3)])
		cs = append(cs, K(15, model.KeyPrev))
		m.Keys = genKeys(r, cs, r.Intn(80), false)
		m.Opt.Cfg = func(cfg *rl.Config) { cfg.HistoryFile = path }
		var other *sess.Sess
		look := func(when string) {
			got, exists := readFile(path)
			if got != f.Content || exists != f.Exists {
				m.fail("file", "%s the file (there: %v) holds\n%q\nand must hold (there: %v)\n%q", when, exists, got, f.Exists, f.Content)
			}
			c.Count("files_compared", 1)
		}
		m.Started = func() {
			m.mu.Lock()
			defer m.mu.Unlock()
			look(fmt.Sprintf("opened with limit %d,", limit))
			c.Seen("files", limit, f.Content)
			if r.Intn(4) == 0 && limit == 500 {
				other, _ = sess.New(sess.Opt{Width: 80, NoFilter: true, Discard: true, Cfg: func(cfg *rl.Config) { cfg.HistoryFile = path }})
				m.Opt.Cfg = nil
			}
		}
		m.Between = func(i int, res sess.Result) {
			look(fmt.Sprintf("after read %d returned %v", i, res))
			if r.Intn(3) == 0 {
				m.program(r, m.Session, true)
				look("after a change by the program")
			}
			if other != nil && r.Intn(3) == 0 {
				t := histText(r)
				before := f.Content
				if err := other.Inst.SaveHistory(t); err != nil {
					m.fail("other", "%v", err)
				}
				if now, _ := readFile(path); now != before { // not a repetition
					f.Content += t + "\n"
				}
				look("after another instance saved " + t)
				c.Count("shared_saves", 1)
			}
		}
		ok = m.Run()
		if other != nil {
			other.Close()
		}
		c.Count("sessions", 1)
		if !ok {
			return
		}
		m.mu.Lock()
		look("after Close")
		m.mu.Unlock()
		if r.Intn(3) == 0 && f.Exists { // somebody edits it
			switch r.Intn(4) {
			case 0:
				f.Content += "added without newline"
			case 1:
				f.Content += "\n\n  \n"
			case 2:
				if i := strings.IndexByte(f.Content, '\n'); i > 0 {
					f.Content = f.Content[i+1:]
				}
			case 3:
				f.Content = histContent(r, r.Intn(30))
			}
			os.WriteFile(path, []byte(f.Content), 0600)
		}
	}
}

// c09Direct: what a program does with histories, without reading.
func c09Direct(c *h.Ctx) {
	r := c.R
	var log strings.Builder
	files := []*model.HFile{{}, {}}
	paths := []string{fmt.Sprintf("%s/d%d.0", c.Dir, c.Idx), fmt.Sprintf("%s/d%d.1", c.Dir, c.Idx)}
	for i, p := range paths {
		defer os.Remove(p)
		if r.Intn(2) == 0 {
			files[i].Content, files[i].Exists = histContent(r, r.Intn(12)), true
			os.WriteFile(p, []byte(files[i].Content), 0600)
		}
	}
	var s *sess.Sess
	var hi *model.Hist
	limit := 0
	closed := false
	for n := 0; n < 4+r.Intn(20); n++ {
		if s == nil || r.Intn(8) == 0 {
			if s != nil {
				s.Close()
				log.WriteString("close ")
				if r.Intn(2) == 0 { // saving is still possible, but fails
					if err := s.Inst.SaveHistory("after close"); err == nil && hi.Saved != nil && !hi.Off {
						c.Fail("closed", "%s\nSaveHistory after Close reported no error", log.String())
						return
					}
				}
			}
			k := r.Intn(2)
			limit = []int{500, 500, 1 + r.Intn(5), -1}[r.Intn(4)]
			fmt.Fprintf(&log, "open(%d,limit %d) ", k, limit)
			var err error
			s, err = sess.New(sess.Opt{Width: 80, NoFilter: true, Discard: true, Cfg: func(cfg *rl.Config) { cfg.HistoryFile = paths[k]; cfg.HistoryLimit = limit }})
			if err != nil {
				c.Fail("setup", "%v", err)
				return
			}
			hi = files[k].Open(limit)
			closed = false
		}
		switch r.Intn(10) {
		case 0:
			k := r.Intn(2)
			fmt.Fprintf(&log, "path(%d) ", k)
			s.Inst.SetHistoryPath(paths[k])
			hi = files[k].Open(limit)
		case 1:
			log.WriteString("nopath ")
			s.Inst.SetHistoryPath("")
			hi = model.NewHist(limit)
		case 2:
			log.WriteString("reset ")
			s.Inst.ResetHistory()
			hi.Reset()
		case 3:
			log.WriteString("off ")
			s.Inst.HistoryDisable()
			hi.Off = true
		case 4:
			log.WriteString("on ")
			s.Inst.HistoryEnable()
			hi.Off = false
		default:
			t := histText(r)
			switch r.Intn(10) {
			case 0:
				t = ""
			case 1:
				t = "two\nlines"
			case 2:
				t = strings.Repeat(t, 1+r.Intn(3000))
			case 3:
				t = "ends with cr\r"
			case 4:
				if e := hi.Entries; len(e) > 0 {
					t = string(e[len(e)-1])
				}
			}
			fmt.Fprintf(&log, "save(%.40q) ", t)
			err := s.Inst.SaveHistory(t)
			if err != nil && !closed {
				c.Fail("save", "%s\nfailed: %v", log.String(), err)
				return
			}
			hi.Commit([]rune(t))
			c.Count("saves", 1)
		}
		h.Progress()
		for i, f := range files {
			got, exists := readFile(paths[i])
			if got != f.Content || exists != f.Exists {
				c.Fail("file", "%s\nfile %d (there: %v) holds\n%.2000q\nand must hold (there: %v)\n%.2000q", log.String(), i, exists, got, f.Exists, f.Content)
				return
			}
			c.Count("files_compared", 1)
		}
	}
	s.Close()
	c.Seen("files", log.String())
}

// c09Op is a step of a child process.
type c09Op struct {
	Kind string // "open", "save", "type", "close", "fsize", "nofile"
	Text string
	N    int
}

type c09Script struct {
	Ops  []c09Op
	Kill int // dies at this scheduling point (instrumented builds)
	UID  int
}

type c09Ack struct {
	done bool
	err  string
	size int    // of the file afterwards
	sum  uint32 // of the file afterwards, if it can be read
}

// c09Child runs a script in the current directory and reports every step on descriptor 3.
func c09Child() {
	var sc c09Script
	json.Unmarshal([]byte(os.Getenv("VERIF_SCRIPT")), &sc)
	ack := os.NewFile(3, "ack")
	signal.Ignore(syscall.SIGXFSZ)
	if sc.UID != 0 {
		if syscall.Setgid(sc.UID) != nil || syscall.Setuid(sc.UID) != nil {
			fmt.Fprintln(ack, "unable")
			return
		}
	}
	var s *sess.Sess
	if sc.Kill != 0 {
		yield.KillAt(sc.Kill)
	}
	for i, op := range sc.Ops {
		fmt.Fprintf(ack, "%d begin\n", i)
		var err error
		switch op.Kind {
		case "open":
			if s != nil {
				s.Close()
			}
			s, err = sess.New(sess.Opt{Width: 80, NoFilter: true, Discard: true, Cfg: func(cfg *rl.Config) { cfg.HistoryFile = "h"; cfg.HistoryLimit = op.N }})
		case "save":
			err = s.Inst.SaveHistory(op.Text)
		case "type":
			s.In.Feed([]byte(op.Text + "\r"))
			var line string
			line, err = s.Inst.Readline()
			if err == nil && line != op.Text {
				err = fmt.Errorf("the line is %q", line)
			}
		case "close":
			s.Close()
		case "fsize":
			n := uint64(op.N)
			if op.N < 0 {
				n = ^uint64(0)
			}
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: ^uint64(0)})
		case "nofile":
			n := uint64(op.N)
			if op.N < 0 {
				n = 1024
			}
			syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: n, Max: 1 << 16})
		}
		size := -1
		var st syscall.Stat_t
		if syscall.Stat("h", &st) == nil {
			size = int(st.Size)
		}
		var sum uint32
		if op.Kind == "open" {
			if b, e := os.ReadFile("h"); e == nil {
				sum = crc32.ChecksumIEEE(b)
			}
		}
		if err != nil {
			fmt.Fprintf(ack, "%d err %d %d %q\n", i, size, sum, err.Error())
		} else {
			fmt.Fprintf(ack, "%d ok %d %d\n", i, size, sum)
		}
	}
	fmt.Fprintf(ack, "points %d\n", yield.Points())
}

// child runs a script in dir; stop kills it after so many acknowledgements.
func child(dir string, sc c09Script, stop int, wait time.Duration) (acks []c09Ack, begun int, points int, died bool, note string) {
	b, _ := json.Marshal(sc)
	exe, _ := os.Executable()
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, 0, 0, false, err.Error()
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=c09", "VERIF_SCRIPT="+string(b), "GOMAXPROCS=2")
	cmd.Dir = dir
	cmd.ExtraFiles = []*os.File{pw}
	var errb strings.Builder
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return nil, 0, 0, false, err.Error()
	}
	pw.Close()
	acks = make([]c09Ack, len(sc.Ops))
	var once sync.Once
	rd := bufio.NewReader(pr)
	done := 0
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			break
		}
		h.Progress()
		var i, size int
		var what, rest string
		fs := strings.SplitN(strings.TrimSpace(l), " ", 5)
		switch {
		case fs[0] == "unable":
			note = "unable"
		case fs[0] == "points":
			fmt.Sscan(fs[1], &points)
		default:
			fmt.Sscan(fs[0], &i)
			what = fs[1]
			if what == "begin" {
				begun = i + 1
				break
			}
			fmt.Sscan(fs[2], &size)
			var sum uint32
			fmt.Sscan(fs[3], &sum)
			if len(fs) > 4 {
				rest = fs[4]
			}
			acks[i] = c09Ack{true, rest, size, sum}
			done++
		}
		if stop >= 0 && begun+done > stop {
			once.Do(func() {
				if wait > 0 {
					time.Sleep(wait)
				}
				cmd.Process.Signal(syscall.SIGKILL)
			})
		}
	}
	pr.Close()
	err = cmd.Wait()
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			died = true
		} else {
			note = fmt.Sprintf("%v\n%s", err, errb.String())
		}
	}
	return
}

func scriptString(sc c09Script) string { b, _ := json.Marshal(sc); return string(b) }

// c09Judge decides what the file may hold after a script that ended or died.
func c09Judge(c *h.Ctx, sc c09Script, start string, acks []c09Ack, begun int, dir string, what string) {
	got, exists := readFile(dir + "/h")
	fail := func(sig, f string, a ...interface{}) {
		c.Fail(sig, "%s\n%s\nthe file held %q\nsteps acknowledged %+v, begun %d\nnow (there: %v) it holds %q\n%s", what, scriptString(sc), start, acks, begun, exists, got, fmt.Sprintf(f, a...))
	}
	cur := start
	torn := false // the last line may be part of an entry whose saving failed
	entries := [][]rune(nil)
	limit := 500
	last := func() string {
		if len(entries) == 0 {
			return ""
		}
		return string(entries[len(entries)-1])
	}
	for i, op := range sc.Ops {
		if i >= begun {
			break
		}
		a := acks[i]
		if !a.done {
			// in progress when it died: before or after
			switch op.Kind {
			case "open":
				if got == cur || got == model.Ended(cur) || got == model.Trimmed(cur, op.N) {
					cur = got
				} else {
					fail("crash-open", "opening may leave it as it was or trimmed")
					return
				}
			case "save", "type":
				line := op.Text + "\n"
				if torn {
					line = "\n" + line
				}
				if !strings.HasPrefix(got, cur) || !strings.HasPrefix(line, got[len(cur):]) {
					fail("crash-save", "saving %q may leave it as it was or with that added", op.Text)
					return
				}
				cur = got
			}
			break
		}
		switch op.Kind {
		case "open":
			limit = op.N
			full := model.Trimmed(cur, op.N)
			entries = model.Lines(cur)
			if len(entries) > limit {
				entries = entries[len(entries)-limit:]
			}
			switch {
			case a.size == len(full) && full != cur && (a.size != len(cur) || a.sum == crc32.ChecksumIEEE([]byte(full))):
				cur, torn = full, false
			case a.size == len(cur):
				torn = cur != model.Ended(cur)
				if full != cur && !c09Faulty(sc, i) {
					fail("not-trimmed", "after opening it with limit %d it must hold %q", op.N, full)
					return
				}
			case a.size == len(cur)+1:
				cur, torn = cur+"\n", false
			case a.size == -1 && start == "":
			default:
				fail("open-size", "after step %d it has %d bytes; it may have %d or %d", i, a.size, len(cur), len(full))
				return
			}
		case "save", "type":
			if op.Text == last() || op.Text == "" {
				if a.size >= 0 && a.size != len(cur) {
					fail("repeat", "step %d saves a repetition", i)
					return
				}
				break
			}
			line := op.Text + "\n"
			if torn {
				line = "\n" + line
			}
			entries = append(entries, []rune(op.Text))
			switch {
			case a.err == "" && a.size == len(cur)+len(line):
				cur, torn = cur+line, false
			case a.err == "" && op.Kind == "save":
				fail("save-silent", "step %d reported that %q was saved; the file grew from %d to %d bytes", i, op.Text, len(cur), a.size)
				return
			case a.size == -1 && cur == "":
			case a.size >= len(cur) && a.size <= len(cur)+len(line):
				if a.size > len(cur) {
					torn = line[a.size-len(cur)-1] != '\n'
				}
				cur += line[:a.size-len(cur)]
			default:
				fail("save-size", "after step %d it has %d bytes; before it had %d", i, a.size, len(cur))
				return
			}
			if op.Kind == "type" && a.err != "" {
				fail("read-fails", "the read in step %d failed: %s", i, a.err)
				return
			}
		}
	}
	if got != cur {
		fail("content", "it must hold %q", cur)
		return
	}
	// a new instance goes on from there
	if exists {
		s, err := sess.New(sess.Opt{Width: 80, NoFilter: true, Discard: true, Cfg: func(cfg *rl.Config) { cfg.HistoryFile = dir + "/h"; cfg.HistoryLimit = limit }})
		if err != nil {
			fail("reopen", "%v", err)
			return
		}
		want := model.Trimmed(cur, limit)
		err = s.Inst.SaveHistory("afterwards")
		s.In.Feed([]byte("\x10\r\x10\x10\r"))
		s.In.EOF()
		l1, _ := s.Inst.Readline()
		l2, _ := s.Inst.Readline()
		s.Close()
		got, exists = readFile(dir + "/h")
		wl := ""
		if e := model.Lines(cur); len(e) > 0 && limit > 1 {
			wl = string(e[len(e)-1])
		} else if limit == 1 {
			wl = "afterwards"
		} else {
			wl = "afterwards"
		}
		if err != nil || got != want+"afterwards\n"+map[bool]string{true: wl + "\n"}[wl != "afterwards" && wl != ""] {
			fail("afterwards", "an entry saved by the next instance (error %v) makes it %q", err, want+"afterwards\n")
			return
		}
		if l1 != "afterwards" || l2 != wl {
			fail("recalled", "the next instance recalls %q, %q and must recall %q, %q", l1, l2, "afterwards", wl)
			return
		}
		c.Count("reopened", 1)
	}
}

// c09Faulty tells whether a fault that keeps files from being written was on at step i.
func c09Faulty(sc c09Script, i int) bool {
	on := sc.UID != 0
	for _, op := range sc.Ops[:i] {
		if op.Kind == "fsize" || op.Kind == "nofile" {
			on = op.N >= 0
		}
	}
	return on
}

func c09Dir(c *h.Ctx) string {
	d := fmt.Sprintf("%s/c09.%d", c.Dir, c.Idx)
	os.RemoveAll(d)
	os.Mkdir(d, 0755)
	return d
}

// c09Kill: a process dies at every scheduling point while it opens and saves.
func c09Kill(c *h.Ctx) {
	r := c.R
	dir := c09Dir(c)
	defer os.RemoveAll(dir)
	start := histContent(r, r.Intn(10))
	if r.Intn(3) == 0 { // more than the buffers of the implementation hold
		for len(start) < 9000 {
			start += strings.Repeat("long line ", 40) + fmt.Sprint(len(start)) + "\n"
		}
	}
	sc := c09Script{Ops: []c09Op{{Kind: "open", N: []int{500, 1 + r.Intn(4), 8}[r.Intn(3)]}}}
	for n := 1 + r.Intn(2); n > 0; n-- {
		sc.Ops = append(sc.Ops, c09Op{Kind: "save", Text: strings.TrimSpace(histText(r))})
	}
	if r.Intn(2) == 0 {
		sc.Ops = append(sc.Ops, c09Op{Kind: "open", N: 1 + r.Intn(4)})
	}
	run := func(kill int) (int, bool) {
		os.WriteFile(dir+"/h", []byte(start), 0600)
		os.Remove(dir + "/h.tmp")
		k := sc
		k.Kill = kill
		acks, begun, points, died, note := child(dir, k, -1, 0)
		if note != "" {
			c.Fail("child", "%s\n%s", scriptString(k), note)
			return 0, false
		}
		c.Seen("deaths", scriptString(k), start)
		c09Judge(c, k, start, acks, begun, dir, fmt.Sprintf("died at point %d (%v)", kill, died))
		if died {
			c.Count("deaths_at_points", 1)
		}
		return points, died
	}
	points, _ := run(1 << 30)
	c.Count("points", points)
	step := 1
	if max := 250; c.Tier != "thorough" && points > max {
		step = points/max + 1
	}
	for k := 1 + r.Intn(step); k <= points; k += step {
		if _, died := run(k); !died {
			c.Count("points_not_reached", 1)
		}
	}
	c.Sample("%s on %q: %d points", scriptString(sc), start, points)
}

// c09Random: a process is killed at a random moment.
func c09Random(c *h.Ctx) {
	r := c.R
	dir := c09Dir(c)
	defer os.RemoveAll(dir)
	start := histContent(r, r.Intn(30))
	os.WriteFile(dir+"/h", []byte(start), 0600)
	sc := c09Script{Ops: []c09Op{{Kind: "open", N: []int{500, 1 + r.Intn(10)}[r.Intn(2)]}}}
	for n := 1 + r.Intn(30); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			sc.Ops = append(sc.Ops, c09Op{Kind: "open", N: []int{500, 1 + r.Intn(10)}[r.Intn(2)]})
		case 1, 2, 3:
			sc.Ops = append(sc.Ops, c09Op{Kind: "save", Text: strings.TrimSpace(histText(r))})
		default:
			sc.Ops = append(sc.Ops, c09Op{Kind: "type", Text: strings.Replace(strings.TrimSpace(histText(r)), "\t", " ", -1)})
		}
	}
	acks, begun, _, died, note := child(dir, sc, r.Intn(2*len(sc.Ops)), time.Duration(r.Intn(300))*time.Microsecond)
	if note != "" {
		c.Fail("child", "%s\n%s", scriptString(sc), note)
		return
	}
	if died {
		c.Count("deaths_at_random", 1)
	}
	c.Seen("deaths", scriptString(sc), start, begun)
	c09Judge(c, sc, start, acks, begun, dir, "killed at a random moment")
}

// c09Full: the file system takes only so many bytes, for every number of bytes.
func c09Full(c *h.Ctx) {
	r := c.R
	dir := c09Dir(c)
	defer os.RemoveAll(dir)
	start := histContent(r, r.Intn(8))
	sc := c09Script{}
	n := 1 + r.Intn(3)
	before := r.Intn(2) == 0 // full already when it is opened
	if before {
		sc.Ops = append(sc.Ops, c09Op{Kind: "fsize"})
	}
	at := len(sc.Ops)
	sc.Ops = append(sc.Ops, c09Op{Kind: "open", N: []int{500, 1 + r.Intn(4)}[r.Intn(2)]})
	if !before {
		at = len(sc.Ops)
		sc.Ops = append(sc.Ops, c09Op{Kind: "fsize"})
	} else {
		at = 0
	}
	total := len(start) + 2
	for i := 0; i < n; i++ {
		k := "save"
		if r.Intn(3) == 0 {
			k = "type"
		}
		t := strings.Replace(strings.TrimSpace(histText(r)), "\t", " ", -1)
		if len(t) > 30 {
			t = "short one"
		}
		sc.Ops = append(sc.Ops, c09Op{Kind: k, Text: t})
		total += len(t) + 1
	}
	sc.Ops = append(sc.Ops, c09Op{Kind: "fsize", N: -1}, c09Op{Kind: "save", Text: "there is room again"}, c09Op{Kind: "open", N: 500}, c09Op{Kind: "save", Text: "last"})
	step := 1
	if c.Tier != "thorough" {
		step = 1 + total/60
	}
	for l := r.Intn(step); l <= total; l += step {
		k := sc
		k.Ops = append([]c09Op{}, sc.Ops...)
		k.Ops[at].N = l
		os.WriteFile(dir+"/h", []byte(start), 0600)
		os.RemoveAll(dir + "/h.tmp")
		acks, begun, _, _, note := child(dir, k, -1, 0)
		if note != "" {
			c.Fail("child", "%s\n%s", scriptString(k), note)
			return
		}
		c.Seen("deaths", scriptString(k), start)
		c09Judge(c, k, start, acks, begun, dir, fmt.Sprintf("files can grow to %d bytes", l))
		for _, a := range acks {
			if a.err != "" {
				c.Count("failed_writes", 1)
			}
		}
		c.Count("full_disks", 1)
	}
}

// c09Denied: files that cannot be opened, replaced or written.
func c09Denied(c *h.Ctx) {
	r := c.R
	dir := c09Dir(c)
	defer func() { os.Chmod(dir, 0755); os.RemoveAll(dir) }()
	start := histContent(r, 1+r.Intn(10))
	os.WriteFile(dir+"/h", []byte(start), 0600)
	limit := []int{500, 1 + r.Intn(3)}[r.Intn(2)]
	sc := c09Script{Ops: []c09Op{{Kind: "open", N: limit}, {Kind: "save", Text: "one"}, {Kind: "type", Text: "typed"}, {Kind: "save", Text: "two"}, {Kind: "open", N: limit}, {Kind: "save", Text: "three"}}}
	what := ""
	cleanup := func() {}
	switch r.Intn(5) {
	case 0:
		what = "the temporary name is taken by a directory"
		os.Mkdir(dir+"/h.tmp", 0755)
		sc.Ops = append([]c09Op{{Kind: "nofile", N: 1000}}, sc.Ops...) // marks it as faulty
		cleanup = func() { os.Remove(dir + "/h.tmp") }
	case 1:
		what = "no file can be opened"
		sc.Ops = append([]c09Op{{Kind: "nofile", N: 0}}, append(sc.Ops, c09Op{Kind: "nofile", N: -1}, c09Op{Kind: "open", N: limit}, c09Op{Kind: "save", Text: "four"})...)
	case 2:
		what = "the directory cannot be written"
		sc.UID = 65534
		os.Chown(dir+"/h", 65534, 65534)
		os.Chmod(dir, 0555)
	case 3:
		what = "the file cannot be written"
		sc.UID = 65534
		os.Chmod(dir+"/h", 0444)
	case 4:
		what = "the file cannot be read"
		sc.UID = 65534
		os.Chown(dir+"/h", 65534, 65534)
		os.Chmod(dir+"/h", 0200)
	}
	acks, begun, _, _, note := child(dir, sc, -1, 0)
	cleanup()
	if note == "unable" {
		c.Count("unprivileged_skipped", 1)
		return
	}
	if note != "" {
		c.Fail("child", "%s\n%s", scriptString(sc), note)
		return
	}
	os.Chmod(dir, 0755)
	os.Chown(dir+"/h", 0, 0)
	os.Chmod(dir+"/h", 0600)
	c.Seen("deaths", what, scriptString(sc), start)
	c09Judge(c, sc, start, acks, begun, dir, what)
	for _, a := range acks {
		if a.err != "" {
			c.Count("failed_writes", 1)
		}
	}
	c.Count("denied", 1)
}

// c09Mode: trimming keeps who may read the file.
func c09Mode(c *h.Ctx) {
	r := c.R
	path := fmt.Sprintf("%s/m%d", c.Dir, c.Idx)
	defer os.Remove(path)
	os.WriteFile(path, []byte("a\nb\nc\nd\n"), 0600)
	mode := []os.FileMode{0600, 0640, 0644, 0660, 0666}[r.Intn(5)]
	os.Chmod(path, mode)
	s, err := sess.New(sess.Opt{Width: 80, NoFilter: true, Discard: true, Cfg: func(cfg *rl.Config) { cfg.HistoryFile = path; cfg.HistoryLimit = 2 }})
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	s.Inst.SaveHistory("e")
	s.Close()
	got, _ := readFile(path)
	st, err := os.Stat(path)
	if err != nil || st.Mode().Perm() != mode || got != "c\nd\ne\n" {
		c.Fail("mode", "a file of mode %v was trimmed to %q with mode %v (%v)", mode, got, st.Mode(), err)
	}
	c.Count("modes", 1)
}

var _ = io.EOF

func init() {
	Children["c09"] = c09Child
	h.Register(&h.Prop{
		ID:    "C09",
		Level: "fault_enumeration",
		Rule:  "Plain build: up to four sessions in a row of random editing, recall and search on the same file, compared with the model and a model of the file after every read (other instances and editors of the file between); sequences of saves, resets, switches, path changes and reopenings; processes killed at random moments; files that can grow to every possible number of bytes, cannot be opened, replaced or written. Instrumented build: a process that dies at each of the statements it executes while it opens, trims and saves. After each fault the file and what the next instance makes of it are compared. Non-trivial is a distinct (script, content, fault).",
		Count: "deaths",
		Min: map[string]int64{"files_compared": 20000, "sessions": 1500, "saves": 5000, "deaths_at_random": 60, "deaths_at_points": 1000, "full_disks": 500, "failed_writes": 200, "reopened": 1500, "modes": 20, "shared_saves": 100,
			"denied": 20, "deaths": 1500, "files": 1500},
		Assume: []string{"one instance at a time trims the file", "a process that dies takes nothing back that it handed to the operating system (no loss of power)"},
		Builds: []h.Build{
			{Name: "", Cases: tiers(12000, 120000)},
			{Name: "instr", Instr: true, Cases: tiers(64, 400)},
		},
		Run: func(c *h.Ctx) {
			if c.Build != "" {
				c09Kill(c)
				return
			}
			switch c.Idx % 20 {
			case 0, 1, 2, 3, 4, 5, 6, 7, 8, 9:
				c09Sessions(c)
			case 10, 11, 12, 13, 14:
				c09Direct(c)
			case 15:
				if c.Idx%100 == 15 {
					c09Full(c)
				} else {
					c09Mode(c)
				}
			case 16:
				c09Denied(c)
			default:
				c09Random(c)
			}
		},
	})
}
