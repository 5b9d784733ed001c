package props

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

type c23Op struct {
	Kind string // "line", "password", "add", "path", "complete", "exit"
	Text string
}

type c23Ack struct {
	Line, Err string
	Calls     []compCall2
}

type compCall2 struct {
	Line string
	Pos  int
}

// c23Table completes the word's last character by what the table says.
type c23Table struct {
	m     sync.Mutex
	table map[rune]string
	calls []compCall2
}

func c23Parse(s string) map[rune]string {
	t := map[rune]string{}
	for _, f := range strings.Fields(s) {
		rs := []rune(f)
		t[rs[0]] = string(rs[1:])
	}
	return t
}

func (t *c23Table) Do(line []rune, pos int) ([][]rune, int) {
	t.m.Lock()
	t.calls = append(t.calls, compCall2{string(line), pos})
	t.m.Unlock()
	if pos == 0 {
		return nil, 0
	}
	if s, ok := t.table[line[pos-1]]; ok {
		return [][]rune{[]rune(s)}, 1
	}
	return nil, 0
}

// c23Child uses the functions of the package as told on descriptor 4.
func c23Child() {
	acks := json.NewEncoder(os.NewFile(3, "ack"))
	cmds := json.NewDecoder(os.NewFile(4, "cmd"))
	if os.Getenv("C23_VARS") != "" { // the package's own variables rather than the descriptors
		rl.Stdin, rl.Stdout, rl.Stderr = os.NewFile(5, "in"), os.NewFile(6, "out"), os.NewFile(6, "out")
	}
	var comp *c23Table
	for {
		var op c23Op
		if cmds.Decode(&op) != nil || op.Kind == "exit" {
			return
		}
		var a c23Ack
		var err error
		switch op.Kind {
		case "line":
			a.Line, err = rl.Line(op.Text)
		case "password":
			var b []byte
			b, err = rl.Password(op.Text)
			a.Line = string(b)
		case "add":
			err = rl.AddHistory(op.Text)
		case "path":
			rl.SetHistoryPath(op.Text)
		case "complete":
			comp = &c23Table{table: c23Parse(op.Text)}
			rl.SetAutoComplete(comp)
		}
		if comp != nil {
			comp.m.Lock()
			a.Calls, comp.calls = comp.calls, nil
			comp.m.Unlock()
		}
		if err != nil {
			a.Err = err.Error()
			if err == io.EOF || err == rl.ErrInterrupt {
				a.Err = fmt.Sprint(err == io.EOF, err == rl.ErrInterrupt)
			}
		}
		acks.Encode(a)
	}
}

type c23Case struct {
	c     *h.Ctx
	r     randSrc
	p     *pty     // the terminal, or
	in    *os.File // the input
	cmd   *exec.Cmd
	done  chan struct{}
	err   error
	acks  *json.Decoder
	cmds  *json.Encoder
	log   []string
	m     *model.Session
	files map[string]*model.HFile
	path  string
	calls []compCall2
	mu    sync.Mutex
	out   []byte
}

func (k *c23Case) fail(sig, f string, a ...interface{}) {
	out := ""
	k.mu.Lock()
	out = string(k.out)
	k.mu.Unlock()
	if k.p != nil {
		out = string(k.p.from(0))
	}
	if i := strings.Index(out, "\ngoroutine "); i >= 0 {
		out = out[i:]
	}
	if len(out) > 8000 {
		out = out[:8000]
	}
	k.c.Fail(sig, "%s\n%s\nhistory %s\noutput: %s", strings.Join(k.log, "\n"), fmt.Sprintf(f, a...), fmtEntries(k.m.H.Entries), out)
}

func (k *c23Case) start(terminal, vars bool) error {
	exe, _ := os.Executable()
	ar, aw, err := os.Pipe()
	if err != nil {
		return err
	}
	cr, cw, err := os.Pipe()
	if err != nil {
		return err
	}
	k.cmd = exec.Command(exe)
	k.cmd.Env = append(os.Environ(), "VERIF_CHILD=c23", "GOMAXPROCS=2", "TERM=xterm")
	k.cmd.ExtraFiles = []*os.File{aw, cr}
	k.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
	mine := []*os.File{aw, cr}
	if terminal {
		k.cmd.Stdin, k.cmd.Stdout, k.cmd.Stderr = k.p.slave, k.p.slave, k.p.slave
		k.cmd.SysProcAttr.Setctty = true
	} else {
		ir, iw, err := os.Pipe()
		if err != nil {
			return err
		}
		or, ow, err := os.Pipe()
		if err != nil {
			return err
		}
		mine = append(mine, ir, ow)
		k.in = iw
		if vars {
			k.cmd.Env = append(k.cmd.Env, "C23_VARS=1")
			k.cmd.ExtraFiles = append(k.cmd.ExtraFiles, ir, ow)
			k.cmd.Stderr = ow
		} else {
			k.cmd.Stdin, k.cmd.Stdout, k.cmd.Stderr = ir, ow, ow
		}
		go func() {
			b := make([]byte, 4096)
			for {
				n, err := or.Read(b)
				k.mu.Lock()
				k.out = append(k.out, b[:n]...)
				k.mu.Unlock()
				if err != nil {
					or.Close()
					return
				}
			}
		}()
	}
	err = k.cmd.Start()
	for _, f := range mine {
		f.Close()
	}
	if err != nil {
		return err
	}
	k.acks, k.cmds = json.NewDecoder(ar), json.NewEncoder(cw)
	k.done = make(chan struct{})
	go func() {
		k.err = k.cmd.Wait()
		if k.p != nil {
			k.p.mu.Lock()
			k.p.ended = true
			k.p.cond.Broadcast()
			k.p.mu.Unlock()
		}
		cw.Close()
		ar.Close()
		close(k.done)
	}()
	return nil
}

func (k *c23Case) type_(b []byte) {
	w := k.in
	if k.p != nil {
		w = k.p.master
	}
	for _, p := range pieces(k.r, b) {
		w.Write(p)
	}
}

// do makes the child call and compares what the call gave.
func (k *c23Case) do(op c23Op, keys []byte, line, werr string, anyErr bool) bool {
	k.log = append(k.log, fmt.Sprintf("%s(%q) %q", op.Kind, op.Text, keys))
	off := 0
	early := k.p == nil && k.r.Intn(2) == 0
	if early {
		k.type_(keys)
	} else if k.p != nil {
		off = k.p.mark()
	}
	k.cmds.Encode(op)
	if !early && keys != nil {
		if k.p != nil && !k.p.await(off, strings.TrimSpace(op.Text)) {
			k.fail("prompt", "no prompt")
			return false
		}
		k.type_(keys)
	}
	var a c23Ack
	if err := k.acks.Decode(&a); err != nil {
		<-k.done
		k.fail("child", "%v: %v", err, k.err)
		return false
	}
	h.Progress()
	k.c.Count("calls_compared", 1)
	if anyErr {
		if a.Err == "" {
			k.fail("no-error", "%s reported no error", op.Kind)
			return false
		}
	} else if a.Line != line || a.Err != werr {
		k.fail("result", "%s returned %q, error %q; it must be %q, %q", op.Kind, a.Line, a.Err, line, werr)
		return false
	}
	if fmt.Sprint(a.Calls) != fmt.Sprint(k.calls) {
		k.fail("completer", "the completer was asked %v and must be asked %v", a.Calls, k.calls)
		return false
	}
	k.c.Count("completer_calls", len(k.calls))
	k.calls = nil
	for p, f := range k.files {
		b, err := os.ReadFile(p)
		if (err == nil) != f.Exists || string(b) != f.Content {
			k.fail("file", "%s holds %q (%v) and must hold %q (%v)", filepath.Base(p), b, err, f.Content, f.Exists)
			return false
		}
		k.c.Count("files_compared", 1)
	}
	k.c.Seen("results", op.Kind, string(keys), line, werr, fmtEntries(k.m.H.Entries))
	return true
}

func c23(c *h.Ctx) {
	r := c.R
	terminal := c.Idx%3 > 0
	k := &c23Case{c: c, r: r, m: model.NewSession(500), files: map[string]*model.HFile{}}
	k.m.AutoSave = false
	if terminal {
		p, err := openPty()
		if err != nil {
			c.Count("no_pty", 1)
			return
		}
		defer p.close()
		k.p = p
		winsize(p.master.Fd(), 20+r.Intn(100), 24)
	}
	dir := filepath.Join(c.Dir, fmt.Sprint("g", c.Idx))
	if err := os.Mkdir(dir, 0700); err != nil {
		c.Count("no_dir", 1)
		return
	}
	defer os.RemoveAll(dir)
	if err := k.start(terminal, r.Intn(2) == 0); err != nil {
		c.Count("no_child", 1)
		return
	}
	defer func() {
		k.cmd.Process.Kill()
		<-k.done
		if k.in != nil {
			k.in.Close()
		}
	}()
	words := []string{"one", "two two", "字形", "x", "one", "", "a-b", " padded ", "three"}
	bad := false
	for n, steps := 0, 4+r.Intn(20); n < steps; n++ {
		switch kind := r.Intn(12); {
		case kind < 5: // a line
			cs := append(searchKeys(r), K(r.Intn(30), model.KeyTab))
			cs = append(cs, K(5, model.KeyInterrupt), K(3, model.KeyDelete))
			var ks []sess.Key
			var st model.Step
			for {
				key := Pick(r, cs)
				if len(ks) > 40 {
					key = model.KeyEnter
				}
				if key == model.KeyCtrlL {
					continue
				}
				ks = append(ks, sess.Encode(key, r, false))
				if st = k.m.Step(key, nil); st.Out != model.None {
					break
				}
			}
			we := ""
			switch st.Out {
			case model.Interrupt:
				we = "false true"
			case model.EOF:
				we = "true false"
			}
			c.Count("lines", 1)
			if !k.do(c23Op{"line", fmt.Sprintf("q%d> ", n)}, []byte(sess.Bytes(ks)), string(st.Text), we, false) {
				return
			}
		case kind < 6:
			secret := strings.Repeat("§¶", r.Intn(6)) + "§"
			off := 0
			if k.p != nil {
				off = k.p.mark()
			}
			if !k.do(c23Op{"password", fmt.Sprintf("s%d> ", n)}, []byte(secret+"\r"), secret, "", false) {
				return
			}
			if k.p != nil && strings.ContainsAny(string(k.p.from(off)), "§¶") {
				k.fail("echo", "the password is shown")
				return
			}
			c.Count("passwords", 1)
		case kind < 9:
			w := words[r.Intn(len(words))]
			if bad && k.m.H.Saved == nil && w != "" && !(len(k.m.H.Entries) > 0 && string(k.m.H.Entries[len(k.m.H.Entries)-1]) == w) {
				k.m.H.Commit([]rune(w))
				if !k.do(c23Op{"add", w}, nil, "", "", true) {
					return
				}
				c.Count("failures", 1)
				break
			}
			k.m.H.Commit([]rune(w))
			c.Count("added", 1)
			if !k.do(c23Op{"add", w}, nil, "", "", false) {
				return
			}
		case kind < 11:
			bad = false
			switch r.Intn(6) {
			case 0:
				k.path, k.m.H = "", model.NewHist(500)
			case 1:
				k.path, k.m.H, bad = filepath.Join(dir, "none", "h"), model.NewHist(500), true
			default:
				k.path = filepath.Join(dir, fmt.Sprint("h", r.Intn(3)))
				f := k.files[k.path]
				if f == nil {
					f = &model.HFile{}
					if r.Intn(2) == 0 {
						f.Exists, f.Content = true, histContent(r, r.Intn(6))
						os.WriteFile(k.path, []byte(f.Content), 0600)
					}
					k.files[k.path] = f
				}
				k.m.H = f.Open(500)
			}
			c.Count("paths", 1)
			if !k.do(c23Op{"path", k.path}, nil, "", "", false) {
				return
			}
		default:
			table := []string{"apple banana", "字形 xyz", "oONE t_", "n"}[r.Intn(4)]
			t := &c23Table{table: c23Parse(table)}
			k.m.C.Do = func(line []rune, pos int) ([][]rune, int) {
				k.calls = append(k.calls, compCall2{string(line), pos})
				return t.Do(line, pos)
			}
			if !k.do(c23Op{"complete", table}, nil, "", "", false) {
				return
			}
			c.Count("completers", 1)
		}
	}
	if !terminal && r.Intn(2) == 0 { // the end of the input
		text := "rest"[:r.Intn(5)]
		k.type_([]byte(text))
		k.in.Close()
		if text != "" && !k.do(c23Op{"line", "end> "}, nil, text, "", false) {
			return
		}
		for i := 0; i < 2; i++ {
			if !k.do(c23Op{"line", "end> "}, nil, "", "true false", false) {
				return
			}
		}
		c.Count("ends", 1)
	}
	k.cmds.Encode(c23Op{Kind: "exit"})
	<-k.done
	if k.err != nil {
		k.fail("exit", "%v", k.err)
		return
	}
	c.Count("processes", 1)
}

func init() {
	Children["c23"] = c23Child
	h.Register(&h.Prop{
		ID:    "C23",
		Rule:  "Processes that call the functions of the package in random order (lines with editing, history and search keys, passwords, saving, history paths that can and cannot be written, completers), on pseudo-terminals, on pipes and on the package's input and output variables; every result, every call of the completer and every history file is compared with the model of one instance that saves only what the program adds. Non-trivial is a distinct (call, keys, result, history).",
		Count: "results",
		Min:   map[string]int64{"calls_compared": 5000, "lines": 2000, "passwords": 300, "added": 1000, "paths": 500, "completers": 200, "completer_calls": 300, "failures": 50, "files_compared": 3000, "ends": 50, "processes": 400, "results": 2000},
		Procs: 8,
		Builds: []h.Build{
			{Name: "", Cases: tiers(700, 12000)},
			{Name: "race", Race: true, Cases: tiers(80, 1500)},
		},
		Run: c23,
	})
}
