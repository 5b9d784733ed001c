package props

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
	"verif.local/harness/vt"
)

func ioctl(fd, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

// ktermios is the settings as the kernel has them.
type ktermios struct {
	I, O, C, L uint32
	Line       byte
	Cc         [19]byte
}

func tcget(fd uintptr) (t ktermios, err error) {
	err = ioctl(fd, 0x5401, unsafe.Pointer(&t))
	return
}

func tcset(fd uintptr, t ktermios) error { return ioctl(fd, 0x5402, unsafe.Pointer(&t)) }

func winsize(fd uintptr, cols, rows int) error {
	w := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	return ioctl(fd, syscall.TIOCSWINSZ, unsafe.Pointer(&w))
}

// rawOf is what raw mode makes of the settings: cfmakeraw, except for the processing of output.
func rawOf(t ktermios) ktermios {
	t.I &^= syscall.IGNBRK | syscall.BRKINT | syscall.PARMRK | syscall.ISTRIP | syscall.INLCR | syscall.IGNCR | syscall.ICRNL | syscall.IXON
	t.L &^= syscall.ECHO | syscall.ECHONL | syscall.ICANON | syscall.ISIG | syscall.IEXTEN
	t.C = t.C&^(syscall.CSIZE|syscall.PARENB) | syscall.CS8
	t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = 1, 0
	return t
}

type pty struct {
	master, slave *os.File
	mu            sync.Mutex
	cond          *sync.Cond
	out           []byte
	ended         bool
}

func openPty() (*pty, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	var zero, n int32
	if err := ioctl(m.Fd(), 0x40045431, unsafe.Pointer(&zero)); err != nil {
		m.Close()
		return nil, err
	}
	if err := ioctl(m.Fd(), 0x80045430, unsafe.Pointer(&n)); err != nil {
		m.Close()
		return nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, err
	}
	p := &pty{master: m, slave: s}
	p.cond = sync.NewCond(&p.mu)
	go func() {
		b := make([]byte, 4096)
		for {
			n, err := m.Read(b)
			p.mu.Lock()
			p.out = append(p.out, b[:n]...)
			if err != nil {
				p.ended = true
			}
			p.cond.Broadcast()
			p.mu.Unlock()
			h.Progress()
			if err != nil {
				return
			}
		}
	}()
	return p, nil
}

// await waits until the output from off on contains s.
func (p *pty) await(off int, s string) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	there := func() bool {
		i := strings.Index(string(p.out[off:]), s)
		// a line of output can arrive in two pieces
		return i >= 0 && (!strings.HasPrefix(s, "done") || strings.Contains(string(p.out[off+i:]), "\n"))
	}
	for !there() && !p.ended {
		p.cond.Wait()
	}
	return there()
}

func (p *pty) mark() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.out) }

func (p *pty) from(off int) []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]byte{}, p.out[off:]...)
}

func (p *pty) close() { p.slave.Close(); p.master.Close() }

// randTermios changes settings that leave a usable terminal.
func randTermios(r randSrc, t ktermios, wild bool) ktermios {
	flip := func(p *uint32, bits ...uint32) {
		for _, b := range bits {
			if r.Intn(3) == 0 {
				*p ^= b
			}
		}
	}
	flip(&t.I, syscall.IGNBRK, syscall.BRKINT, syscall.PARMRK, syscall.IGNPAR, syscall.ICRNL, syscall.IXON, syscall.IXANY, syscall.IMAXBEL, syscall.IUTF8, syscall.INLCR, syscall.IGNCR, syscall.INPCK)
	flip(&t.L, syscall.ECHO, syscall.ECHOE, syscall.ECHOK, syscall.ECHONL, syscall.ICANON, syscall.IEXTEN, syscall.ISIG, syscall.NOFLSH, syscall.ECHOCTL, syscall.ECHOKE)
	if wild {
		flip(&t.I, syscall.ISTRIP)
		flip(&t.O, syscall.OPOST, syscall.ONLCR, syscall.OCRNL, syscall.ONOCR, syscall.ONLRET)
		flip(&t.C, syscall.HUPCL, syscall.CSTOPB, syscall.PARODD)
	}
	for _, i := range []int{syscall.VINTR, syscall.VQUIT, syscall.VERASE, syscall.VKILL, syscall.VEOF, syscall.VEOL, syscall.VEOL2, syscall.VSTART, syscall.VSTOP, syscall.VLNEXT, syscall.VWERASE, syscall.VREPRINT, syscall.VSUSP} {
		if r.Intn(3) == 0 {
			t.Cc[i] = "abcdefghij klmn"[r.Intn(15)]
		}
	}
	if r.Intn(2) == 0 {
		t.Cc[syscall.VMIN], t.Cc[syscall.VTIME] = byte(r.Intn(5)), byte(r.Intn(5))
	}
	return t
}

type c15Op struct {
	Kind string // "read", "default", "password", "fdpassword", "closed", "close", "write", "size", "remote", "exit"
	Text string
	Addr string
	Mark int // 1 and 2: the remote client is told that it is no terminal, and that it is one
}

type c15Ack struct {
	Kind          string // "begin", "end"
	Line, Err     string
	Before, After ktermios
	Cols, Rows, W int
	Tty           bool
	Note          string
}

// c15Child uses the terminal it was started on, as told on descriptor 4.
func c15Child() {
	signal.Ignore(syscall.SIGHUP)
	acks := json.NewEncoder(os.NewFile(3, "ack"))
	cmds := json.NewDecoder(os.NewFile(4, "cmd"))
	var inst *rl.Instance
	for {
		var op c15Op
		if cmds.Decode(&op) != nil || op.Kind == "exit" {
			return
		}
		var a c15Ack
		a.Before, _ = tcget(0)
		acks.Encode(c15Ack{Kind: "begin", Before: a.Before})
		var err error
		if inst == nil && op.Kind != "remote" && op.Kind != "fdpassword" {
			inst, err = rl.NewEx(&rl.Config{Prompt: "> ", HistoryLimit: -1})
			if err != nil {
				a.Note = err.Error()
			}
		}
		switch op.Kind {
		case "read":
			inst.SetPrompt(op.Text)
			a.Line, err = inst.Readline()
		case "default":
			inst.SetPrompt(op.Text)
			a.Line, err = inst.ReadlineWithDefault("given")
		case "password":
			var b []byte
			b, err = inst.ReadPassword(op.Text)
			a.Line = string(b)
		case "fdpassword":
			os.Stdout.WriteString(op.Text)
			var b []byte
			b, err = rl.ReadPassword(0)
			a.Line = string(b)
		case "closed", "captured": // closed by another goroutine, or by a signal, while reading
			inst.SetPrompt(op.Text)
			if op.Kind == "captured" {
				inst.CaptureExitSignal()
			}
			done := make(chan struct{})
			go func() {
				a.Line, err = inst.Readline()
				close(done)
			}()
			var o c15Op
			cmds.Decode(&o)
			if op.Kind == "captured" {
				<-done
			}
			if e := inst.Close(); e != nil {
				a.Note = "Close: " + e.Error()
			}
			if t, _ := tcget(0); t != a.Before {
				a.Note += fmt.Sprintf("after Close the settings are %v", t)
			}
			<-done
		case "close":
			if e := inst.Close(); e != nil {
				a.Note = "Close: " + e.Error()
			}
		case "write":
			fmt.Fprintln(inst, op.Text)
		case "remote":
			if op.Mark == 0 {
				err = rl.DialRemote("tcp", op.Addr)
				break
			}
			conn, e := net.Dial("tcp", op.Addr)
			if e != nil {
				err = e
				break
			}
			cli, _ := rl.NewRemoteCli(conn)
			cli.MarkIsTerminal(op.Mark == 2)
			err = cli.Serve()
			conn.Close()
		case "size":
			a.Cols, a.Rows, err = rl.GetSize(1)
			a.W = rl.GetScreenWidth()
			a.Tty = rl.DefaultIsTerminal() && rl.IsTerminal(0) && rl.IsTerminal(1) && rl.IsTerminal(2) && !rl.IsTerminal(3) && !rl.IsTerminal(99)
		}
		a.Kind = "end"
		if err != nil {
			a.Err = err.Error()
		}
		a.After, _ = tcget(0)
		acks.Encode(a)
	}
}

// c15Proc is a child process on a pseudo-terminal.
type c15Proc struct {
	p    *pty
	cmd  *exec.Cmd
	acks *json.Decoder
	cmds *json.Encoder
	ar   *os.File
	cw   *os.File
	done chan struct{}
	err  error

	sr     *os.File // of a shell
	status *json.Decoder
}

func startC15(p *pty) (*c15Proc, error) { return startC15As(p, "c15") }

// c15Shell runs the process that uses the terminal as a shell does: in a process group of its own,
// in the foreground. It tells on descriptor 5 of its pid and of every time it stops.
func c15Shell() {
	runtime.LockOSThread()
	// caught rather than ignored, which the process would inherit
	signal.Notify(make(chan os.Signal, 1), syscall.SIGTSTP, syscall.SIGTTOU, syscall.SIGTTIN)
	signal.Ignore(syscall.SIGHUP)
	status := json.NewEncoder(os.NewFile(5, "status"))
	exe, _ := os.Executable()
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=c15")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	cmd.ExtraFiles = []*os.File{os.NewFile(3, "ack"), os.NewFile(4, "cmd")}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Foreground: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		status.Encode("start: " + err.Error())
		os.Exit(1)
	}
	status.Encode(fmt.Sprint(cmd.Process.Pid))
	for {
		var ws syscall.WaitStatus
		if _, err := syscall.Wait4(cmd.Process.Pid, &ws, syscall.WUNTRACED, nil); err == syscall.EINTR {
			continue
		} else if err != nil {
			os.Exit(1)
		}
		if ws.Stopped() {
			status.Encode("stopped")
			continue
		}
		if ws.ExitStatus() != 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
}

func startC15As(p *pty, child string) (*c15Proc, error) {
	exe, _ := os.Executable()
	ar, aw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cr, cw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	q := &c15Proc{p: p, ar: ar, cw: cw, cmd: exec.Command(exe)}
	q.cmd.Env = append(os.Environ(), "VERIF_CHILD="+child, "GOMAXPROCS=2", "TERM=xterm")
	q.cmd.Stdin, q.cmd.Stdout, q.cmd.Stderr = p.slave, p.slave, p.slave
	q.cmd.ExtraFiles = []*os.File{aw, cr}
	var sw *os.File
	if child == "c15shell" {
		var sr *os.File
		if sr, sw, err = os.Pipe(); err != nil {
			return nil, err
		}
		q.cmd.ExtraFiles = append(q.cmd.ExtraFiles, sw)
		q.sr, q.status = sr, json.NewDecoder(sr)
	}
	q.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0, Pdeathsig: syscall.SIGKILL}
	err = q.cmd.Start()
	aw.Close()
	cr.Close()
	if sw != nil {
		sw.Close()
	}
	q.acks, q.cmds = json.NewDecoder(ar), json.NewEncoder(cw)
	q.done = make(chan struct{})
	go func() {
		if err == nil {
			q.err = q.cmd.Wait()
		}
		p.mu.Lock()
		p.ended = true
		p.cond.Broadcast()
		p.mu.Unlock()
		close(q.done)
	}()
	return q, err
}

func (q *c15Proc) ack() (a c15Ack, err error) {
	err = q.acks.Decode(&a)
	h.Progress()
	return
}

func (q *c15Proc) end() error {
	q.cmds.Encode(c15Op{Kind: "exit"})
	q.cw.Close()
	<-q.done
	q.ar.Close()
	return q.err
}

type c15Case struct {
	c   *h.Ctx
	r   randSrc
	p   *pty
	q   *c15Proc
	log []string
	w   int
}

func (k *c15Case) fail(sig, f string, a ...interface{}) {
	out := ""
	if k.q != nil {
		select {
		case <-k.q.done:
			time.Sleep(100 * time.Millisecond) // for the last output
			out = "\n" + string(k.p.from(0))
			if i := strings.Index(out, "\ngoroutine "); i >= 0 {
				out = out[i:]
			}
			if len(out) > 15000 {
				out = out[:15000]
			}
		default:
		}
	}
	k.c.Fail(sig, "%s\n%s%s", strings.Join(k.log, "; "), fmt.Sprintf(f, a...), out)
}

// childDied: the process that uses the terminal ended, or was made to because it hung.
func (k *c15Case) childDied(err error) {
	<-k.q.done
	k.fail("child", "%v: %v", err, k.q.err)
}

func (k *c15Case) keys(s string) {
	if k.r.Intn(2) == 0 {
		for _, p := range pieces(k.r, []byte(s)) {
			k.p.master.Write(p)
		}
		return
	}
	k.p.master.Write([]byte(s))
}

func c15Text(r randSrc, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune([]rune("abcdefghij klmn字é")[r.Intn(17)])
	}
	return sb.String()
}

// plain tells whether what is written to the terminal appears unchanged except for ends of lines.
func (k *c15Case) plain() bool {
	t, err := tcget(k.p.slave.Fd())
	return err == nil && t.O&(syscall.OPOST|syscall.ONLCR) == syscall.OPOST|syscall.ONLCR && t.O&(syscall.OCRNL|syscall.ONOCR|syscall.ONLRET) == 0
}

// read makes one read call with some outcome.
func (k *c15Case) read(n int) bool {
	r := k.r
	kind := []string{"read", "read", "read", "default", "password", "fdpassword"}[r.Intn(6)]
	if n == 0 && kind == "fdpassword" {
		kind = "read"
	}
	prompt := fmt.Sprintf("q%d> ", n)
	text := c15Text(r, r.Intn(30))
	outcome := r.Intn(4)
	if kind == "fdpassword" {
		outcome = 0
		text = strings.Replace(text, "字", "x", -1)
		// the device handles these keys
		t, _ := tcget(k.p.slave.Fd())
		for i := range t.Cc {
			if i != syscall.VMIN && i != syscall.VTIME {
				t.Cc[i] = 0
			}
		}
		t.I &^= syscall.IGNCR | syscall.INLCR | syscall.ISTRIP | syscall.PARMRK
		tcset(k.p.slave.Fd(), t)
	}
	k.log = append(k.log, fmt.Sprintf("%s %q outcome %d", kind, text, outcome))
	off := k.p.mark()
	k.q.cmds.Encode(c15Op{Kind: kind, Text: prompt})
	b, err := k.q.ack()
	if err != nil {
		k.childDied(err)
		return false
	}
	want := rawOf(b.Before)
	if kind == "default" || kind == "fdpassword" { // the prompt is written before
		if kind == "fdpassword" {
			want = b.Before
			want.L = want.L&^syscall.ECHO | syscall.ICANON | syscall.ISIG
			want.I |= syscall.ICRNL
		}
		for i := 0; ; i++ {
			if now, _ := tcget(k.p.slave.Fd()); now == want {
				break
			}
			if i > 30000 {
				now, _ := tcget(k.p.slave.Fd())
				k.fail("pending-mode", "while the read is pending the settings are %+v and must be %+v", now, want)
				return false
			}
			time.Sleep(time.Millisecond)
			h.Progress()
		}
	} else {
		if !k.p.await(off, strings.TrimSpace(prompt)) {
			k.fail("prompt", "no prompt")
			return false
		}
		if now, _ := tcget(k.p.slave.Fd()); now != want {
			k.fail("raw", "while the read is pending the settings are %+v and must be %+v; before it they were %+v", now, want, b.Before)
			return false
		}
	}
	k.c.Count("looks_while_pending", 1)
	wl, we := text, ""
	if kind == "default" {
		wl = "given" + text
	}
	switch outcome {
	case 0, 1:
		k.keys(text + []string{"\r", "\n"}[r.Intn(2)])
	case 2:
		k.keys(text + "\x03")
		we = "Interrupt"
		if kind == "password" {
			wl = ""
		}
	case 3:
		wl, we = "", "EOF"
		if kind == "default" {
			k.keys("\x01\x0b\x04")
		} else {
			k.keys("\x04")
		}
	}
	a, err := k.q.ack()
	if err != nil {
		k.childDied(err)
		return false
	}
	if kind == "password" && we == "Interrupt" {
		a.Line = wl
	}
	if a.Note != "" || a.Line != wl || a.Err != we {
		k.fail("result", "the call returned %q, %q (%s), expected %q, %q", a.Line, a.Err, a.Note, wl, we)
		return false
	}
	if a.Before != a.After {
		k.fail("not-restored", "before the call the settings were %+v and after it %+v", a.Before, a.After)
		return false
	}
	k.c.Count("settings_compared", 1)
	k.c.Seen("calls", kind, outcome, fmt.Sprint(b.Before))
	// what is on the screen: the text once, or not at all
	k.mark(n)
	if !k.p.await(off, fmt.Sprintf("done%d!", n)) {
		k.fail("output", "the text written afterwards did not appear")
		return false
	}
	if outcome < 2 && k.plain() {
		out := k.p.from(off)
		term := vt.New(k.w, 1<<20, sess.RuneWidth)
		term.Write(out)
		shown := strings.Join(term.Snap().Rows, "\n")
		if kind == "password" || kind == "fdpassword" {
			if i := strings.Index(shown, prompt[:len(prompt)-1]); i < 0 || strings.ContainsAny(shown[i+len(prompt)-1:strings.Index(shown, "done")], "abcfghijklm") {
				k.fail("echo", "the screen shows the password:\n%s", shown)
				return false
			}
		} else if exp := strings.TrimRight(prompt+wl, " "); !rowsAre(term.Snap().Rows, k.w, prompt+wl) {
			k.fail("screen", "the screen must show %q once; it shows\n%s", exp, shown)
			return false
		}
		k.c.Count("screens_compared", 1)
	}
	return true
}

// rowsAre tells whether the first rows are the text, wrapped, and the rest does not repeat it.
func rowsAre(rows []string, w int, text string) bool {
	l := sess.LayOut(w, nil, []rune(text), 0)
	for len(l.Rows) > 1 && l.Rows[len(l.Rows)-1] == "" { // where the cursor goes behind a full row
		l.Rows = l.Rows[:len(l.Rows)-1]
	}
	for i, want := range l.Rows {
		if i >= len(rows) || strings.TrimRight(rows[i], " ") != strings.TrimRight(want, " ") {
			return false
		}
	}
	return true
}

func (k *c15Case) mark(n int) {
	k.q.cmds.Encode(c15Op{Kind: "write", Text: fmt.Sprintf("done%d!", n)})
	k.q.ack()
	k.q.ack()
}

// c15Pty: a process on a pseudo-terminal with any settings, which change between reads.
func c15Pty(c *h.Ctx) {
	r := c.R
	p, err := openPty()
	if err != nil {
		c.Count("no_pty", 1)
		return
	}
	defer p.close()
	k := &c15Case{c: c, r: r, p: p, w: 20 + r.Intn(100)}
	winsize(p.master.Fd(), k.w, 24+r.Intn(30))
	t0, err := tcget(p.slave.Fd())
	if err != nil {
		c.Count("no_pty", 1)
		return
	}
	wild := r.Intn(3) == 0
	tcset(p.slave.Fd(), randTermios(r, t0, wild))
	k.q, err = startC15(p)
	if err != nil {
		c.Count("no_child", 1)
		return
	}
	defer func() {
		k.q.cmd.Process.Kill()
		<-k.q.done
	}()
	for n, m := 0, 2+r.Intn(6); n < m; n++ {
		if !k.read(n) {
			return
		}
		switch r.Intn(6) {
		case 0:
			tcset(p.slave.Fd(), randTermios(r, t0, wild))
			k.log = append(k.log, "other settings")
		case 1, 2:
			cols, rows := 10+r.Intn(200), 5+r.Intn(100)
			winsize(p.master.Fd(), cols, rows)
			k.q.cmds.Encode(c15Op{Kind: "size"})
			k.q.ack()
			a, err := k.q.ack()
			if err != nil || a.Err != "" || a.Cols != cols || a.Rows != rows || a.W != cols || !a.Tty {
				k.fail("size", "the terminal is %d by %d; reported are %d by %d (%s), width %d, terminal: %v (%v)", cols, rows, a.Cols, a.Rows, a.Err, a.W, a.Tty, err)
				return
			}
			c.Count("sizes", 1)
			k.log = append(k.log, fmt.Sprintf("size %d", cols))
			if !k.resized(n, cols) {
				return
			}
			k.w = cols
		}
	}
	// the end
	tcset(p.slave.Fd(), randTermios(r, t0, wild))
	if r.Intn(2) == 0 {
		k.log = append(k.log, "other settings; close")
		k.q.cmds.Encode(c15Op{Kind: "close"})
		k.q.ack()
	} else {
		kind := []string{"closed", "captured"}[r.Intn(2)]
		k.log = append(k.log, "other settings; "+kind+" while reading")
		off := p.mark()
		k.q.cmds.Encode(c15Op{Kind: kind, Text: "last> "})
		k.q.ack()
		p.await(off, "last>")
		for i := r.Intn(10); i > 0; i-- {
			p.master.Write([]byte("!")) // not one of the special characters of settings just restored
		}
		if kind == "captured" {
			k.q.cmd.Process.Signal([]os.Signal{syscall.SIGTERM, os.Interrupt}[r.Intn(2)])
			c.Count("captured", 1)
		}
		k.q.cmds.Encode(c15Op{Kind: "now"})
	}
	a, err := k.q.ack()
	if err != nil || a.Note != "" || a.Line != "" {
		k.fail("close", "%v %s %q", err, a.Note, a.Line)
		return
	}
	if a.Before != a.After {
		k.fail("close-not-restored", "before the settings were %+v and after Close %+v", a.Before, a.After)
		return
	}
	if err := k.q.end(); err != nil {
		k.fail("exit", "%v\n%s", err, p.from(0))
	}
	c.Count("closings", 1)
	c.Count("pty_sessions", 1)
}

// c15Suspend: the suspend key gives the terminal back as it was, and the line goes on afterwards.
func c15Suspend(c *h.Ctx) {
	r := c.R
	p, err := openPty()
	if err != nil {
		c.Count("no_pty", 1)
		return
	}
	defer p.close()
	k := &c15Case{c: c, r: r, p: p, w: 20 + r.Intn(100)}
	winsize(p.master.Fd(), k.w, 24)
	t0, err := tcget(p.slave.Fd())
	if err != nil {
		c.Count("no_pty", 1)
		return
	}
	t := randTermios(r, t0, false)
	t.L &^= syscall.TOSTOP
	if t.L&syscall.ICANON == 0 {
		// with 0 the terminal reports the end of the input while it is given back; with
		// more it does so to whom it was asked by then, however many bytes come later
		t.Cc[syscall.VMIN] = 1
	}
	tcset(p.slave.Fd(), t)
	k.q, err = startC15As(p, "c15shell")
	if err != nil {
		c.Count("no_child", 1)
		return
	}
	defer func() {
		k.q.cmd.Process.Kill()
		<-k.q.done
		k.q.sr.Close()
	}()
	var s string
	if err := k.q.status.Decode(&s); err != nil || strings.HasPrefix(s, "start") {
		c.Count("no_child", 1)
		return
	}
	pid, _ := strconv.Atoi(s)
	modes := newRand(r)
	for n, reads := 0, 1+r.Intn(2); n < reads; n++ {
		prompt := fmt.Sprintf("z%d> ", n)
		text := ""
		off := p.mark()
		k.q.cmds.Encode(c15Op{Kind: "read", Text: prompt})
		b, err := k.q.ack()
		if err != nil {
			k.childDied(err)
			return
		}
		if !p.await(off, strings.TrimSpace(prompt)) {
			k.fail("prompt", "no prompt")
			return
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			part := c15Text(r, r.Intn(60))
			text += part
			mode := ""
			if modes.Intn(3) == 0 { // in a search that finds nothing
				mode = []string{"\x12", "\x13", "\x12zqzq", "\x13\x12zq"}[modes.Intn(4)]
				c.Count("suspended_searching", 1)
			}
			k.log = append(k.log, fmt.Sprintf("typed %q, suspended", part+mode))
			k.keys(part + mode + "\x1a")
			if err := k.q.status.Decode(&s); err != nil || s != "stopped" {
				k.fail("suspend", "the process did not stop: %q %v", s, err)
				return
			}
			h.Progress()
			if now, _ := tcget(p.slave.Fd()); now != b.Before {
				k.fail("suspended", "while the process is stopped the settings are %+v and must be those before the read, %+v", now, b.Before)
				return
			}
			time.Sleep(time.Duration(modes.Intn(3)*100) * time.Millisecond)
			syscall.Kill(-pid, syscall.SIGCONT)
			for i := 0; ; i++ {
				now, _ := tcget(p.slave.Fd())
				if now == rawOf(b.Before) {
					break
				}
				if i > 30000 {
					k.fail("resumed", "after the process was resumed the settings are %+v and must be %+v", now, rawOf(b.Before))
					return
				}
				time.Sleep(time.Millisecond)
				h.Progress()
			}
			c.Count("suspended", 1)
		}
		part := c15Text(r, r.Intn(20))
		text += part
		k.keys("\x05" + part + "\r")
		a, err := k.q.ack()
		if err != nil {
			k.childDied(err)
			return
		}
		if a.Note != "" || a.Line != text || a.Err != "" {
			k.fail("result", "the call returned %q, %q (%s), expected %q", a.Line, a.Err, a.Note, text)
			return
		}
		if a.Before != a.After {
			k.fail("not-restored", "before the call the settings were %+v and after it %+v", a.Before, a.After)
			return
		}
		k.mark(n)
		if !p.await(off, fmt.Sprintf("done%d!", n)) {
			k.fail("output", "the text written afterwards did not appear")
			return
		}
		if k.plain() {
			term := vt.New(k.w, 1<<20, sess.RuneWidth)
			term.Write(p.from(off))
			if !rowsAre(term.Snap().Rows, k.w, prompt+text) {
				k.fail("screen", "the screen must show %q once; it shows\n%s", prompt+text, strings.Join(term.Snap().Rows, "\n"))
				return
			}
			c.Count("screens_compared", 1)
		}
		c.Seen("calls", "suspend", text, fmt.Sprint(b.Before))
	}
	if err := k.q.end(); err != nil {
		k.fail("exit", "%v\n%s", err, p.from(0))
	}
}

// resized reads lines until the new width is the one the line is laid out with.
func (k *c15Case) resized(n, cols int) bool {
	if !k.plain() {
		return true
	}
	var shown string
	for try := 0; try < 300; try++ {
		off := k.p.mark()
		prompt := fmt.Sprintf("w%d.%d> ", n, try)
		k.q.cmds.Encode(c15Op{Kind: "read", Text: prompt})
		k.q.ack()
		if !k.p.await(off, strings.TrimSpace(prompt)) {
			k.fail("prompt", "no prompt")
			return false
		}
		text := strings.Repeat("ab cd ", cols/2) + "end"
		k.p.master.Write([]byte(text + "\x01x\x05y\r"))
		if a, err := k.q.ack(); err != nil || a.Line != "x"+text+"y" {
			k.fail("result", "%v %q %v", err, a.Line, a.Err)
			return false
		}
		k.mark(10000 + try)
		k.p.await(off, fmt.Sprintf("done%d!", 10000+try))
		term := vt.New(cols, 1<<20, sess.RuneWidth)
		term.Write(k.p.from(off))
		if rowsAre(term.Snap().Rows, cols, prompt+"x"+text+"y") {
			k.c.Count("resized", 1)
			return true
		}
		shown = strings.Join(term.Snap().Rows, "\n")
		time.Sleep(time.Duration(try) * time.Millisecond)
	}
	k.fail("resize", "long after the terminal was resized to %d columns a line of three rows shows as\n%s", cols, shown)
	return false
}

// c15Remote: the terminal of a remote client.
func c15Remote(c *h.Ctx) {
	r := c.R
	p, err := openPty()
	if err != nil {
		c.Count("no_pty", 1)
		return
	}
	defer p.close()
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Count("no_connection", 1)
		return
	}
	defer ln.Close()
	cols := 20 + r.Intn(100)
	if r.Intn(3) == 0 {
		cols = 200 + r.Intn(60000)
	}
	winsize(p.master.Fd(), cols, 24)
	t0, _ := tcget(p.slave.Fd())
	t1 := randTermios(r, t0, r.Intn(2) == 0)
	if t1.L&syscall.ICANON == 0 && t1.Cc[syscall.VMIN] == 0 {
		t1.Cc[syscall.VMIN] = 1 // otherwise the client, which reads from the start, is told that its input ended
	}
	tcset(p.slave.Fd(), t1)
	k := &c15Case{c: c, r: r, p: p, w: cols}
	k.q, err = startC15(p)
	if err != nil {
		c.Count("no_child", 1)
		return
	}
	defer func() {
		k.q.cmd.Process.Kill()
		<-k.q.done
	}()
	mark := r.Intn(3)
	tty := []string{"\x00\x01", "\x00\x00", "\x00\x01"}[mark]
	k.q.cmds.Encode(c15Op{Kind: "remote", Addr: ln.Addr().String(), Mark: mark})
	b, err := k.q.ack()
	if err != nil {
		k.childDied(err)
		return
	}
	conn, err := ln.Accept()
	if err != nil {
		k.fail("accept", "%v", err)
		return
	}
	defer conn.Close()
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var data []byte
	var hello []c16Msg
	hungUp := false
	go func() {
		c16Parse(conn, func(m c16Msg) {
			mu.Lock()
			if m.t == tData {
				data = append(data, m.data...)
			} else {
				hello = append(hello, m)
			}
			cond.Broadcast()
			mu.Unlock()
		})
		mu.Lock()
		hungUp = true
		cond.Broadcast()
		mu.Unlock()
	}()
	mu.Lock()
	for len(hello) < 2 && !hungUp {
		cond.Wait()
	}
	mu.Unlock()
	raw, serving, reports, size := false, false, 2, cols
	for i := 1 + r.Intn(8); i > 0; i-- {
		if serving && r.Intn(3) == 0 { // the client tells when its width changes
			next := 20 + r.Intn(100)
			if r.Intn(3) == 0 {
				next = 200 + r.Intn(60000)
			}
			if next == size {
				continue
			}
			size = next
			winsize(p.master.Fd(), next, 24)
			k.log = append(k.log, fmt.Sprintf("size %d", next))
			reports++
			mu.Lock()
			for len(hello) < reports && !hungUp {
				cond.Wait()
			}
			if len(hello) < reports || hello[reports-1].t != tWidthReport || hello[reports-1].data != string(u16(next)) {
				k.fail("remote-width", "%s\nthe width became %d; the client reported %v", strings.Join(k.log, "; "), next, hello)
				mu.Unlock()
				return
			}
			mu.Unlock()
			c.Count("widths_reported", 1)
			continue
		}
		want := b.Before
		if raw {
			want = rawOf(want)
		}
		tag := fmt.Sprintf("mark%d!", i)
		if r.Intn(2) == 0 { // what it is now
			off := p.mark()
			conn.Write(frame(tData, []byte(tag)))
			p.await(off, tag) // after everything sent before it
			serving = true
			if now, _ := tcget(p.slave.Fd()); now != want {
				k.fail("remote-mode", "%s\nraw mode (%v) at the client: the settings are %+v and must be %+v", strings.Join(k.log, "; "), raw, now, want)
				return
			}
			c.Count("looks_while_pending", 1)
			if raw {
				s := c15Text(r, 1+r.Intn(20)) + "\r\x03\x04"
				mu.Lock()
				n := len(data)
				mu.Unlock()
				p.master.Write([]byte(s))
				mu.Lock()
				for len(data) < n+len(s) && !hungUp {
					cond.Wait()
				}
				got := string(data[n:])
				mu.Unlock()
				if got != s {
					k.fail("remote-keys", "typed %q, sent %q", s, got)
					return
				}
			}
			continue
		}
		if raw {
			conn.Write(frame(tERaw, nil))
			k.log = append(k.log, "exit raw")
		} else {
			for conn.Write(frame(tRaw, nil)); r.Intn(4) == 0; {
				conn.Write(frame(tRaw, nil)) // again
				k.log = append(k.log, "raw")
			}
			k.log = append(k.log, "raw")
		}
		raw = !raw
	}
	mu.Lock()
	if len(hello) < 2 || hello[0].data != tty || hello[1].data != string(u16(cols)) {
		k.fail("remote-hello", "the client reported %v; its terminal has %d columns", hello, cols)
	}
	mu.Unlock()
	k.log = append(k.log, "hang up")
	conn.Close()
	a, err := k.q.ack()
	if err != nil || a.Err != "" {
		k.fail("remote-end", "%v %s", err, a.Err)
		return
	}
	if a.Before != a.After {
		k.fail("remote-not-restored", "before the settings were %+v and afterwards %+v", a.Before, a.After)
		return
	}
	c.Count("settings_compared", 1)
	c.Count("remote_terminals", 1)
	c.Seen("calls", "remote", mark, k.log, fmt.Sprint(b.Before))
}

// c15Device: the functions that work on a terminal by its descriptor.
func c15Device(c *h.Ctx) {
	r := c.R
	p, err := openPty()
	if err != nil {
		c.Count("no_pty", 1)
		return
	}
	defer p.close()
	fd := int(p.slave.Fd())
	t0, err := tcget(uintptr(fd))
	if err != nil {
		c.Count("no_pty", 1)
		return
	}
	for n := 0; n < 12; n++ {
		h.Progress()
		tcset(uintptr(fd), randTermios(r, t0, true))
		before, _ := tcget(uintptr(fd))
		gs, err := rl.GetState(fd)
		st, err2 := rl.MakeRaw(fd)
		now, _ := tcget(uintptr(fd))
		if err != nil || err2 != nil || now != rawOf(before) {
			c.Fail("make-raw", "MakeRaw (%v, %v) made %+v of %+v; it must be %+v", err, err2, now, before, rawOf(before))
			return
		}
		if r.Intn(2) == 0 { // again
			st2, _ := rl.MakeRaw(fd)
			rl.Restore(fd, st2)
			if again, _ := tcget(uintptr(fd)); again != now {
				c.Fail("restore", "restored to %+v, it was %+v", again, now)
				return
			}
		}
		if r.Intn(2) == 0 {
			st = gs
		}
		err = rl.Restore(fd, st)
		if now, _ = tcget(uintptr(fd)); err != nil || now != before {
			c.Fail("restore", "Restore (%v) made it %+v; it was %+v", err, now, before)
			return
		}
		cols, rows := r.Intn(65536), r.Intn(65536)
		winsize(p.master.Fd(), cols, rows)
		if gc, gr, err := rl.GetSize(fd); err != nil || gc != cols || gr != rows {
			c.Fail("get-size", "GetSize reports %d, %d (%v) of a terminal of %d by %d", gc, gr, err, cols, rows)
			return
		}
		c.Count("settings_compared", 2)
		c.Count("sizes", 1)
		c.Seen("calls", "device", fmt.Sprint(before))
	}
	pr, pw, _ := os.Pipe()
	f, _ := os.Open("/dev/null")
	for _, n := range []int{int(pr.Fd()), int(pw.Fd()), int(f.Fd()), -1, 1 << 20} {
		_, _, se := rl.GetSize(n)
		_, me := rl.MakeRaw(n)
		_, pe := rl.ReadPassword(n)
		_, ge := rl.GetState(n)
		if rl.IsTerminal(n) || se == nil || me == nil || pe == nil || ge == nil {
			c.Fail("no-terminal", "descriptor %d is no terminal: %v %v %v %v %v", n, rl.IsTerminal(n), se, me, pe, ge)
		}
	}
	pr.Close()
	pw.Close()
	f.Close()
	if !rl.IsTerminal(fd) || !rl.IsTerminal(int(p.master.Fd())) {
		c.Fail("terminal", "a terminal is not detected")
	}
	// a password read by the descriptor
	tcset(uintptr(fd), t0)
	for n := 0; n < 6; n++ {
		t := t0
		if r.Intn(2) == 0 {
			t.L &^= syscall.ICANON
		}
		if r.Intn(2) == 0 {
			t.I &^= syscall.ICRNL
		}
		if r.Intn(3) == 0 {
			t.L &^= syscall.ECHO
		}
		if r.Intn(2) == 0 {
			t.L |= syscall.ECHONL
		}
		tcset(uintptr(fd), t)
		before, _ := tcget(uintptr(fd))
		off := p.mark()
		ln := []int{0, 1, 15, 16, 17, 31, 32, 33, r.Intn(200)}[r.Intn(9)]
		pw := strings.Repeat("secretword", ln/10+1)[:ln]
		type res struct {
			b   []byte
			err error
		}
		ch := make(chan res, 1)
		go func() {
			b, err := rl.ReadPassword(fd)
			ch <- res{b, err}
		}()
		want := before
		want.L = want.L&^syscall.ECHO | syscall.ICANON | syscall.ISIG
		want.I |= syscall.ICRNL
		for i := 0; ; i++ {
			if now, _ := tcget(uintptr(fd)); now == want {
				break
			} else if i > 30000 {
				c.Fail("password-mode", "while the password is read the settings are %+v and must be %+v", now, want)
				return
			}
			time.Sleep(time.Millisecond / 4)
			h.Progress()
		}
		end, we := []string{"\n", "\r", "\x04", "\x04\x04"}[r.Intn(4)], error(nil)
		if ln == 0 && end[0] == 4 {
			end, we = "\x04", io.EOF
		} else if end == "\x04" && ln%16 == 0 || end == "\x04\x04" && ln%16 != 0 {
			end = "\n" // an end that is told apart from what was typed
		}
		p.master.Write([]byte(pw + end))
		g := <-ch
		after, _ := tcget(uintptr(fd))
		if string(g.b) != pw || g.err != we {
			c.Fail("password", "typed %q and %q; read %q, %v", pw, end, g.b, g.err)
			return
		}
		if after != before {
			c.Fail("password-restore", "before %+v, after %+v", before, after)
			return
		}
		p.slave.Write([]byte("end!"))
		p.await(off, "end!")
		if s := string(p.from(off)); strings.ContainsAny(strings.Replace(s, "end!", "", 1), "secrtwod") {
			c.Fail("password-echo", "the terminal shows %q", s)
			return
		}
		c.Count("passwords", 1)
		c.Count("settings_compared", 1)
	}
}

// c15Calls: when raw mode is entered and left, in every mode and with every outcome.
func c15Calls(c *h.Ctx) {
	r := c.R
	m := &ModelRun{C: c, M: model.NewSession(500), Prompt: "> "}
	m.Opt.Width, m.Opt.Discard = 40, true
	var cs []Choice
	switch r.Intn(5) {
	case 0:
		cs = histKeys(r)
	case 1:
		cs = searchKeys(r)
	case 2:
		m.withCompleter(r, false)
		cs = append(completeKeys(r), K(10, model.KeyEnter))
		cs[3].W, cs[4].W = 0, 0
	case 3:
		cs, m.M.Vim = vimKeys(r), true
	default:
		cs = editKeys(r)
	}
	cs = append(cs, K(15, model.KeyInterrupt), K(10, model.KeyDelete), K(20, model.KeyEnter))
	m.Keys = genKeys(r, cs, 10+r.Intn(60), m.M.Vim)
	var raw, bad int32
	screen := r.Intn(4)
	prev := m.Opt.Cfg
	m.Opt.Cfg = func(cfg *rl.Config) {
		if prev != nil {
			prev(cfg)
		}
		if screen == 0 { // raw mode does not depend on what else is known of the terminal
			cfg.FuncIsTerminal = func() bool { return false }
		}
		cfg.ForceUseInteractive = screen == 1
		cfg.FuncMakeRaw = func() error { atomic.StoreInt32(&raw, 1); return nil }
		cfg.FuncExitRaw = func() error { atomic.StoreInt32(&raw, 0); return nil }
	}
	looks := 0
	m.Before = func(int, rune) {
		looks++
		if atomic.LoadInt32(&raw) == 0 && atomic.CompareAndSwapInt32(&bad, 0, 1) {
			m.fail("raw-mode", "a key arrives while the terminal is not raw")
		}
	}
	m.Read = func(n int) (string, error) {
		if atomic.LoadInt32(&raw) != 0 {
			c.Fail("raw-between", "before read %d the terminal is raw", n)
		}
		line, err := m.Session.Inst.Readline()
		if atomic.LoadInt32(&raw) != 0 {
			c.Fail("raw-after", "after read %d returned (%q, %v) the terminal is raw", n, line, err)
		}
		return line, err
	}
	m.Run()
	if atomic.LoadInt32(&raw) != 0 {
		c.Fail("raw-closed", "after Close the terminal is raw")
	}
	c.Count("looks_while_pending", looks)
	c.Count("call_sessions", 1)
	c.Seen("calls", "in process", KeyNames(m.Keys, -1))
}

func init() {
	Children["c15"] = c15Child
	Children["c15shell"] = c15Shell
	h.Register(&h.Prop{
		ID:     "C15",
		Rule:   "Processes on pseudo-terminals with random settings (flags and special characters, changed between the reads): lines, default texts, passwords, interrupts, ends of input, closing before and during a read, also by a captured signal, suspending and resuming, resizing, and remote clients told to enter and leave raw mode; the settings of the device are compared bit for bit before, during and after every call, and the screen with what must be shown once. Raw mode, restoring, sizes, detection and passwords by descriptor on random settings. Scripted sessions in every mode with recorded raw mode calls. Non-trivial is a distinct (call, outcome, settings) or script.",
		Count:  "calls",
		Min:    map[string]int64{"settings_compared": 5000, "looks_while_pending": 30000, "pty_sessions": 100, "screens_compared": 200, "closings": 100, "sizes": 1000, "passwords": 500, "remote_terminals": 50, "captured": 50, "suspended": 40, "resized": 40, "calls": 1500, "call_sessions": 500},
		Assume: []string{"settings that this kernel's pseudo-terminals store"},
		Procs:  8,
		Builds: []h.Build{
			{Name: "", Cases: tiers(2000, 30000)},
			{Name: "race", Race: true, Cases: tiers(200, 3000)},
		},
		Run: func(c *h.Ctx) {
			if c.Idx%40 == 39 {
				c15Suspend(c)
				return
			}
			switch c.Idx % 10 {
			case 0, 1, 2:
				c15Pty(c)
			case 3:
				c15Remote(c)
			case 4, 5:
				c15Device(c)
			default:
				c15Calls(c)
			}
		},
	})
}
