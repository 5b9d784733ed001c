package props

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/iotest"
	"time"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/sess"
	"verif.local/harness/vt"
)

const (
	tData = iota
	tWidth
	tWidthReport
	tIsTTY
	tRaw
	tERaw
	tEOF
)

func frame(t int, data []byte) []byte {
	b := make([]byte, 6, 6+len(data))
	binary.BigEndian.PutUint32(b, uint32(len(data)+2))
	binary.BigEndian.PutUint16(b[4:], uint16(t))
	return append(b, data...)
}

func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func hello(tty, width int) []byte {
	return append(frame(tIsTTY, u16(tty)), frame(tWidthReport, u16(width))...)
}

type c16Msg struct {
	t    int
	data string
}

// c16Parse takes messages apart until the reader ends; cut tells that it ended within one.
func c16Parse(rd io.Reader, f func(c16Msg)) (cut bool) {
	for {
		var hd [6]byte
		n, err := io.ReadFull(rd, hd[:])
		if err != nil {
			return n > 0
		}
		l := int(int32(binary.BigEndian.Uint32(hd[:])))
		if l < 2 || l > 1<<28 {
			return true
		}
		b := make([]byte, l-2)
		if _, err := io.ReadFull(rd, b); err != nil {
			return true
		}
		f(c16Msg{int(binary.BigEndian.Uint16(hd[4:])), string(b)})
	}
}

// c16Pair is a connection: in memory (each write waits for its reader), over TCP or over a Unix socket.
func c16Pair(kind int, dir string) (a, b net.Conn, err error) {
	if kind == 0 {
		a, b = net.Pipe()
		return
	}
	n, addr := "tcp", "127.0.0.1:0"
	if kind == 2 {
		n, addr = "unix", dir+"/c16.sock"
		os.Remove(addr)
	}
	ln, err := net.Listen(n, addr)
	if err != nil {
		return nil, nil, err
	}
	defer ln.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		c, _ := ln.Accept()
		ch <- c
	}()
	b, err = net.Dial(n, ln.Addr().String())
	if err != nil {
		return
	}
	a = <-ch
	if a == nil {
		return nil, nil, errors.New("accept")
	}
	return
}

// choppy delivers only so many bytes per read.
type choppy struct {
	net.Conn
	mu  sync.Mutex
	r   randSrc
	max int
}

func (c *choppy) Read(p []byte) (int, error) {
	c.mu.Lock()
	n := 1 + c.r.Intn(c.max)
	c.mu.Unlock()
	if n < len(p) {
		p = p[:n]
	}
	h.Progress()
	return c.Conn.Read(p)
}

func chop(r randSrc, c net.Conn) net.Conn {
	if m := []int{1, 7, 100, 5000, 0, 0}[r.Intn(6)]; m > 0 {
		return &choppy{Conn: c, r: newRand(r), max: m}
	}
	return c
}

// hangUp ends what the peer can read.
func hangUp(c net.Conn) {
	if w, ok := c.(interface{ CloseWrite() error }); ok {
		w.CloseWrite()
	} else {
		c.Close()
	}
}

// c16Tail makes the input end after the messages, in some way.
const (
	endEOF    = iota // the client says so
	endHangUp        // the connection ends after a message
	endCut           // or within one
	endBad           // a message with an impossible length
	endHuge          // a message that announces more than it sends
	endClose         // the server closes
)

func c16End(r randSrc, kind int) []byte {
	switch kind {
	case endEOF:
		return frame(tEOF, nil)
	case endCut:
		f := frame(tData, []byte("never delivered"))
		return f[:1+r.Intn(len(f)-1)]
	case endBad:
		b := frame(tData, []byte("never delivered"))
		binary.BigEndian.PutUint32(b, uint32([]int32{0, 1, -1, -2, -1 << 31}[r.Intn(5)]))
		return b
	case endHuge:
		b := frame(tData, bytes.Repeat([]byte("x"), r.Intn(100)))
		binary.BigEndian.PutUint32(b, uint32([]int32{1<<31 - 1, 1 << 30, 1 << 20, 200}[r.Intn(4)]))
		return b
	}
	return nil
}

type c16Write struct {
	t    int
	data string
	ok   bool
}

func c16Ends(e int) string {
	return []string{"end of input", "hang-up", "hang-up within a message", "invalid message", "announces too much", "server closes"}[e]
}

// c16Server: bytes in both directions through a server without an editor.
func c16Server(c *h.Ctx) {
	r := c.R
	kind := r.Intn(3)
	end := r.Intn(6)
	what := fmt.Sprintf("%s over %s", c16Ends(end), []string{"memory", "TCP", "a Unix socket"}[kind])
	sc, cc, err := c16Pair(kind, c.Dir)
	if err != nil {
		c.Count("no_connection", 1)
		return
	}
	defer sc.Close()
	defer cc.Close()
	// what the client sends
	var want []byte
	var widths []int
	var wire []byte
	tty := r.Intn(3)
	for n := r.Intn(30); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			w := []int{0, 1, 80, 65535, r.Intn(300)}[r.Intn(5)]
			widths = append(widths, w)
			wire = append(wire, frame(tWidthReport, append(u16(w), make([]byte, r.Intn(2)*r.Intn(5))...))...)
		case 1:
			wire = append(wire, frame(tWidthReport, make([]byte, r.Intn(2)))...) // says nothing
		case 2:
			tty = r.Intn(3)
			wire = append(wire, frame(tIsTTY, u16(tty))...)
			if r.Intn(3) == 0 {
				wire = append(wire, frame(tIsTTY, make([]byte, r.Intn(2)))...) // says nothing
			}
		case 3:
			wire = append(wire, frame([]int{tWidth, tRaw, tERaw, 7, 99, -1, 32767, -32768}[r.Intn(8)], make([]byte, r.Intn(20)))...)
		default:
			b := make([]byte, []int{0, 1, r.Intn(10), r.Intn(300), r.Intn(5000), 4096, r.Intn(2) * r.Intn(70000)}[r.Intn(7)])
			r.Read(b)
			want = append(want, b...)
			wire = append(wire, frame(tData, b)...)
		}
	}
	wire = append(wire, c16End(r, end)...)
	if end == endBad && r.Intn(2) == 0 {
		wire = append(wire, make([]byte, r.Intn(50))...)
	}
	w0, tty0 := []int{0, 80, 65535}[r.Intn(3)], r.Intn(3)
	start := make(chan struct{})
	first := pieces(r, hello(tty0, w0))
	ps := pieces(r, wire)
	if len(ps) > 3000 {
		ps = [][]byte{wire}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // the client sends
		defer wg.Done()
		for _, p := range first {
			cc.Write(p)
		}
		<-start
		for _, p := range ps {
			if _, err := cc.Write(p); err != nil {
				break
			}
			h.Progress()
		}
		if end == endHangUp || end == endCut || end == endHuge {
			hangUp(cc)
		}
	}()
	var got []c16Msg
	var cut bool
	wg.Add(1)
	go func() { // and receives
		defer wg.Done()
		cut = c16Parse(cc, func(m c16Msg) { got = append(got, m); h.Progress() })
	}()
	svr, err := rl.NewRemoteSvr(chop(r, sc))
	fail := func(sig, f string, a ...interface{}) {
		c.Fail(sig, "%s: %s", what, fmt.Sprintf(f, a...))
	}
	if err != nil {
		fail("refused", "NewRemoteSvr: %v", err)
		close(start)
		cc.Close()
		wg.Wait()
		return
	}
	if svr.GetWidth() != w0 || svr.IsTerminal() != (tty0 != 0) {
		fail("hello", "the client reported width %d and terminal %d; the server has %d and %v", w0, tty0, svr.GetWidth(), svr.IsTerminal())
	}
	var seen []int
	cfg := &rl.Config{}
	svr.HandleConfig(cfg)
	cfg.FuncOnWidthChanged(func() { seen = append(seen, cfg.FuncGetWidth()) })
	close(start)
	// the server writes
	writers := r.Intn(4)
	recs := make([][]c16Write, writers)
	var wwg sync.WaitGroup
	for g := 0; g < writers; g++ {
		g, gr, n := g, newRand(r), r.Intn(30)
		wwg.Add(1)
		go func() {
			defer wwg.Done()
			for i := 0; i < n; i++ {
				h.Progress()
				if g == 0 && gr.Intn(3) == 0 {
					t, f := tRaw, cfg.FuncMakeRaw
					if gr.Intn(2) == 0 {
						t, f = tERaw, cfg.FuncExitRaw
					}
					err := f()
					if t == tERaw && err == nil && end != endEOF {
						continue // may have been left to the client
					}
					recs[g] = append(recs[g], c16Write{t, "", err == nil})
					continue
				}
				b := []byte(fmt.Sprintf("%d.%d:", g, i))
				p := make([]byte, []int{0, gr.Intn(10), gr.Intn(300), gr.Intn(9000)}[gr.Intn(4)])
				gr.Read(p)
				b = append(b, p...)
				cp := string(b)
				n, err := svr.Write(b)
				if string(b) != cp {
					fail("modified", "Write modified its argument")
				}
				if err == nil && n != len(b) || err != nil && (n < 0 || n > len(b)) {
					fail("count", "Write of %d bytes returned %d, %v", len(b), n, err)
				}
				if err != nil && end == endEOF {
					fail("write", "Write failed while the connection was open: %v", err)
				}
				recs[g] = append(recs[g], c16Write{tData, cp, err == nil})
			}
		}()
	}
	closers := 0
	if end == endClose {
		closers = 1 + r.Intn(2)
		for i := 0; i < closers; i++ {
			wwg.Add(1)
			spin := r.Intn(3000)
			go func() {
				defer wwg.Done()
				for j := 0; j < spin; j++ {
					runtime.Gosched()
				}
				svr.Close()
			}()
		}
	}
	// and reads
	var data []byte
	readers := 1 + r.Intn(2)*r.Intn(2)
	if readers == 1 {
		for {
			buf := make([]byte, []int{1, 5, 100, 4096, 1 + r.Intn(9000)}[r.Intn(5)])
			n, err := svr.Read(buf)
			h.Progress()
			if n < 0 || n > len(buf) || n == 0 && err == nil {
				fail("read", "Read returned %d, %v for %d bytes", n, err, len(buf))
				break
			}
			data = append(data, buf[:n]...)
			if err != nil {
				if err != io.EOF {
					fail("read-error", "Read returned %v", err)
				}
				break
			}
			if r.Intn(20) == 0 {
				if n, err := svr.Read(nil); n != 0 || err != nil {
					fail("read-nothing", "Read of no bytes returned %d, %v", n, err)
				}
			}
		}
		if len(data) > len(want) || !bytes.Equal(data, want[:len(data)]) || end != endClose && len(data) != len(want) {
			fail("data", "the client sent %d bytes in full messages, Read delivered %d; the first difference is at %d", len(want), len(data), diffAt(data, want))
		}
	} else {
		var mu sync.Mutex
		var rwg sync.WaitGroup
		var hist [256]int
		total := 0
		for i := 0; i < readers; i++ {
			rwg.Add(1)
			size := 1 + r.Intn(5000)
			go func() {
				defer rwg.Done()
				buf := make([]byte, size)
				for {
					n, err := svr.Read(buf)
					h.Progress()
					mu.Lock()
					total += n
					for _, b := range buf[:n] {
						hist[b]++
					}
					mu.Unlock()
					if err != nil {
						return
					}
				}
			}()
		}
		rwg.Wait()
		for _, b := range want {
			hist[b]--
		}
		if end != endClose && (total != len(want) || hist != [256]int{}) {
			fail("shared-data", "the client sent %d bytes, two readers got %d", len(want), total)
		}
	}
	if n, err := svr.Read(make([]byte, 10)); n != 0 || err != io.EOF {
		fail("after-end", "Read after the end returned %d, %v", n, err)
	}
	if end != endClose {
		if fmt.Sprint(seen) != fmt.Sprint(widths) {
			fail("widths", "the client reported the widths %v, the callback saw %v", widths, seen)
		}
		wl := w0
		if len(widths) > 0 {
			wl = widths[len(widths)-1]
		}
		if svr.GetWidth() != wl {
			fail("width", "width %d, reported last was %d", svr.GetWidth(), wl)
		}
		c.Count("width_reports", len(widths))
	}
	if end == endEOF {
		wwg.Wait()
	}
	svr.Close()
	svr.Close()
	wwg.Wait()
	if n, err := svr.Write([]byte("late")); err == nil || n != 0 {
		fail("late-write", "Write after Close returned %d, %v", n, err)
	}
	if svr.EnterRawMode() == nil {
		fail("late-raw", "EnterRawMode after Close reported success")
	}
	if err := svr.ExitRawMode(); err != nil {
		fail("late-exit-raw", "ExitRawMode after Close: %v (the client has left raw mode)", err)
	}
	if n, err := svr.Read(make([]byte, 10)); n != 0 || err != io.EOF {
		fail("closed", "Read after Close returned %d, %v", n, err)
	}
	wg.Wait()
	// what arrived at the client
	whole := end == endEOF || end == endHangUp || end == endCut || end == endHuge || kind == 0
	if whole && end == endEOF && cut {
		fail("cut", "the last message to the client was cut")
	}
	at := make([]int, writers)
	for _, m := range got {
		g := 0
		if m.t == tData {
			if i := strings.IndexByte(m.data, '.'); i <= 0 {
				fail("foreign", "the client got a message nobody wrote: %.100q", m.data)
				continue
			} else {
				fmt.Sscan(m.data[:i], &g)
			}
		}
		if g >= writers {
			fail("foreign", "the client got message %d %.100q nobody wrote", m.t, m.data)
			continue
		}
		if m.t == tERaw && end != endEOF {
			continue
		}
		for at[g] < len(recs[g]) && (recs[g][at[g]].t != m.t || recs[g][at[g]].data != m.data) {
			if recs[g][at[g]].ok && recs[g][at[g]].t != tERaw {
				fail("lost", "writer %d: %d %.60q did not arrive before %d %.60q", g, recs[g][at[g]].t, recs[g][at[g]].data, m.t, m.data)
				return
			}
			at[g]++
		}
		if at[g] == len(recs[g]) {
			fail("order", "writer %d: the client got %d %.60q twice or out of order", g, m.t, m.data)
			return
		}
		at[g]++
		c.Count("messages_received", 1)
	}
	for g := range recs {
		for ; whole && at[g] < len(recs[g]); at[g]++ {
			if w := recs[g][at[g]]; w.ok && (w.t != tERaw || end == endEOF) {
				fail("lost", "writer %d: %d %.60q never arrived", g, w.t, w.data)
				return
			}
		}
	}
	if left := gone("readline.(*RemoteSvr)"); left != nil {
		fail("leak", "after Close there are still\n%s", strings.Join(left, "\n\n"))
	}
	c.Count("bytes_received", len(data))
	c.Count(fmt.Sprintf("ends_%d", end), 1)
	c.Seen("sessions", wire, kind, end, writers, readers)
	c.Count("calls_after_close", 4)
}

func noMarks(s string) string { return strings.Replace(s, "\u0301", "", -1) }

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// c16Editor: lines through a server with an editor.
func c16Editor(c *h.Ctx) {
	r := c.R
	kind, end := r.Intn(3), r.Intn(6)
	what := fmt.Sprintf("%s over %s", c16Ends(end), []string{"memory", "TCP", "a Unix socket"}[kind])
	sc, cc, err := c16Pair(kind, c.Dir)
	if err != nil {
		c.Count("no_connection", 1)
		return
	}
	defer sc.Close()
	defer cc.Close()
	in := genInput(r, r.Intn(12), 60, "")
	if r.Intn(3) == 0 {
		in.unfinished("rest" + strings.Repeat("x", r.Intn(10)))
	}
	var wire []byte
	for _, p := range pieces(r, in.bytes) {
		wire = append(wire, frame(tData, p)...)
		if len(wire) < 3000 && r.Intn(10) == 0 {
			wire = append(wire, frame(tWidthReport, u16(200))...)
		}
		if r.Intn(20) == 0 {
			wire = append(wire, frame(tData, nil)...)
		}
	}
	wire = append(wire, c16End(r, end)...)
	ps := pieces(r, append(hello(1, 200), wire...))
	if len(ps) > 3000 {
		ps = [][]byte{append(hello(1, 200), wire...)}
	}
	term := vt.New(200, 1<<20, sess.RuneWidth)
	var raws strings.Builder
	depth, inRead := 0, 0
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for _, p := range ps {
			if _, err := cc.Write(p); err != nil {
				break
			}
			h.Progress()
		}
		if end == endHangUp || end == endCut || end == endHuge {
			hangUp(cc)
		}
	}()
	echoOutside := true
	var stray []c16Msg
	go func() {
		defer wg.Done()
		c16Parse(cc, func(m c16Msg) {
			h.Progress()
			switch m.t {
			case tRaw:
				raws.WriteByte('+')
				depth++
				inRead++
			case tERaw:
				raws.WriteByte('-')
				depth--
			case tData:
				if strings.HasPrefix(m.data, "got:") && depth > 0 {
					echoOutside = false
				}
				term.Write([]byte(m.data))
			default:
				stray = append(stray, m)
			}
		})
	}()
	fail := func(sig, f string, a ...interface{}) {
		c.Fail(sig, "%s, input %q: %s", what, in.bytes, fmt.Sprintf(f, a...))
	}
	cfg := rl.Config{Prompt: "> ", EOFPrompt: "\n", VimMode: r.Intn(6) == 0}
	inst, err := rl.HandleConn(cfg, chop(r, sc))
	if err != nil {
		fail("refused", "HandleConn: %v", err)
		cc.Close()
		wg.Wait()
		return
	}
	var cwg sync.WaitGroup
	if end == endClose {
		spin := r.Intn(5000)
		cwg.Add(1)
		go func() {
			defer cwg.Done()
			for j := 0; j < spin; j++ {
				runtime.Gosched()
			}
			inst.Close()
		}()
	}
	var rows []string
	var got []string
	reads, ended := 0, 0
	for ended < 2 && reads < len(in.lines)+5 {
		h.Progress()
		pw := r.Intn(6) == 0
		var line string
		var err error
		if pw {
			var b []byte
			b, err = inst.ReadPassword("pw: ")
			line = string(b)
		} else {
			line, err = inst.Readline()
		}
		reads++
		if err != nil {
			if err != io.EOF || line != "" {
				fail("read", "read %d returned %q, %v", reads, line, err)
			}
			ended++
			continue
		}
		got = append(got, line)
		if pw {
			rows = append(rows, "pw:")
		} else {
			rows = append(rows, strings.TrimRight("> "+line, " "))
		}
		if r.Intn(2) == 0 {
			fmt.Fprintf(inst.Stdout(), "got:%d\n", len(got))
			rows = append(rows, fmt.Sprintf("got:%d", len(got)))
		}
	}
	want := in.lines
	if in.rest != "" {
		want = append(append([]string{}, want...), in.rest)
	}
	if len(got) > len(want) || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want[:len(got)]) || end != endClose && len(got) != len(want) {
		fail("lines", "the client sent the lines\n%q\nand the reads returned\n%q", want, got)
	}
	inst.Close()
	cwg.Wait()
	wg.Wait()
	if len(stray) > 0 {
		fail("stray", "the client got messages %v", stray)
	}
	if end == endEOF { // the client saw everything
		rs := strings.TrimRight(raws.String(), "-")
		n := len(rs)
		if strings.Count(rs, "+") != reads || strings.Contains(rs, "++") || strings.Contains(rs, "--") || n == len(raws.String()) {
			fail("raw", "%d reads entered and left raw mode as %s", reads, raws.String())
		}
		if !echoOutside {
			fail("raw-order", "text written between reads arrived while the terminal was raw")
		}
		var shown []string
		snap := term.Snap()
		for _, row := range snap.Rows {
			shown = append(shown, strings.TrimRight(row, " "))
		}
		for i, w := range rows {
			if i >= len(shown) || noMarks(shown[i]) != noMarks(w) { // the emulator shows a repeated mark once
				fail("screen", "row %d of the client's screen must be %q; it shows\n%q", i, w, shown)
				break
			}
		}
		c.Count("rows_compared", len(rows))
	}
	for _, s := range []string{"readline.(*RemoteSvr)", "readline.(*Terminal)", "readline.(*Operation)"} {
		if left := gone(s); left != nil {
			fail("leak", "after Close there are still\n%s", strings.Join(left, "\n\n"))
			break
		}
	}
	c.Count("lines", len(got))
	c.Count("reads", reads)
	c.Seen("sessions", wire, kind, end)
}

// c16Stuck: a peer that sends but never reads.
func c16Stuck(c *h.Ctx) {
	r := c.R
	kind := r.Intn(3)
	sc, cc, err := c16Pair(kind, c.Dir)
	if err != nil {
		return
	}
	defer sc.Close()
	defer cc.Close()
	go cc.Write(append(append(hello(1, 80), frame(tData, []byte("abc\rdef\r"))...), frame(tData, bytes.Repeat([]byte("x"), r.Intn(200)))...))
	editor := r.Intn(2) == 0
	typing := editor && r.Intn(2) == 0
	var keys int32
	var wg sync.WaitGroup
	var svr *rl.RemoteSvr
	var inst *rl.Instance
	if editor {
		cfg := rl.Config{Prompt: "> "}
		if typing {
			cfg.FuncFilterInputRune = func(k rune) (rune, bool) {
				atomic.AddInt32(&keys, 1)
				return k, true
			}
		}
		inst, err = rl.HandleConn(cfg, sc)
	} else {
		svr, err = rl.NewRemoteSvr(sc)
	}
	if err != nil {
		c.Fail("refused", "%v", err)
		return
	}
	big := bytes.Repeat([]byte("0123456789abcdef\n"), 1<<13)
	var calls int32
	if typing { // keys keep coming
		typed := make(chan struct{})
		key := frame(tData, []byte([]string{"ab\x7f字", "\x07"}[r.Intn(2)]))
		defer func() { sc.Close(); cc.Close(); <-typed }()
		go func() {
			defer close(typed)
			for i := 0; ; i++ {
				if _, err := cc.Write(key); err != nil {
					return
				}
				runtime.Gosched()
			}
		}()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				if _, err := inst.Readline(); err != nil {
					return
				}
			}
		}()
		for n := int32(r.Intn(60)); kind > 0 && atomic.LoadInt32(&keys) < n; {
			time.Sleep(50 * time.Microsecond)
		}
	}
	for g := 1 + r.Intn(3); g > 0; g-- {
		wg.Add(1)
		gr := newRand(r)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				h.Progress()
				var err error
				switch k := gr.Intn(4); {
				case editor && k == 0 && !typing:
					_, err = inst.Readline()
				case editor:
					_, err = inst.Stdout().Write(big)
				case k == 0:
					err = svr.EnterRawMode()
				default:
					_, err = svr.Write(big)
				}
				atomic.AddInt32(&calls, 1)
				if err != nil {
					return
				}
			}
		}()
	}
	if !editor {
		wg.Add(1)
		go func() {
			defer wg.Done()
			io.Copy(io.Discard, svr)
		}()
	}
	for i := r.Intn(2000); i > 0; i-- {
		runtime.Gosched()
	}
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
	}
	if r.Intn(2) == 0 { // until they have come to a halt
		for i, was := 0, int32(-1); i < 30 && was != atomic.LoadInt32(&calls); i++ {
			was = atomic.LoadInt32(&calls)
			time.Sleep(5 * time.Millisecond)
		}
	}
	// a call that blocks here is found by the watchdog
	if r.Intn(3) == 0 {
		cc.Close()
		if !editor { // ends by itself
			wg.Wait()
			svr.Close()
			c.Count("stuck_peers", 1)
			return
		}
	}
	if editor {
		inst.Close()
	} else {
		svr.Close()
	}
	wg.Wait()
	c.Count("stuck_peers", 1)
	c.Count("blocked_calls_ended", int(calls))
}

func c16Alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// hostileWire is a stream of messages that is broken somewhere.
func hostileWire(r randSrc) []byte {
	var b []byte
	if r.Intn(5) > 0 {
		b = hello(r.Intn(2), r.Intn(3)*40)
	}
	for n := r.Intn(10); n > 0; n-- {
		d := make([]byte, []int{0, 1, 2, r.Intn(50), r.Intn(3000)}[r.Intn(5)])
		r.Read(d)
		if r.Intn(2) == 0 {
			for i := range d {
				d[i] = "abc \r\n\x1b[A\t\x12\x7f"[r.Intn(12)]
			}
		}
		b = append(b, frame(r.Intn(9), d)...)
	}
	switch r.Intn(5) {
	case 0:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 1:
		for n := 1 + r.Intn(5); n > 0 && len(b) > 0; n-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
	case 2:
		b = append(b, c16End(r, endHuge)...)
	case 3:
		b = append(b, c16End(r, endBad)...)
	case 4:
		d := make([]byte, r.Intn(100))
		r.Read(d)
		b = append(b, d...)
	}
	return b
}

// c16Hostile: whatever is sent, both sides survive, end when it ends and take no memory for what was only announced.
func c16Hostile(c *h.Ctx) {
	r := c.R
	wire := hostileWire(r)
	kind := r.Intn(3)
	sc, cc, err := c16Pair(kind, c.Dir)
	if err != nil {
		return
	}
	defer sc.Close()
	defer cc.Close()
	var wg sync.WaitGroup
	wg.Add(2)
	ps := pieces(r, wire)
	go func() {
		defer wg.Done()
		for _, p := range ps {
			if _, err := cc.Write(p); err != nil {
				break
			}
			h.Progress()
		}
		hangUp(cc)
	}()
	go func() { defer wg.Done(); io.Copy(io.Discard, cc) }()
	side := []string{"server", "editor", "client"}[r.Intn(3)]
	var stdout *os.File
	if side == "client" {
		stdout = os.Stdout
		os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	}
	used := c16Alloc(func() {
		switch side {
		case "server":
			svr, err := rl.NewRemoteSvr(sc)
			if err != nil {
				return
			}
			buf := make([]byte, 500)
			for {
				h.Progress()
				if _, err := svr.Read(buf); err != nil {
					break
				}
			}
			svr.Close()
		case "editor":
			inst, err := rl.HandleConn(rl.Config{Prompt: "> ", FuncFilterInputRune: func(r rune) (rune, bool) { h.Progress(); return r, r != rl.CharCtrlZ }}, sc)
			if err != nil {
				return
			}
			for i := 0; i < 3000; i++ {
				if _, err := inst.Readline(); err == io.EOF {
					break
				}
			}
			inst.Close()
		case "client":
			cli, err := rl.NewRemoteCli(sc)
			if err != nil {
				c.Fail("client", "%v", err)
				return
			}
			cli.MarkIsTerminal(r.Intn(2) == 0)
			cli.ServeBy(strings.NewReader("input"))
		}
	})
	if stdout != nil {
		os.Stdout.Close()
		os.Stdout = stdout
	}
	sc.Close()
	wg.Wait()
	if max := uint64(4<<20 + 200*len(wire)); side != "editor" && used > max {
		c.Fail("memory", "the %s allocated %d bytes for %d bytes it was sent:\n%.2000q", side, used, len(wire), wire)
	}
	c.Count("hostile_"+side, 1)
	c.Seen("hostile", wire, side)
}

// c16Messages: messages by themselves.
func c16Messages(c *h.Ctx) {
	r := c.R
	var wire []byte
	var msgs []c16Msg
	for n := 1 + r.Intn(5); n > 0; n-- {
		d := make([]byte, r.Intn(40))
		r.Read(d)
		t := r.Intn(65536) - 32768
		var b bytes.Buffer
		cp := string(d)
		n, err := rl.NewMessage(rl.MsgType(t), d).WriteTo(&b)
		if err != nil || n != b.Len() || !bytes.Equal(b.Bytes(), frame(t, d)) || string(d) != cp {
			c.Fail("format", "message %d %q was written as %q (%d, %v)", t, d, b.Bytes(), n, err)
		}
		wire = append(wire, b.Bytes()...)
		msgs = append(msgs, c16Msg{t, cp})
	}
	for cut := 0; cut <= len(wire); cut++ {
		rd := io.Reader(bytes.NewReader(wire[:cut]))
		if r.Intn(2) == 0 {
			rd = iotest.OneByteReader(rd)
		}
		at := 0
		for _, m := range msgs {
			at += 6 + len(m.data)
			got, err := rl.ReadMessage(rd)
			if at > cut {
				if err == nil {
					c.Fail("truncated", "a message cut after %d bytes of %d was read as %v", cut-(at-6-len(m.data)), 6+len(m.data), got)
				}
				break
			}
			if err != nil || int(got.Type) != m.t || string(got.Data) != m.data {
				c.Fail("message", "message %v was read as %v, %v", m, got, err)
				return
			}
			c.Count("messages_read", 1)
		}
		h.Progress()
	}
	if r.Intn(40) == 0 { // a large one
		d := make([]byte, 1<<uint(r.Intn(22))+r.Intn(1<<20))
		r.Read(d)
		var b bytes.Buffer
		n, err := rl.NewMessage(rl.T_DATA, d).WriteTo(&b)
		if err != nil || n != b.Len() || !bytes.Equal(b.Bytes(), frame(tData, d)) {
			c.Fail("format", "a message of %d bytes was written as %d bytes (%d, %v)", len(d), b.Len(), n, err)
		}
		got, err := rl.ReadMessage(iotest.HalfReader(bytes.NewReader(b.Bytes())))
		if err != nil || got.Type != rl.T_DATA || !bytes.Equal(got.Data, d) {
			c.Fail("message", "a message of %d bytes was read with %v", len(d), err)
		}
		c.Count("large_messages", 1)
	}
	c.Seen("messages", wire)
}

// c16Source is what a client sends on; it counts what was taken from it.
type c16Source struct {
	r     randSrc
	left  []byte
	took  int32
	after func() // at the end
	hold  chan struct{}

	// a terminal goes on after it has reported its end, unless there is nothing before it
	ends  int
	fresh bool
}

func (s *c16Source) Read(p []byte) (int, error) {
	h.Progress()
	if len(s.left) == 0 {
		if s.hold != nil {
			<-s.hold
		}
		return 0, io.EOF
	}
	if s.ends > 0 && s.fresh && s.r.Intn(2) == 0 {
		s.ends--
		s.fresh = false
		return 0, io.EOF
	}
	s.fresh = true
	n := 1 + s.r.Intn(len(s.left))
	if s.r.Intn(2) == 0 && n > 10 {
		n = 10
	}
	n = copy(p, s.left[:n])
	s.left = s.left[n:]
	atomic.AddInt32(&s.took, 1)
	return n, nil
}

// failing is a connection whose writes fail from some byte on.
type failConn struct {
	net.Conn
	mu    sync.Mutex
	left  int
	short bool
	fails int
	hit   func()
}

var errWire = errors.New("the connection failed")

func (f *failConn) Write(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if len(b) > f.left {
		n := 0
		if f.left > 0 {
			n, _ = f.Conn.Write(b[:f.left])
		}
		f.left = 0
		f.fails++
		if f.fails == 1 {
			f.hit()
		}
		return n, errWire
	}
	f.left -= len(b)
	return f.Conn.Write(b)
}

// c16Client: a client between a source and a scripted server.
func c16Client(c *h.Ctx) {
	r := c.R
	kind := r.Intn(3)
	sc, cc, err := c16Pair(kind, c.Dir)
	if err != nil {
		return
	}
	defer sc.Close()
	defer cc.Close()
	data := make([]byte, []int{0, r.Intn(10), r.Intn(3000), r.Intn(100000)}[r.Intn(4)])
	r.Read(data)
	src := &c16Source{r: newRand(r), left: data}
	if r.Intn(2) == 0 {
		src.ends = r.Intn(4)
	}
	mode := r.Intn(3) // 0: everything is sent, 1: the server ends it, 2: the connection fails
	if mode == 1 {
		src.hold = make(chan struct{})
		defer close(src.hold)
	}
	var conn net.Conn = cc
	var tookAt int32 = -1
	if mode == 2 {
		conn = &failConn{Conn: cc, left: 24 + r.Intn(len(data)+20), hit: func() { atomic.StoreInt32(&tookAt, atomic.LoadInt32(&src.took)) }}
	}
	var wire []byte
	var out []byte
	for n := r.Intn(12); n > 0; n-- {
		switch r.Intn(5) {
		case 0:
			wire = append(wire, frame([]int{tRaw, tERaw, tWidth, tEOF, 9, tIsTTY}[r.Intn(6)], make([]byte, r.Intn(4)))...)
		default:
			b := make([]byte, []int{0, r.Intn(20), r.Intn(5000)}[r.Intn(3)])
			r.Read(b)
			out = append(out, b...)
			wire = append(wire, frame(tData, b)...)
		}
	}
	// what it prints
	pr, pw, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = pw
	printed := make(chan []byte)
	go func() {
		b, _ := io.ReadAll(pr)
		printed <- b
	}()
	var got []c16Msg
	var wg sync.WaitGroup
	wg.Add(2)
	eof := make(chan struct{})
	winch := mode == 0 && r.Intn(8) == 0
	again := make(chan struct{})
	go func() {
		defer wg.Done()
		closed := false
		reports := 0
		c16Parse(sc, func(m c16Msg) {
			got = append(got, m)
			h.Progress()
			if m.t == tEOF && !closed {
				closed = true
				close(eof)
			}
			if m.t == tWidthReport {
				if reports++; reports == 2 {
					close(again)
				}
			}
		})
		if !closed {
			close(eof)
		}
	}()
	ps := pieces(r, wire)
	go func() {
		defer wg.Done()
		for _, p := range ps {
			if _, err := sc.Write(p); err != nil {
				break
			}
		}
		if mode == 0 {
			<-eof
			if winch {
				syscall.Kill(os.Getpid(), syscall.SIGWINCH)
				<-again
			}
		}
		if mode == 1 || mode == 0 {
			if kind == 0 {
				sc.Close()
			} else {
				hangUp(sc)
			}
		}
		if mode == 2 {
			<-eof
			hangUp(sc)
		}
	}()
	cli, err := rl.NewRemoteCli(chop(r, conn))
	if err != nil {
		c.Fail("client", "%v", err)
		return
	}
	mark := r.Intn(3)
	if mark < 2 {
		cli.MarkIsTerminal(mark == 1)
	}
	if mode == 2 { // the reading side of a failed connection ends too
		go func() {
			for atomic.LoadInt32(&tookAt) < 0 && atomic.LoadInt32(&src.took) >= 0 {
				time.Sleep(time.Millisecond)
				select {
				case <-eof:
					return
				default:
				}
			}
			hangUp(cc)
			sc.Close()
		}()
	}
	err = cli.ServeBy(src)
	cc.Close()
	sc.Close()
	wg.Wait()
	pw.Close()
	os.Stdout = old
	text := <-printed
	pr.Close()
	fail := func(sig, f string, a ...interface{}) {
		c.Fail(sig, "mode %d over %d, %d bytes: %s", mode, kind, len(data), fmt.Sprintf(f, a...))
	}
	if err != nil && mode != 2 && (mode != 1 || kind != 0) {
		fail("serve", "ServeBy: %v", err)
	}
	var sent []byte
	eofs, widths := 0, 0
	for i, m := range got {
		if i == 0 && (m.t != tIsTTY || len(m.data) != 2 || mark < 2 && int(m.data[1])+int(m.data[0]) != mark) || i == 1 && (m.t != tWidthReport || len(m.data) != 2) {
			fail("hello", "message %d is %v, marked terminal: %d", i, m, mark)
			return
		}
		switch m.t {
		case tData:
			if eofs > 0 {
				fail("after-eof", "%q was sent after the end of the input", m.data)
			}
			sent = append(sent, m.data...)
		case tEOF:
			eofs++
		case tWidthReport:
			widths++
		case tIsTTY:
			if i != 0 {
				fail("strange", "message %d: %v", i, m)
			}
		default:
			fail("strange", "message %d: %v", i, m)
		}
	}
	if len(sent) > len(data) || !bytes.Equal(sent, data[:len(sent)]) || mode == 0 && (len(sent) != len(data) || eofs != 1) {
		fail("sent", "%d bytes were sent of %d, first difference at %d, %d ends of input", len(sent), len(data), diffAt(sent, data), eofs)
	}
	if len(text) > len(out) || !bytes.Equal(text, out[:len(text)]) || mode == 0 && len(text) != len(out) || mode == 1 && len(text) != len(out) {
		fail("printed", "%d bytes were printed of %d", len(text), len(out))
	}
	if winch && widths != 2 {
		fail("winch", "%d reports of the width", widths)
	}
	if mode == 2 && atomic.LoadInt32(&tookAt) >= 0 {
		time.Sleep(2 * time.Millisecond)
		if d := atomic.LoadInt32(&src.took) - atomic.LoadInt32(&tookAt); d > 1 {
			fail("swallowed", "after the connection failed %d more pieces were taken from the input", d)
		}
		c.Count("failed_connections", 1)
	}
	c.Count("clients", 1)
	c.Count("bytes_sent", len(sent))
	c.Seen("sessions", "client", data, wire, mode)
}

// c16Child is a client process.
func c16Child() {
	if err := rl.DialRemote(os.Getenv("VERIF_NET"), os.Getenv("VERIF_ADDR")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// c16Processes: a listening server and client processes.
func c16Processes(c *h.Ctx) {
	r := c.R
	n, addr := "tcp", "127.0.0.1:0"
	if r.Intn(2) == 0 {
		n, addr = "unix", c.Dir+"/c16.listen"
		os.Remove(addr)
	}
	ready := make(chan net.Listener, 1)
	served := make(chan error, 1)
	var mu sync.Mutex
	var lines [][]string
	quits := r.Intn(3) == 0 // the handler returns before the input ends
	var handled sync.WaitGroup
	go func() {
		served <- rl.ListenRemote(n, addr, &rl.Config{Prompt: "> ", EOFPrompt: "\n"}, func(i *rl.Instance) {
			defer handled.Done()
			var got []string
			for {
				l, err := i.Readline()
				h.Progress()
				if err != nil {
					break
				}
				got = append(got, l)
				fmt.Fprintf(i.Stdout(), "receive:%s\n", l)
				if quits && len(got) == 2 {
					break
				}
			}
			mu.Lock()
			lines = append(lines, got)
			mu.Unlock()
		}, func(ln net.Listener) error { ready <- ln; return nil })
	}()
	var ln net.Listener
	select {
	case ln = <-ready:
	case err := <-served:
		c.Count("no_connection", 1)
		_ = err
		return
	}
	clients := 1 + r.Intn(3)
	handled.Add(clients)
	var wg sync.WaitGroup
	texts := make([][]string, clients)
	for k := 0; k < clients; k++ {
		k := k
		var in []string
		for i := 2 + r.Intn(10); i > 0; i-- {
			in = append(in, fmt.Sprintf("client %d line %d %s", k, i, strings.Repeat("x字 ", r.Intn(6))))
			in[len(in)-1] = strings.TrimSpace(in[len(in)-1])
		}
		texts[k] = in
		wg.Add(1)
		exe, _ := os.Executable()
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), "VERIF_CHILD=c16", "VERIF_NET="+n, "VERIF_ADDR="+ln.Addr().String())
		cmd.Stdin = strings.NewReader(strings.Join(in, "\n") + "\n")
		var out, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &eb
		if err := cmd.Start(); err != nil {
			c.Fail("start", "%v", err)
			return
		}
		go func() {
			defer wg.Done()
			err := cmd.Wait()
			h.Progress()
			if err != nil {
				c.Fail("client-process", "%v %s", err, eb.String())
				return
			}
			term := vt.New(1000, 1<<20, sess.RuneWidth)
			term.Write([]byte(strings.Replace(out.String(), "\n", "\r\n", -1)))
			rows := term.Snap().Rows
			at := 0
			for i, l := range in {
				if quits && i == 2 {
					break
				}
				w := "receive:" + l
				for at < len(rows) && strings.TrimRight(rows[at], " ") != w {
					at++
				}
				if at == len(rows) {
					c.Fail("shown", "client %d typed %q and must show %q for each; it shows\n%q", k, in, w, rows)
					return
				}
			}
		}()
	}
	// peers that do not speak the protocol are turned away
	for k := r.Intn(4); k > 0; k-- {
		b := [][]byte{
			frame(tData, []byte("x")),
			frame(tWidthReport, u16(80)),
			frame(tIsTTY, []byte{1}),
			append(frame(tIsTTY, u16(1)), frame(tData, []byte("y"))...),
			append(frame(tIsTTY, u16(1)), frame(tWidthReport, nil)...),
			{0, 0, 0, 1, 0, 0},
			{255, 255, 255, 255, 0, byte(tIsTTY)},
		}[r.Intn(7)]
		conn, err := net.Dial(ln.Addr().Network(), ln.Addr().String())
		if err != nil {
			c.Fail("dial", "%v", err)
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			conn.Write(b)
			io.Copy(io.Discard, conn) // ends when the server hangs up
			conn.Close()
			h.Progress()
			c.Count("turned_away", 1)
		}()
	}
	wg.Wait()
	handled.Wait()
	ln.Close()
	<-served
	for _, got := range lines {
		var k int
		if len(got) == 0 {
			c.Fail("no-lines", "a session read nothing")
			return
		}
		fmt.Sscanf(got[0], "client %d", &k)
		want := texts[k]
		if quits {
			want = want[:2]
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			c.Fail("mixed", "client %d sent %q, its session read %q", k, want, got)
		}
	}
	for _, s := range []string{"readline.(*RemoteSvr)", "readline.(*Terminal)", "readline.(*Operation)"} {
		if left := gone(s); left != nil {
			c.Fail("listen-leak", "the handlers have returned (before the end of the input: %v); there are still\n%s", quits, strings.Join(left, "\n\n"))
			break
		}
	}
	c.Count("client_processes", clients)
	c.Seen("sessions", texts)
}

func init() {
	Children["c16"] = c16Child
	h.Register(&h.Prop{
		ID:    "C16",
		Rule:  "Scripted peers on in-memory, TCP and Unix connections: random messages (sizes 0 to 70000, empty, unknown, short and repeated reports), cut into random pieces on the wire and in the server's reads, ended by the client, a hang-up, a cut, invalid or oversized message or by the server; the server reads with one or two readers and writes with up to three writers, or runs an editor whose screen, lines and raw mode messages are compared. Peers that never read, broken streams against server, editor and client with a bound on memory, clients with scripted servers and failing connections, client processes against a listening server, and clients on a real terminal device whose settings are compared. Non-trivial is a distinct (bytes on the wire, transport, end).",
		Count: "sessions",
		Min: map[string]int64{"sessions": 800, "messages_received": 5000, "bytes_received": 1 << 20, "lines": 1500, "rows_compared": 300, "stuck_peers": 50, "hostile": 200, "messages_read": 10000, "clients": 200, "bytes_sent": 1 << 20,
			"client_processes": 10, "turned_away": 10, "remote_terminals": 30, "width_reports": 300, "calls_after_close": 500},
		Assume: []string{"the network delivers what it accepted, in order, unless the connection is reset"},
		Builds: []h.Build{
			{Name: "", Cases: tiers(6000, 60000)},
			{Name: "race", Race: true, Cases: tiers(1600, 16000)},
			{Name: "instr", Instr: true, Race: true, Cases: tiers(1600, 16000)},
		},
		Run: func(c *h.Ctx) {
			perturbed(c, func() {
				switch c.Idx % 20 {
				case 0, 1, 2, 3, 4, 5:
					c16Server(c)
				case 6, 7, 8, 9, 10:
					c16Editor(c)
				case 11:
					c16Stuck(c)
				case 12, 13:
					c16Hostile(c)
				case 14:
					c16Messages(c)
				case 15, 16, 17, 18:
					c16Client(c)
				case 19:
					switch c.Idx % 60 {
					case 19:
						c16Processes(c)
					case 39:
						c15Remote(c)
					default:
						c16Hostile(c)
					}
				}
			})
		},
	})
}
