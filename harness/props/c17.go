package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"sync"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/model"
	"verif.local/harness/sess"
)

// srcEvent is one answer of a scripted source.
type srcEvent struct {
	data []byte
	err  error
}

// source answers reads from a script and never blocks.
type source struct {
	ev    []srcEvent
	calls int
}

func (s *source) Read(p []byte) (int, error) {
	s.calls++
	if len(s.ev) == 0 {
		return 0, io.EOF
	}
	e := &s.ev[0]
	n := copy(p, e.data)
	e.data = e.data[n:]
	if len(e.data) > 0 {
		return n, nil
	}
	err := e.err
	s.ev = s.ev[1:]
	return n, err
}

var errSource = errors.New("the source failed")

func genSource(r randSrc, mark byte) ([]srcEvent, []byte) {
	var ev []srcEvent
	var all []byte
	for k := r.Intn(12); k > 0; k-- {
		n := []int{0, 1, 3, 17, 300, 5000}[r.Intn(6)]
		b := make([]byte, n)
		for i := range b {
			b[i] = mark + byte(r.Intn(20))
		}
		e := srcEvent{data: b}
		switch r.Intn(6) {
		case 0:
			e.err = errSource
		case 1:
			e.err = io.ErrUnexpectedEOF
		}
		ev = append(ev, e)
		all = append(all, b...)
	}
	return ev, all
}

func cloneEv(ev []srcEvent) []srcEvent {
	o := make([]srcEvent, len(ev))
	for i, e := range ev {
		o[i] = srcEvent{append([]byte{}, e.data...), e.err}
	}
	return o
}

type closeCount struct {
	io.Reader
	closed int
}

func (c *closeCount) Close() error { c.closed++; return nil }

// c17Fill: prefills and reads in sequence.
func c17Fill(c *h.Ctx) {
	r := c.R
	ev, _ := genSource(r, 'a')
	src := &source{ev: cloneEv(ev)}
	ref := &source{ev: ev}
	cc := &closeCount{Reader: src}
	in, w := rl.NewFillableStdin(cc)
	var pre []byte
	var log []string
	for i := 0; i < 60; i++ {
		if r.Intn(3) == 0 {
			b := make([]byte, []int{0, 1, 2, 40, 6000}[r.Intn(5)])
			for j := range b {
				b[j] = 'A' + byte(r.Intn(26))
			}
			own := append([]byte{}, b...)
			n, err := w.Write(own)
			if n != len(b) || err != nil || !bytes.Equal(own, b) {
				c.Fail("prefill-result", "prefilling %d bytes returned %d, %v", len(b), n, err)
				return
			}
			for j := range own {
				own[j] = '!' // the caller may use its buffer again
			}
			pre = append(pre, b...)
			log = append(log, fmt.Sprintf("prefill %d", len(b)))
			c.Count("prefilled", len(b))
			continue
		}
		p := make([]byte, 1+r.Intn([]int{2, 30, 5000}[r.Intn(3)]))
		n, err := in.Read(p)
		log = append(log, fmt.Sprintf("read %d -> %d %v", len(p), n, err))
		got := append([]byte{}, p[:n]...)
		c.Count("read_bytes", n)
		c.Seen("reads", len(pre), len(p), n, fmt.Sprint(err))
		if k := min2(len(got), len(pre)); k > 0 {
			if !bytes.Equal(got[:k], pre[:k]) {
				c.Fail("prefill", "a read returned %.60q while %.60q was prefilled; %s", got, pre, strings.Join(log, ", "))
				return
			}
			pre, got = pre[k:], got[k:]
			if len(got) == 0 && err == nil {
				continue
			}
		} else if len(pre) > 0 && err == nil && n == 0 {
			c.Fail("prefill", "a read returned nothing although %d bytes were prefilled", len(pre))
			return
		}
		q := make([]byte, len(p))
		if len(got) > 0 {
			q = q[:len(got)]
		}
		m, werr := ref.Read(q)
		if m != len(got) || !bytes.Equal(q[:m], got) || werr != err {
			c.Fail("source", "a read returned %.60q, %v; the source gave %.60q, %v; %s", got, err, q[:m], werr, strings.Join(log, ", "))
			return
		}
	}
	in.Close()
	if cc.closed != 1 {
		c.Fail("close", "closing the wrapper closed the source %d times", cc.closed)
	}
	c.Sample("%s", strings.Join(log[:min2(len(log), 20)], ", "))
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// c17FillConc: prefills from several goroutines while reads go on.
func c17FillConc(c *h.Ctx) {
	r := c.R
	src := sess.NewStdin()
	in, w := rl.NewFillableStdin(src)
	n := 1 + r.Intn(3)
	per := 1 + r.Intn(30)
	var wg sync.WaitGroup
	total := 0
	for g := 0; g < n; g++ {
		var parts [][]byte
		for i := 0; i < per; i++ {
			b := []byte(fmt.Sprintf("<%d:%d%s>", g, i, strings.Repeat("x", r.Intn(30))))
			total += len(b)
			parts = append(parts, b)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, p := range parts {
				w.Write(p)
			}
		}()
	}
	var typed []byte
	for i := 0; i < per; i++ {
		b := []byte(fmt.Sprintf("<s:%d>", i))
		typed = append(typed, b...)
	}
	// each piece of the source is read as a whole, so that it cannot be cut by a prefill
	for b := typed; len(b) > 0; {
		k := bytes.IndexByte(b, '>') + 1
		src.Feed(b[:k])
		b = b[k:]
	}
	got := []byte{}
	p := make([]byte, 4096)
	done := make(chan bool)
	go func() {
		wg.Wait()
		src.EOF()
		close(done)
	}()
	ended := 0
	for len(got) < total+len(typed) && ended < 3 {
		k, err := in.Read(p)
		got = append(got, p[:k]...)
		if err == io.EOF {
			<-done // what was prefilled later comes now
			ended++
		}
	}
	<-done
	next := map[string]int{}
	rest := string(got)
	for rest != "" {
		i := strings.IndexByte(rest, '>')
		var who string
		var num int
		if rest[0] != '<' || i < 0 {
			c.Fail("cut", "the pieces were cut: %.200q", rest)
			return
		}
		q := strings.SplitN(strings.TrimRight(rest[1:i], "x"), ":", 2)
		who = q[0]
		fmt.Sscan(q[1], &num)
		if next[who] != num {
			c.Fail("order", "piece %d of %s came when %d was due; %.300q", num, who, next[who], got)
			return
		}
		next[who]++
		rest = rest[i+1:]
	}
	for g := 0; g < n; g++ {
		if next[fmt.Sprint(g)] != per {
			c.Fail("lost", "of the %d prefills of goroutine %d, %d were read", per, g, next[fmt.Sprint(g)])
		}
	}
	if next["s"] != per {
		c.Fail("lost", "of the %d typed pieces, %d were read", per, next["s"])
	}
	c.Count("concurrent_pieces", (n+1)*per)
}

// c17Cancel: a cancellable input that is not closed passes everything on.
func c17Cancel(c *h.Ctx) {
	r := c.R
	ev, _ := genSource(r, 'a')
	ref := &source{ev: cloneEv(ev)}
	src := &source{ev: ev}
	in := rl.NewCancelableStdin(src)
	for i := 0; i < 30; i++ {
		p := make([]byte, 1+r.Intn([]int{2, 30, 5000}[r.Intn(3)]))
		for j := range p {
			p[j] = 0xaa
		}
		q := append([]byte{}, p...)
		n, err := in.Read(p)
		m, werr := ref.Read(q)
		c.Count("cancelable_reads", 1)
		c.Seen("reads", "c", len(p), n, fmt.Sprint(err))
		if n != m || err != werr || !bytes.Equal(p, q) {
			c.Fail("cancelable", "read %d of %d bytes returned %d, %v and %.60q; the source gave %d, %v and %.60q", i, len(p), n, err, p, m, werr, q)
			return
		}
	}
	in.Close()
	for i := 0; i < 3; i++ {
		n, err := in.Read(make([]byte, 10))
		if n != 0 || err != io.EOF {
			c.Fail("closed", "a read after Close returned %d, %v", n, err)
		}
	}
	if in.Close() != nil {
		c.Fail("closed", "Close again failed")
	}
}

// stubborn is a source whose pending read cannot be interrupted.
type stubborn struct{ *sess.Stdin }

func (s stubborn) Close() error { return nil }

// c17Close: closing while reads are pending.
func c17Close(c *h.Ctx) {
	r := c.R
	src := sess.NewStdin()
	in := rl.NewCancelableStdin(stubborn{src})
	typed := []byte{}
	for i := 0; i < r.Intn(6); i++ {
		b := []byte(fmt.Sprintf("<%d>", i))
		typed = append(typed, b...)
		src.Feed(b)
	}
	readers := 1 + r.Intn(2)
	type got struct {
		b   []byte
		buf []byte
	}
	res := make(chan got, readers)
	bad := make(chan string, 10)
	for g := 0; g < readers; g++ {
		go func() {
			var all []byte
			for {
				p := bytes.Repeat([]byte{0xaa}, 64)
				n, err := in.Read(p)
				if err != nil {
					if err != io.EOF || n != 0 {
						bad <- fmt.Sprintf("a closed read returned %d, %v", n, err)
					}
					res <- got{all, p}
					return
				}
				if n == 0 {
					bad <- "a read returned nothing"
				}
				all = append(all, p[:n]...)
			}
		}()
	}
	if r.Intn(2) == 0 {
		src.WaitIdle() // everything was read, and one read is pending
	}
	for i := r.Intn(50); i > 0; i-- {
		h.Progress()
	}
	in.Close()
	var bufs [][]byte
	sum := 0
	var all []byte
	for g := 0; g < readers; g++ {
		x := <-res // closing ends the pending reads
		bufs = append(bufs, x.buf)
		sum += len(x.b)
		all = append(all, x.b...)
	}
	// now the source's pending read comes back
	src.Feed([]byte("late late late late"))
	src.EOF()
	if left := gone("CancelableStdin"); len(left) > 0 {
		c.Fail("cancel-leak", "the reader did not end after Close:\n%s", strings.Join(left, "\n"))
	}
	for _, b := range bufs {
		if !bytes.Equal(b, bytes.Repeat([]byte{0xaa}, 64)) {
			c.Fail("late-write", "the buffer of a cancelled read was written to: %q", b)
		}
	}
	seen := map[string]bool{}
	for _, x := range strings.SplitAfter(string(all), ">") {
		if x == "" {
			continue
		}
		if seen[x] || !strings.Contains(string(typed), x) {
			c.Fail("delivered", "the reads returned %q of %q", all, typed)
			break
		}
		seen[x] = true
	}
	if readers == 1 && !bytes.HasPrefix(typed, all) {
		c.Fail("delivered", "the reads returned %q of %q", all, typed)
	}
	select {
	case s := <-bad:
		c.Fail("closed", "%s", s)
	default:
	}
	c.Count("closed_pending", readers)
	c.Seen("reads", "close", sum, readers)
}

// c17Lines: prefills and default texts of an editor.
func c17Lines(c *h.Ctx) {
	r := c.R
	m := &ModelRun{C: c, M: model.NewSession(500), Opt: sess.Opt{Width: 80}, Prompt: "> ", CheckScreen: true}
	n := 1 + r.Intn(8)
	pre := make([]string, n+1)
	def := make([]string, n+1)
	word := func(max int) string {
		var sb strings.Builder
		for k := r.Intn(max + 1); k > 0; k-- {
			sb.WriteRune(Pick(r, []Choice{Text(1, "abc é字 xyz-")}))
		}
		return sb.String()
	}
	addText := func(s string) {
		for _, x := range s {
			m.Keys = append(m.Keys, sess.Key{Bytes: string(x), R: x})
		}
	}
	m.Chunks = [][]byte{}
	huge := c.Idx%480 == 6 && c.Build == ""
	if huge {
		m.CheckScreen, m.Opt.Discard, n = false, true, 1
	}
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			pre[i] = word(20)
			if c.Idx%240 == 7 && i == 0 && c.Build == "" {
				pre[i] = strings.Repeat("p", 4090+r.Intn(20)) // about the size of the input buffer
			}
			if huge {
				pre[i] = strings.Repeat("0123456789", 420+r.Intn(100))
			}
			if len(pre[i]) > 100 {
				m.CheckScreen, m.Opt.Discard = false, true
			}
			addText(pre[i])
			c.Count("prefills", 1)
		}
		if r.Intn(2) == 0 {
			def[i] = word(12)
			c.Count("defaults", 1)
		}
		cs := append(editKeys(r)[:1], K(20, model.KeyPrev, model.KeyNext), K(8, model.KeyBackward, model.KeyLineStart, model.KeyCtrlW, model.KeyCtrlY, model.KeyBackspace))
		ks := genKeys(r, cs, r.Intn(12), false)
		ks = append(ks, sess.Key{Bytes: "\r", R: model.KeyEnter})
		m.Keys = append(m.Keys, ks...)
		// the pieces of a line end with it, so nothing of the next one was fetched before its prefill
		m.Chunks = append(m.Chunks, chunked(r, ks)...)
	}
	m.Read = func(i int) (string, error) {
		if i < n && pre[i] != "" {
			k := r.Intn(len(pre[i]) + 1)
			for _, part := range []string{pre[i][:k], pre[i][k:]} {
				if w, err := m.Session.Inst.WriteStdin([]byte(part)); w != len(part) || err != nil {
					m.fail("prefill-result", "WriteStdin of %d bytes returned %d, %v", len(part), w, err)
				}
			}
		}
		if i < n && def[i] != "" {
			m.mu.Lock()
			m.M.Set([]rune(def[i]))
			m.M.H.Edited(m.M.Buf)
			m.mu.Unlock()
			return m.Session.Inst.ReadlineWithDefault(def[i])
		}
		return m.Session.Inst.Readline()
	}
	m.Run()
	c.Seen("reads", "lines", fmt.Sprint(pre), fmt.Sprint(def), KeyNames(m.Keys, -1))
}

func init() {
	run := func(c *h.Ctx) {
		h.Progress()
		switch c.Idx % 8 {
		case 0, 1:
			c17Fill(c)
		case 2:
			c17FillConc(c)
		case 3:
			c17Cancel(c)
		case 4, 5:
			c17Close(c)
		default:
			c17Lines(c)
		}
	}
	h.Register(&h.Prop{
		ID:    "C17",
		Rule:  "Random scripted sources (pieces of 0 to 5000 bytes, errors with and without data), prefills of 0 to 6000 bytes in sequence and from three goroutines, closing with pending reads of a source that cannot be interrupted, and editor sessions with prefills and default texts compared with the model after every key; plain, race-detector and scheduling-point builds. Non-trivial is a distinct (prefilled, asked, answered) read or session.",
		Count: "reads",
		Min:   map[string]int64{"prefilled": 100000, "read_bytes": 100000, "concurrent_pieces": 5000, "cancelable_reads": 5000, "closed_pending": 300, "prefills": 500, "defaults": 500, "reads": 2000},
		Builds: []h.Build{
			{Name: "", Cases: tiers(6000, 120000)},
			{Name: "race", Race: true, Cases: tiers(1600, 30000)},
			{Name: "instr", Instr: true, Cases: tiers(1000, 30000)},
		},
		Run: func(c *h.Ctx) { perturbed(c, func() { run(c) }) },
	})
}
