package props

import (
	"fmt"
	"io"
	"strings"
	"sync"

	rl "github.com/chzyer/readline"
	"verif.local/harness/h"
	"verif.local/harness/sess"
)

// c06Input is an input text and what its lines are.
type c06Input struct {
	bytes []byte
	lines []string
	ends  []int // offset behind the end of each line
	rest  string
}

func genInput(r randSrc, n, max int, tag string) c06Input {
	var in c06Input
	alpha := []rune("abc xyz-é字界e\u0301😀\t"[:])
	for i := 0; i < n; i++ {
		l := 0
		switch r.Intn(8) {
		case 0:
		case 1:
			l = r.Intn(max + 1)
		default:
			l = r.Intn(30)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s%d:", tag, i)
		if r.Intn(8) == 0 {
			sb.Reset() // may be empty
		}
		for ; l > 0; l-- {
			c := alpha[r.Intn(len(alpha))]
			if c == '\t' {
				c = '.'
			}
			sb.WriteRune(c)
		}
		in.bytes = append(in.bytes, sb.String()...)
		in.lines = append(in.lines, sb.String())
		switch r.Intn(8) {
		case 0: // two line ends
			in.bytes = append(in.bytes, '\r')
			in.ends = append(in.ends, len(in.bytes))
			in.bytes = append(in.bytes, '\n')
			in.lines = append(in.lines, "")
		case 1, 2:
			in.bytes = append(in.bytes, '\n')
		default:
			in.bytes = append(in.bytes, '\r')
		}
		in.ends = append(in.ends, len(in.bytes))
	}
	return in
}

func (in *c06Input) unfinished(s string) {
	in.rest = s
	in.bytes = append(in.bytes, s...)
}

// pieces cuts b anywhere.
func pieces(r randSrc, b []byte) [][]byte {
	var out [][]byte
	mode := r.Intn(5)
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0:
			n = 1
		case 1:
			n = 1 + r.Intn(4)
		case 2:
			n = 1 + r.Intn(60)
		case 3:
			n = []int{1, 5, 4095, 4096, 4097, 9000}[r.Intn(6)]
		}
		if n > len(b) {
			n = len(b)
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

// reading is one of the reading calls; it returns the line and the error.
type reading struct {
	name string
	call func(i *rl.Instance, def string) (string, error)
	def  bool
}

// keep is what the last call returned, as it is now.
var keep func() string

func keepBytes(b []byte, err error) (string, error) {
	keep = func() string { return string(b) }
	return string(b), err
}

func keepRunes(b []rune, err error) (string, error) {
	keep = func() string { return string(b) }
	return string(b), err
}

var readings = []reading{
	{"Readline", func(i *rl.Instance, _ string) (string, error) { return i.Readline() }, false},
	{"ReadSlice", func(i *rl.Instance, _ string) (string, error) {
		return keepBytes(i.ReadSlice())
	}, false},
	{"Line", func(i *rl.Instance, _ string) (string, error) {
		r := i.Line()
		if r.CanBreak() != (r.Error != nil && !(r.Line != "" && r.Error == rl.ErrInterrupt)) || r.CanContinue() != (r.Line != "" && r.Error == rl.ErrInterrupt) {
			return r.Line, fmt.Errorf("CanBreak %v CanContinue %v for %q, %v", r.CanBreak(), r.CanContinue(), r.Line, r.Error)
		}
		return r.Line, r.Error
	}, false},
	{"ReadlineWithDefault", func(i *rl.Instance, def string) (string, error) { return i.ReadlineWithDefault(def) }, true},
	{"ReadPassword", func(i *rl.Instance, _ string) (string, error) {
		return keepBytes(i.ReadPassword("password: "))
	}, false},
	{"ReadPasswordEx", func(i *rl.Instance, _ string) (string, error) {
		return keepBytes(i.ReadPasswordEx("pw: ", rl.FuncListener(func(l []rune, p int, k rune) ([]rune, int, bool) { return nil, 0, false })))
	}, false},
	{"ReadPasswordWithConfig", func(i *rl.Instance, _ string) (string, error) {
		cfg := i.GenPasswordConfig()
		cfg.MaskRune = '*'
		return keepBytes(i.ReadPasswordWithConfig(cfg))
	}, false},
	{"Runes", func(i *rl.Instance, _ string) (string, error) { return keepRunes(i.Operation.Runes()) }, false},
}

// feed hands the pieces to the input, at once or paced.
func feed(r randSrc, in *sess.Stdin, ps [][]byte, wg *sync.WaitGroup) {
	pace := r.Intn(4)
	if pace == 0 {
		in.Feed(ps...)
		in.EOF()
		return
	}
	seed := r.Int63()
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i, p := range ps {
			in.Feed(p)
			h.Progress()
			if pace == 1 || pace == 2 && (seed>>uint(i%60))&3 == 0 {
				in.WaitIdle() // asked for more
			}
		}
		in.EOF()
	}()
}

// interrupted makes signals interrupt the reads of the input, in some cases.
func interrupted(r randSrc, in *sess.Stdin) {
	if x := newRand(r); x.Intn(4) == 0 {
		every := 1 + x.Intn(10)
		in.Intr = func() bool { return x.Intn(every+1) == 0 }
	}
}

func short(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%.120q...(%d bytes)...%q", s, len(s), s[len(s)-60:])
	}
	return fmt.Sprintf("%q", s)
}

func c06Run(c *h.Ctx) {
	r := c.R
	quiet := r.Intn(2) == 0
	max := 200
	n := 1 + r.Intn(12)
	if quiet {
		n, max = 1+r.Intn(30), 3000
		if r.Intn(10) == 0 && c.Build == "" {
			n, max = 4, 20000
			if c.Tier == "thorough" {
				max = 70000
			}
		}
	}
	if c.Build == "instr" {
		n, max = 1+n%6, 60
	}
	in := genInput(r, n, max, "")
	if r.Intn(2) == 0 {
		in.unfinished(strings.Repeat("unfinished ", 1+r.Intn(5)))
	}
	discard := quiet || r.Intn(2) == 0
	s, err := sess.New(sess.Opt{Width: pickWidth(r), Discard: discard, NoFilter: true, Cfg: func(cfg *rl.Config) {
		cfg.Prompt = "> "
		if quiet {
			cfg.FuncIsTerminal = func() bool { return false }
		}
		cfg.DisableAutoSaveHistory = r.Intn(2) == 0
		cfg.VimMode = r.Intn(4) == 0
		cfg.UniqueEditLine = r.Intn(4) == 0
		cfg.HistoryLimit = []int{500, 3, -1}[r.Intn(3)]
	}})
	if err != nil {
		c.Fail("setup", "%v", err)
		return
	}
	var wg sync.WaitGroup
	ps := pieces(r, in.bytes)
	interrupted(r, s.In)
	feed(r, s.In, ps, &wg)
	mixed := r.Intn(3) != 0
	var log []string
	other := *s.Cfg
	var kept []func() string
	var keptAs []string
	defer func() {
		// what a call returned stays as it was
		for i, f := range kept {
			if now := f(); now != keptAs[i] {
				c.Fail("kept", "a call returned %s, which is %s later; calls %v, input %s", short(keptAs[i]), short(now), log, short(string(in.bytes)))
				return
			}
		}
		c.Count("kept", len(kept))
	}()
	for i := 0; ; i++ {
		m := readings[0]
		if mixed {
			m = readings[r.Intn(len(readings))]
		}
		def := ""
		if m.def {
			if i >= len(in.lines) && (i > len(in.lines) || in.rest == "") {
				m = readings[0]
			} else {
				def = []string{"", "d", "default "}[r.Intn(3)]
			}
		}
		keep = nil
		var screen string
		atEnd := i > len(in.lines) || i == len(in.lines) && in.rest == ""
		if atEnd && !discard {
			screen = strings.Join(s.VT.Snap().Rows, "\n")
		}
		got, err := m.call(s.Inst, def)
		h.Progress()
		if keep != nil {
			kept, keptAs = append(kept, keep), append(keptAs, got)
		}
		log = append(log, m.name)
		c.Count("calls_"+m.name, 1)
		ctx := func() string {
			return fmt.Sprintf("call %d (%s, default %q) of %v; %d pieces, input %s", i, m.name, def, log, len(ps), short(string(in.bytes)))
		}
		switch {
		case i < len(in.lines):
			want := def + in.lines[i]
			if got != want || err != nil {
				c.Fail("line", "returned %s, %v; the line is %s\n%s", short(got), err, short(want), ctx())
				goto out
			}
			if rd := s.In.Count(); rd < in.ends[i] {
				c.Fail("early", "the call returned after %d bytes; its line ends at %d\n%s", rd, in.ends[i], ctx())
				goto out
			}
			c.Count("lines", 1)
			c.Count("bytes", len(want))
			c.Seen("deliveries", m.name, want, quiet, len(ps))
		case i == len(in.lines) && in.rest != "":
			if got != def+in.rest || err != nil {
				c.Fail("unfinished", "returned %s, %v; the unfinished line is %s\n%s", short(got), err, short(def+in.rest), ctx())
				goto out
			}
			c.Count("unfinished", 1)
		default:
			if got != "" || err != io.EOF {
				c.Fail("eof", "returned %s, %v after the end of the input\n%s", short(got), err, ctx())
				goto out
			}
			c.Count("ends", 1)
			if !discard {
				// the prompt of a call that has nothing to read does not stay
				if now := strings.Join(s.VT.Snap().Rows, "\n"); strings.TrimRight(now, " \n") != strings.TrimRight(screen, " \n") {
					c.Fail("end-shown", "the screen was changed by a call after the end of the input, from\n%s\nto\n%s\n%s", tailOf(screen), tailOf(now), ctx())
					goto out
				}
				c.Count("end_screens", 1)
			}
			if i > len(in.lines)+4 {
				goto out
			}
		}
		// what may happen between the lines
		for r.Intn(4) == 0 {
			switch r.Intn(5) {
			case 0:
				s.Inst.SetPrompt([]string{"> ", "new prompt> ", ""}[r.Intn(3)])
			case 1:
				k := other.Clone()
				k.Prompt = "other> "
				s.Inst.SetConfig(k)
			case 2:
				s.Inst.SetVimMode(r.Intn(2) == 0)
			case 3:
				fmt.Fprintf(s.Inst.Stdout(), "between\n")
			case 4:
				s.Inst.Refresh()
			}
			c.Count("between", 1)
		}
	}
out:
	s.Close()
	wg.Wait()
	c.Count("interrupted", s.In.Interrupts())
	c.Sample("%d lines in %d pieces, calls %v", len(in.lines), len(ps), log)
}

// the instance behind Line, Password, ... exists once per process
var (
	stdOnce sync.Once
	stdIn   *sess.Stdin
)

// c06Global reads with the package-level functions.
func c06Global(c *h.Ctx) {
	r := c.R
	stdOnce.Do(func() {
		stdIn = sess.NewStdin()
		rl.Stdin, rl.Stdout, rl.Stderr = stdIn, nopCloser{io.Discard}, nopCloser{io.Discard}
	})
	in := genInput(r, 1+r.Intn(8), 60, "")
	ps := pieces(r, in.bytes)
	done := make(chan bool)
	go func() {
		defer close(done)
		for _, p := range ps {
			stdIn.Feed(p)
		}
	}()
	for i, want := range in.lines {
		var got string
		var err error
		k := r.Intn(3)
		switch k {
		case 0, 1:
			got, err = rl.Line("> ")
		case 2:
			var b []byte
			b, err = rl.Password("password: ")
			got = string(b)
		}
		h.Progress()
		if got != want || err != nil {
			c.Fail("global", "call %d (%d) returned %s, %v; the line is %s; %d pieces, input %s", i, k, short(got), err, short(want), len(ps), short(string(in.bytes)))
			break
		}
		c.Count("global_lines", 1)
		c.Seen("deliveries", "global", k, want)
		switch r.Intn(6) {
		case 0:
			if err := rl.AddHistory(want); err != nil {
				c.Fail("global-history", "AddHistory: %v", err)
			}
		case 1:
			rl.SetAutoComplete(rl.NewPrefixCompleter(rl.PcItem("x")))
		case 2:
			rl.SetHistoryPath("")
		}
	}
	<-done
}

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

func init() {
	h.Register(&h.Prop{
		ID:    "C06",
		Rule:  "Random inputs of 1 to 30 lines (up to 20000, thorough 70000 runes) in random pieces, fed at once or paced, read by random mixes of the seven reading calls and the package functions with changes in between; every returned line must be the input's next, and not come before its end was read. Non-trivial is a distinct (call, line, pieces) delivered.",
		Count: "deliveries",
		Min:   map[string]int64{"lines": 15000, "unfinished": 1000, "ends": 10000, "calls_ReadPassword": 3000, "calls_ReadlineWithDefault": 2000, "global_lines": 2000, "between": 5000, "end_screens": 1000, "kept": 10000, "interrupted": 2000, "calls_Runes": 2000, "deliveries": 20000, "directed_stops": 50, "switch_pairs": 2000},
		Builds: []h.Build{
			{Name: "", Cases: tiers(3600, 100000)},
			{Name: "race", Race: true, Cases: tiers(800, 16000)},
			{Name: "instr", Instr: true, Cases: tiers(1200, 40000)},
		},
		Run: func(c *h.Ctx) {
			perturbed(c, func() {
				if c.Idx%8 == 7 {
					c06Global(c)
				} else {
					c06Run(c)
				}
			})
		},
	})
}

// tailOf is the end of a screen.
func tailOf(s string) string {
	if len(s) > 300 {
		s = "..." + s[len(s)-300:]
	}
	return s
}
