// mutate is a development tool: it applies one small change after another to the sources, runs a thin
// slice of every check's cases against each and lists the changes that nothing noticed. No check uses it.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	repo  = flag.String("repo", "/repo", "")
	out   = flag.String("out", "/tmp/mut", "")
	files = flag.String("files", "", "comma separated")
	par   = flag.Int("par", 8, "")
	list  = flag.Bool("list", false, "")
	frac  = flag.Int("frac", 60, "run one case in this many")
	only  = flag.String("only", "", "ids, comma separated")
	props = flag.String("props", "", "only these checks; near: those of the file")
	show  = flag.String("show", "", "print the mutated file of one id")
	seed  = flag.String("seed", "1", "")
	hdir  = flag.String("harness", "/verif/harness", "")
)

type mutant struct {
	ID, File, Desc string
	line           int
	from, to       int
	text           string
}

func main() {
	flag.Parse()
	var ms []mutant
	fs := strings.Split(*files, ",")
	if *files == "" {
		o, _ := exec.Command("sh", "-c", "cd "+*repo+" && go list -f '{{range .GoFiles}}{{.}} {{end}}' .").Output()
		fs = strings.Fields(string(o))
	}
	for _, f := range fs {
		ms = append(ms, gen(f)...)
	}
	if *only != "" {
		want := map[string]bool{}
		if b, err := os.ReadFile(*only); err == nil {
			*only = strings.Join(strings.Fields(string(b)), ",")
		}
		for _, s := range strings.Split(*only, ",") {
			want[s] = true
		}
		var k []mutant
		for _, m := range ms {
			if want[m.ID] {
				k = append(k, m)
			}
		}
		ms = k
	}
	if *list {
		for _, m := range ms {
			fmt.Println(m.ID, m.Desc)
		}
		return
	}
	if *show != "" {
		for _, m := range ms {
			if m.ID == *show {
				os.Stdout.Write(m.apply())
			}
		}
		return
	}
	os.MkdirAll(*out, 0755)
	log, _ := os.OpenFile(*out+"/log", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	seen, _ := os.ReadFile(*out + "/log")
	ch := make(chan mutant)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for m := range ch {
				r := try(m, i)
				mu.Lock()
				fmt.Fprintf(log, "%s %s :: %s\n", m.ID, r, m.Desc)
				mu.Unlock()
			}
		}(i)
	}
	for _, m := range ms {
		if bytes.Contains(seen, []byte(m.ID+" ")) {
			continue
		}
		ch <- m
	}
	close(ch)
	wg.Wait()
}

func (m mutant) apply() []byte {
	src, _ := os.ReadFile(filepath.Join(*repo, m.File))
	var b bytes.Buffer
	b.Write(src[:m.from])
	b.WriteString(m.text)
	b.Write(src[m.to:])
	return b.Bytes()
}

var order = map[string]string{
	"complete.go": "C11 C12 C03", "complete_helper.go": "C12 C11", "complete_segment.go": "C12",
	"history.go": "C08 C09 C10 C18", "operation.go": "C01 C07 C05 C08 C18", "password.go": "C13", "readline.go": "C21 C17 C14",
	"remote.go": "C16", "runebuf.go": "C01 C04 C20", "runes.go": "C19 C12 C11", "search.go": "C10", "std.go": "C17 C14",
	"term.go": "C15", "term_linux.go": "C15", "term_unix.go": "C15", "terminal.go": "C22 C17 C14", "utils.go": "C22 C19 C01",
	"utils_unix.go": "C15 C04", "vim.go": "C02",
}

func try(m mutant, slot int) string {
	d := filepath.Join(*out, fmt.Sprint("s", slot))
	os.RemoveAll(d)
	os.MkdirAll(d, 0755)
	mf := filepath.Join(d, "m.go")
	os.WriteFile(mf, m.apply(), 0644)
	ov := filepath.Join(d, "ov.json")
	j, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(*repo, m.File): mf}})
	os.WriteFile(ov, j, 0644)
	w := filepath.Join(d, "worker")
	c := exec.Command("go", "build", "-overlay", ov, "-o", w, "./cmd/worker")
	c.Dir = *hdir
	if o, err := c.CombinedOutput(); err != nil {
		_ = o
		return "NOBUILD"
	}
	ps := strings.Fields(order[m.File])
	in := map[string]bool{}
	for _, p := range ps {
		in[p] = true
	}
	for i := 1; i <= 22; i++ {
		p := fmt.Sprintf("C%02d", i)
		if !in[p] {
			ps = append(ps, p)
		}
	}
	if *props == "near" {
		ps = strings.Fields(order[m.File])
	} else if *props != "" {
		ps = strings.Split(*props, ",")
	}
	for _, p := range ps {
		o, _ := exec.Command(w, "-prop", p, "-plan").Output()
		var plan struct {
			Builds []struct {
				Name  string
				Cases int
			}
		}
		json.Unmarshal(o, &plan)
		n, bn := 200, ""
		for i, b := range plan.Builds {
			if i == 0 || b.Name == "" {
				n, bn = b.Cases, b.Name
			}
		}
		n /= *frac
		if n < 30 {
			n = 30
		}
		wd := filepath.Join(d, "w")
		os.RemoveAll(wd)
		os.MkdirAll(wd, 0755)
		op := filepath.Join(d, "out.json")
		os.Remove(op)
		beat := filepath.Join(d, "beat")
		os.WriteFile(beat, make([]byte, 4096), 0644)
		c := exec.Command("timeout", "-k", "2", "120", w, "-prop", p, "-build", bn, "-seed", *seed, "-start", "0", "-stride", "1", "-total", strconv.Itoa(n), "-out", op, "-beat", beat, "-dir", wd)
		c.Dir = wd
		c.Env = append(os.Environ(), "TMPDIR="+wd, "HOME="+wd, "GOMAXPROCS=2")
		t0 := time.Now()
		e, err := c.CombinedOutput()
		var st struct {
			Done       bool
			Violations []struct{ Class string }
		}
		ob, _ := os.ReadFile(op)
		json.Unmarshal(ob, &st)
		if bytes.Contains(ob, []byte(`"Violations":[{`)) || bytes.Contains(ob, []byte(`"violations":[{`)) {
			return "KILLED " + p
		}
		if err != nil || len(ob) == 0 {
			k := "crash"
			if time.Since(t0) > 115*time.Second {
				k = "hang"
			}
			_ = e
			return "KILLED " + p + " " + k
		}
	}
	return "SURVIVED"
}

func gen(f string) (ms []mutant) {
	src, err := os.ReadFile(filepath.Join(*repo, f))
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, f, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	fn := ""
	add := func(from, to token.Pos, text, kind string) {
		a, b := off(from), off(to)
		l := fset.Position(from).Line
		old := strings.Join(strings.Fields(string(src[a:b])), " ")
		if len(old) > 70 {
			old = old[:70] + "…"
		}
		t := strings.Join(strings.Fields(text), " ")
		if len(t) > 70 {
			t = t[:70] + "…"
		}
		ms = append(ms, mutant{ID: fmt.Sprintf("%s:%d:%d:%s", f, l, a, kind), File: f, line: l, from: a, to: b, text: text,
			Desc: fmt.Sprintf("%s  [%s]  `%s` -> `%s`", fn, kind, old, t)})
	}
	src2 := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.BranchStmt, *ast.GoStmt:
				add(s.Pos(), s.End(), "", "del")
			case *ast.DeferStmt:
				add(s.Pos(), s.End(), "", "del")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					// keeps what it mentions in use
					add(s.Pos(), s.End(), "", "del")
				}
			case *ast.ReturnStmt:
				add(s.Pos(), s.End(), "", "del")
			}
		}
	}
	for _, d := range af.Decls {
		g, ok := d.(*ast.FuncDecl)
		if !ok || g.Body == nil {
			continue
		}
		fn = g.Name.Name
		if g.Recv != nil {
			fn = strings.TrimPrefix(src2(g.Recv.List[0].Type), "*") + "." + fn
		}
		ast.Inspect(g.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				if len(x.Body) > 0 {
					add(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "clause")
				}
				if len(x.List) > 1 {
					for i := range x.List {
						var k []string
						for j := range x.List {
							if j != i {
								k = append(k, src2(x.List[j]))
							}
						}
						add(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(k, ", "), "case"+fmt.Sprint(i))
					}
				}
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.IfStmt:
				c := src2(x.Cond)
				add(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "neg")
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "false")
				add(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "true")
			case *ast.ForStmt:
				if x.Cond != nil {
					add(x.Cond.Pos(), x.Cond.End(), "("+src2(x.Cond)+") && false", "false")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"},
					token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}}
				for _, a := range alt[x.Op] {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), src2(x.X), "left")
					add(x.Pos(), x.End(), src2(x.Y), "right")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x.Pos(), x.End(), fmt.Sprint(v+1), "inc")
						if v > 0 {
							add(x.Pos(), x.End(), fmt.Sprint(v-1), "dec")
						}
					}
				}
				if x.Kind == token.CHAR {
					add(x.Pos(), x.End(), "('\\x01')", "chr")
				}
				if x.Kind == token.STRING && len(x.Value) > 2 {
					add(x.Pos(), x.End(), `""`, "str")
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "tf")
				}
				if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "tf")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x.Pos(), x.End(), src2(x.X), "not")
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					add(x.Low.Pos(), x.Low.End(), src2(x.Low)+"+1", "lo")
				}
				if x.High != nil {
					add(x.High.Pos(), x.High.End(), src2(x.High)+"-1", "hi")
				}
			}
			return true
		})
	}
	return
}
