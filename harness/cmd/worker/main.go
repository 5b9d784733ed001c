package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"verif.local/harness/h"
	"verif.local/harness/props"
)

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	start := flag.Int("start", 0, "")
	stride := flag.Int("stride", 1, "")
	total := flag.Int("total", 0, "")
	only := flag.Int("only", -1, "")
	out := flag.String("out", "", "")
	beat := flag.String("beat", "", "")
	dir := flag.String("dir", "/tmp", "")
	v := flag.Bool("v", false, "")
	build := flag.String("build", "", "")
	plan := flag.Bool("plan", false, "print what the parent needs to know")
	list := flag.Bool("list", false, "list the properties")
	flag.Parse()
	if f := props.Children[os.Getenv("VERIF_CHILD")]; f != nil {
		f()
		return
	}
	if *list {
		for id := range h.Props {
			os.Stdout.WriteString(id + "\n")
		}
		return
	}
	p := h.Props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(9)
	}
	if *plan {
		json.NewEncoder(os.Stdout).Encode(p.Plan(*tier))
		return
	}
	if *total == 0 {
		*total = p.CaseCount(*build, *tier)
	}
	h.WorkerMain(*prop, *build, *tier, *seed, *start, *stride, *total, *only, *out, *beat, *dir, *v)
}
