package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gmcheck check <property> [--tier quick|thorough] | debug <protocol> <operation> [mode]")
		os.Exit(2)
	}
	debug.SetGCPercent(300)
	if f := os.Getenv("GM_CPU"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(12*time.Second, func() { pprof.StopCPUProfile(); os.Exit(3) })
	}
	repo := os.Getenv("GM_REPO")
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "unit":
		cmdUnit(repo, os.Args[2], os.Args[3])
		return
	case "check":
		tier := "quick"
		if os.Getenv("VERIF_TIER") == "thorough" {
			tier = "thorough"
		}
		for i, a := range os.Args {
			if a == "--tier" && i+1 < len(os.Args) {
				tier = os.Args[i+1]
			}
		}
		verif := os.Getenv("GM_VERIF")
		if verif == "" {
			verif = "/verif"
		}
		os.Exit(cmdCheck(repo, os.Args[2], tier, verif))
	case "all":
		os.Exit(cmdAll(repo, "quick", os.Getenv("GM_VERIF"), os.Args[2:]))
	}
	p, err := load(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	probs := p.initGlobals()
	switch os.Args[1] {
	case "dunit":
		for _, m := range probs {
			fmt.Println("init:", m)
		}
		t := time.Now()
		r := runUnit(p, os.Args[2])
		fmt.Println(r.Unit, r.Err, r.Paths, r.Steps, "steps", r.Joins, "joins", r.Unmod, time.Since(t).Round(time.Millisecond))
		for _, f := range r.Findings {
			fmt.Printf("%s x%d\n   %s: %s\n", f.key(), f.N, f.Pos, f.Text)
			for _, l := range f.Path {
				fmt.Println("        ", l)
			}
		}
		var ps []string
		for p := range r.Inst {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			fmt.Println(p, r.Inst[p])
		}
	case "debug":
		for _, m := range probs {
			fmt.Println("init:", m)
		}
		debugClient(p, os.Args[2:])
	}
}

func debugClient(p *Program, a []string) {
	cts, probs := clientTypes(p)
	for _, m := range probs {
		fmt.Println(m)
	}
	rep := newReport(p)
	for _, c := range cts {
		if c.Proto != a[0] && a[0] != "all" {
			continue
		}
		acc := newAccessLog(c)
		for _, op := range clientOps {
			if len(a) > 1 && a[1] != op && a[1] != "all" {
				continue
			}
			mode := "T"
			if len(a) > 2 {
				mode = a[2]
			}
			r := &ClientRun{ct: c, op: op, rep: rep, acc: acc, mode: mode, name: "(*client." + c.T.Obj().Name() + ")." + op}
			t := time.Now()
			r.run()
			fmt.Printf("%s: %d paths, %d steps, %d joins, %v unmodelled %v\n", r.name, rep.paths[r.name], r.e.steps, r.e.joins, time.Since(t).Round(time.Millisecond), r.e.unmodelled)
		}
	}
	for _, f := range rep.sorted() {
		fmt.Printf("%s x%d\n   %s: %s\n", f.key(), f.N, f.Pos, f.Text)
		for _, l := range f.Path {
			fmt.Println("        ", l)
		}
	}
	for _, prop := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C16", "C17"} {
		fmt.Println(prop, rep.inst[prop])
	}
}

// profile counts steps by position (GM_PROF=<steps>, for development).
func (e *Engine) profile(s *State) {
	if len(s.frames) > 0 && s.top().block != nil && s.top().pc < len(s.top().block.Instrs) {
		in := s.top().block.Instrs[s.top().pc]
		e.prof[fmt.Sprintf("%s:%d %s", s.top().fn.Name(), e.P.fset.Position(in.Pos()).Line, in)]++
	}
	if e.steps == e.profAt {
		var ks []string
		for k := range e.prof {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return e.prof[ks[i]] > e.prof[ks[j]] })
		for i, k := range ks {
			if i < 60 {
				fmt.Fprintln(os.Stderr, e.prof[k], k)
			}
		}
		os.Exit(3)
	}
}
