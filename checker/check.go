package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A check runs the analysis units its property depends on, each in a process of its own, and combines
// what they decided.

// unitResult is what a unit reports.
type unitResult struct {
	Unit     string
	Findings []*Finding
	Inst     map[string]map[string]int
	Constr   map[string]map[string][]string
	Paths    map[string]int
	Steps    int
	Joins    int
	Funcs    []string
	Wall     float64
	Acc      []accRec
	Order    []orderRec
	Unmod    []string
	Vocab    []vocabRec
	Err      string
}

// accRec is an access of the connection or of a field of a client type.
type accRec struct {
	Type, Op, Field, What, Pos string
	Locks                      []string
	Write                      bool
	Path                       []string
}
type orderRec struct {
	Type, From, To, Op, Pos string
	Path                    []string
}

var clientOpNames = clientOps

func clientUnits(mode, tier string) []string {
	var l []string
	for _, p := range []string{"text", "meta", "binary"} {
		for _, op := range clientOps {
			if op == "GetMulti" && p == "meta" && mode == "U" && tier != "thorough" {
				continue // takes most of a minute: thorough only
			}
			l = append(l, "client:"+p+":"+op+":"+mode)
		}
	}
	return l
}

// runUnit is executed in the child process.
func runUnit(p *Program, unit string) *unitResult {
	t0 := time.Now()
	res := &unitResult{Unit: unit, Inst: map[string]map[string]int{}, Constr: map[string]map[string][]string{}, Paths: map[string]int{}}
	rep := newReport(p)
	f := strings.Split(unit, ":")
	switch f[0] {
	case "client":
		unitClient(p, rep, res, f[1], f[2], f[3])
	case "pool":
		unitPool(p, rep, res, f[1])
	case "router":
		unitRouter(p, rep, res)
	case "proxy":
		unitProxy(p, rep, res)
	case "life":
		unitLife(p, rep, res, f[1])
	case "opcodes":
		unitOpcodes(p, rep)
	case "shared":
		unitShared(p, rep, res)
	case "ring":
		unitRing(p, rep, res)
	case "server":
		unitServer(p, rep, res, f[1], f[2])
	default:
		res.Err = "unknown unit"
	}
	res.Findings = rep.sorted()
	res.Inst = rep.inst
	for pr, m := range rep.constr {
		res.Constr[pr] = map[string][]string{}
		for ru, cs := range m {
			res.Constr[pr][ru] = keysOf(cs)
		}
	}
	res.Paths = rep.paths
	res.Wall = time.Since(t0).Seconds()
	return res
}

func unitClient(p *Program, rep *Report, res *unitResult, proto, op, mode string) {
	cts, probs := clientTypes(p)
	for _, m := range probs {
		rep.bad("C03", "anchor", m, token.NoPos, nil, "%s", m)
	}
	for _, c := range cts {
		if c.Proto != proto {
			continue
		}
		acc := newAccessLog(c)
		r := &ClientRun{ct: c, op: op, rep: rep, acc: acc, mode: mode, name: "(*client." + c.T.Obj().Name() + ")." + op}
		r.run()
		r.collect(res)
	}
}

// collect turns the access log into records that can be compared across operations.
func (r *ClientRun) collect(res *unitResult) {
	tn := r.ct.T.Obj().Name()
	st := r.ct.T.Underlying().(*types.Struct)
	if r.e != nil {
		res.Steps += r.e.steps
		res.Joins += r.e.joins
		for f := range r.e.fns {
			res.Funcs = append(res.Funcs, short(f))
		}
		sort.Strings(res.Funcs)
		for m := range r.e.unmodelled {
			res.Unmod = append(res.Unmod, m)
		}
		sort.Strings(res.Unmod)
	}
	names := func(m map[string]bool) []string {
		l := []string{}
		for k := range m {
			l = append(l, r.lockName(k))
		}
		sort.Strings(l)
		return l
	}
	for _, a := range r.acc.io {
		res.Acc = append(res.Acc, accRec{Type: tn, Op: r.op, What: a.what, Pos: r.e.P.pos(a.pos), Locks: names(a.locks), Write: true, Path: r.e.P.path(a.st)})
	}
	for f, l := range r.acc.fields {
		n := f
		if i, err := strconv.Atoi(f); err == nil && i < st.NumFields() {
			n = st.Field(i).Name()
		}
		for _, a := range l {
			res.Acc = append(res.Acc, accRec{Type: tn, Op: r.op, Field: n, Pos: r.e.P.pos(a.pos), Locks: names(a.locks), Write: a.write, Path: r.e.P.path(a.st)})
		}
	}
	for _, v := range r.vocab {
		res.Vocab = append(res.Vocab, v)
	}
	for k, a := range r.acc.order {
		i := strings.IndexByte(k, '>')
		res.Order = append(res.Order, orderRec{Type: tn, From: r.lockName(k[:i]), To: r.lockName(k[i+1:]), Op: r.op, Pos: r.e.P.pos(a.pos), Path: r.e.P.path(a.st)})
	}
}

// ---- parent ----

type propSpec struct {
	units  func(tier string) []string
	min    map[string]int // rule -> least number of constructs it must be decided for
	rule   string
	cross  func(c *checkRun)
	assume []string
}

type checkRun struct {
	prop     string
	spec     *propSpec
	tier     string
	results  []*unitResult
	findings map[string]*Finding
	undec    map[string]*Finding       // what could not be decided: no alarm, but said
	inst     map[string]map[string]int // rule -> construct -> 1, count under ""
}

func (c *checkRun) add(f *Finding) {
	if old, ok := c.findings[f.key()]; ok {
		old.N += f.N
		return
	}
	c.findings[f.key()] = f
}

// undecided records that a part of the code could not be analysed. That is no violation: the check says
// so, in its output and in its evidence, and decides the rest.
func (c *checkRun) undecided(f *Finding) {
	if c.undec == nil {
		c.undec = map[string]*Finding{}
	}
	c.undec[f.key()] = f
}
func (c *checkRun) okN(rule, construct string, n int) {
	m := c.inst[rule]
	if m == nil {
		m = map[string]int{}
		c.inst[rule] = m
	}
	m[construct] += n
}

func cmdUnit(repo, unit, outFile string) {
	p, err := load(repo)
	var res *unitResult
	if err != nil {
		res = &unitResult{Unit: unit, Err: err.Error()}
	} else {
		probs := p.initGlobals()
		res = runUnit(p, unit)
		for _, m := range probs {
			res.Unmod = append(res.Unmod, m)
		}
	}
	b, _ := json.Marshal(res)
	os.WriteFile(outFile, b, 0o644)
}

func cmdCheck(repo, prop, tier, verif string) int {
	t0 := time.Now()
	spec := propSpecs()[prop]
	if spec == nil {
		fmt.Println("no check for", prop)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &checkRun{prop: prop, spec: spec, tier: tier, findings: map[string]*Finding{}, inst: map[string]map[string]int{}}
	results := runUnits(repo, tier, spec.units(tier))
	return c.evaluate(results, verif, seed, t0)
}

func (c *checkRun) evaluate(results []*unitResult, verif string, seed int, t0 time.Time) int {
	prop, spec, tier := c.prop, c.spec, c.tier
	_ = tier
	c.results = results
	loadErr := ""
	for _, r := range results {
		if r.Err != "" {
			if strings.Contains(r.Err, "load:") {
				loadErr = r.Err
			}
			c.undecided(&Finding{Prop: prop, Rule: "analysed", Construct: r.Unit, Text: "not decided: " + r.Err, N: 1})
			continue
		}
		for _, f := range r.Findings {
			if f.Rule == "followed" {
				c.undecided(f)
			} else if f.Prop == prop {
				c.add(f)
			}
		}
		for ru, n := range r.Inst[prop] {
			cs := r.Constr[prop][ru]
			for i, k := range cs {
				m := 0
				if i == 0 {
					m = n - (len(cs) - 1)
				} else {
					m = 1
				}
				c.okN(ru, k, m)
			}
		}
	}
	if loadErr != "" {
		fmt.Println("the program could not be loaded:", loadErr)
		return 2
	}
	if spec.cross != nil {
		spec.cross(c)
	}
	for ru, min := range spec.min {
		n := len(c.inst[ru])
		for _, f := range c.findings {
			if f.Rule == ru {
				n++
			}
		}
		if n < min && len(c.undec) == 0 {
			c.add(&Finding{Prop: prop, Rule: ru, Construct: "instances", Text: fmt.Sprintf("the rule was decided for %d constructs only, at least %d are expected", n, min), N: 1})
		}
	}
	// known findings
	known := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			l = strings.TrimSpace(l)
			if !strings.HasPrefix(l, "known: ") {
				continue
			}
			l = strings.TrimPrefix(l, "known: ")
			if i := strings.Index(l, " :: "); i >= 0 {
				known[strings.TrimSpace(l[:i])] = strings.TrimSpace(l[i+4:])
			}
		}
	}
	var viol, kn []*Finding
	for _, f := range c.findings {
		if _, ok := known[f.key()]; ok {
			kn = append(kn, f)
		} else {
			viol = append(viol, f)
		}
	}
	by := func(l []*Finding) {
		sort.Slice(l, func(i, j int) bool { return l[i].key() < l[j].key() })
	}
	by(viol)
	by(kn)
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, f.Construct, known[f.key()])
	}
	und := []string{}
	for _, f := range c.undec {
		und = append(und, fmt.Sprintf("%s %s: %s", f.Construct, f.Pos, trunc(f.Text, 300)))
	}
	sort.Strings(und)
	for _, l := range und {
		fmt.Printf("UNDECIDED: property=%s %s\n", prop, l)
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, prop+".violation.txt")
	os.Remove(replay)
	if len(viol) > 0 {
		var b strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&b, "%s: %s\n  rule: %s\n  construct: %s\n  instances: %d\n  path:\n", f.Pos, f.Text, f.Rule, f.Construct, f.N)
			for _, l := range f.Path {
				fmt.Fprintf(&b, "    %s\n", l)
			}
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
		n := b.String()
		if len(n) > 6000 {
			n = n[:6000] + "\n...\n"
		}
		fmt.Print(n)
	}
	c.writeEvidence(evdir, seed, time.Since(t0).Seconds(), viol, kn, und)
	if len(viol) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	tot, cons := 0, 0
	for _, m := range c.inst {
		for _, n := range m {
			tot += n
			cons++
		}
	}
	fmt.Printf("%s: %d obligations discharged at %d constructs, %d known findings, %d units, %.1fs\n", prop, tot, cons, len(kn), len(results), time.Since(t0).Seconds())
	return 0
}

func (c *checkRun) writeEvidence(dir string, seed int, wall float64, viol, kn []*Finding, und []string) {
	disch := 0
	rules := map[string]interface{}{}
	for ru, m := range c.inst {
		n := 0
		ks := []string{}
		for k, v := range m {
			n += v
			ks = append(ks, k)
		}
		disch += n
		sort.Strings(ks)
		if len(ks) > 60 {
			ks = append(ks[:60], fmt.Sprintf("... %d more", len(ks)-60))
		}
		rules[ru] = map[string]interface{}{"instances": n, "constructs": ks}
	}
	paths, steps, joins := 0, 0, 0
	fns := map[string]bool{}
	unmod := map[string]bool{}
	un := []string{}
	for _, r := range c.results {
		un = append(un, fmt.Sprintf("%s (%.1fs)", r.Unit, r.Wall))
		for _, n := range r.Paths {
			paths += n
		}
		steps += r.Steps
		joins += r.Joins
		for _, f := range r.Funcs {
			fns[f] = true
		}
		for _, f := range r.Unmod {
			unmod[f] = true
		}
	}
	bad := []map[string]interface{}{}
	for i, f := range viol {
		if i >= 20 {
			break
		}
		bad = append(bad, map[string]interface{}{"rule": f.Rule, "construct": f.Construct, "position": f.Pos, "what": trunc(f.Text, 400)})
	}
	kl := []string{}
	for _, f := range kn {
		kl = append(kl, f.key())
	}
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": "other", "wall_s": wall, "violations": len(viol),
		"assumptions": c.spec.assume,
		"coverage": map[string]interface{}{
			"explanation":      c.spec.rule,
			"obligations":      disch + len(viol) + len(kn),
			"discharged":       disch,
			"rules":            rules,
			"units":            un,
			"abstract_paths":   paths,
			"instructions":     steps,
			"joins":            joins,
			"functions":        keysOf(fns),
			"unmodelled":       keysOf(unmod),
			"violations_found": bad,
			"known_findings":   kl,
			"undecided":        und,
			"source":           "the type-checked SSA form of the working tree, built in this run",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if len(b) > 60000 {
		for _, v := range rules {
			v.(map[string]interface{})["constructs"] = len(v.(map[string]interface{})["constructs"].([]string))
		}
		b, _ = json.MarshalIndent(ev, "", " ")
	}
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runUnits(repo, tier string, units []string) []*unitResult {
	tmp, err := os.MkdirTemp("", "gmcheck")
	if err != nil {
		return []*unitResult{{Err: err.Error()}}
	}
	defer os.RemoveAll(tmp)
	limit := 400 * time.Second
	if tier == "thorough" {
		limit = 800 * time.Second
	}
	if v := os.Getenv("GM_UNIT_SECONDS"); v != "" {
		n, _ := strconv.Atoi(v)
		limit = time.Duration(n) * time.Second
	}
	self, _ := os.Executable()
	results := make([]*unitResult, len(units))
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, u := range units {
		wg.Add(1)
		go func(i int, u string) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			out := filepath.Join(tmp, fmt.Sprint(i)+".json")
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			defer cancel()
			cmd := exec.CommandContext(ctx, self, "unit", u, out)
			cmd.Env = append(os.Environ(), "GM_REPO="+repo, "GM_TIER="+tier, "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
			b, err := cmd.CombinedOutput()
			r := &unitResult{Unit: u}
			if data, e := os.ReadFile(out); e == nil && json.Unmarshal(data, r) == nil && err == nil {
				results[i] = r
				return
			}
			msg := strings.TrimSpace(string(b))
			if len(msg) > 1500 {
				msg = msg[:1500]
			}
			if ctx.Err() != nil {
				msg = "the analysis did not finish within " + limit.String()
			}
			results[i] = &unitResult{Unit: u, Err: fmt.Sprintf("%v: %s", err, msg)}
		}(i, u)
	}
	wg.Wait()
	return results
}

// cmdAll evaluates every property on one run of the units (for development).
func cmdAll(repo, tier, verif string, props []string) int {
	specs := propSpecs()
	if len(props) == 0 {
		for p := range specs {
			props = append(props, p)
		}
	}
	sort.Strings(props)
	all := map[string]bool{}
	var units []string
	for _, p := range props {
		for _, u := range specs[p].units(tier) {
			if !all[u] {
				all[u] = true
				units = append(units, u)
			}
		}
	}
	if f := os.Getenv("GM_ONLY"); f != "" {
		// for development: some units only
		var l []string
		for _, u := range units {
			for _, x := range strings.Split(f, ",") {
				if strings.HasPrefix(u, x) {
					l = append(l, u)
					break
				}
			}
		}
		units = l
	}
	t0 := time.Now()
	res := runUnits(repo, tier, units)
	by := map[string]*unitResult{}
	for i, u := range units {
		by[u] = res[i]
		if res[i].Wall > 5 {
			fmt.Printf("slow: %s %.1fs\n", u, res[i].Wall)
		}
	}
	rc := 0
	for _, p := range props {
		c := &checkRun{prop: p, spec: specs[p], tier: tier, findings: map[string]*Finding{}, inst: map[string]map[string]int{}}
		var l []*unitResult
		for _, u := range specs[p].units(tier) {
			if by[u] != nil {
				l = append(l, by[u])
			}
		}
		if os.Getenv("GM_ONLY") != "" {
			c.spec.min = nil
		}
		if r := c.evaluate(l, verif, 0, t0); r != 0 {
			rc = r
		}
	}
	return rc
}

// ---- cross-operation rules ----

func inter(a, b []string) []string {
	var l []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				l = append(l, x)
			}
		}
	}
	return l
}

func (c *checkRun) byType() map[string][]accRec {
	m := map[string][]accRec{}
	for _, r := range c.results {
		for _, a := range r.Acc {
			m[a.Type] = append(m[a.Type], a)
		}
	}
	return m
}

// crossExchange: there is a lock that every operation holds from its first to its last access of the connection.
func crossExchange(c *checkRun) {
	for t, l := range c.byType() {
		var common []string
		n := map[string]int{}
		first := true
		for _, a := range l {
			if a.Field != "" {
				continue
			}
			for _, k := range a.Locks {
				n[k]++
			}
			if first {
				common, first = a.Locks, false
			} else {
				common = inter(common, a.Locks)
			}
		}
		if first {
			continue
		}
		best := ""
		for k := range n {
			if best == "" || n[k] > n[best] || n[k] == n[best] && k < best {
				best = k
			}
		}
		for _, a := range l {
			if a.Field != "" {
				continue
			}
			name := "(*client." + t + ")." + a.Op
			if best != "" && len(inter(a.Locks, []string{best})) == 1 {
				c.okN("exchange-is-exclusive", name, 1)
				continue
			}
			c.add(&Finding{Prop: c.prop, Rule: "exchange-is-exclusive", Construct: name, Pos: a.Pos, N: 1, Path: a.Path,
				Text: fmt.Sprintf("%s of the connection without the lock (%s) that the other accesses hold from the first to the last access of a command; held: %v", a.What, best, a.Locks)})
		}
	}
}

// crossRaces: two accesses of a field, one of them a write, have a lock in common.
func crossRaces(c *checkRun) {
	for t, l := range c.byType() {
		byField := map[string][]accRec{}
		for _, a := range l {
			if a.Field != "" {
				byField[a.Field] = append(byField[a.Field], a)
			}
		}
		for f, as := range byField {
			name := "client." + t + "." + f
			for _, w := range as {
				if !w.Write {
					continue
				}
				for _, a := range as {
					if len(inter(a.Locks, w.Locks)) > 0 {
						c.okN("common-lock", name, 1)
						continue
					}
					what := "read"
					if a.Write {
						what = "written"
					}
					c.add(&Finding{Prop: c.prop, Rule: "common-lock", Construct: name, Pos: a.Pos, N: 1, Path: a.Path,
						Text: fmt.Sprintf("%s by %s with %v held, and written by %s at %s with %v held: no lock in common", what, a.Op, a.Locks, w.Op, w.Pos, w.Locks)})
				}
			}
			if c.inst["common-lock"][name] == 0 {
				c.okN("not-written", name, len(as))
			}
		}
	}
}

// crossOrder: the order in which locks are taken has no cycle.
func crossOrder(c *checkRun) {
	type edge struct{ from, to string }
	g := map[string]map[string]orderRec{}
	for _, r := range c.results {
		for _, o := range r.Order {
			a, b := o.Type+"."+o.From, o.Type+"."+o.To
			if g[a] == nil {
				g[a] = map[string]orderRec{}
			}
			g[a][b] = o
		}
	}
	var reach func(a, b string, seen map[string]bool) bool
	reach = func(a, b string, seen map[string]bool) bool {
		if a == b {
			return true
		}
		if seen[a] {
			return false
		}
		seen[a] = true
		for n := range g[a] {
			if reach(n, b, seen) {
				return true
			}
		}
		return false
	}
	for a, m := range g {
		for b, o := range m {
			if reach(b, a, map[string]bool{}) {
				c.add(&Finding{Prop: c.prop, Rule: "lock-order", Construct: a + " -> " + b, Pos: o.Pos, N: 1, Path: o.Path,
					Text: fmt.Sprintf("%s takes %s while it holds %s, elsewhere they are taken in the other order", o.Op, o.To, o.From)})
			} else {
				c.okN("lock-order", a+" -> "+b, 1)
			}
		}
	}
}
