package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Finding is a violated obligation.
type Finding struct {
	Prop, Rule, Construct, Pos, Text string
	Path                             []string
	N                                int
}

func (f *Finding) key() string { return f.Prop + " | " + f.Rule + " | " + f.Construct }

// Rep collects what the rules decided.
type Report struct {
	P        *Program
	want     map[string]bool // properties of interest; nil = all
	findings map[string]*Finding
	inst     map[string]map[string]int             // property -> rule -> instances decided
	constr   map[string]map[string]map[string]bool // property -> rule -> constructs
	notes    map[string]map[string]bool            // property -> assumption or remark
	units    map[string]map[string]bool            // property -> functions analysed
	paths    map[string]int
}

func newReport(p *Program) *Report {
	return &Report{P: p, findings: map[string]*Finding{}, inst: map[string]map[string]int{}, constr: map[string]map[string]map[string]bool{}, notes: map[string]map[string]bool{}, units: map[string]map[string]bool{}, paths: map[string]int{}}
}

// ok counts a discharged instance of a rule.
func (r *Report) ok(prop, rule, construct string) {
	if r.want != nil && !r.want[prop] {
		return
	}
	m := r.inst[prop]
	if m == nil {
		m = map[string]int{}
		r.inst[prop] = m
		r.constr[prop] = map[string]map[string]bool{}
	}
	m[rule]++
	if r.constr[prop][rule] == nil {
		r.constr[prop][rule] = map[string]bool{}
	}
	r.constr[prop][rule][construct] = true
}

// bad reports a violated (or undecidable) instance of a rule.
func (r *Report) bad(prop, rule, construct string, pos token.Pos, s *State, format string, a ...interface{}) {
	if r.want != nil && !r.want[prop] {
		return
	}
	if s != nil && s.trace != nil && s.trace.vague != "" && rule != "followed" {
		format += " (not decided, since " + strings.ReplaceAll(s.trace.vague, "%", "%%") + ")"
		construct += " " + rule
		rule = "followed"
	}
	f := &Finding{Prop: prop, Rule: rule, Construct: construct, Pos: r.P.pos(pos), Text: fmt.Sprintf(format, a...)}
	if old, ok := r.findings[f.key()]; ok {
		old.N++
		return
	}
	f.N = 1
	if s != nil {
		f.Path = r.P.path(s)
	}
	r.findings[f.key()] = f
}

func (r *Report) check(prop, rule, construct string, ok bool, pos token.Pos, s *State, format string, a ...interface{}) {
	if ok {
		r.ok(prop, rule, construct)
	} else {
		r.bad(prop, rule, construct, pos, s, format, a...)
	}
}

func (r *Report) unit(prop string, names ...string) {
	m := r.units[prop]
	if m == nil {
		m = map[string]bool{}
		r.units[prop] = m
	}
	for _, n := range names {
		m[n] = true
	}
}

func (r *Report) sorted() []*Finding {
	var out []*Finding
	for _, f := range r.findings {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// path renders the decisions that lead to a state.
func (p *Program) path(s *State) []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		if t.text == "" {
			continue
		}
		x := t.text
		if len(x) > 160 {
			x = x[:160] + "..."
		}
		out = append(out, p.pos(t.pos)+": "+x)
		if len(out) > 60 {
			break
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func short(name string) string {
	return strings.ReplaceAll(name, modPath+"/", "")
}
