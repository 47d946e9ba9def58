package main

// Obligations, violations, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Ob struct {
	Rule, Construct string
	N               int // instances (paths or sites) at which it was decided
	Failed          bool
}

type Violation struct {
	Rule, Construct, Pos, Detail string
	Trace                        []string
}

type Chk struct {
	shapes       map[*ssa.Function]bool
	srvRd, srvWr *types.Var
	p            *Prog
	r            *Roles
	id           string
	thorough     bool
	obs          map[string]*Ob
	viol         []Violation
	seen         map[string]bool
	known        map[string]string // rule|construct -> text
	kfHit        []string
	rules        map[string]string
	roots        map[string]int
	paths        int
	forks        int
	fns          map[*ssa.Function]bool
	visited      map[ssa.Instruction]bool
	assume       []string
	samples      []string
	start        time.Time
	config       string
	cache        map[string]*Exec
	via          func(rule, construct string) string
	closedFV     *types.Var
	sockLocks    map[*types.Var]bool
	loopsOf      map[*types.Var]map[*ssa.Function]bool
}

func newChk(p *Prog, r *Roles, id string) *Chk {
	return &Chk{p: p, r: r, id: id, obs: map[string]*Ob{}, seen: map[string]bool{}, known: map[string]string{}, rules: map[string]string{},
		roots: map[string]int{}, fns: map[*ssa.Function]bool{}, visited: map[ssa.Instruction]bool{}, start: time.Now(), cache: map[string]*Exec{}}
}

// rule declares a rule with its text.
func (c *Chk) rule(name, text string) {
	if c.via == nil {
		c.rules[name] = text
	}
}

// borrow takes over obligations of another property's check that belong to this property as well:
// "as" gives the rule of this property that an obligation falls under, or "".
func (c *Chk) borrow(id string, as func(rule, construct string) string) {
	old := c.via
	c.via = as
	checks[id](c)
	c.via = old
}

func (c *Chk) key(rule, construct string) string { return rule + "|" + construct }

// ob records the decision of one obligation instance.
func (c *Chk) ob(ok bool, rule, construct string, pos token.Pos, pt *Path, detail string, args ...interface{}) bool {
	if c.via != nil {
		if rule != "anchor" && rule != "undecided" {
			if rule = c.via(rule, construct); rule == "" {
				return ok
			}
		}
	}
	k := c.key(rule, construct)
	o := c.obs[k]
	if o == nil {
		o = &Ob{Rule: rule, Construct: construct}
		c.obs[k] = o
	}
	o.N++
	if ok {
		return true
	}
	o.Failed = true
	if c.seen[k] {
		return false
	}
	c.seen[k] = true
	d := detail
	if len(args) > 0 {
		d = fmt.Sprintf(detail, args...)
	}
	v := Violation{Rule: rule, Construct: construct, Pos: c.p.pos(pos), Detail: d}
	if pt != nil {
		x := &Exec{p: c.p, r: c.r}
		for _, e := range pt.Events {
			switch e.Kind {
			case "Load", "Next", "Append":
				if os.Getenv("FULL") == "" {
					continue
				}
			}
			v.Trace = append(v.Trace, x.show(e))
		}
		v.Trace = append(v.Trace, "=> "+pt.Outcome+fmt.Sprintf(" %v", pt.Results))
	}
	if t, ok := c.known[k]; ok {
		c.kfHit = append(c.kfHit, t)
		return false
	}
	c.viol = append(c.viol, v)
	return false
}

// undecided: the analysis cannot answer; never silently passed.
func (c *Chk) undecided(what string, args ...interface{}) {
	c.ob(false, "undecided", fmt.Sprintf(what, args...), token.NoPos, nil, "the analysis could not decide this; it is reported, not passed")
}

// need: the rule must have been decided at least n times (distinct constructs), else it matched nothing real.
func (c *Chk) need(rule string, n int) {
	if c.via != nil {
		return
	}
	k := 0
	for _, o := range c.obs {
		if o.Rule == rule {
			k++
		}
	}
	if k < n {
		c.ob(false, "anchor", rule, token.NoPos, nil, "the rule %q found %d of at least %d constructs it speaks about", rule, k, n)
	}
}

func (c *Chk) count(rule string) int {
	k := 0
	for _, o := range c.obs {
		if o.Rule == rule {
			k++
		}
	}
	return k
}

func (c *Chk) addKnown(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		// known: property=<id> rule=<rule> construct=<construct> :: text
		head, text, _ := strings.Cut(l, " :: ")
		var prop, rule, con string
		for _, f := range strings.Split(head, " | ") {
			k, v, _ := strings.Cut(f, "=")
			switch k {
			case "property":
				prop = v
			case "rule":
				rule = v
			case "construct":
				con = v
			}
		}
		if prop == c.id {
			c.known[c.key(rule, con)] = text
		}
	}
	return nil
}

func (c *Chk) finish(verif, tier string) int {
	for _, t := range c.kfHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, t)
	}
	var keys []string
	inst := 0
	failed := 0
	perRule := map[string]map[string]int{}
	for k, o := range c.obs {
		keys = append(keys, k)
		inst += o.N
		if o.Failed {
			failed++
		}
		if perRule[o.Rule] == nil {
			perRule[o.Rule] = map[string]int{}
		}
		perRule[o.Rule]["constructs"]++
		perRule[o.Rule]["instances"] += o.N
	}
	sort.Strings(keys)
	var samples []string
	for i, k := range keys {
		if i < 40 {
			o := c.obs[k]
			samples = append(samples, fmt.Sprintf("%s at %s: decided on %d path/site instances", o.Rule, o.Construct, o.N))
		}
	}
	visitedRepo := 0
	for in := range c.visited {
		if in.Parent() != nil && c.p.isRepo(in.Parent()) {
			visitedRepo++
		}
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": 1, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":           "Static analysis of /repo's current source: type-checked SSA of all packages, trace-partitioned abstract interpretation from the listed entry points (loops widened at their headers, repository callees analysed in place, library calls as events), and rules decided on every abstract path or syntactic site.",
			"packages":              len(c.p.Pkgs),
			"files":                 c.p.Files,
			"functions_in_repo":     len(c.p.Funcs),
			"functions_analysed":    len(c.fns),
			"instructions_analysed": visitedRepo,
			"entry_points":          c.roots,
			"abstract_paths":        c.paths,
			"branch_splits":         c.forks,
			"obligations":           len(c.obs),
			"discharged":            len(c.obs) - failed,
			"decisions":             inst,
			"per_rule":              perRule,
			"rules":                 c.rules,
			"samples":               samples,
			"configuration":         c.config,
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(c.start).Seconds(),
		"violations":  len(c.viol),
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), b, 0o644)
	fmt.Printf("%s: %d obligations, %d decisions, %d paths, %d functions, %.1fs\n", c.id, len(c.obs), inst, c.paths, len(c.fns), time.Since(c.start).Seconds())
	if len(c.viol) == 0 {
		os.Remove(filepath.Join(verif, "evidence", c.id+".replay.txt"))
		return 0
	}
	for i, v := range c.viol {
		fmt.Printf("  [%s] %s at %s: %s\n", v.Rule, v.Construct, v.Pos, v.Detail)
		if i >= 30 {
			fmt.Printf("  ... and %d more\n", len(c.viol)-i-1)
			break
		}
	}
	rp := filepath.Join(verif, "evidence", c.id+".replay.txt")
	var sb strings.Builder
	for _, v := range c.viol {
		fmt.Fprintf(&sb, "property %s\nrule %s: %s\nconstruct %s\nat %s\n%s\n", c.id, v.Rule, c.rules[v.Rule], v.Construct, v.Pos, v.Detail)
		if len(v.Trace) > 0 {
			sb.WriteString("path:\n")
			for _, t := range v.Trace {
				sb.WriteString("    " + t + "\n")
			}
		}
		sb.WriteString("\n")
	}
	fmt.Fprintf(&sb, "replay: bash /verif/run.sh %s\n", c.id)
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}
