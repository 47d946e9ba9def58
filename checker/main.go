package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// repoDir is /repo; the development battery points it at scratch copies.
var repoDir = "/repo"

var checks = map[string]func(*Chk){}

func main() {
	if d := os.Getenv("CHECKER_REPO"); d != "" {
		repoDir = d
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		p, err := loadRepo(repoDir, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		r := newRoles(p)
		fmt.Println(r.problems)
		for _, a := range os.Args[2:] {
			dump(p, r, a)
		}
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 0 {
		fmt.Println("usage: checker <property>|all")
		os.Exit(2)
	}
	rc := 0
	for _, id := range ids {
		if n := runCheck(id, tier, verif); n > rc {
			rc = n
		}
	}
	os.Exit(rc)
}

type target struct {
	name string
	env  []string
}

var loaded = map[string]*Prog{}

func runCheck(id, tier, verif string) int {
	f, ok := checks[id]
	if !ok {
		fmt.Println("no check for", id)
		return 2
	}
	targets := []target{{"GOOS=linux GOARCH=amd64", []string{"GOOS=linux", "GOARCH=amd64"}}}
	if tier == "thorough" {
		targets = append(targets,
			target{"GOOS=linux GOARCH=386", []string{"GOOS=linux", "GOARCH=386"}},
			target{"GOOS=windows GOARCH=amd64", []string{"GOOS=windows", "GOARCH=amd64"}},
			target{"GOOS=darwin GOARCH=arm64", []string{"GOOS=darwin", "GOARCH=arm64"}})
	}
	var last *Chk
	for _, t := range targets {
		p, err := loaded[t.name], error(nil)
		if p == nil {
			p, err = loadRepo(repoDir, t.env)
		}
		if err != nil {
			c := newChk(&Prog{}, nil, id)
			c.viol = append(c.viol, Violation{Rule: "load", Construct: "/repo", Detail: err.Error()})
			c.config = t.name
			c.obs["load"] = &Ob{Rule: "load", Construct: "/repo", Failed: true, N: 1}
			c.rule("load", "the repository must type-check to be analysed")
			return c.finishLoad(verif, tier)
		}
		if len(os.Args) > 2 || os.Args[1] == "all" {
			loaded[t.name] = p
		}
		TT = p.tt
		r := newRoles(p)
		c := newChk(p, r, id)
		if last != nil {
			c.start = last.start
		}
		c.thorough = tier == "thorough"
		c.config = t.name
		if err := c.addKnown(verif + "/known_findings.txt"); err != nil {
			c.undecided("known findings: %v", err)
		}
		for _, pr := range r.problems {
			c.ob(false, "anchor", pr, 0, nil, "a construct the rules speak about was not found")
		}
		if len(r.problems) == 0 {
			c.guard(f)
		}
		if last != nil {
			// keep the evidence of all configurations together
			c.paths += last.paths
			c.config = last.config + "; " + c.config
		}
		last = c
		if len(c.viol) > 0 {
			break
		}
	}
	return last.finish(verif, tier)
}

// guard turns an internal failure into an undecided obligation: never a silent pass.
func (c *Chk) guard(f func(*Chk)) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("STACK") != "" {
				debug.PrintStack()
			}
			c.undecided("analysis failed: %v", e)
		}
	}()
	f(c)
}

func (c *Chk) finishLoad(verif, tier string) int {
	c.p = &Prog{}
	return c.finish(verif, tier)
}

func dump(p *Prog, r *Roles, name string) {
	for _, f := range p.Funcs {
		if f.String() == name || f.Name() == name {
			x := &Exec{p: p, r: r, cfg: Config{Opaque: r.baseOpaque}}
			if os.Getenv("L") != "" {
				x.cfg.LoopMin = 1
			}
			if os.Getenv("H") != "" {
				x.cfg.Opaque = (&Chk{p: p, r: r}).rootConfig(f).Opaque
			}
			x.forkAt = map[ssa.Instruction]int{}
			x.Run(f)
			fmt.Println("==", f, len(x.paths), "paths", x.over)
			if os.Getenv("F") != "" {
				type kv struct {
					in ssa.Instruction
					n  int
				}
				var l []kv
				for k, v := range x.forkAt {
					l = append(l, kv{k, v})
				}
				sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
				for i, e := range l {
					if i < 25 {
						fmt.Println("   ", e.n, e.in.Parent().Name(), p.pos(e.in.(*ssa.If).Cond.Pos()))
					}
				}
			}
			if os.Getenv("V") == "" {
				continue
			}
			for i, pt := range x.paths {
				fmt.Printf("-- path %d %s %v\n", i, pt.Outcome, pt.Results)
				for _, e := range pt.Events {
					fmt.Println("   ", x.show(e))
				}
				if os.Getenv("K") != "" {
					for a, v := range pt.Facts.b {
						fmt.Println("      fact", a, v)
					}
				}
			}
		}
	}
}
