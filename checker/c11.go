package main

// C11: lock discipline.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C11"] = checkC11 }

// lockCall: the method of a sync lock that the instruction calls.
func lockCall(in ssa.Instruction) string {
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return ""
	}
	cc := ci.Common()
	if cc.IsInvoke() {
		if cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "sync" {
			return cc.Method.Name()
		}
		return ""
	}
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return ""
	}
	var pk *types.Package
	if f.Object() != nil {
		pk = f.Object().Pkg()
	}
	if pk == nil || pk.Path() != "sync" {
		return ""
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return f.Name()
	}
	return ""
}

// quiet: library calls that neither block nor call back.
func quietCall(e *Event) bool {
	n := e.Name
	for _, p := range []string{"strings.", "strconv.", "bytes.", "errors.", "unicode.", "unicode/utf8.", "math.", "math/rand.", "math/bits.", "sort.Strings", "sort.Ints",
		"sync/atomic.", "reflect.", "time.Now", "time.Since", "time.Until", "time.Duration", "time.Time", "(time.", "fmt.Sprint", "fmt.Errorf", "maps.", "slices.",
		"github.com/google/uuid.", "context.Background", "context.TODO", "runtime.", "(*strings.", "(*bytes.", "(*sync/atomic.", "path.", "(reflect."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// netLock: the lock by which a socket keeps its frames apart; writing to the network is what it is for.
func (c *Chk) netLock(v *types.Var) bool {
	return v != nil && v.Pkg() != c.p.Root.Pkg && c.socketLocks()[v]
}

func (c *Chk) socketLocks() map[*types.Var]bool {
	if c.sockLocks != nil {
		return c.sockLocks
	}
	c.sockLocks = map[*types.Var]bool{}
	iface := c.r.Socket.Underlying().(*types.Interface)
	for _, pk := range c.p.Pkgs {
		if pk.Types == nil || pk.Types == c.p.Root.Pkg {
			continue
		}
		sc := pk.Types.Scope()
		has := false
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && types.Implements(types.NewPointer(tn.Type()), iface) {
				has = true
			}
		}
		if !has {
			continue
		}
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if isMutexLike(st.Field(i).Type()) {
							c.sockLocks[st.Field(i)] = true
						}
					}
				}
			}
		}
	}
	return c.sockLocks
}

func lockName(a *Term) string {
	v, o := cellField(a)
	if v == nil {
		return a.String()
	}
	if n := namedOf(o.Typ); n != nil {
		return n.Obj().Name() + "." + v.Name()
	}
	return v.Name()
}

func checkC11(c *Chk) {
	c.rule("released", "on every way out of an operation or goroutine, and at every turn of a loop, every lock taken was released")
	c.rule("held", "a lock is released only while held, and in the mode it was taken")
	c.rule("again", "a lock is not acquired while the same lock is held")
	c.rule("quiet", "while a lock is held nothing runs user code, touches the network or a backend, or blocks (a transport's frame lock may cover its own writing)")
	c.rule("order", "locks nest in one order: the relation 'acquired while holding' has no cycle")
	fs := map[*ssa.Function]bool{}
	sites := map[ssa.Instruction]bool{}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if lockCall(in) != "" {
					fs[f] = true
					sites[in] = true
				}
			}
		}
	}
	type edge struct{ a, b *types.Var }
	type where struct {
		e  *Event
		pt *Path
	}
	edges := map[edge]where{}
	for _, root := range c.entriesOf(fs) {
		for _, pt := range c.explore(root, "locks:"+rel(c, root), c.openConfig(root)) {
			if pt.Outcome == "return" || pt.Outcome == "panic" {
				left := ""
				for _, l := range pt.St.locks {
					left += " " + lockName(l.Addr)
				}
				c.ob(left == "", "released", rel(c, root), root.Pos(), pt, "it ends (%s) with%s still held", pt.Outcome, left)
			}
			for _, e := range pt.Events {
				in := c.fnName(e)
				switch e.Kind {
				case "Lock":
					for _, l := range e.Locks {
						c.ob(l.Addr != e.Args[0], "again", lockName(e.Args[0])+" in "+in, e.Pos, pt, "%s is acquired while it is already held, from %s", lockName(l.Addr), rel(c, root))
						va, _ := cellField(l.Addr)
						vb, _ := cellField(e.Args[0])
						if va != nil && vb != nil && l.Addr != e.Args[0] {
							if _, ok := edges[edge{va, vb}]; !ok {
								edges[edge{va, vb}] = where{e, pt}
							}
						}
					}
					c.ob(true, "again", lockName(e.Args[0])+" in "+in, e.Pos, pt, "")
				case "Unlock":
					c.ob(e.Flag, "held", lockName(e.Args[0])+" in "+in, e.Pos, pt, "%s is released while it is not held that way, from %s", lockName(e.Args[0]), rel(c, root))
				case "LoopLocks":
					c.ob(false, "released", in+" (loop)", e.Pos, pt, "a turn of the loop changes which locks are held")
				case "GoLeak":
					c.ob(false, "released", in+" (goroutine)", e.Pos, pt, "the goroutine ends with a lock held")
				default:
					if len(e.Locks) == 0 {
						continue
					}
					what := c.noisy(pt, e)
					names := ""
					onlyNet := true
					for _, l := range e.Locks {
						names += " " + lockName(l.Addr)
						v, _ := cellField(l.Addr)
						onlyNet = onlyNet && c.netLock(v)
					}
					if onlyNet && (e.Kind == "Call" || e.Kind == "Invoke") && !strings.HasPrefix(e.Name, "time.Sleep") && !strings.Contains(e.Name, "sync.") && !strings.HasPrefix(e.Name, "neffos.") {
						what = ""
					}
					c.ob(what == "", "quiet", in+":"+names, e.Pos, pt, "%s while%s is held, from %s", what, names, rel(c, root))
				}
			}
		}
	}
	// order
	next := map[*types.Var][]*types.Var{}
	var es []edge
	for e := range edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].a != es[j].a {
			return es[i].a.Pos() < es[j].a.Pos()
		}
		return es[i].b.Pos() < es[j].b.Pos()
	})
	for _, e := range es {
		next[e.a] = append(next[e.a], e.b)
	}
	for _, e := range es {
		// is e.a reachable from e.b?
		seen := map[*types.Var]bool{}
		var rec func(v *types.Var) bool
		rec = func(v *types.Var) bool {
			if v == e.a {
				return true
			}
			if seen[v] {
				return false
			}
			seen[v] = true
			for _, n := range next[v] {
				if rec(n) {
					return true
				}
			}
			return false
		}
		w := edges[e]
		c.ob(!rec(e.b), "order", e.a.Name()+" -> "+e.b.Name(), w.e.Pos, w.pt, "%s is acquired while %s is held here, and elsewhere the other way round", e.b.Name(), e.a.Name())
	}
	for in := range sites {
		c.ob(c.visited[in], "covered", rel(c, in.Parent()), in.Pos(), nil, "no analysed entry point reaches this lock operation")
	}
	c.need("released", 15)
	c.need("held", 10)
	c.need("quiet", 10)
}

// noisy: what the event may do that nobody may do while holding a lock.
func (c *Chk) noisy(pt *Path, e *Event) string {
	switch e.Kind {
	case "Fire", "Handle":
		return "a user callback runs"
	case "Dyn":
		return "a function value is called"
	case "Write", "Ask":
		return "a message is sent"
	case "Close":
		return "a connection is closed"
	case "Await", "GateWait":
		return "it waits"
	case "Send":
		if len(e.Args) > 0 && e.Args[0].Op == OpAlloc && e.Args[0].Sym == "makechan" && len(e.Args[0].Args) > 0 {
			if n, ok := e.Args[0].Args[0].IntVal(); ok && n > 0 {
				return ""
			}
		}
		if e.Name == "select" {
			return "" // judged at the select
		}
		return "it sends on a channel"
	case "Recv":
		if e.Name == "select" {
			return ""
		}
		return "it receives from a channel"
	case "Select":
		if e.Flag {
			return "it waits on channels"
		}
	case "Invoke":
		switch e.Name {
		case "error.Error", "context.Context.Done", "context.Context.Err", "context.Context.Value", "context.Context.Deadline", "reflect.Type.Kind":
			return ""
		}
		return "an interface method is called: " + e.Name
	case "Call":
		if !quietCall(e) {
			return "a library function that may block or call back is called: " + e.Name
		}
	}
	return ""
}
