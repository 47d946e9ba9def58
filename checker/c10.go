package main

// C10: shared state is only touched under its lock, or by the one goroutine that owns it.

import (
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

type access struct {
	fv    *types.Var
	owner *Term
	write bool
	ev    *Event
}

// tables: every map (and the queue) that repository objects hold and change after construction.
func (c *Chk) tables() map[*types.Var]*types.Named {
	owners := map[*types.Var]*types.Named{}
	for _, pk := range c.p.Pkgs {
		if pk.Types == nil {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok || strings.HasSuffix(c.p.Fset.Position(tn.Pos()).Filename, "_test.go") {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				owners[st.Field(i)] = nt
			}
		}
	}
	out := map[*types.Var]*types.Named{}
	mark := func(m ssa.Value) {
		u, ok := m.(*ssa.UnOp)
		if !ok {
			return
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return
		}
		fv := fieldVarOf(fa)
		n := owners[fv]
		if n == nil || c.r.configMap(fv.Type()) {
			return
		}
		if _, ok := fv.Type().Underlying().(*types.Map); ok {
			out[fv] = n
		}
	}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					mark(in.Map)
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						mark(in.Call.Args[0])
					}
				}
			}
		}
	}
	for _, fv := range []*types.Var{c.r.nsMap, c.r.roomMap, c.r.connWait, c.r.srvWait, c.r.connections} {
		if owners[fv] == nil {
			continue
		}
		out[fv] = owners[fv]
	}
	return out
}

// accesses of the tables on a path.
func (c *Chk) accesses(pt *Path, tabs map[*types.Var]*types.Named) []access {
	var out []access
	made := map[*Term][2]interface{}{} // maps put into a field on this path
	home := func(m *Term) (*types.Var, *Term) {
		if m == nil {
			return nil, nil
		}
		if m.Op == OpRange {
			m = m.Args[0]
		}
		if m.Op == OpLoad && m.Args[0].Op == OpFAddr && tabs[m.Args[0].FieldVar] != nil {
			return m.Args[0].FieldVar, m.Args[0].Args[0]
		}
		if m.Op == OpField && tabs[m.FieldVar] != nil {
			return m.FieldVar, m.Args[0]
		}
		if h, ok := made[m]; ok {
			return h[0].(*types.Var), h[1].(*Term)
		}
		return nil, nil
	}
	for _, e := range pt.Events {
		switch e.Kind {
		case "Load", "Store":
			a := e.Args[0]
			if a.Op != OpFAddr || tabs[a.FieldVar] == nil {
				continue
			}
			if e.Kind == "Store" {
				if e.Flag {
					continue
				}
				if e.Args[1].Op == OpAlloc {
					made[e.Args[1]] = [2]interface{}{a.FieldVar, a.Args[0]}
				}
				out = append(out, access{a.FieldVar, a.Args[0], true, e})
			} else if !c.p.stable[a.FieldVar] {
				out = append(out, access{a.FieldVar, a.Args[0], false, e})
			}
		case "MapGet", "MapLen", "Range", "Next":
			if fv, o := home(e.Args[0]); fv != nil && !e.Flag {
				out = append(out, access{fv, o, false, e})
			}
		case "MapSet", "MapDel", "MapClear":
			if fv, o := home(e.Args[0]); fv != nil && !e.Flag {
				out = append(out, access{fv, o, true, e})
			}
		case "MapCopy":
			for i, a := range e.Args {
				if fv, o := home(a); fv != nil {
					out = append(out, access{fv, o, i == 0, e})
				}
			}
		case "Call", "Invoke", "Dyn", "Return":
			for _, a := range e.Args {
				if fv, o := home(a); fv != nil {
					out = append(out, access{fv, o, true, e}) // given away
				}
			}
		}
	}
	return out
}

// documented: the method's documentation says that it may not be used concurrently.
func documented(f *ssa.Function) bool {
	if n := f.Name(); f.Signature.Recv() != nil && (n == "GetConnections" || n == "GetConnectionsByNamespace") {
		return true // whatever becomes of the comment: users were told so
	}
	d, ok := f.Syntax().(*ast.FuncDecl)
	return ok && d.Doc != nil && strings.Contains(strings.ToLower(d.Doc.Text()), "not thread safe")
}

// freshOwner: the object was made on this path and nobody else has it at that moment.
func freshOwner(pt *Path, o *Term, seq int) bool {
	r := rootOf(o)
	if r.Op != OpAlloc {
		return false
	}
	for _, e := range pt.Events {
		if e.Seq >= seq {
			return true
		}
		switch e.Kind {
		case "Go", "Send", "Dyn", "Invoke", "Call", "Write", "Ask", "Close", "Handle", "Fire", "CloseChan":
			for _, a := range e.Args {
				if a != nil && a.contains(r) {
					return false
				}
			}
		case "Store", "MapSet":
			if !e.Flag {
				for _, a := range e.Args[1:] {
					if a != nil && a.contains(r) {
						return false
					}
				}
			}
		}
	}
	return true
}

func checkC10(c *Chk) {
	c.rule("locked", "every access to the table happens while one and the same lock of the owning object is held, exclusively for writes")
	c.rule("owned", "the table is only touched by the one goroutine started when its object is made, by that construction itself, or by an accessor documented as not thread safe, which only reads")
	c.rule("one-owner", "the owning goroutine is started exactly once per object, by its construction, and its body runs nowhere else")
	c.rule("kept-inside", "the table itself is never handed out")
	tabs := c.tables()
	if q := c.queueVar(); q != nil {
		tabs[q] = c.r.Conn
	}
	confined := map[*types.Var]bool{c.r.connections: true}
	for fv, n := range tabs {
		if n.Obj().Pkg() != c.p.Root.Pkg && types.Implements(types.NewPointer(n), c.r.StackEx.Underlying().(*types.Interface)) {
			if m, ok := fv.Type().Underlying().(*types.Map); ok && ptrTo(c.r.Conn)(m.Key()) {
				confined[fv] = true
			}
		}
	}
	fs := map[*ssa.Function]bool{}
	sites := map[ssa.Instruction]bool{}
	for fv := range tabs {
		c.fieldUses(fv, func(f *ssa.Function, in ssa.Instruction, write bool) {
			fs[f] = true
			sites[in] = true
		})
	}
	type look struct {
		access
		pt   *Path
		root *ssa.Function
	}
	looks := map[*types.Var][]look{}
	for _, root := range c.entriesOf(fs) {
		for _, pt := range c.explore(root, "locks:"+rel(c, root), c.openConfig(root)) {
			for _, a := range c.accesses(pt, tabs) {
				if a.ev.Kind == "Return" || a.ev.Kind == "Call" || a.ev.Kind == "Invoke" || a.ev.Kind == "Dyn" {
					if _, ok := a.fv.Type().Underlying().(*types.Map); ok {
						c.ob(freshOwner(pt, a.owner, a.ev.Seq), "kept-inside", tabName(tabs, a.fv)+" in "+c.fnName(a.ev), a.ev.Pos, pt, "the table leaves its owner: %s", a.ev.Name)
					}
					continue
				}
				if freshOwner(pt, a.owner, a.ev.Seq) {
					continue
				}
				looks[a.fv] = append(looks[a.fv], look{a, pt, root})
			}
		}
	}
	var fvs []*types.Var
	for fv := range tabs {
		fvs = append(fvs, fv)
	}
	sort.Slice(fvs, func(i, j int) bool { return fvs[i].Pos() < fvs[j].Pos() })
	for _, fv := range fvs {
		name := tabName(tabs, fv)
		ls := looks[fv]
		c.ob(len(ls) > 0, "anchor", name, fv.Pos(), nil, "no access to the table was analysed")
		if confined[fv] {
			c.confinement(fv, name)
			for _, l := range ls {
				loop := c.ownerLoops(fv)[l.root]
				ok := loop && l.ev.Gor == 0
				if !ok && !l.write && documented(l.root) && l.ev.Gor == 0 {
					ok = true
				}
				c.ob(ok, "owned", name+" in "+c.fnName(l.ev), l.ev.Pos, l.pt, "touched outside of the owning goroutine, from %s", rel(c, l.root))
			}
			continue
		}
		// the lock held most often by the owner is the table's lock
		votes := map[*types.Var]int{}
		for _, l := range ls {
			for v := range meetLocks(nil, l.ev.Locks, l.owner) {
				votes[v]++
			}
		}
		var lock *types.Var
		for v, n := range votes {
			if lock == nil || n > votes[lock] || n == votes[lock] && v.Pos() < lock.Pos() {
				lock = v
			}
		}
		if lock == nil {
			c.ob(false, "locked", name, fv.Pos(), nil, "no access holds a lock of the owner")
			continue
		}
		for _, l := range ls {
			held := false
			for _, k := range l.ev.Locks {
				if v, o := cellField(k.Addr); v == lock && o == l.owner && (!l.write || !k.Read) {
					held = true
				}
			}
			what := "read"
			if l.write {
				what = "written"
			}
			c.ob(held, "locked", name+" "+what+" in "+c.fnName(l.ev), l.ev.Pos, l.pt, "%s without %s of the same object%s, from %s", what, lock.Name(), map[bool]string{true: " held exclusively", false: ""}[l.write], rel(c, l.root))
		}
	}
	for in := range sites {
		if !buildsHere(in) {
			c.ob(c.visited[in], "covered", rel(c, in.Parent()), in.Pos(), nil, "no analysed entry point reaches this access")
		}
	}
	c.need("locked", 8)
	c.need("owned", 3)
	c.assume = append(c.assume, "accesses through values that were read under the lock (a membership taken from its table) are other properties' business")
}

func tabName(tabs map[*types.Var]*types.Named, fv *types.Var) string {
	return tabs[fv].Obj().Name() + "." + fv.Name()
}

// openConfig: as little as possible is opaque.
func (c *Chk) openConfig(root *ssa.Function) Config {
	h := c.p.method("Conn", "HandlePayload")
	return Config{LoopMin: 1, Opaque: func(fn *ssa.Function) string {
		if fn == root {
			return ""
		}
		if fn == h {
			return "Handle"
		}
		switch k := c.r.baseOpaque(fn); k {
		case "Write", "Ask", "Close", "Fire", "Decode", "Encode", "Pred", "Await", "GateWait":
			return k
		}
		return ""
	}}
}

// ownerLoops: the goroutines that write to the table.
func (c *Chk) ownerLoops(fv *types.Var) map[*ssa.Function]bool {
	if m := c.loopsOf[fv]; m != nil {
		return m
	}
	out := map[*ssa.Function]bool{}
	writers := map[*ssa.Function]bool{}
	c.fieldUses(fv, func(f *ssa.Function, in ssa.Instruction, _ bool) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Referrers() == nil {
			return
		}
		for _, r := range *u.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				writers[f] = true
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					writers[f] = true
				}
			}
		}
	})
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					t := c.p.goTarget(g)
					if t == nil || !hasLoop(c.p, t) {
						continue
					}
					if writers[t] || c.p.reaches(t, nil, func(in ssa.Instruction) bool { return writers[in.Parent()] }) {
						out[t] = true
					}
				}
			}
		}
	}
	if c.loopsOf == nil {
		c.loopsOf = map[*types.Var]map[*ssa.Function]bool{}
	}
	c.loopsOf[fv] = out
	return out
}

// goTarget: what a go statement runs; a function that has no loop and just calls a service is
// seen through.
func (p *Prog) goTarget(g *ssa.Go) *ssa.Function {
	t := g.Call.StaticCallee()
	if t == nil || t.Parent() == nil || hasLoop(p, t) || p.service == nil {
		return t
	}
	var only *ssa.Function
	n := 0
	for _, b := range t.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(*ssa.Call); ok {
				if f := ci.Call.StaticCallee(); f != nil && p.service(f) {
					only = f
					n++
				}
			}
		}
	}
	if n == 1 {
		return only
	}
	return t
}

// confinement: one goroutine per object.
func (c *Chk) confinement(fv *types.Var, name string) {
	loops := c.ownerLoops(fv)
	c.ob(len(loops) == 1, "one-owner", name, fv.Pos(), nil, "%d goroutines write to the table, not one", len(loops))
	for loop := range loops {
		starts := 0
		wraps := map[*ssa.Function]bool{} // function literals that are only run by a go statement
		for _, f := range c.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok && c.p.goTarget(g) == loop {
						if t := g.Call.StaticCallee(); t != loop && t.Parent() != nil {
							wraps[t] = true
						}
					}
				}
			}
		}
		for _, f := range c.p.Funcs {
			if isTestFile(c.p, f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Go:
						if c.p.goTarget(in) != loop {
							continue
						}
						starts++
						inLoop := false
						for _, body := range c.p.loopsOf(f) {
							inLoop = inLoop || body[b]
						}
						c.ob(!inLoop, "one-owner", name+" started in "+rel(c, f), in.Pos(), nil, "the owning goroutine may be started more than once")
						c.ob(c.madeHere(in, fv), "one-owner", name+" started by "+rel(c, f), in.Pos(), nil, "the owning goroutine is not started by the construction of its object")
					case *ssa.Call:
						if in.Call.StaticCallee() == loop && !wraps[f] {
							c.ob(false, "one-owner", name+" run by "+rel(c, f), in.Pos(), nil, "the owning goroutine's body also runs here")
						}
					case *ssa.Defer:
						if in.Call.StaticCallee() == loop {
							c.ob(false, "one-owner", name+" run by "+rel(c, f), in.Pos(), nil, "the owning goroutine's body also runs here")
						}
					case *ssa.MakeClosure:
						if in.Fn != ssa.Value(loop) && in.Fn.(*ssa.Function).Synthetic != "" {
							for _, r := range c.p.staticRefs(in.Fn.(*ssa.Function)) {
								if r == loop {
									c.ob(false, "one-owner", name+" taken by "+rel(c, f), in.Pos(), nil, "the owning goroutine's body is taken as a value here")
								}
							}
						}
					}
				}
			}
		}
		c.ob(starts == 1, "one-owner", name+" starts", loop.Pos(), nil, "the owning goroutine is started at %d places", starts)
	}
}

// madeHere: the goroutine gets an object allocated by the function that starts it, or by that
// function's only callers.
func (c *Chk) madeHere(g *ssa.Go, fv *types.Var) bool {
	vals := append([]ssa.Value(nil), g.Call.Args...)
	if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
		vals = append(vals, mc.Bindings...)
	}
	for _, v := range vals {
		n := namedOf(v.Type())
		if n == nil {
			if p, ok := v.Type().Underlying().(*types.Pointer); ok {
				n = namedOf(p.Elem())
			}
		}
		if n != nil && structIndex(n, fv) >= 0 && c.madeBy(v, g.Parent(), 0) {
			return true
		}
	}
	return false
}

func (c *Chk) madeBy(v ssa.Value, f *ssa.Function, d int) bool {
	if c.p.freshBase(v, 0) {
		return true
	}
	pr, ok := v.(*ssa.Parameter)
	if !ok || d > 4 || f.Object() == nil || f.Object().Exported() {
		return false
	}
	ix := -1
	for i, q := range f.Params {
		if q == pr {
			ix = i
		}
	}
	n := 0
	for _, h := range c.p.Funcs {
		if isTestFile(c.p, h) {
			continue
		}
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				uses := false
				for _, op := range in.Operands(nil) {
					uses = uses || *op == ssa.Value(f)
				}
				if !uses {
					continue
				}
				call, ok := in.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != f || ix >= len(call.Call.Args) {
					return false
				}
				for _, body := range c.p.loopsOf(h) {
					if body[b] {
						return false
					}
				}
				if !c.madeBy(call.Call.Args[ix], h, d+1) {
					return false
				}
				n++
			}
		}
	}
	return n == 1
}
