package main

// C23: the value store of a connection.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C23"] = checkC23 }

func paramN(f *ssa.Function, i int) *Term {
	return TT.mk(OpParam, f.Params[i].Name(), f.Params[i].Type())
}

func checkC23(c *Chk) {
	c.rule("set", "Set stores exactly the given value under exactly the given key, under the exclusive lock of the store")
	c.rule("get", "Get returns what the store holds under the key, read under the lock, or nil when there is no store yet")
	c.rule("count", "Increment and Decrement read the value, add one or minus one to it (to zero when it is missing or no integer) and store it in one hold of the exclusive lock, and return what they stored")
	c.rule("only", "nothing else writes to the store or replaces it")
	stores := structField(c.r.Conn, func(t types.Type) bool {
		return isMapOf(t, "string", func(e types.Type) bool { i, ok := e.Underlying().(*types.Interface); return ok && i.NumMethods() == 0 })
	})
	if len(stores) != 1 {
		c.ob(false, "anchor", "value store", token.NoPos, nil, "the connection has no single map of values")
		return
	}
	st := stores[0]
	cfg := c.base()
	var api []*ssa.Function
	for _, n := range []string{"Set", "Get", "Increment", "Decrement"} {
		f := c.p.method("Conn", n)
		if f == nil {
			c.ob(false, "anchor", "Conn."+n, token.NoPos, nil, "not found")
			continue
		}
		api = append(api, f)
		self, key := selfOf(f), paramN(f, 1)
		name := rel(c, f)
		for _, pt := range c.explore(f, "store", cfg) {
			for _, e := range pt.Events {
				if e.Kind == "MayPanic" {
					c.ob(false, "count", name+" (panic)", e.Pos, pt, "it can panic: %s", e.Name)
				}
			}
			if !complete(pt) {
				continue
			}
			// the map used: the field's value, or a new one just put there
			isStore := func(m *Term, upto int) bool {
				if isFieldOf(m, self, st) {
					return true
				}
				for _, e := range pt.Events {
					if e.Kind == "Store" && e.Seq < upto && isAddrOf(e.Args[0], self, st) && e.Args[1] == m {
						return true
					}
				}
				return false
			}
			var gets, sets []*Event
			for _, e := range pt.Events {
				switch e.Kind {
				case "MapGet":
					if isStore(e.Args[0], e.Seq) {
						gets = append(gets, e)
						c.ob(ownLock(e, self, false), "get", name+" (locked)", e.Pos, pt, "the store is read without its lock")
					}
				case "MapSet":
					if isStore(e.Args[0], e.Seq) {
						sets = append(sets, e)
						c.ob(ownLock(e, self, true), "set", name+" (locked)", e.Pos, pt, "the store is written without its exclusive lock")
					} else {
						c.ob(e.Flag, "only", name+" (table)", e.Pos, pt, "a value goes elsewhere")
					}
				case "MapDel", "MapClear":
					c.ob(!isStore(e.Args[0], e.Seq), "only", name+" (removes)", e.Pos, pt, "a value is removed")
				case "Store":
					if isAddrOf(e.Args[0], self, st) {
						// only a new map for a missing one
						ok := e.Args[1].Op == OpAlloc && ownLock(e, self, true)
						missing := false
						for _, l := range pt.Events {
							if l.Kind == "Load" && l.Seq < e.Seq && isAddrOf(l.Args[0], self, st) && pt.Facts.isNil(l.Res) && heldThrough(pt, self, l.Seq, e.Seq) {
								missing = true
							}
						}
						c.ob(ok && missing, "only", name+" (new store)", e.Pos, pt, "the store is replaced although it may hold values")
					}
				}
			}
			switch n {
			case "Set":
				v := paramN(f, 2)
				ok := len(sets) == 1 && sets[0].Args[1] == key && sets[0].Args[2] == v
				c.ob(ok, "set", name, f.Pos(), pt, "the value given is not stored once under its key")
			case "Get":
				c.ob(len(sets) == 0, "get", name+" (reads only)", f.Pos(), pt, "reading changes the store")
				ok := false
				if len(pt.Results) == 1 {
					res := pt.Results[0]
					for _, g := range gets {
						ok = ok || g.Args[1] == key && (g.Res.Args[0] == res || res.IsNil() && absent(pt, g))
					}
					if res.IsNil() {
						for _, l := range pt.Events {
							ok = ok || l.Kind == "Load" && isAddrOf(l.Args[0], self, st) && pt.Facts.isNil(l.Res) && ownLock(l, self, false)
						}
					}
				}
				c.ob(ok, "get", name, f.Pos(), pt, "what is returned is not what the store holds: %v", pt.Results)
			default:
				d := int64(1)
				if n == "Decrement" {
					d = -1
				}
				if !c.ob(len(sets) == 1 && sets[0].Args[1] == key && len(pt.Results) == 1 && unbox(sets[0].Args[2]) == pt.Results[0], "count", name+" (returned)", f.Pos(), pt, "what is stored once is not what is returned") {
					continue
				}
				v := unbox(sets[0].Args[2])
				ok := false
				for _, g := range gets {
					if g.Args[1] != key || g.Seq > sets[0].Seq || !heldThrough(pt, self, g.Seq, sets[0].Seq) {
						continue
					}
					val := g.Res.Args[0]
					// integer plus d
					if v.Op == OpBin && v.Sym == "+" && v.Args[1] == TT.Int(d) && v.Args[0].Op == OpAssert && v.Args[0].Args[0] == val && isIntType(v.Args[0].Typ) {
						ok = true
					}
					// zero plus d
					if n, isC := v.IntVal(); isC && n == d {
						ok = ok || absent(pt, g) || c.notInt(pt, val)
					}
				}
				if n, isC := v.IntVal(); isC && n == d && !ok {
					for _, l := range pt.Events {
						ok = ok || l.Kind == "Load" && isAddrOf(l.Args[0], self, st) && pt.Facts.isNil(l.Res) && heldThrough(pt, self, l.Seq, sets[0].Seq)
					}
				}
				c.ob(ok, "count", name, f.Pos(), pt, "the value stored is not the one read in the same hold of the lock plus %d: %s", d, v)
			}
		}
	}
	// nobody else
	visit := func(f *ssa.Function, in ssa.Instruction) {
		ok := false
		for _, a := range api {
			ok = ok || f == a || c.within(f, api)
		}
		c.ob(ok, "only", "store in "+rel(c, f), in.Pos(), nil, "the store is written outside its operations")
	}
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if fromField(in.Map, st) {
						visit(f, in)
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && fromField(in.Call.Args[0], st) {
						visit(f, in)
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fieldVarOf(fa) == st && !buildsHere(in) {
						visit(f, in)
					}
				}
			}
		}
	}
	c.need("set", 2)
	c.need("get", 2)
	c.need("count", 4)
}

func isIntType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Typ[types.Int])
}

// unbox: the value inside an interface.
func unbox(t *Term) *Term {
	if t.Op == OpIface {
		return t.Args[0]
	}
	return t
}

// notInt: the path found that the value is not an int.
func (c *Chk) notInt(pt *Path, v *Term) bool {
	if pt.Facts.isNil(v) {
		return true
	}
	for a, val := range pt.Facts.b {
		if a.Op == OpAssertOK && a.Args[0] == v && isIntType(a.CTyp) && !val {
			return true
		}
	}
	return false
}

// fromField: the value was read from the field.
func fromField(v ssa.Value, fv *types.Var) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldVarOf(fa) == fv
}

// within: the function runs only as part of these.
func (c *Chk) within(f *ssa.Function, fs []*ssa.Function) bool {
	set := map[*ssa.Function]bool{}
	for _, g := range fs {
		set[g] = true
	}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if set[g] || seen[g] {
			return true
		}
		seen[g] = true
		if g.Parent() != nil {
			return rec(g.Parent())
		}
		callers := 0
		for _, h := range c.p.Funcs {
			if isTestFile(c.p, h) {
				continue
			}
			for _, r := range c.p.staticRefs(h) {
				if r == g {
					callers++
					if !rec(h) {
						return false
					}
					break
				}
			}
		}
		return callers > 0
	}
	return rec(f)
}
