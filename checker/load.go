package main

// Loading: the packages of /repo, type-checked from source, in SSA form.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	service func(*ssa.Function) bool // see Roles.service
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	Root    *ssa.Package // neffos
	ByRel   map[string]*ssa.Package
	Mod     string
	Files   int

	Funcs []*ssa.Function // all source functions of the repository, closures included

	stable    map[*types.Var]bool
	grows     map[*Term]bool      // package variables that are only ever appended to
	notMade   map[*types.Var]bool // fields that are stored something else than a new map or channel
	fieldInit map[*types.Var]bool // every construction stores a non-nil value
	globals   map[*ssa.Global]*Term
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	private   map[*ssa.Alloc]bool
	dispatch  map[*ssa.Function]int8
	tt        *TermTable
}

func loadRepo(dir string, env []string) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir,
		Fset: fset,
		Env:  append(os.Environ(), append([]string{"GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local"}, env...)...),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	if ov := desugar(fset, pkgs); ov != nil {
		with := *cfg
		with.Overlay, with.Fset = ov, token.NewFileSet()
		again, err := packages.Load(&with, "./...")
		fine := err == nil && len(again) == len(pkgs)
		for _, p := range again {
			fine = fine && len(p.Errors) == 0
		}
		if fine {
			pkgs, fset = again, with.Fset
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Fset: fset, Pkgs: pkgs, SSA: prog, ByRel: map[string]*ssa.Package{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		if pkgs[i].Module != nil {
			p.Mod = pkgs[i].Module.Path
		}
		p.Files += len(pkgs[i].CompiledGoFiles)
	}
	for i, sp := range spkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, p.Mod), "/")
		p.ByRel[rel] = sp
		if rel == "" {
			p.Root = sp
		}
	}
	if p.Root == nil {
		return nil, fmt.Errorf("root package not found")
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.isRepo(f) && f.Synthetic == "" {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if p.Funcs[i].Pos() != p.Funcs[j].Pos() {
			return p.Funcs[i].Pos() < p.Funcs[j].Pos()
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	p.loops = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	p.private = map[*ssa.Alloc]bool{}
	p.dispatch = map[*ssa.Function]int8{}
	TT = newTermTable()
	p.tt = TT
	p.computeStable()
	p.computeGlobals()
	return p, nil
}

func fnPkg(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

func (p *Prog) isRepo(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	pk := fnPkg(f)
	if pk != nil {
		return p.isRepoPkg(pk.Pkg)
	}
	if f.Object() != nil { // wrappers, bounds
		return p.isRepoPkg(f.Object().Pkg())
	}
	return false
}

func (p *Prog) isRepoPkg(t *types.Package) bool {
	return t != nil && (t.Path() == p.Mod || strings.HasPrefix(t.Path(), p.Mod+"/"))
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if i := strings.Index(f, repoDir+"/"); i == 0 {
		f = f[len(repoDir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// namedStruct gives the named struct type behind t or *t.
func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = pt.Elem()
		}
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// loopsOf gives the natural loops of a function: header -> blocks.
func (p *Prog) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := p.loops[f]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	p.loops[f] = l
	return l
}

// freshBase reports whether the pointer is an object created in this function
// (directly, or by a repository constructor that returns a new object).
func (p *Prog) freshBase(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return p.freshBase(v.X, depth+1)
	case *ssa.IndexAddr:
		return p.freshBase(v.X, depth+1)
	case *ssa.Call:
		callee := v.Call.StaticCallee()
		if callee == nil || !p.isRepo(callee) || callee.Blocks == nil {
			return false
		}
		found := false
		for _, b := range callee.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok {
					for _, res := range r.Results {
						if types.Identical(res.Type(), v.Type()) {
							if !p.freshBase(res, depth+1) {
								return false
							}
							found = true
						}
					}
				}
			}
		}
		return found
	case *ssa.UnOp:
		// a local variable holding a fresh object (captured variables are spilled)
		if v.Op == token.MUL {
			if al, ok := v.X.(*ssa.Alloc); ok {
				ok2 := false
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						if !p.freshBase(st.Val, depth+1) {
							return false
						}
						ok2 = true
					}
				}
				return ok2
			}
			if fv, ok := v.X.(*ssa.FreeVar); ok {
				return p.freshCapture(fv, depth)
			}
		}
	case *ssa.FreeVar:
		return p.freshCapture(v, depth)
	case *ssa.Parameter:
		// a helper that is only given new objects
		fn := v.Parent()
		if fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() {
			return false
		}
		ix := -1
		for i, q := range fn.Params {
			if q == v {
				ix = i
			}
		}
		n := 0
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for i, op := range in.Operands(nil) {
						if *op != ssa.Value(fn) {
							continue
						}
						call, ok := in.(*ssa.Call)
						if !ok || i != 0 || call.Call.StaticCallee() != fn || !p.freshBase(call.Call.Args[ix], depth+1) {
							return false
						}
						n++
					}
				}
			}
		}
		return n > 0
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.freshBase(e, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// freshCapture: a variable of the surrounding function that holds a new object, used by a literal that runs in place.
func (p *Prog) freshCapture(fv *ssa.FreeVar, depth int) bool {
	fn := fv.Parent()
	if fn.Parent() == nil || !p.runInPlace(fn) {
		return false
	}
	found := false
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			for i, q := range fn.FreeVars {
				if q != fv {
					continue
				}
				v := mc.Bindings[i]
				if al, ok := v.(*ssa.Alloc); ok && pointerToPointer(al.Type()) {
					for _, ref := range *al.Referrers() {
						if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
							if !p.freshBase(st.Val, depth+1) {
								return false
							}
							found = true
						}
					}
				} else if !p.freshBase(v, depth+1) {
					return false
				} else {
					found = true
				}
			}
		}
	}
	return found
}

func pointerToPointer(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = pt.Elem().Underlying().(*types.Pointer)
	return ok
}

func fieldVarOf(fa *ssa.FieldAddr) *types.Var {
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return st.Field(fa.Field)
}

// computeStable finds the fields which are stored only while their object is
// being constructed; exported configuration fields of Server count too.
func (p *Prog) computeStable() {
	p.stable = map[*types.Var]bool{}
	p.fieldInit = map[*types.Var]bool{}
	for _, pk := range p.Pkgs {
		scope := pk.Types.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				p.stable[st.Field(i)] = true
			}
		}
	}
	isErr := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
	p.notMade = map[*types.Var]bool{}
	nilStore := map[*types.Var]bool{}
	for _, f := range p.Funcs {
		if strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				fv := fieldVarOf(fa)
				for _, ref := range *fa.Referrers() {
					switch r := ref.(type) {
					case *ssa.Store:
						if r.Addr == fa {
							if !p.freshBase(fa.X, 0) && !p.isConfigField(fa, fv) {
								p.stable[fv] = false
							}
							switch r.Val.(type) {
							case *ssa.MakeMap, *ssa.MakeChan:
							default:
								p.notMade[fv] = true
							}
							if isErr(r.Val) {
								nilStore[fv] = true
							} else {
								p.fieldInit[fv] = true
							}
						} else { // the address is stored
							p.stable[fv], p.notMade[fv] = false, true
						}
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
					default: // address passed on (atomics, locks, closures)
						p.stable[fv], p.notMade[fv] = false, true
					}
				}
			}
		}
	}
	for v := range nilStore {
		p.fieldInit[v] = false
	}
}

// exported fields of Server are configuration: documented to be set before the server is used.
func (p *Prog) isConfigField(fa *ssa.FieldAddr, fv *types.Var) bool {
	n := namedOf(fa.X.Type())
	return n != nil && n.Obj().Name() == "Server" && n.Obj().Pkg() == p.Root.Pkg && fv.Exported()
}

// computeGlobals resolves package variables that only their initialiser assigns.
func (p *Prog) computeGlobals() {
	p.globals = map[*ssa.Global]*Term{}
	p.grows = map[*Term]bool{}
	shrinks := map[*ssa.Global]bool{}
	appended := map[*ssa.Global]bool{}
	stores := map[*ssa.Global][]*ssa.Store{}
	bad := map[*ssa.Global]bool{}
	all := ssautil.AllFunctions(p.SSA)
	var fns []*ssa.Function
	for f := range all {
		if f.Blocks != nil && (p.isRepo(f)) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		isInit := f.Synthetic == "package initializer"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch r := in.(type) {
					case *ssa.Store:
						if r.Addr == g && isInit {
							stores[g] = append(stores[g], r)
						} else {
							bad[g] = true
							shrinks[g] = shrinks[g] || r.Addr != g || !appendsTo(r.Val, g)
							appended[g] = true
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						bad[g], shrinks[g] = true, true
					}
				}
			}
		}
	}
	for g := range appended {
		if !shrinks[g] {
			p.grows[globalTerm(g)] = true
		}
	}
	var val func(v ssa.Value, d int) *Term
	val = func(v ssa.Value, d int) *Term {
		if d > 8 {
			return nil
		}
		switch v := v.(type) {
		case *ssa.Const:
			return constTerm(v)
		case *ssa.Convert:
			if a := val(v.X, d+1); a != nil {
				return mkConv(a, v.Type())
			}
		case *ssa.ChangeType:
			return val(v.X, d+1)
		case *ssa.UnOp:
			if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL && !bad[g] && len(stores[g]) == 1 {
				return val(stores[g][0].Val, d+1)
			}
		case *ssa.Function:
			t := TT.mk(OpFunc, v.String(), v.Type())
			t.Fn = v
			return t
		case *ssa.BinOp:
			x, y := val(v.X, d+1), val(v.Y, d+1)
			if x != nil && y != nil {
				return mkBin(v.Op, x, y, v.Type())
			}
		case *ssa.Slice: // []T{...} literal
			al, ok := v.X.(*ssa.Alloc)
			if !ok || v.Low != nil || v.High != nil {
				return nil
			}
			at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok {
				return nil
			}
			args := make([]*Term, at.Len())
			for i := range args {
				args[i] = zeroTerm(TT, at.Elem())
			}
			for _, ref := range *al.Referrers() {
				switch r := ref.(type) {
				case *ssa.IndexAddr:
					c, ok := r.Index.(*ssa.Const)
					if !ok {
						return nil
					}
					for _, rr := range *r.Referrers() {
						if s, ok := rr.(*ssa.Store); ok {
							a := val(s.Val, d+1)
							if a == nil {
								return nil
							}
							args[c.Int64()] = a
						}
					}
				case *ssa.Slice:
				default:
					return nil
				}
			}
			return TT.mk(OpArr, "", v.Type(), args...)
		case *ssa.Call:
			if v.Call.IsInvoke() {
				if r := val(v.Call.Value, d+1); r != nil && v.Call.Method.Name() == "Elem" {
					return elemType(r)
				}
				return nil
			}
			if f := v.Call.StaticCallee(); f != nil && f.String() == "reflect.TypeOf" {
				if mi, ok := v.Call.Args[0].(*ssa.MakeInterface); ok {
					return typeTerm(mi.X.Type())
				}
				return nil
			}
			if f := v.Call.StaticCallee(); f != nil && f.Origin() != nil && f.Origin().String() == "reflect.TypeFor" {
				return typeTerm(f.TypeArgs()[0])
			}
			if f := v.Call.StaticCallee(); f != nil && f.String() == "errors.New" {
				if a := val(v.Call.Args[0], d+1); a != nil {
					return nil // identity matters: keep the load of the variable itself
				}
			}
		}
		return nil
	}
	for g, ss := range stores {
		if bad[g] || len(ss) != 1 {
			continue
		}
		if t := val(ss[0].Val, 0); t != nil {
			p.globals[g] = t
		} else {
			addr := globalTerm(g)
			l := TT.mk(OpLoad, "stable", g.Type().Underlying().(*types.Pointer).Elem(), addr)
			l.Stable = true
			switch ss[0].Val.(type) {
			case *ssa.Call, *ssa.MakeClosure, *ssa.MakeMap, *ssa.MakeInterface, *ssa.Function:
				l.NonNil = true
			}
			p.globals[g] = l
		}
	}
}

// appendsTo: v is the list in g with something appended.
func appendsTo(v ssa.Value, g *ssa.Global) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	u, ok := c.Call.Args[0].(*ssa.UnOp)
	return ok && u.Op == token.MUL && u.X == g
}

func globalTerm(g *ssa.Global) *Term {
	return TT.mk(OpGlobal, g.String(), g.Type())
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroTerm(TT, c.Type())
	}
	return TT.Const(c.Value, c.Type())
}

// allocPrivate: a variable whose address is used only by its function and,
// read-only, by closures of it.
func (p *Prog) allocPrivate(a *ssa.Alloc) bool {
	if v, ok := p.private[a]; ok {
		return v
	}
	ok := p.privUses(a, true, 0)
	p.private[a] = ok
	return ok
}

func (p *Prog) privUses(v ssa.Value, own bool, d int) bool {
	if d > 8 {
		return false
	}
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr != v || !own {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !p.privUses(r, own, d+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !p.privUses(r, own, d+1) {
				return false
			}
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !p.privUses(fn.FreeVars[i], false, d+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// lookups

func (p *Prog) fn(name string) *ssa.Function { return p.Root.Func(name) }

func (p *Prog) typ(name string) *types.Named {
	o := p.Root.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

func (p *Prog) methodOf(pkg *ssa.Package, typ, name string) *ssa.Function {
	o := pkg.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, ok := types.Unalias(o.Type()).(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) method(typ, name string) *ssa.Function { return p.methodOf(p.Root, typ, name) }
