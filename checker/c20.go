package main

// C20: handler structs.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C20"] = checkC20 }

func isReflect(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == name
}

// shapeOf: the signature of a package function in short.
func (c *Chk) shapeOf(fn *ssa.Function) string {
	if fn.Pkg != c.p.Root || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Signature.Variadic() {
		return ""
	}
	list := func(l *types.Tuple) (s string) {
		for i := 0; i < l.Len(); i++ {
			switch t := l.At(i).Type(); {
			case isReflect(t, "Value"):
				s += "V"
			case isReflect(t, "Type"):
				s += "T"
			case types.Identical(t, types.Typ[types.String]):
				s += "s"
			case types.Identical(t, types.Typ[types.Bool]):
				s += "b"
			case types.Identical(t, types.Typ[types.Int]):
				s += "i"
			case t.String() == "map[int]reflect.Value":
				s += "M"
			default:
				s += "?"
			}
		}
		return s
	}
	sh := list(fn.Signature.Params()) + ">" + list(fn.Signature.Results())
	switch sh {
	case "V>b", "TT>i", "TT>b", "s>b":
		if c.shapes == nil {
			c.shapes = map[*ssa.Function]bool{}
		}
		is, ok := c.shapes[fn]
		if !ok {
			is = c.playsPart(fn, sh)
			c.shapes[fn] = is
		}
		if !is {
			return "" // a helper with the same parameters
		}
	}
	return sh
}

// playsPart: the function does what the rules for its signature are about, rather than being a part of another.
func (c *Chk) playsPart(fn *ssa.Function, sh string) bool {
	calls := func(g *ssa.Function) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().StaticCallee() == g
		}
	}
	invokes := func(m string) func(ssa.Instruction) bool {
		return func(in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == m
		}
	}
	switch sh {
	case "s>b":
		return fn.Object() != nil && fn.Object().Exported()
	case "TT>i":
		return c.p.reaches(fn, nil, invokes("NumField")) && !c.restOf(fn)
	case "TT>b":
		return c.p.reaches(fn, nil, invokes("NumIn")) && !c.restOf(fn)
	case "V>b": // looks into its value's parts, and is asked by somebody else
		if !c.p.reaches(fn, nil, calls(fn)) {
			return false
		}
		for _, g := range c.p.Funcs {
			if g == fn || c.p.reaches(fn, nil, calls(g)) {
				continue
			}
			for _, h := range c.p.staticRefs(g) {
				if h == fn {
					return true
				}
			}
		}
		return false
	}
	return true
}

// restOf: the function is only ever called by one other function of the very same signature, whose last part it is.
func (c *Chk) restOf(fn *ssa.Function) bool {
	u := c.r.usesOf(fn)
	if fn.Object() == nil || fn.Object().Exported() || u.gos+u.other > 0 || len(u.callers) == 0 {
		return false
	}
	for _, g := range u.callers {
		if g == fn || g.Parent() != nil || !types.Identical(g.Signature, fn.Signature) {
			return false
		}
	}
	return true
}

// structConfig: the small functions over types and values have rules of their own.
func (c *Chk) structConfig(root *ssa.Function) Config {
	return Config{Opaque: func(fn *ssa.Function) string {
		if fn == root && c.shapeOf(fn) != "V>b" {
			return ""
		}
		if fn.Pkg == c.p.Root && (fn.Name() == "Debugf" || strings.HasPrefix(fn.Name(), "DebugEach")) {
			return "skip"
		}
		switch c.shapeOf(fn) {
		case "V>b", "TT>i", "TT>b", "s>b":
			return "Pred"
		case "V>M":
			return "Presets"
		case "V>sb":
			return "Resolve"
		}
		return c.r.baseOpaque(fn)
	}}
}

// handlerStruct is what the rules of this property share.
type handlerStruct struct {
	named                      *types.Named
	ptr, ns, matcher, inj, evs *types.Var
	value                      *types.Var // of the namespace's connection
	conn, msg, errT            *Term
	nsPtr                      types.Type
	preds                      map[string][]*ssa.Function
	wrappers, callers          map[*ssa.Function]bool
	connectName                string
}

func checkC20(c *Chk) {
	c.rule("methods", "exactly the methods with the message handler signature of their kind of struct are registered")
	c.rule("names", "a lifecycle method is registered under the lifecycle event's name without asking the matcher, any other under the name the matcher gives or its own when there is none, or not at all when the matcher declines")
	c.rule("bound", "what is registered calls that very method: of the given value, or of the connection's own instance, with the message, and returns its result")
	c.rule("instance", "a struct with a connection field gets a new instance on every namespace connect, of the type of the given value, from the injector when there is one")
	c.rule("holds", "the instance has the preset fields and, last, the connection itself and is kept for the connection's later events, before anybody else sees it")
	c.rule("before", "the instance is in place before the struct's own connect callback is called with the connection and the message, and its result decides")
	c.rule("presets", "the preset fields are the exported fields that are not zero, each under its own index")
	c.rule("zero", "a value is zero when all its parts are, or its IsZero method says so, or it is nil or equal to the zero value of its type")
	c.rule("kinds", "the connection field is the first field of that type, and lifecycle events are exactly the seven of them")
	c.rule("matchers", "the prefix matchers accept exactly the names that have the prefix, and keep or cut it")
	c.rule("namespace", "the events are those of the struct's namespace: the set one, or else the one of its method or field")
	c.rule("settings", "the settings are kept as given and nothing else changes them")
	h := c.handlerStruct()
	if h == nil {
		return
	}
	c.structEvents(h)
	c.structKinds(h)
	c.structPresets(h)
	c.structZero(h)
	c.structMatchers()
	c.structNamespace(h)
	c.structSettings(h)
	for r, n := range map[string]int{"methods": 2, "names": 3, "bound": 2, "instance": 2, "holds": 3, "before": 2, "presets": 1, "zero": 3, "kinds": 2, "matchers": 2, "namespace": 2, "settings": 4} {
		c.need(r, n)
	}
}

func (c *Chk) handlerStruct() *handlerStruct {
	scope := c.p.Root.Pkg.Scope()
	tn, _ := scope.Lookup("Struct").(*types.TypeName)
	im, _ := scope.Lookup("StructInjector").(*types.TypeName)
	if !c.ob(tn != nil && im != nil && c.r.NSConn != nil, "anchor", "Struct", token.NoPos, nil, "Struct or StructInjector not found") {
		return nil
	}
	h := &handlerStruct{named: tn.Type().(*types.Named), preds: map[string][]*ssa.Function{}, wrappers: map[*ssa.Function]bool{}, callers: map[*ssa.Function]bool{}}
	one := func(n *types.Named, what string, fits func(types.Type) bool) *types.Var {
		l := structField(n, fits)
		if !c.ob(len(l) == 1, "anchor", what, token.NoPos, nil, "%d fields fit %s", len(l), what) {
			return nil
		}
		return l[0]
	}
	h.ptr = one(h.named, "Struct.ptr", func(t types.Type) bool { return isReflect(t, "Value") })
	h.ns = one(h.named, "Struct.namespace", same(types.Typ[types.String]))
	h.matcher = one(h.named, "Struct.eventMatcher", func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Signature)
		return ok && s.Params().Len() == 1 && s.Results().Len() == 2
	})
	h.inj = one(h.named, "Struct.injector", same(im.Type()))
	h.evs = one(h.named, "Struct.events", same(scope.Lookup("Events").Type()))
	h.value = one(c.r.NSConn, "NSConn.value", func(t types.Type) bool { return isReflect(t, "Value") })
	if h.ptr == nil || h.ns == nil || h.matcher == nil || h.inj == nil || h.evs == nil || h.value == nil {
		return nil
	}
	h.nsPtr = types.NewPointer(c.r.NSConn)
	h.conn, h.msg, h.errT = typeTerm(h.nsPtr), typeTerm(c.r.Message), typeTerm(types.Universe.Lookup("error").Type())
	h.connectName = c.evName("OnNamespaceConnect")
	for _, f := range c.p.Funcs {
		if s := c.shapeOf(f); s != "" && !isTestFile(c.p, f) {
			h.preds[s] = append(h.preds[s], f)
		}
	}
	return h
}

func pure(sym string, args ...*Term) func(*Term) bool {
	return func(t *Term) bool {
		if t == nil || t.Op != OpPure || t.Sym != sym || len(t.Args) != len(args) {
			return false
		}
		for i, a := range args {
			if a != nil && t.Args[i] != a {
				return false
			}
		}
		return true
	}
}

func isPure(t *Term, sym string, args ...*Term) bool { return pure(sym, args...)(t) }

// fieldNamed: t is that field of a struct value x.
func fieldNamed(t, x *Term, name string) bool {
	return t != nil && t.Op == OpField && t.FieldVar != nil && t.FieldVar.Name() == name && (x == nil || t.Args[0] == x)
}

// structPass is one method of the struct on a path.
type structPass struct {
	ix       *Term
	m        *Term // the reflect.Method
	typ      *Term
	name     *Term
	open     bool
	sets     []*Event
	matched  Tri
	system   Tri
	declined bool
}

// interfaceOf: the value that an interface was taken of.
func interfaceOf(pt *Path, t *Term) *Term {
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Name == "(reflect.Value).Interface" && e.Res == t {
			return e.Args[0]
		}
	}
	return nil
}

// anyTerm: some term of the facts or events of the path fits.
func anyTerm(pt *Path, fits func(*Term) bool) *Term {
	var got *Term
	see := func(t *Term) bool {
		if fits(t) {
			got = t
			return true
		}
		return false
	}
	for _, e := range pt.Events {
		for _, a := range e.Args {
			if a != nil && a.any(see) {
				return got
			}
		}
		if e.Res != nil && e.Res.any(see) {
			return got
		}
	}
	for a := range pt.Facts.b {
		if a.any(see) {
			return got
		}
	}
	return nil
}

// predIs: what a predicate of the package says on this path.
func (h *handlerStruct) predIs(pt *Path, shape string, args ...*Term) Tri {
	for _, f := range h.preds[shape] {
		t := TT.mk(OpPure, f.String(), f.Signature.Results().At(0).Type(), args...)
		if v := pt.Facts.eval(t); v != Unknown {
			return v
		}
	}
	return Unknown
}

// fieldIndex: the index of the connection field on this path and whether there is one.
func (h *handlerStruct) fieldIndex(pt *Path, typ *Term) (*Term, Tri, bool) {
	for _, f := range h.preds["TT>i"] {
		idx := TT.mk(OpPure, f.String(), intT, typ, h.conn)
		neg := pt.Facts.eval(mkBin(token.LSS, idx, TT.Int(0), types.Typ[types.Bool]))
		m1 := pt.Facts.eqv(idx, TT.Int(-1))
		if neg == Unknown && m1 == Unknown {
			continue
		}
		if neg != Unknown && m1 != Unknown && neg != m1 {
			return nil, Unknown, false // it gives an index or -1
		}
		if neg == Unknown {
			neg = m1
		}
		return idx, triNot(neg), true
	}
	return nil, Unknown, true
}

func triNot(t Tri) Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// signature: the type of a method is that of a message handler of this kind of struct.
func (h *handlerStruct) signature(pt *Path, t, typ *Term, dynamic bool) Tri {
	fa := pt.Facts
	in := []*Term{typ, h.conn, h.msg}
	if dynamic {
		in = []*Term{typ, h.msg}
	}
	// as a whole
	for a, v := range fa.b {
		if a.Op != OpBin || a.Sym != "==" {
			continue
		}
		var fn *Term
		switch t {
		case a.Args[0]:
			fn = a.Args[1]
		case a.Args[1]:
			fn = a.Args[0]
		}
		if fn == nil || fn.Op != OpPure || fn.Sym != "reflect.FuncOf" || len(fn.Args) != 3 {
			continue
		}
		if fn.Args[0].Op != OpArr || fn.Args[1].Op != OpArr || len(fn.Args[0].Args) != len(in) || len(fn.Args[1].Args) != 1 || fn.Args[1].Args[0] != h.errT || !fa.is(fn.Args[2], false) {
			continue
		}
		same := true
		for i := range in {
			same = same && fn.Args[0].Args[i] == in[i]
		}
		if same {
			return tri(v)
		}
	}
	// part by part
	nin := TT.mk(OpPure, "reflect.Type.NumIn", intT, t)
	nout := TT.mk(OpPure, "reflect.Type.NumOut", intT, t)
	all := True
	part := func(v Tri) {
		if v == False {
			all = False
		} else if v == Unknown && all == True {
			all = Unknown
		}
	}
	part(fa.eqv(nin, TT.Int(int64(len(in)))))
	part(fa.eqv(nout, TT.Int(1)))
	find := func(sym string, i int, want *Term) Tri {
		for a, v := range fa.b {
			if a.Op == OpBin && a.Sym == "==" {
				for k := 0; k < 2; k++ {
					if isPure(a.Args[k], sym, t, TT.Int(int64(i))) && a.Args[1-k] == want {
						return tri(v)
					}
				}
			}
		}
		return Unknown
	}
	for i := 1; i < len(in); i++ {
		part(find("reflect.Type.In", i, in[i]))
	}
	part(find("reflect.Type.Out", 0, h.errT))
	return all
}

func (c *Chk) structEvents(h *handlerStruct) {
	f := c.p.method("Struct", "Events")
	if !c.ob(f != nil, "anchor", "Struct.Events", token.NoPos, nil, "not found") {
		return
	}
	cfg := c.structConfig(f)
	cfg.LoopMin = 1
	for _, pt := range c.explore(f, "Struct.Events", cfg) {
		if pt.Outcome == "panic" {
			continue
		}
		c.structPath(h, f, pt)
	}
}

func (c *Chk) structPath(h *handlerStruct, f *ssa.Function, pt *Path) {
	fa := pt.Facts
	self := selfOf(f)
	if complete(pt) {
		r := bare(pt.Results[0])
		if !owned(r) {
			c.ob(isFieldOf(r, self, h.evs) && fa.isNonNil(r), "methods", "Struct.Events (known)", f.Pos(), pt, "the events %s are not those of the struct", r)
			return
		}
	}
	ptr := of(self, h.ptr)
	typ := TT.mk(OpPure, "(reflect.Value).Type", nil, ptr)
	if t := anyTerm(pt, pure("(reflect.Value).Type", ptr)); t != nil {
		typ = t
	} else if t := anyTerm(pt, func(t *Term) bool { return isPure(t, "(reflect.Value).Type", nil) && isFieldOf(t.Args[0], self, h.ptr) }); t != nil {
		typ, ptr = t, t.Args[0]
	}
	idx, dyn, ok := h.fieldIndex(pt, typ)
	if !ok {
		return // cannot be
	}
	// all the methods
	var ixs []*Term
	ended := false
	for _, n := range []*Term{TT.mk(OpPure, "reflect.Type.NumMethod", intT, typ), TT.mk(OpPure, "(reflect.Value).NumMethod", intT, ptr)} {
		x, e, k := counted(pt, n)
		if e || len(x) > 0 {
			ixs, ended = x, e
			if !c.ob(k, "methods", "Struct.Events (loop)", f.Pos(), pt, "the loop over the methods cannot be followed") {
				return
			}
			break
		}
	}
	passes := map[*Term]*structPass{}
	for i, ix := range ixs {
		p := &structPass{ix: ix, open: i == len(ixs)-1 && pt.Outcome == "loop"}
		p.m = TT.mk(OpPure, "reflect.Type.Method", nil, typ, ix)
		if m := anyTerm(pt, pure("reflect.Type.Method", typ, ix)); m != nil {
			p.m = m
		}
		p.typ = anyTerm(pt, func(t *Term) bool { return fieldNamed(t, p.m, "Type") })
		p.name = anyTerm(pt, func(t *Term) bool { return fieldNamed(t, p.m, "Name") })
		passes[ix] = p
		if p.typ == nil {
			continue
		}
		if dyn != Unknown {
			p.matched = h.signature(pt, p.typ, typ, dyn == True)
		}
		if a := h.predIs(pt, "TT>b", p.typ, h.conn); p.matched == True && a != Unknown && (a == True) == (dyn == True) {
			return // such a signature has the connection exactly when the struct does not
		}
	}
	// what a method is bound to is never nil
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Name == "(reflect.Value).Interface" && isPure(e.Args[0], "(reflect.Value).Method", nil, nil) {
			if t := anyTerm(pt, func(t *Term) bool { return t.Op == OpAssert && t.Args[0] == e.Res }); t != nil && fa.isNil(t) {
				return
			}
		}
	}
	var tab *Term
	if complete(pt) {
		tab = bare(pt.Results[0])
		st := lastStore(pt, TT.mk(OpFAddr, "", nil), 0)
		_ = st
		kept := c.fieldAt(pt, self, h.evs, pt.Events[len(pt.Events)-1].Seq+1)
		c.ob(kept == nil || bare(kept) == tab || fa.isNil(kept), "methods", "Struct.Events (kept)", f.Pos(), pt, "other events are kept than given")
		c.ob(ended, "methods", "Struct.Events (all)", f.Pos(), pt, "not all methods are looked at")
	}
	var wrap *Event
	for _, e := range pt.Events {
		switch e.Kind {
		case "MapDel":
			c.ob(false, "methods", "Struct.Events (deleted)", e.Pos, pt, "an event is removed")
		case "MapSet":
			m := bare(e.Args[0])
			if !owned(m) || tab != nil && m != tab {
				continue
			}
			p, static := c.structMethod(h, pt, e, passes, ptr)
			if p == nil {
				if pt.Facts.eqStr(e.Args[1], h.connectName) && plain(e.Args[2]).Op == OpClosure {
					c.ob(wrap == nil, "instance", "Struct.Events (once)", e.Pos, pt, "the connect event is replaced twice")
					wrap = e
					continue
				}
				c.ob(false, "bound", "Struct.Events (method)", e.Pos, pt, "what is registered under %s is no method of the struct", e.Args[1])
				continue
			}
			p.sets = append(p.sets, e)
			c.ob(wrap == nil, "instance", "Struct.Events (order)", e.Pos, pt, "a method is registered after the connect event was")
			c.ob(static == (dyn == False) && dyn != Unknown, "bound", map[bool]string{true: "Struct.Events (given value)", false: "Struct.Events (instance)"}[static], e.Pos, pt, "the method is called on the wrong value")
		}
	}
	for _, ix := range ixs {
		c.structMethodPass(h, f, pt, passes[ix])
	}
	if !complete(pt) {
		return
	}
	if !c.ob(dyn != Unknown, "instance", "Struct.Events (kind)", f.Pos(), pt, "whether the struct has a connection field is not looked at") {
		return
	}
	if dyn == False {
		c.ob(wrap == nil, "instance", "Struct.Events (static)", f.Pos(), pt, "a struct without a connection field gets instances")
		return
	}
	if c.ob(wrap != nil, "instance", "Struct.Events (dynamic)", f.Pos(), pt, "a struct with a connection field gets no instance of its own") {
		c.structConnect(h, f, pt, wrap, tab, typ, ptr, idx)
	}
}

// structMethod: the method that is registered, and whether it is called on the given value.
func (c *Chk) structMethod(h *handlerStruct, pt *Path, e *Event, passes map[*Term]*structPass, ptr *Term) (*structPass, bool) {
	v := plain(e.Args[2])
	if v.Op == OpAssert {
		recv := interfaceOf(pt, v.Args[0])
		if !isPure(recv, "(reflect.Value).Method", ptr, nil) {
			return nil, false
		}
		for _, p := range passes {
			if recv.Args[1] == p.ix || fieldNamed(recv.Args[1], p.m, "Index") {
				return p, true
			}
		}
		return nil, false
	}
	if v.Op != OpClosure || v.Fn == nil {
		return nil, false
	}
	b := bindFn(pt, v, nil)
	for _, p := range passes {
		if ok, static := c.calls(h, pt, b, p, ptr); ok {
			return p, static
		}
	}
	return nil, false
}

// calls: the function calls that method with its message and returns what it does.
func (c *Chk) calls(h *handlerStruct, outer *Path, b *bindings, p *structPass, ptr *Term) (ok, static bool) {
	name := "event of " + rel(c, b.fn)
	n := 0
	if len(b.fn.Params) != 2 {
		return false, false
	}
	conn, msg := paramN(b.fn, 0), paramN(b.fn, 1)
	for _, pt := range c.explore(b.fn, name, c.structConfig(b.fn)) {
		if !complete(pt) {
			continue
		}
		var call *Event
		calls := 0
		for _, e := range pt.Events {
			if e.Kind == "Dyn" {
				call = e
				calls++
			}
		}
		if calls != 1 {
			return false, false
		}
		fn := plain(call.Args[0])
		if fn.Op != OpAssert {
			// bound outside
			v := b.get(call.Args[0])
			if v == nil || plain(v).Op != OpAssert {
				return false, false
			}
			recv := interfaceOf(outer, plain(v).Args[0])
			if !isPure(recv, "(reflect.Value).Method", ptr, nil) || recv.Args[1] != p.ix && !fieldNamed(recv.Args[1], p.m, "Index") {
				return false, false
			}
			if len(call.Args) != 3 || call.Args[1] != conn || call.Args[2] != msg || pt.Results[0] != call.Res {
				return false, false
			}
			static = true
			n++
			continue
		}
		recv := interfaceOf(pt, fn.Args[0])
		if !isPure(recv, "(reflect.Value).Method", nil, nil) || !isFieldOf(recv.Args[0], conn, h.value) {
			return false, false
		}
		at := recv.Args[1]
		is := b.is(at, p.ix)
		if v := b.get(at); v != nil && fieldNamed(v, p.m, "Index") {
			is = true
		}
		if fieldNamed(at, nil, "Index") && b.is(at.Args[0], p.m) {
			is = true
		}
		if at.Op == OpLoad && at.Args[0].Op == OpFAddr && at.Args[0].FieldVar != nil && at.Args[0].FieldVar.Name() == "Index" && b.is(at.Args[0].Args[0], p.m) {
			is = true
		}
		if !is || len(call.Args) != 2 || call.Args[1] != msg || pt.Results[0] != call.Res {
			return false, false
		}
		h.callers[b.fn] = true
		n++
	}
	return n > 0, static
}

// structMethodPass: one method is registered as it should.
func (c *Chk) structMethodPass(h *handlerStruct, f *ssa.Function, pt *Path, p *structPass) {
	fa := pt.Facts
	name := "Struct.Events "
	if len(p.sets) > 1 {
		c.ob(false, "methods", name+"(once)", p.sets[1].Pos, pt, "a method is registered twice")
	}
	if len(p.sets) == 0 {
		if p.open {
			return
		}
		switch {
		case p.matched == False:
			c.ob(true, "methods", name+"(others)", f.Pos(), pt, "")
		case p.matched == Unknown:
			c.ob(false, "methods", name+"(others)", f.Pos(), pt, "a method is left out without a look at its signature")
		default:
			d := c.declined(h, pt, f, p)
			c.ob(d && h.predIs(pt, "s>b", under(p.name)) == False, "names", name+"(left out)", f.Pos(), pt, "a message handler is not registered")
		}
		return
	}
	set := p.sets[0]
	c.ob(p.matched == True, "methods", name+"(signature)", set.Pos, pt, "a method is registered that has no message handler signature")
	if !c.ob(p.name != nil, "names", name+"(name)", set.Pos, pt, "the name of the method is not used") {
		return
	}
	key := set.Args[1]
	sys := h.predIs(pt, "s>b", under(p.name))
	asked := c.matcherCalls(h, pt, f, p)
	if !c.ob(sys != Unknown, "names", name+"(lifecycle)", set.Pos, pt, "whether the method is of a lifecycle event is not looked at") {
		return
	}
	if sys == True {
		c.ob(sameStr(pt, key, under(p.name)) && len(asked) == 0, "names", name+"(lifecycle name)", set.Pos, pt, "a lifecycle method is registered as %s", key)
		return
	}
	if h.predIs(pt, "s>b", p.name) == True {
		return // no method has such a name
	}
	m := of(selfOf(f), h.matcher)
	if len(asked) == 0 {
		nilM := fa.isNil(m)
		if t := anyTerm(pt, func(t *Term) bool { return isFieldOf(t, selfOf(f), h.matcher) }); t != nil {
			nilM = nilM || fa.isNil(t)
		}
		c.ob(nilM && key == p.name, "names", name+"(own name)", set.Pos, pt, "a method is registered as %s without asking the matcher", key)
		return
	}
	e := asked[len(asked)-1]
	c.ob(e.Seq < set.Seq && fa.is(e.Res.Args[1], true) && key == e.Res.Args[0], "names", name+"(matched name)", set.Pos, pt, "the method is registered as %s, not as the matcher says", key)
}

func under(name *Term) *Term {
	if name == nil {
		return TT.Str("_")
	}
	return mkBin(token.ADD, TT.Str("_"), name, types.Typ[types.String])
}

// matcherCalls: the matcher is asked for the name of the method.
func (c *Chk) matcherCalls(h *handlerStruct, pt *Path, f *ssa.Function, p *structPass) []*Event {
	var out []*Event
	for _, e := range pt.Events {
		if e.Kind == "Dyn" && isFieldOf(e.Args[0], selfOf(f), h.matcher) && len(e.Args) == 2 && e.Args[1] == p.name && e.Res != nil && e.Res.Op == OpTuple {
			out = append(out, e)
		}
	}
	return out
}

func (c *Chk) declined(h *handlerStruct, pt *Path, f *ssa.Function, p *structPass) bool {
	for _, e := range c.matcherCalls(h, pt, f, p) {
		if pt.Facts.is(e.Res.Args[1], false) {
			return true
		}
	}
	return false
}
