package main

// Vocabulary of the rules: what the events of a path mean in this system.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// explore analyses an entry point and returns its paths.
func (c *Chk) explore(root *ssa.Function, name string, cfg Config) []*Path {
	if root == nil {
		c.ob(false, "anchor", name, token.NoPos, nil, "entry point %s not found", name)
		return nil
	}
	key := fmt.Sprintf("%s|%s|%d|%v", root.String(), name, cfg.LoopMin, cfg.NoInlineGo)
	if x, ok := c.cache[key]; ok {
		return x.paths
	}
	x := &Exec{p: c.p, r: c.r, cfg: cfg, visited: c.visited, fns: c.fns}
	x.Run(root)
	c.cache[key] = x
	c.roots[root.RelString(c.p.Root.Pkg)] = len(x.paths)
	c.paths += len(x.paths)
	c.forks += x.nForks
	if x.over != "" {
		c.undecided("%s: %s", root.RelString(c.p.Root.Pkg), x.over)
		return nil
	}
	for _, pt := range x.paths {
		if pt.Outcome == "stuck" {
			last := "?"
			if n := len(pt.Events); n > 0 {
				last = c.p.pos(pt.Events[n-1].Pos)
			}
			_ = last
		}
	}
	return x.paths
}

func (c *Chk) base() Config { return Config{Opaque: c.r.baseOpaque} }

// except: the usual opaque calls without some kinds.
func (c *Chk) except(kinds ...string) Config {
	return Config{Opaque: func(fn *ssa.Function) string {
		k := c.r.baseOpaque(fn)
		for _, e := range kinds {
			if k == e {
				return ""
			}
		}
		return k
	}}
}

// plus: the usual opaque calls and exported methods of Conn treated as one step.
func (c *Chk) plus(extra map[*ssa.Function]string) Config {
	return Config{Opaque: func(fn *ssa.Function) string {
		if k, ok := extra[fn]; ok {
			return k
		}
		return c.r.baseOpaque(fn)
	}}
}

// ---- terms ----

func structIndex(t types.Type, fv *types.Var) int {
	if t == nil {
		return -1
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == fv {
			return i
		}
	}
	return -1
}

// mf is a field of a struct value.
func mf(t *Term, fv *types.Var) *Term {
	if t == nil || fv == nil {
		return nil
	}
	if t.Op == OpStruct {
		if i := structIndex(t.Typ, fv); i >= 0 {
			return t.Args[i]
		}
		return nil
	}
	r := TT.mk(OpField, fv.Name(), fv.Type(), t)
	r.FieldVar = fv
	return r
}

// of is the value of a stable field of an object.
func of(obj *Term, fv *types.Var) *Term {
	if obj == nil || fv == nil {
		return nil
	}
	a := TT.mk(OpFAddr, fv.Name(), types.NewPointer(fv.Type()), obj)
	a.FieldVar = fv
	t := TT.mk(OpLoad, "stable", fv.Type(), a)
	t.Stable = true
	return t
}

// isFieldOf: t was read from field fv of obj.
func isFieldOf(t, obj *Term, fv *types.Var) bool {
	return t != nil && fieldBase(t, fv) == obj
}

// part of a byte sequence.
type part struct {
	lit  string
	term *Term
}

func flatten(t *Term) []part {
	var out []part
	add := func(p part) {
		if p.term == nil {
			if p.lit == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].term == nil {
				out[n-1].lit += p.lit
				return
			}
		}
		out = append(out, p)
	}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil {
			add(part{term: t})
			return
		}
		if d > 40 {
			add(part{term: t})
			return
		}
		switch t.Op {
		case OpNil:
			return
		case OpConst:
			if s, ok := t.StrVal(); ok {
				add(part{lit: s})
				return
			}
		case OpConv:
			if len(t.Args) == 1 && (isString(t.Typ) || isBytes(t.Typ)) {
				a := t.Args[0]
				if isString(a.Typ) || isBytes(a.Typ) {
					rec(a, d+1)
					return
				}
				if isInteger(a.Typ) {
					add(part{term: a})
					return
				}
			}
		case OpArr:
			if isBytes(t.Typ) || t.Typ == nil {
				for _, a := range t.Args {
					if i, ok := a.IntVal(); ok {
						add(part{lit: string([]byte{byte(i)})})
					} else {
						add(part{term: a})
					}
				}
				return
			}
		case OpAlloc:
			if t.Sym == "makeslice" && len(t.Args) > 0 {
				if n, ok := t.Args[0].IntVal(); ok && n == 0 {
					return // room for what is appended to it
				}
			}
		case OpAppend:
			rec(t.Args[0], d+1)
			rec(t.Args[1], d+1)
			return
		case OpBin:
			if t.Sym == "+" && isString(t.Typ) {
				rec(t.Args[0], d+1)
				rec(t.Args[1], d+1)
				return
			}
		case OpPure:
			switch t.Sym {
			case "fmt.Sprintf":
				if ps := formatted(t); ps != nil {
					for _, p := range ps {
						if p.term != nil {
							rec(p.term, d+1)
						} else {
							add(p)
						}
					}
					return
				}
			case "concat":
				rec(t.Args[0], d+1)
				rec(t.Args[1], d+1)
				return
			case "bytes.Join", "strings.Join":
				if t.Args[0].Op == OpArr {
					for i, a := range t.Args[0].Args {
						if i > 0 {
							rec(t.Args[1], d+1)
						}
						rec(a, d+1)
					}
					return
				}
			case "bytes.Repeat", "strings.Repeat":
				if n, ok := t.Args[1].IntVal(); ok && n >= 0 && n < 64 {
					for i := int64(0); i < n; i++ {
						rec(t.Args[0], d+1)
					}
					return
				}
			}
		}
		add(part{term: t})
	}
	rec(t, 0)
	return out
}

// formatted: the parts of a formatted string of strings.
func formatted(t *Term) []part {
	if len(t.Args) != 2 || t.Args[1].Op != OpArr {
		return nil
	}
	f, ok := t.Args[0].StrVal()
	if !ok {
		return nil
	}
	out := []part{}
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, part{lit: f[i : i+1]})
			continue
		}
		i++
		if i == len(f) {
			return nil
		}
		switch f[i] {
		case '%':
			out = append(out, part{lit: "%"})
		case 's', 'v', 'd':
			if n == len(t.Args[1].Args) {
				return nil
			}
			a := t.Args[1].Args[n]
			for a.Op == OpIface {
				a = a.Args[0]
			}
			if b, ok := a.Typ.(*types.Basic); ok && f[i] != 's' && b.Info()&types.IsInteger != 0 {
				fn := "strconv.FormatInt"
				if b.Info()&types.IsUnsigned != 0 {
					fn = "strconv.FormatUint"
				}
				out = append(out, part{term: TT.mk(OpPure, fn, types.Typ[types.String], a, TT.Int(10))})
				n++
				continue
			}
			if f[i] == 'd' {
				return nil
			}
			if a.Typ == nil || types.TypeString(a.Typ, nil) != "string" && !(f[i] == 's' && types.TypeString(a.Typ, nil) == "[]byte") {
				return nil
			}
			out = append(out, part{term: a})
			n++
		default:
			return nil
		}
	}
	if n != len(t.Args[1].Args) {
		return nil
	}
	return out
}

func showParts(ps []part) string {
	var s []string
	for _, p := range ps {
		if p.term != nil {
			s = append(s, p.term.String())
		} else {
			s = append(s, fmt.Sprintf("%q", p.lit))
		}
	}
	return strings.Join(s, " ")
}

// ---- events ----

type fire struct {
	ev      *Event
	ns, msg *Term
	events  *Term
	name    *Term
	res     *Term
}

func (c *Chk) argOf(e *Event, fits func(types.Type) bool) *Term {
	for i, a := range e.Args {
		var t types.Type
		if e.Fn != nil && i < len(e.Fn.Params) {
			t = e.Fn.Params[i].Type()
		} else if a != nil {
			t = a.Typ
		}
		if t != nil && fits(t) {
			return a
		}
	}
	return nil
}

func (c *Chk) isMsg(t types.Type) bool { return types.Identical(t, c.r.Message) }

func (c *Chk) fires(pt *Path) []fire {
	var out []fire
	for _, e := range pt.Events {
		if e.Kind != "Fire" {
			continue
		}
		f := fire{ev: e, res: e.Res}
		f.ns = c.argOf(e, ptrTo(c.r.NSConn))
		f.msg = c.argOf(e, c.isMsg)
		f.events = c.argOf(e, func(t types.Type) bool { return types.Identical(t, c.r.Events) })
		if f.msg != nil {
			f.name = mf(f.msg, c.r.mEvent)
		}
		out = append(out, f)
	}
	return out
}

// ev gives the text of an event constant of the package.
func (c *Chk) evName(name string) string {
	g, _ := c.p.Root.Members[name].(*ssa.Global)
	if g != nil {
		if t, ok := c.p.globals[g]; ok {
			if s, ok := t.StrVal(); ok {
				return s
			}
		}
	}
	if k, ok := c.p.Root.Members[name].(*ssa.NamedConst); ok && k.Value.Value != nil && k.Value.Value.Kind() == constant.String {
		return constant.StringVal(k.Value.Value)
	}
	c.ob(false, "anchor", name, token.NoPos, nil, "event name %s is not a fixed string", name)
	return "\x00" + name
}

func (c *Chk) isEv(pt *Path, t *Term, name string) bool {
	return t != nil && pt.Facts.eqStr(t, c.evName(name))
}
func (c *Chk) notEv(pt *Path, t *Term, name string) bool {
	return t != nil && pt.Facts.neStr(t, c.evName(name))
}

// mapOwner: m is the map in field fv of the result.
func mapOwner(m *Term, fv *types.Var) *Term { return fieldBase(m, fv) }

// lookups of map field fv of owner under key.
func (c *Chk) gets(pt *Path, fv *types.Var, owner, key *Term) []*Event {
	var out []*Event
	for _, e := range pt.Events {
		if e.Kind == "MapGet" && mapOwner(e.Args[0], fv) != nil && (owner == nil || mapOwner(e.Args[0], fv) == owner) && (key == nil || sameStr(pt, e.Args[1], key)) {
			out = append(out, e)
		}
	}
	return out
}

func sameStr(pt *Path, a, b *Term) bool {
	if a == b {
		return true
	}
	return a != nil && b != nil && pt.Facts.equal(a, b) == True
}

func present(pt *Path, e *Event) bool {
	v, ok := e.Res.Args[0], e.Res.Args[1]
	return pt.Facts.is(ok, true) || pt.Facts.isNonNil(v) || sameAs(pt, v, true)
}

// sameAs: the value was found to be (or not to be) some object.
func sameAs(pt *Path, v *Term, is bool) bool {
	for a, b := range pt.Facts.b {
		if b != is || a.Op != OpBin || a.Sym != "==" {
			continue
		}
		if a.Args[0] == v && pt.Facts.isNonNil(a.Args[1]) || a.Args[1] == v && pt.Facts.isNonNil(a.Args[0]) {
			return true
		}
	}
	return false
}

// inHold: what the table held for the key, looked up in the same hold of the owner's lock in which e changes it.
func (c *Chk) inHold(pt *Path, fv *types.Var, e *Event) Tri {
	owner := mapOwner(e.Args[0], fv)
	for _, g := range c.gets(pt, fv, owner, e.Args[1]) {
		if g.Seq > e.Seq || !heldThrough(pt, owner, g.Seq, e.Seq) {
			continue
		}
		switch {
		case present(pt, g):
			return True
		case absent(pt, g):
			return False
		}
	}
	return Unknown
}

// goneAfter: after seq the table was found not to hold the membership any more.
func (c *Chk) goneAfter(pt *Path, fv *types.Var, owner, key *Term, seq int) bool {
	for _, g := range c.gets(pt, fv, owner, key) {
		if g.Seq > seq && (absent(pt, g) || sameAs(pt, g.Res.Args[0], false)) {
			return true
		}
	}
	return false
}

func absent(pt *Path, e *Event) bool {
	v, ok := e.Res.Args[0], e.Res.Args[1]
	return pt.Facts.is(ok, false) || pt.Facts.isNil(v)
}

// isSide: +1 server, -1 client, 0 unknown.
func (c *Chk) side(pt *Path, conn *Term) int {
	s := of(conn, c.r.connServer)
	switch pt.Facts.nilness(s) {
	case True:
		return -1
	case False:
		return 1
	}
	return 0
}

func isWire(e *Event) bool {
	return e.Kind == "Invoke" && (e.Name == "neffos.Socket.WriteText" || e.Name == "neffos.Socket.WriteBinary")
}

// cellOf: the address is (or is held in) field fv of obj, possibly through a pointer; gives fv's owner.
func cellField(a *Term) (*types.Var, *Term) {
	for a != nil {
		switch a.Op {
		case OpFAddr:
			return a.FieldVar, a.Args[0]
		case OpLoad:
			a = a.Args[0]
			continue
		}
		return nil, nil
	}
	return nil, nil
}

// zeroRead: the atomic read gave zero/false.
func zeroRead(pt *Path, res *Term) bool {
	if res.Typ != nil && isInteger(res.Typ) {
		lo, hi := pt.Facts.rng(res)
		return lo == 0 && hi == 0 || pt.Facts.eqv(res, TT.Int(0)) == True || (hi == 0 && isUnsigned(res.Typ))
	}
	return pt.Facts.is(res, false)
}
func nonZeroRead(pt *Path, res *Term) bool {
	if res.Typ != nil && isInteger(res.Typ) {
		lo, _ := pt.Facts.rng(res)
		return lo >= 1 || pt.Facts.eqv(res, TT.Int(0)) == False
	}
	return pt.Facts.is(res, true)
}

func isOne(t *Term) bool {
	if i, ok := t.IntVal(); ok {
		return i == 1
	}
	b, ok := t.BoolVal()
	return ok && b
}
func isZero(t *Term) bool {
	if i, ok := t.IntVal(); ok {
		return i == 0
	}
	b, ok := t.BoolVal()
	return ok && !b
}

// fnName names the function an event belongs to, for reports.
func (c *Chk) fnName(e *Event) string {
	if e.Ctx == nil {
		return "?"
	}
	return e.Ctx.Fn.RelString(c.p.Root.Pkg)
}

func rel(c *Chk, f *ssa.Function) string { return f.RelString(c.p.Root.Pkg) }

// complete: the path ran to its end.
func complete(pt *Path) bool { return pt.Outcome == "return" }

// lastStore gives the value stored last into the cell before seq.
func lastStore(pt *Path, addr *Term, seq int) *Term {
	var v *Term
	for _, e := range pt.Events {
		if e.Seq >= seq {
			break
		}
		if e.Kind == "Store" && e.Args[0] == addr {
			v = e.Args[1]
		}
	}
	return v
}

func (c *Chk) fieldAt(pt *Path, obj *Term, fv *types.Var, seq int) *Term {
	a := TT.mk(OpFAddr, fv.Name(), types.NewPointer(fv.Type()), obj)
	if v := lastStore(pt, a, seq); v != nil {
		return v
	}
	return nil
}

// ---- call graph ----

// callees of an instruction (static, closures, and function values taken).
func (p *Prog) staticRefs(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if fn, ok := (*op).(*ssa.Function); ok {
					out = append(out, fn)
					if fn.Synthetic != "" && fn != f {
						out = append(out, p.staticRefs(fn)...) // a bound method or thunk
					}
				}
			}
		}
	}
	return out
}

// reaches: some function reachable from f (static references, not crossing stop) satisfies pred.
func (p *Prog) reaches(f *ssa.Function, stop func(*ssa.Function) bool, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] || f.Blocks == nil || !(p.isRepo(f) || f.Synthetic != "") {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					return true
				}
			}
		}
		for _, g := range p.staticRefs(f) {
			if stop != nil && stop(g) {
				continue
			}
			if rec(g) {
				return true
			}
		}
		return false
	}
	return rec(f)
}

func isTestFile(p *Prog, f *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, "_test.go")
}

// entryPoints: exported functions and methods, targets of go statements, and functions whose address is
// taken; everything else is analysed inside its callers.
func (p *Prog) entryPoints() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					if g := p.goTarget(in); g != nil && p.isRepo(g) {
						set[g] = true
						if w := in.Call.StaticCallee(); w != g {
							called[w] = true // analysed where it is started
						}
					}
				case *ssa.Call:
					if g := in.Call.StaticCallee(); g != nil {
						called[g] = true
					}
				case *ssa.Defer:
					if g := in.Call.StaticCallee(); g != nil {
						called[g] = true
					}
				}
			}
		}
	}
	for g := range p.takenInPlace() {
		called[g] = true
	}
	for _, f := range p.Funcs {
		if isTestFile(p, f) {
			continue
		}
		if f.Parent() == nil && f.Object() != nil && f.Object().Exported() {
			set[f] = true
		}
		if !called[f] && !p.runInPlace(f) || p.service != nil && p.service(f) {
			set[f] = true
		}
	}
	var out []*ssa.Function
	for f := range set {
		if f.Blocks != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// takenInPlace: declared functions and methods whose value is taken, and only
// to be called in the function that takes it.
func (p *Prog) takenInPlace() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					fn, ok := (*op).(*ssa.Function)
					if !ok || fn.Parent() != nil {
						continue
					}
					if ci, ok := in.(ssa.CallInstruction); ok && i == 0 && ci.Common().Value == ssa.Value(fn) {
						continue // a plain call
					}
					var here bool
					if mc, ok := in.(*ssa.MakeClosure); ok {
						here = p.onlyCalled(mc, map[ssa.Value]bool{})
					} else {
						here = p.calledBy(in, fn, map[ssa.Value]bool{})
					}
					targets := []*ssa.Function{fn}
					if fn.Synthetic != "" {
						targets = p.staticRefs(fn) // a bound method or thunk
					}
					for _, g := range targets {
						if was, ok := out[g]; ok {
							here = here && was
						}
						out[g] = here
					}
				}
			}
		}
	}
	for g, here := range out {
		if !here {
			delete(out, g)
		}
	}
	return out
}

// runInPlace: a function literal that is only given to repository functions which do nothing with
// it but call it, so it is analysed as part of those calls.
func (p *Prog) runInPlace(f *ssa.Function) bool {
	par := f.Parent()
	if par == nil {
		return false
	}
	n := 0
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				n++
				if !p.onlyCalled(mc, map[ssa.Value]bool{}) {
					return false
				}
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(f) {
					n++
					if !p.calledBy(in, f, map[ssa.Value]bool{}) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func (p *Prog) onlyCalled(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, in := range *refs {
		if !p.calledBy(in, v, seen) {
			return false
		}
	}
	return true
}

// calledBy: the instruction uses the function value only to call it here and now.
func (p *Prog) calledBy(in ssa.Instruction, v ssa.Value, seen map[ssa.Value]bool) bool {
	var cc *ssa.CallCommon
	switch in := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Call:
		cc = &in.Call
	case *ssa.Defer:
		cc = &in.Call
	case *ssa.ChangeType:
		return p.onlyCalled(in, seen)
	case *ssa.Phi:
		return p.onlyCalled(in, seen)
	default:
		return false
	}
	if cc.IsInvoke() {
		return false
	}
	g := cc.StaticCallee()
	for i, a := range cc.Args {
		if a != v {
			continue
		}
		if g == nil {
			return false
		}
		if g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && g.Name() == "Do" {
			continue
		}
		if g.Blocks == nil || !p.isRepo(g) || i >= len(g.Params) || !p.onlyCalled(g.Params[i], seen) {
			return false
		}
	}
	return true
}
