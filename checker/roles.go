package main

// Roles: which types, fields and functions of the repository play which part.
// Exported names are taken as given; unexported fields are found by name and,
// failing that, by being the only one of their type.

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Roles struct {
	nilFalse map[*ssa.Function]bool
	p        *Prog

	Conn, NSConn, Room, Message, Server, Events, Namespaces, Handler, StackEx, Socket *types.Named

	nsMap, roomMap, connWait, srvWait, connServer, closeCh, socket, nsTable *types.Var
	nsConn, nsName, nsEvents, roomNS, roomName                              *types.Var
	connID, connSID                                                         *types.Var
	mWait, mNS, mRoom, mEvent, mBody, mErr, mNoOp, mInvalid, mFrom, mFromEx, mFromSE, mTo,
	mForced, mLocal, mNative, mBinary, mIsError *types.Var
	connections          *types.Var
	readiness, processes *types.Var
	Latch, Gate, Gates   *types.Named

	services map[*ssa.Function]bool
	reads    map[*ssa.Function]bool
	outside  map[*ssa.Function]bool
	nullable map[*types.Var]bool
	nonnil   map[*types.Var]bool
	problems []string
	encoders map[*ssa.Function]bool
	rawDisp  map[*ssa.Function]bool
	uses     map[*ssa.Function]*fnUses
}

func isMapOf(t types.Type, key string, elem func(types.Type) bool) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && (key == "" || types.TypeString(m.Key(), nil) == key) && elem(m.Elem())
}

func ptrTo(n *types.Named) func(types.Type) bool {
	return func(t types.Type) bool {
		if t == nil {
			return false
		}
		p, ok := t.Underlying().(*types.Pointer)
		return ok && n != nil && types.Identical(p.Elem(), n)
	}
}

func same(n types.Type) func(types.Type) bool {
	return func(t types.Type) bool { return n != nil && types.Identical(t, n) }
}

func (r *Roles) problem(f string, a ...interface{}) {
	r.problems = append(r.problems, fmt.Sprintf(f, a...))
}

// field resolves a struct field by name, or by being the only one that fits.
func (r *Roles) field(n *types.Named, name string, fits func(types.Type) bool) *types.Var {
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		r.problem("type %s is not a struct", n.Obj().Name())
		return nil
	}
	var fit []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if fits(f.Type()) {
			if f.Name() == name {
				return f
			}
			fit = append(fit, f)
		}
	}
	if len(fit) == 1 {
		return fit[0]
	}
	if f := r.byUse(n, name, fit); f != nil {
		return f
	}
	r.problem("no field of %s plays the part of %s", n.Obj().Name(), name)
	return nil
}

// byUse: an unexported field that has another name is found by what the exported API does with it, or by being the
// one that is left.
func (r *Roles) byUse(n *types.Named, name string, fit []*types.Var) *types.Var {
	var cand []*types.Var
	for _, f := range fit {
		if !f.Exported() {
			cand = append(cand, f)
		}
	}
	used := func(where map[*ssa.Function]bool, how func(ssa.Value) bool) []*types.Var {
		var out []*types.Var
		for _, v := range cand {
			hit := false
			for f := range where {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						switch u := in.(type) {
						case *ssa.UnOp:
							if fa, ok := u.X.(*ssa.FieldAddr); ok && u.Op == token.MUL && fieldVarOf(fa) == v && how(u) {
								hit = true
							}
						case *ssa.Field:
							if st, ok := u.X.Type().Underlying().(*types.Struct); ok && st.Field(u.Field) == v && how(u) {
								hit = true
							}
						}
					}
				}
			}
			if hit {
				out = append(out, v)
			}
		}
		return out
	}
	any := func(ssa.Value) bool { return true }
	from := func(recv, method string) map[*ssa.Function]bool {
		set := map[*ssa.Function]bool{}
		var add func(*ssa.Function)
		add = func(f *ssa.Function) {
			if f != nil && !set[f] {
				set[f] = true
				for _, g := range r.p.staticRefs(f) {
					add(g)
				}
			}
		}
		add(r.p.method(recv, method))
		return set
	}
	everywhere := map[*ssa.Function]bool{}
	for _, f := range r.p.Funcs {
		everywhere[f] = true
	}
	only := func(vs []*types.Var) *types.Var {
		if len(vs) == 1 {
			return vs[0]
		}
		return nil
	}
	rest := func(but ...*types.Var) *types.Var {
		var out []*types.Var
	next:
		for _, v := range cand {
			for _, b := range but {
				if v == b {
					continue next
				}
			}
			out = append(out, v)
		}
		return only(out)
	}
	refuses := func(u ssa.Value) bool { // if it is set, the message is refused with ErrInvalidPayload
		for _, ref := range *u.Referrers() {
			br, ok := ref.(*ssa.If)
			if !ok {
				continue
			}
			for _, in := range br.Block().Succs[0].Instrs {
				ret, ok := in.(*ssa.Return)
				if !ok || len(ret.Results) == 0 {
					continue
				}
				if l, ok := ret.Results[len(ret.Results)-1].(*ssa.UnOp); ok {
					if g, ok := l.X.(*ssa.Global); ok && g.Name() == "ErrInvalidPayload" {
						return true
					}
				}
			}
		}
		return false
	}
	switch name {
	case "id":
		return only(used(from("Conn", "ID"), any))
	case "serverConnID":
		return rest(r.connID)
	case "wait":
		return only(used(from("Message", "IsWait"), any))
	case "from":
		return rest(r.mWait)
	case "isNoOp":
		return only(used(from("Message", "Serialize"), any))
	case "isInvalid":
		return only(used(everywhere, refuses))
	case "isError":
		return rest(r.mNoOp, r.mInvalid)
	}
	return nil
}

func newRoles(p *Prog) *Roles {
	r := &Roles{p: p, nilFalse: map[*ssa.Function]bool{}, services: map[*ssa.Function]bool{}, reads: map[*ssa.Function]bool{}, outside: map[*ssa.Function]bool{}, nullable: map[*types.Var]bool{}, nonnil: map[*types.Var]bool{}}
	p.service = r.service
	get := func(n string) *types.Named {
		t := p.typ(n)
		if t == nil {
			r.problem("type %s not found", n)
		}
		return t
	}
	r.Conn, r.NSConn, r.Room, r.Message, r.Server = get("Conn"), get("NSConn"), get("Room"), get("Message"), get("Server")
	r.Events, r.Namespaces, r.Handler, r.StackEx, r.Socket = get("Events"), get("Namespaces"), get("MessageHandlerFunc"), get("StackExchange"), get("Socket")
	if len(r.problems) > 0 {
		return r
	}
	isStr := func(t types.Type) bool { return isString(t) }
	isBool := same(types.Typ[types.Bool])
	chanMsg := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && types.Identical(c.Elem(), r.Message)
	}
	chanStruct := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		if !ok {
			return false
		}
		st, ok := c.Elem().Underlying().(*types.Struct)
		return ok && st.NumFields() == 0
	}
	r.nsMap = r.field(r.Conn, "connectedNamespaces", func(t types.Type) bool { return isMapOf(t, "string", ptrTo(r.NSConn)) })
	r.roomMap = r.field(r.NSConn, "rooms", func(t types.Type) bool { return isMapOf(t, "string", ptrTo(r.Room)) })
	r.connWait = r.field(r.Conn, "waitingMessages", func(t types.Type) bool { return isMapOf(t, "string", chanMsg) })
	r.srvWait = r.field(r.Server, "waitingMessages", func(t types.Type) bool { return isMapOf(t, "string", chanMsg) })
	r.connServer = r.field(r.Conn, "server", ptrTo(r.Server))
	r.closeCh = r.field(r.Conn, "closeCh", chanStruct)
	r.socket = r.field(r.Conn, "socket", same(r.Socket))
	r.nsTable = r.field(r.Conn, "namespaces", same(r.Namespaces))
	r.nsConn = r.field(r.NSConn, "Conn", ptrTo(r.Conn))
	r.nsName = r.field(r.NSConn, "namespace", isStr)
	r.nsEvents = r.field(r.NSConn, "events", same(r.Events))
	r.roomNS = r.field(r.Room, "NSConn", ptrTo(r.NSConn))
	r.roomName = r.field(r.Room, "Name", isStr)
	r.connID = r.field(r.Conn, "id", isStr)
	r.connSID = r.field(r.Conn, "serverConnID", isStr)
	r.connections = r.field(r.Server, "connections", func(t types.Type) bool {
		return isMapOf(t, "", func(types.Type) bool { return true }) && ptrTo(r.Conn)(t.Underlying().(*types.Map).Key())
	})
	m := func(n string, fits func(types.Type) bool) *types.Var { return r.field(r.Message, n, fits) }
	errT := types.Universe.Lookup("error").Type()
	r.mWait, r.mNS, r.mRoom, r.mEvent = m("wait", isStr), m("Namespace", isStr), m("Room", isStr), m("Event", isStr)
	r.mBody, r.mErr = m("Body", isBytes), m("Err", same(errT))
	r.mNoOp, r.mInvalid = m("isNoOp", isBool), m("isInvalid", isBool)
	r.mIsError = m("isError", isBool)
	r.mFrom, r.mFromEx, r.mFromSE, r.mTo = m("from", isStr), m("FromExplicit", isStr), m("FromStackExchange", isBool), m("To", isStr)
	r.mForced, r.mLocal, r.mNative, r.mBinary = m("IsForced", isBool), m("IsLocal", isBool), m("IsNative", isBool), m("SetBinary", isBool)

	r.readiness = r.field(r.Conn, "readiness", func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && p.isRepoPkg(n.Obj().Pkg()) && r.latchMethods(n)
	})
	r.processes = r.field(r.Conn, "processes", func(t types.Type) bool {
		n := namedOf(t)
		return n != nil && p.isRepoPkg(n.Obj().Pkg()) && r.gateOf(n) != nil
	})
	if r.readiness != nil {
		r.Latch = namedOf(r.readiness.Type())
	}
	if r.processes != nil {
		r.Gates = namedOf(r.processes.Type())
		r.Gate = r.gateOf(r.Gates)
	}

	r.computeNonNil()
	return r
}

var errType = types.Universe.Lookup("error").Type()

func sigIs(f *types.Func, params, results []types.Type) bool {
	sg := f.Type().(*types.Signature)
	if sg.Params().Len() != len(params) || sg.Results().Len() != len(results) {
		return false
	}
	for i, t := range params {
		if !types.Identical(sg.Params().At(i).Type(), t) {
			return false
		}
	}
	for i, t := range results {
		if !types.Identical(sg.Results().At(i).Type(), t) {
			return false
		}
	}
	return true
}

// latchMethods: give a verdict (func(error)) and wait for it (func() error).
func (r *Roles) latchMethods(n *types.Named) bool {
	give, wait := false, false
	for i := 0; i < n.NumMethods(); i++ {
		give = give || sigIs(n.Method(i), []types.Type{errType}, nil)
		wait = wait || sigIs(n.Method(i), nil, []types.Type{errType})
	}
	return give && wait
}

// gateOf: a table of gates, i.e. a struct with a map from names to objects that have Start, Done and Wait.
func (r *Roles) gateOf(n *types.Named) *types.Named {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		m, ok := st.Field(i).Type().Underlying().(*types.Map)
		if !ok {
			continue
		}
		g := namedOf(m.Elem())
		if g == nil {
			continue
		}
		have := map[string]bool{}
		for j := 0; j < g.NumMethods(); j++ {
			have[g.Method(j).Name()] = true
		}
		if have["Start"] && have["Done"] && have["Wait"] {
			return g
		}
	}
	return nil
}

// computeNonNil: fields that every construction of their struct fills.
func (r *Roles) computeNonNil() {
	built := map[*types.Named]int{}
	filled := map[*types.Var]int{}
	for _, f := range r.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				n := namedOf(al.Type())
				if n == nil || !r.p.isRepoPkg(n.Obj().Pkg()) || pointee(al.Type()) != types.Type(n) {
					continue
				}
				if _, ok := n.Underlying().(*types.Struct); !ok {
					continue
				}
				seen := map[*types.Var]bool{}
				whole := false
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						whole = true
					}
					fa, ok := ref.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					for _, rr := range *fa.Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == fa {
							if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() {
								continue
							}
							seen[fieldVarOf(fa)] = true
						}
					}
				}
				if whole {
					continue // a spilled copy of an existing value
				}
				built[n]++
				for v := range seen {
					filled[v]++
				}
			}
		}
	}
	for n, k := range built {
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if filled[st.Field(i)] == k {
				r.nonnil[st.Field(i)] = true
			}
		}
	}
}

func (r *Roles) nonNilField(v *types.Var) bool { return r.nonnil[v] }

func (r *Roles) configMap(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && (n == r.Events || n == r.Namespaces)
}

// fieldBase: t is the value of field fv of an object; gives the object.
func fieldBase(t *Term, fv *types.Var) *Term {
	if t != nil && t.Op == OpLoad && t.Args[0].Op == OpFAddr && t.Args[0].FieldVar == fv {
		return t.Args[0].Args[0]
	}
	if t != nil && t.Op == OpField && t.FieldVar == fv {
		return t.Args[0]
	}
	return nil
}

// mapElem: t is an element of the map held in field fv; gives the owner and the key (nil if not known).
func (r *Roles) mapElem(t *Term, fv *types.Var) (owner, key *Term) {
	switch t.Op {
	case OpMapVal:
		if o := fieldBase(t.Args[0], fv); o != nil {
			return o, t.Args[1]
		}
	case OpNextVal:
		if t.Args[0].Op == OpRange {
			if o := fieldBase(t.Args[0].Args[0], fv); o != nil {
				return o, t.Pair
			}
		}
	}
	return nil, nil
}

// ownerOf applies the membership invariants (established by C02 and C03):
// an element of a connection's namespaces points back to it and carries its
// own key as name; the same for rooms.
func (r *Roles) ownerOf(x *Exec, s *State, addr *Term) *Term {
	base := addr.Args[0]
	switch addr.FieldVar {
	case r.nsConn:
		if o, _ := r.mapElem(base, r.nsMap); o != nil {
			return o
		}
	case r.nsName:
		if _, k := r.mapElem(base, r.nsMap); k != nil {
			return k
		}
	case r.roomNS:
		if o, _ := r.mapElem(base, r.roomMap); o != nil {
			return o
		}
	case r.roomName:
		if _, k := r.mapElem(base, r.roomMap); k != nil {
			return k
		}
	}
	return nil
}

// hook: functions with a fixed meaning in every analysis.
func (r *Roles) hook(x *Exec, s *State, fn *ssa.Function, args []*Term) string {
	if fn.Pkg == r.p.Root {
		switch fn.Name() {
		case "Debugf", "DebugEach":
			if fn.Signature.Recv() == nil {
				return "skip"
			}
		}
	}
	return ""
}

func (r *Roles) isMethod(fn *ssa.Function, recv *types.Named, name string) bool {
	if fn.Name() != name || fn.Signature.Recv() == nil {
		return false
	}
	return namedOf(fn.Signature.Recv().Type()) == recv
}

// dispatcher: a function that gives a message to the registered handler and does nothing else.
func (r *Roles) dispatcher(fn *ssa.Function) bool {
	if v, ok := r.p.dispatch[fn]; ok {
		return v > 0
	}
	r.p.dispatch[fn] = 0
	ok := r.isDispatcher(fn)
	if ok && fn.Object() != nil && !fn.Object().Exported() {
		// the rest of a dispatcher is not one
		u := r.usesOf(fn)
		part := u.gos+u.other == 0 && len(u.callers) > 0
		for _, g := range u.callers {
			part = part && g != fn && r.isDispatcher(g)
		}
		ok = !part
	}
	if ok {
		r.p.dispatch[fn] = 1
	}
	return ok
}

func (r *Roles) isDispatcher(fn *ssa.Function) bool {
	if r.rawDisp == nil {
		r.rawDisp = map[*ssa.Function]bool{}
	}
	v, ok := r.rawDisp[fn]
	if !ok {
		r.rawDisp[fn] = false
		v = r.looksLikeDispatcher(fn)
		r.rawDisp[fn] = v
	}
	return v
}

func (r *Roles) looksLikeDispatcher(fn *ssa.Function) bool {
	if fn.Blocks == nil || fn.Parent() != nil {
		return false
	}
	var hasNS, hasMsg bool
	for _, p := range fn.Params {
		if ptrTo(r.NSConn)(p.Type()) {
			hasNS = true
		}
		if types.Identical(p.Type(), r.Message) {
			hasMsg = true
		}
	}
	res := fn.Signature.Results()
	if !hasNS || !hasMsg || res.Len() != 1 {
		return false
	}
	calls := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.MapUpdate, *ssa.Select:
				return false
			case *ssa.Store:
				// one that changes the message first is a user of the dispatcher
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == r.Message {
					return false
				}
			case *ssa.Call:
				if in.Call.IsInvoke() {
					return false
				}
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				if c := in.Call.StaticCallee(); c != nil {
					if r.p.isRepo(c) && c.Blocks != nil && (r.isDispatcher(c) || r.lookupOnly(c)) {
						if r.isDispatcher(c) {
							if refs := in.Referrers(); refs == nil || len(*refs) == 0 {
								return false // a user: it does not pass the verdict on
							}
							calls = true
						}
						continue
					}
					return false
				}
				if types.Identical(in.Call.Value.Type().Underlying(), r.Handler.Underlying()) {
					calls = true
					continue
				}
				return false
			}
		}
	}
	return calls
}

// lookupOnly: a helper without calls, stores to shared memory or channels.
func (r *Roles) lookupOnly(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.MapUpdate, *ssa.Select, *ssa.Defer:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return true
}

// baseOpaque: the calls whose bodies have rules of their own.
func (r *Roles) baseOpaque(fn *ssa.Function) string {
	switch {
	case r.isMethod(fn, r.Conn, "Close"):
		return "Close"
	case r.isMethod(fn, r.Conn, "Write"):
		return "Write"
	case r.isMethod(fn, r.Conn, "Ask"):
		return "Ask"
	case r.isMethod(fn, r.Conn, "DeserializeMessage"), fn.Pkg == r.p.Root && fn.Name() == "DeserializeMessage" && fn.Signature.Recv() == nil:
		return "Decode"
	case r.dispatcher(fn):
		return "Fire"
	case r.isErrorPredicate(fn):
		return "Pred"
	case r.isEncoder(fn):
		return "Encode"
	}
	if o, ok := fn.Object().(*types.Func); ok && fn.Signature.Recv() != nil && r.usedOutside(fn) {
		switch namedOf(fn.Signature.Recv().Type()) {
		case r.Latch:
			switch {
			case sigIs(o, []types.Type{errType}, nil):
				return "Verdict"
			case sigIs(o, nil, []types.Type{errType}):
				return "Await"
			case sigIs(o, nil, []types.Type{types.Typ[types.Bool]}):
				return "IsReady"
			}
		case r.Gate:
			switch fn.Name() {
			case "Start":
				return "GateStart"
			case "Done":
				return "GateDone"
			case "Wait":
				return "GateWait"
			}
		case r.Gates:
			if sigIs(o, []types.Type{types.Typ[types.String]}, []types.Type{types.NewPointer(r.Gate)}) {
				return "GateGet"
			}
		}
	}
	return ""
}

// usedOutside: the method is more than a helper of its own type's other methods.
func (r *Roles) usedOutside(fn *ssa.Function) bool {
	n := namedOf(fn.Signature.Recv().Type())
	if n != r.Latch && n != r.Gate && n != r.Gates {
		return true
	}
	if v, ok := r.outside[fn]; ok {
		return v
	}
	refs, out := 0, false
	for _, f := range r.p.Funcs {
		for _, g := range r.p.staticRefs(f) {
			if g != fn {
				continue
			}
			refs++
			top := f
			for top.Parent() != nil {
				top = top.Parent()
			}
			if top.Signature.Recv() == nil || namedOf(top.Signature.Recv().Type()) != n {
				out = true
			}
		}
	}
	out = out || refs == 0
	r.outside[fn] = out
	return out
}

// isErrorPredicate: a classification of an error value.
func (r *Roles) isErrorPredicate(fn *ssa.Function) bool {
	o, ok := fn.Object().(*types.Func)
	return ok && o.Exported() && fn.Signature.Recv() == nil && sigIs(o, []types.Type{errType}, []types.Type{types.Typ[types.Bool]})
}

// isEncoder: Message -> []byte.
func (r *Roles) isEncoder(fn *ssa.Function) bool {
	if fn.Parent() != nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 || !isBytes(fn.Signature.Results().At(0).Type()) {
		return false
	}
	if !types.Identical(fn.Params[0].Type(), r.Message) {
		return false
	}
	if r.encoders == nil { // what Serialize comes down to
		r.encoders = map[*ssa.Function]bool{}
		var add func(*ssa.Function)
		add = func(f *ssa.Function) {
			if f != nil && !r.encoders[f] {
				r.encoders[f] = true
				for _, g := range r.p.staticRefs(f) {
					add(g)
				}
			}
		}
		add(r.p.method("Message", "Serialize"))
	}
	return r.encoders[fn] || r.encoders[fn.Origin()]
}

func (x *Exec) show(e *Event) string {
	s := fmt.Sprintf("%s %s", e.Kind, e.Name)
	for _, a := range e.Args {
		s += " " + a.String()
	}
	if e.Res != nil && len(e.Res.Args) == 0 || e.Res != nil && e.Res.Op != OpTuple {
		s += " -> " + e.Res.String()
	}
	if len(e.Locks) > 0 {
		s += " {"
		for _, l := range e.Locks {
			s += " " + l.Addr.String()
		}
		s += " }"
	}
	if e.Gor > 0 {
		s += fmt.Sprintf(" go%d", e.Gor)
	}
	return s + " @" + x.p.pos(e.Pos)
}

// readsSocket: the function reads messages from a connection.
func (r *Roles) readsSocket(fn *ssa.Function) bool {
	v, ok := r.reads[fn]
	if !ok {
		v = r.p.reaches(fn, nil, (&Chk{p: r.p, r: r}).invokes(r.Socket, "ReadData"))
		r.reads[fn] = v
	}
	return v
}

// service: what a goroutine does for good: a loop that waits for something at every turn, or the declared
// function started with go that such a loop is a part of.
func (r *Roles) service(fn *ssa.Function) bool {
	v, ok := r.services[fn]
	if ok {
		return v
	}
	r.services[fn] = false
	v = r.loopWaits(fn)
	if v {
		v = !r.partOfStarted(fn, map[*ssa.Function]bool{})
	} else if r.started(fn) {
		seen := map[*ssa.Function]bool{}
		var has func(f *ssa.Function) bool
		has = func(f *ssa.Function) bool {
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, g := range r.p.staticRefs(f) {
				if r.p.isRepo(g) && r.partOfStarted(g, map[*ssa.Function]bool{}) && (r.loopWaits(g) || has(g)) {
					return true
				}
			}
			return false
		}
		v = has(fn)
	}
	r.services[fn] = v
	return v
}

// uses of a function: by go statements, by plain calls of declared functions, and in any other way.
type fnUses struct {
	gos, other int
	callers    []*ssa.Function
}

func (r *Roles) usesOf(fn *ssa.Function) *fnUses {
	if r.uses == nil {
		r.uses = map[*ssa.Function]*fnUses{}
		for _, f := range r.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for i, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						u := r.uses[g]
						if u == nil {
							u = &fnUses{}
							r.uses[g] = u
						}
						ci, isCall := in.(ssa.CallInstruction)
						_, isGo := in.(*ssa.Go)
						_, isPlain := in.(*ssa.Call)
						switch direct := isCall && i == 0 && ci.Common().StaticCallee() == g; {
						case direct && isGo:
							u.gos++
						case direct && isPlain:
							u.callers = append(u.callers, f)
						default:
							u.other++
						}
					}
				}
			}
		}
	}
	if u := r.uses[fn]; u != nil {
		return u
	}
	return &fnUses{}
}

// started: a declared function that is only started with go.
func (r *Roles) started(fn *ssa.Function) bool {
	u := r.usesOf(fn)
	return r.p.isRepo(fn) && fn.Parent() == nil && u.gos > 0 && u.other == 0 && len(u.callers) == 0
}

// partOfStarted: only called by such functions.
func (r *Roles) partOfStarted(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	u := r.usesOf(fn)
	if seen[fn] || fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() || u.gos > 0 || u.other > 0 || len(u.callers) == 0 {
		return false
	}
	seen[fn] = true
	for _, g := range u.callers {
		if !r.started(g) && !r.partOfStarted(g, seen) {
			return false
		}
	}
	return true
}

func (r *Roles) loopWaits(fn *ssa.Function) (v bool) {
	read := (&Chk{p: r.p, r: r}).invokes(r.Socket, "ReadData")
	waits := func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.Select:
			return in.Blocking
		case *ssa.UnOp:
			return in.Op == token.ARROW
		}
		return read(in)
	}
	if r.p.isRepo(fn) {
		for _, body := range r.p.loopsOf(fn) {
			for b := range body {
				for _, in := range b.Instrs {
					if waits(in) {
						v = true
					}
					if ci, ok := in.(*ssa.Call); ok {
						if g := ci.Call.StaticCallee(); g != nil && r.p.isRepo(g) && r.baseOpaque(g) == "" && r.p.reaches(g, func(h *ssa.Function) bool { return r.baseOpaque(h) != "" }, waits) {
							v = true
						}
					}
				}
			}
		}
	}
	return v
}

// readsDirectly: the function reads messages from a connection other than by a service.
func (r *Roles) readsDirectly(fn *ssa.Function) bool {
	return r.p.reaches(fn, r.service, (&Chk{p: r.p, r: r}).invokes(r.Socket, "ReadData"))
}
