package main

// C02, C03: how memberships come into being.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C02"] = checkC02
	checks["C03"] = checkC03
}

type kind struct {
	what         string
	fv           *types.Var // the membership map
	elem         *types.Named
	ownerF       *types.Var // field of the member that points to the owner
	nameF        *types.Var
	reqEv, okEv  string
	keyF         *types.Var // message field that names it
	rootTyp, api string
}

func (c *Chk) nsKind() kind {
	r := c.r
	return kind{"namespace", r.nsMap, r.NSConn, r.nsConn, r.nsName, "OnNamespaceConnect", "OnNamespaceConnected", r.mNS, "Conn", "Connect"}
}
func (c *Chk) roomKind() kind {
	r := c.r
	return kind{"room", r.roomMap, r.Room, r.roomNS, r.roomName, "OnRoomJoin", "OnRoomJoined", r.mRoom, "NSConn", "JoinRoom"}
}

// member map updates, by the type of the map.
func isMemberMap(t types.Type, elem *types.Named) bool {
	return isMapOf(t, "string", ptrTo(elem))
}

func (c *Chk) mutates(elem *types.Named, set, del bool) func(ssa.Instruction) bool {
	return func(in ssa.Instruction) bool {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return set && isMemberMap(in.Map.Type(), elem)
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
				return del && isMemberMap(in.Call.Args[0].Type(), elem)
			}
		case *ssa.Defer:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
				return del && isMemberMap(in.Call.Args[0].Type(), elem)
			}
		}
		return false
	}
}

// rootsFor: the entry points from which such an instruction is reached without passing
// another entry point that is analysed on its own.
func (c *Chk) rootsFor(pred func(ssa.Instruction) bool, own ...string) []*ssa.Function {
	stop := func(f *ssa.Function) bool {
		k := c.r.baseOpaque(f)
		return k == "Write" || k == "Ask" || k == "Close" || k == "Fire" || k == "Decode" || k == "Encode"
	}
	h := c.p.method("Conn", "HandlePayload")
	var out []*ssa.Function
	for _, f := range c.p.entryPoints() {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) {
			continue
		}
		if c.p.reaches(f, func(g *ssa.Function) bool { return (stop(g) || g == h) && g != f }, pred) {
			out = append(out, f)
		}
	}
	return out
}

// rootConfig: the usual steps; the entry point itself is opened up.
func (c *Chk) rootConfig(root *ssa.Function) Config {
	h := c.p.method("Conn", "HandlePayload")
	return Config{Opaque: func(fn *ssa.Function) string {
		if fn == root {
			return ""
		}
		if fn == h {
			return "Handle"
		}
		return c.r.baseOpaque(fn)
	}}
}

func (c *Chk) covered(rule string, pred func(ssa.Instruction) bool) {
	for _, f := range c.p.Funcs {
		if fnPkg(f) != c.p.Root || isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					c.ob(c.visited[in], rule, "covered: "+rel(c, f), in.Pos(), nil, "no analysed entry point reaches this")
				}
			}
		}
	}
}

type ask struct {
	ev        *Event
	conn, msg *Term
	name      *Term
	err       *Term
}

func (c *Chk) asks(pt *Path) []ask {
	var out []ask
	for _, e := range pt.Events {
		if e.Kind != "Ask" {
			continue
		}
		a := ask{ev: e, conn: e.Args[0], msg: c.argOf(e, c.isMsg)}
		a.name = mf(a.msg, c.r.mEvent)
		if e.Res.Op == OpTuple && len(e.Res.Args) == 2 {
			a.err = e.Res.Args[1]
		}
		out = append(out, a)
	}
	return out
}

func isReplyPath(pt *Path) *Term {
	for _, e := range pt.Events {
		if e.Kind == "Decode" {
			return e.Res
		}
	}
	return nil
}

// connOf gives the connection that owns the membership map's owner.
func (c *Chk) connOf(k kind, owner *Term) *Term {
	if k.what == "namespace" {
		return owner
	}
	if o, _ := c.r.mapElem(owner, c.r.nsMap); o != nil {
		return o
	}
	return of(owner, c.r.nsConn)
}

func (c *Chk) nsNameOf(owner *Term) *Term {
	if _, k := c.r.mapElem(owner, c.r.nsMap); k != nil {
		return k
	}
	return of(owner, c.r.nsName)
}

func checkC02(c *Chk) {
	c.membership(c.nsKind())
	c.answeredAs("OnNamespaceConnect")
}
func checkC03(c *Chk) {
	c.membership(c.roomKind())
	c.answeredAs("OnRoomJoin")
}

// answeredAs: what the remote side is told about its request is what happened (see C05).
func (c *Chk) answeredAs(reqs ...string) {
	c.rule("answered", "the remote side's "+strings.Join(reqs, " or ")+" request is answered with success exactly when the membership is as asked, after the change, and with the refusal otherwise")
	c.borrow("C05", func(rule, construct string) string {
		for _, q := range reqs {
			if rule == "verdict" && strings.HasPrefix(construct, q+" (") {
				return "answered"
			}
		}
		return ""
	})
	c.need("answered", 3)
}

func (c *Chk) membership(k kind) {
	r := c.r
	c.rule("agreed", "a "+k.what+" is entered into the membership table only as a new object for that owner and key, after a lookup found it missing, and again in the hold of the lock that enters it, after the local "+k.reqEv+" callback returned nil and, unless answering a request, after Ask returned without error; a namespace must be declared")
	c.rule("announced", "each new membership fires "+k.okEv+" exactly once, after it is in the table; it is fired in no other case")
	c.rule("result", k.api+" returns the new membership, or the one already there without asking or firing anything, or the one that came about meanwhile, or the refusal's own error without a membership")
	c.rule("granted", "when everybody accepted, the membership is entered, unless there is one meanwhile or the connection was found closed")
	c.rule("forged", "no event named by the remote side is dispatched as connected, joined or left")
	pred := c.mutates(k.elem, true, false)
	roots := c.rootsFor(pred)
	handle := c.p.method("Conn", "HandlePayload")
	api := c.p.method(k.rootTyp, k.api)
	seenAPI, seenHandle := false, false
	for _, root := range roots {
		seenAPI = seenAPI || root == api
		seenHandle = seenHandle || root == handle
		name := rel(c, root)
		for _, pt := range c.explore(root, "root:"+root.Name(), c.rootConfig(root)) {
			c.memberPath(k, root, name, pt, root == api)
		}
	}
	c.ob(seenAPI, "anchor", k.rootTyp+"."+k.api, token.NoPos, nil, "it enters no membership")
	c.ob(seenHandle, "anchor", "Conn.HandlePayload", token.NoPos, nil, "it enters no membership")
	// remote events: also on paths without a membership change
	for _, pt := range c.explore(handle, "root:HandlePayload", c.rootConfig(handle)) {
		c.forged(pt)
	}
	c.covered("agreed", pred)
	c.need("agreed", 6)
	c.need("announced", 2)
	c.need("forged", 3)
	_ = r
}

func (c *Chk) forged(pt *Path) {
	in := isReplyPath(pt)
	if in == nil {
		return
	}
	for _, f := range c.fires(pt) {
		if f.name == nil {
			c.ob(false, "forged", c.fnName(f.ev), f.ev.Pos, pt, "dispatch without a message")
			continue
		}
		if f.name.Op == OpConst {
			continue // judged by the announced rules
		}
		if f.name == mf(in, c.r.mEvent) && pt.Facts.is(mf(in, c.r.mNative), true) {
			continue // a native message has the native event (C12)
		}
		ok := c.notEv(pt, f.name, "OnNamespaceConnected") && c.notEv(pt, f.name, "OnRoomJoined") && c.notEv(pt, f.name, "OnRoomLeft")
		c.ob(ok, "forged", c.fnName(f.ev), f.ev.Pos, pt, "the remote side can name the event: %s", f.name)
	}
}

func (c *Chk) memberPath(k kind, root *ssa.Function, name string, pt *Path, isAPI bool) {
	r := c.r
	fires, asks := c.fires(pt), c.asks(pt)
	reply := isReplyPath(pt) != nil
	var sets []*Event
	for _, e := range pt.Events {
		if e.Kind != "MapSet" || !isMemberMap(e.Args[0].Typ, k.elem) {
			continue
		}
		if e.Flag { // a table nobody else can see
			if o := rootOf(e.Args[0]); o.Op == OpAlloc {
				// is it the table of a new connection (native-only construction) or a plain result map?
				c.nativeOnly(k, pt, e, name)
				continue
			}
		}
		sets = append(sets, e)
	}
	for _, e := range sets {
		owner, key, val := mapOwner(e.Args[0], k.fv), e.Args[1], e.Args[2]
		where := c.fnName(e)
		if !c.ob(owner != nil, "agreed", where+" (table)", e.Pos, pt, "a membership is entered into a table of unknown owner") {
			continue
		}
		conn := c.connOf(k, owner)
		c.ob(val.Op == OpAlloc && namedOf(val.Typ) == k.elem, "agreed", where+" (new)", e.Pos, pt, "the membership entered is not a new object: %s", val)
		ow, nm := c.fieldAt(pt, val, k.ownerF, e.Seq), c.fieldAt(pt, val, k.nameF, e.Seq)
		c.ob(ow == owner && nm != nil && sameStr(pt, nm, key), "agreed", where+" (identity)", e.Pos, pt, "the membership belongs to %s and is named %s", ow, nm)
		missing := false
		firstFire := e.Seq
		for _, f := range fires {
			if f.ev.Seq < firstFire && c.isEv(pt, f.name, k.reqEv) {
				firstFire = f.ev.Seq
			}
		}
		for _, g := range c.gets(pt, k.fv, owner, key) {
			if g.Seq < firstFire && absent(pt, g) {
				missing = true
			}
		}
		c.ob(missing, "agreed", where+" (not yet)", e.Pos, pt, "it was not checked that there is no such membership yet")
		c.ob(c.inHold(pt, k.fv, e) == False, "agreed", where+" (meanwhile)", e.Pos, pt, "a membership that came about meanwhile is replaced")
		if k.what == "namespace" {
			declared := false
			for _, g := range pt.Events {
				if g.Kind == "MapGet" && g.Seq < e.Seq && fieldBase(g.Args[0], r.nsTable) == conn && sameStr(pt, g.Args[1], key) && present(pt, g) {
					if ev := c.fieldAt(pt, val, r.nsEvents, e.Seq); ev == g.Res.Args[0] {
						declared = true
					}
				}
			}
			c.ob(declared, "agreed", where+" (declared)", e.Pos, pt, "the namespace was not found among the declared ones, or the membership has other events")
		}
		accepted, n := false, 0
		for _, f := range fires {
			if !c.isEv(pt, f.name, k.reqEv) || f.ev.Seq > e.Seq {
				continue
			}
			n++
			okNS := f.ns == val
			if k.what == "room" {
				okNS = f.ns == owner && sameStr(pt, mf(f.msg, r.mNS), c.nsNameOf(owner))
			}
			if okNS && sameStr(pt, mf(f.msg, k.keyF), key) && pt.Facts.isNil(f.res) {
				accepted = true
			}
		}
		c.ob(accepted && n == 1, "agreed", where+" (local callback)", e.Pos, pt, "the local %s callback did not accept exactly once before", k.reqEv)
		if !reply {
			ok := false
			for _, a := range asks {
				if a.ev.Seq < e.Seq && c.isEv(pt, a.name, k.reqEv) && a.conn == conn && sameStr(pt, mf(a.msg, k.keyF), key) && a.err != nil && pt.Facts.isNil(a.err) {
					if k.what == "room" && !sameStr(pt, mf(a.msg, r.mNS), c.nsNameOf(owner)) {
						continue
					}
					ok = true
				}
			}
			c.ob(ok, "agreed", where+" (remote answer)", e.Pos, pt, "the remote side was not asked, or did not agree")
		}
		if complete(pt) {
			n := 0
			for _, f := range fires {
				okNS := f.ns == val
				if k.what == "room" {
					okNS = f.ns == owner && sameStr(pt, mf(f.msg, r.mRoom), key)
				}
				if c.isEv(pt, f.name, k.okEv) && okNS && sameStr(pt, mf(f.msg, k.keyF), key) {
					if f.ev.Seq > e.Seq {
						n++
					} else {
						n += 100
					}
				}
			}
			c.ob(n == 1, "announced", where, e.Pos, pt, "%s is not fired exactly once after the membership is in effect", k.okEv)
		}
	}
	// notifications without a membership
	for _, f := range fires {
		if !c.isEv(pt, f.name, k.okEv) {
			continue
		}
		ok := false
		for _, e := range sets {
			if e.Seq < f.ev.Seq && (f.ns == e.Args[2] || f.ns == mapOwner(e.Args[0], k.fv)) {
				ok = true
			}
		}
		c.ob(ok, "announced", c.fnName(f.ev)+" (only then)", f.ev.Pos, pt, "%s is fired without a new membership", k.okEv)
	}
	if !complete(pt) {
		return
	}
	// everybody accepted
	fireOK, askOK, refused := false, false, []*Term(nil)
	var unknown bool
	lastVerdict := 0
	for _, f := range fires {
		if f.ev.Seq > lastVerdict {
			lastVerdict = f.ev.Seq
		}
	}
	for _, a := range asks {
		if a.ev.Seq > lastVerdict {
			lastVerdict = a.ev.Seq
		}
	}
	for _, f := range fires {
		if c.isEv(pt, f.name, k.reqEv) {
			switch pt.Facts.nilness(f.res) {
			case True:
				fireOK = true
			case False:
				refused = append(refused, f.res)
			default:
				unknown = true
			}
		}
	}
	for _, a := range asks {
		if c.isEv(pt, a.name, k.reqEv) {
			switch pt.Facts.nilness(a.err) {
			case True:
				askOK = true
			case False:
				refused = append(refused, a.err)
			default:
				unknown = true
			}
		}
	}
	if fireOK && (askOK || reply) && len(refused) == 0 && !unknown {
		there := false
		for _, g := range pt.Events {
			there = there || g.Kind == "MapGet" && g.Seq > lastVerdict && mapOwner(g.Args[0], k.fv) != nil && present(pt, g)
		}
		c.ob(len(sets) > 0 || there || c.closedAfter(pt, lastVerdict), "granted", name, root.Pos(), pt, "everybody accepted but there is no membership")
	}
	c.ob(!unknown, "agreed", name+" (verdicts looked at)", root.Pos(), pt, "a verdict on the request is ignored")
	if len(refused) > 0 {
		c.ob(len(sets) == 0, "agreed", name+" (refused)", root.Pos(), pt, "the membership is entered although it was refused")
	}
	// an existing membership: nothing is negotiated
	for _, g := range pt.Events {
		if g.Kind == "MapGet" && mapOwner(g.Args[0], k.fv) != nil && present(pt, g) && len(fires) > 0 && !isAPI {
			for _, f := range fires {
				if f.ev.Seq > g.Seq && c.isEv(pt, f.name, k.reqEv) && (k.what == "namespace" || f.ns == mapOwner(g.Args[0], k.fv)) && sameStr(pt, mf(f.msg, k.keyF), g.Args[1]) {
					c.ob(false, "result", name+" (existing)", f.ev.Pos, pt, "an existing membership is negotiated again")
				}
			}
		}
	}
	if !isAPI {
		return
	}
	if len(pt.Results) != 2 {
		c.ob(false, "anchor", name, root.Pos(), pt, "unexpected results")
		return
	}
	self := TT.mk(OpParam, root.Params[0].Name(), root.Params[0].Type())
	var keyP *Term
	for _, p := range root.Params[1:] {
		if isString(p.Type()) {
			keyP = TT.mk(OpParam, p.Name(), p.Type())
		}
	}
	res, err := pt.Results[0], pt.Results[1]
	switch pt.Facts.nilness(err) {
	case True:
		ok := false
		if len(sets) == 1 && sets[0].Args[2] == res {
			ok = mapOwner(sets[0].Args[0], k.fv) == self && sameStr(pt, sets[0].Args[1], keyP)
		} else if len(sets) == 0 {
			for _, g := range c.gets(pt, k.fv, self, keyP) {
				if g.Res.Args[0] == res && present(pt, g) {
					ok = len(asks) == 0 && len(fires) == 0 || g.Seq > lastVerdict && len(refused) == 0
				}
			}
		}
		c.ob(ok, "result", name+" (success)", root.Pos(), pt, "success is reported with %s", res)
	case False:
		c.ob(len(sets) == 0, "result", name+" (error)", root.Pos(), pt, "an error is reported although the membership is in effect")
		if len(refused) > 0 {
			ok := false
			for _, t := range refused {
				ok = ok || t == err
			}
			c.ob(ok, "result", name+" (refusal)", root.Pos(), pt, "the refusal's error is not what is reported: %s", err)
		} else {
			// refused before anybody was asked: no reason but a missing declaration, a closed or not ready connection
			exists := false
			for _, g := range c.gets(pt, k.fv, self, keyP) {
				exists = exists || present(pt, g)
			}
			c.ob(!exists, "result", name+" (existing)", root.Pos(), pt, "an existing membership is reported as error")
		}
	default:
		c.ob(false, "result", name+" (decided)", root.Pos(), pt, "the reported error is neither nil nor a refusal: %s", err)
	}
}

// nativeOnly: the only membership that needs no agreement is the empty namespace of a connection
// whose only declared namespace and event is the native-message one.
func (c *Chk) nativeOnly(k kind, pt *Path, e *Event, name string) {
	if k.what != "namespace" {
		return
	}
	val := e.Args[2]
	if val.Op != OpAlloc {
		return // a result map filled with existing memberships
	}
	key, isEmpty := e.Args[1].StrVal()
	one, native := false, false
	for a, v := range pt.Facts.b {
		_ = v
		if a.Op == OpBin && a.Sym == "==" && a.Args[0].Op == OpLen {
			if n, ok := a.Args[1].IntVal(); ok && n == 1 && v {
				one = true
			}
		}
	}
	for _, g := range pt.Events {
		if g.Kind == "MapGet" && types.Identical(g.Args[0].Typ, c.r.Events) && pt.Facts.eqStr(g.Args[1], c.evName("OnNativeMessage")) && present(pt, g) {
			native = true
		}
	}
	c.ob(isEmpty && key == "" && one && native, "agreed", c.fnName(e)+" (native only)", e.Pos, pt, "a connection starts out connected to a namespace although it is not native-only")
}
