package main

// C24: only a valid request is turned into a connection.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C24"] = checkC24 }

// connTimeouts: the fields of a connection that limit its reads and its writes, by their use.
func (c *Chk) connTimeouts() (rd, wr *types.Var) {
	find := func(method string) *types.Var {
		var out *types.Var
		n := 0
		for _, f := range c.p.Funcs {
			if isTestFile(c.p, f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != method || namedOf(ci.Common().Value.Type()) != c.r.Socket {
						continue
					}
					a := ci.Common().Args
					if v := c.fieldSource(a[len(a)-1], c.r.Conn, 0); v != nil {
						if out != v {
							n++
						}
						out = v
					}
				}
			}
		}
		if n != 1 {
			return nil
		}
		return out
	}
	rd = find("ReadData")
	wr = find("WriteText")
	if wr == nil {
		wr = find("WriteBinary")
	}
	// called through a value: look at what the paths do
	seen := func(fn *ssa.Function, name string, cfg Config, methods ...string) (out *types.Var) {
		if fn == nil {
			return nil
		}
		n := 0
		for _, pt := range c.explore(fn, name, cfg) {
			for _, e := range pt.Events {
				for _, m := range methods {
					if e.Kind == "Invoke" && e.Name == "neffos.Socket."+m {
						if a := e.Args[len(e.Args)-1]; a.Op == OpLoad && a.Args[0].Op == OpFAddr && namedOf(a.Args[0].Args[0].Typ) == c.r.Conn && a.Args[0].FieldVar != out {
							n++
							out = a.Args[0].FieldVar
						}
					}
				}
			}
		}
		if n != 1 {
			return nil
		}
		return out
	}
	if rd == nil {
		for _, f := range c.readers() {
			if v := seen(f, "root:"+f.Name(), c.rootConfig(f), "ReadData"); v != nil {
				rd = v
			}
		}
	}
	if wr == nil {
		wr = seen(c.p.method("Conn", "Write"), "timeouts", c.except("Write"), "WriteText", "WriteBinary")
	}
	c.ob(rd != nil && wr != nil && rd != wr, "anchor", "Conn timeouts", token.NoPos, nil, "the fields that limit reads and writes were not found (or are the same)")
	return
}

// fieldSource: the only field that a value is read from, through parameters and joins.
func (c *Chk) fieldSource(v ssa.Value, owner *types.Named, depth int) *types.Var {
	if depth > 6 {
		return nil
	}
	same := func(vs []ssa.Value) *types.Var {
		var out *types.Var
		for i, x := range vs {
			f := c.fieldSource(x, owner, depth+1)
			if f == nil || i > 0 && f != out {
				return nil
			}
			out = f
		}
		return out
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && namedOf(fa.X.Type()) == owner {
			return fieldVarOf(fa)
		}
	case *ssa.Phi:
		return same(x.Edges)
	case *ssa.ChangeType:
		return c.fieldSource(x.X, owner, depth+1)
	case *ssa.Parameter:
		f := x.Parent()
		k := -1
		for i, p := range f.Params {
			if p == x {
				k = i
			}
		}
		var vs []ssa.Value
		for _, g := range c.p.Funcs {
			if isTestFile(c.p, g) {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && k < len(ci.Common().Args) {
						vs = append(vs, ci.Common().Args[k])
					}
				}
			}
		}
		return same(vs)
	}
	return nil
}

// statusOf: the event answers the request with a status.
func statusOf(e *Event, w *Term) (int64, bool) {
	switch {
	case e.Kind == "Invoke" && e.Name == "http.ResponseWriter.WriteHeader" && e.Args[0] == w:
		n, ok := e.Args[1].IntVal()
		if !ok {
			n = -1
		}
		return n, true
	case e.Kind == "Call" && (e.Name == "net/http.Error" || e.Name == "net/http.NotFound" || strings.HasPrefix(e.Name, "net/http.Redirect")) && e.Args[0] == w:
		n := int64(-1)
		if v, ok := e.Args[len(e.Args)-1].IntVal(); ok {
			n = v
		}
		return n, true
	}
	return 0, false
}

// writesTo: the event sends a body (and with it a status, when there is none yet).
func writesTo(e *Event, w *Term) bool {
	if e.Kind == "Invoke" && e.Name == "http.ResponseWriter.Write" {
		return e.Args[0] == w
	}
	if e.Kind == "Call" && (strings.HasPrefix(e.Name, "fmt.Fprint") || e.Name == "io.WriteString") {
		a := e.Args[0]
		for a.Op == OpIface {
			a = a.Args[0]
		}
		return a == w
	}
	return false
}

// creates: the event makes, registers, announces or starts something.
func creates(e *Event) bool {
	switch e.Kind {
	case "Send", "Go", "MapSet", "Close":
		return true
	case "Invoke":
		return strings.HasPrefix(e.Name, "neffos.")
	}
	return false
}

func checkC24(c *Chk) {
	r := c.r
	c.rule("closed", "a request to a closed server is answered with 500 and the server-closed error")
	c.rule("probe", "a HEAD request is answered with 302 and the error that IsTryingToReconnect reports, which is reported for no other")
	c.rule("method", "a request that is neither HEAD nor GET is answered with 405 that names GET as allowed")
	c.rule("upgrade", "the upgrade is tried once, only for a GET to an open server, with the request's own writer; its failure is told to the callback once and returned, and the callback hears of nothing else")
	c.rule("nothing", "a refused request creates, registers, announces and starts nothing, and is answered once")
	c.rule("distinct", "every refusal has an error of its own")
	c.rule("headers", "before the upgrade every parameter with the prefix, and no other, becomes a header without the prefix and with all of its values")
	c.rule("complete", "a connection's identifier, server, timeouts, namespaces, socket and reconnect count are in place before anyone else sees it, and not changed by the upgrade afterwards")
	up, paths := c.upgradePaths()
	srv := selfOf(up)
	closed := c.srvClosedVar()
	upgr := structField(r.Server, func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "Upgrader"
	})
	rd, wr := c.connTimeouts()
	if !c.ob(up != nil && len(up.Params) == 5 && closed != nil && len(upgr) == 1 && rd != nil && wr != nil, "anchor", "Server.Upgrade", token.NoPos, nil, "not found") {
		return
	}
	pm := func(i int) *Term { return TT.mk(OpParam, up.Params[i].Name(), up.Params[i].Type()) }
	w, rq, wrap, gen := pm(1), pm(2), pm(3), pm(4)
	srvErr, probeErr, methErr := map[*Term]bool{}, map[*Term]bool{}, map[*Term]bool{}
	for _, pt := range paths {
		var tries, told []*Event
		var st []int64
		var stEv *Event
		body := false
		var firstClosed *Event
		conn := c.newConnOf(pt)
		for _, e := range pt.Events {
			switch {
			case e.Kind == "AtomicLoad" && firstClosed == nil && isAddrOf(e.Args[0], srv, closed):
				firstClosed = e
			case e.Kind == "Dyn" && isFieldOf(e.Args[0], srv, upgr[0]):
				tries = append(tries, e)
			case c.dynField(e, srv, "OnUpgradeError"):
				told = append(told, e)
			case writesTo(e, w):
				if len(st) == 0 {
					st = append(st, 200)
					stEv = e
				}
				body = true
			}
			if n, ok := statusOf(e, w); ok {
				st = append(st, n)
				stEv = e
			}
		}
		isClosed := Unknown
		if firstClosed != nil {
			if nonZeroRead(pt, firstClosed.Res) {
				isClosed = True
			} else if zeroRead(pt, firstClosed.Res) {
				isClosed = False
			}
		}
		var method *Term
		meth := func(s string) Tri {
			res := Unknown
			scan := func(t *Term) bool {
				if t.FieldVar != nil && t.FieldVar.Name() == "Method" && fieldBase(t, t.FieldVar) == rq {
					method = t
				} else if t.Op == OpLoad && t.Args[0].Op == OpFAddr && t.Args[0].FieldVar.Name() == "Method" && t.Args[0].Args[0] == rq {
					method = t
				} else {
					return false
				}
				if v := pt.Facts.eqv(method, TT.Str(s)); v != Unknown {
					res = v
				}
				return false
			}
			for a := range pt.Facts.b {
				a.any(scan)
			}
			for a := range pt.Facts.eq {
				a.any(scan)
			}
			for a := range pt.Facts.ne {
				a.any(scan)
			}
			return res
		}
		isHead, isGet := meth("HEAD"), meth("GET")
		if len(tries) > 0 {
			t := tries[0]
			c.ob(len(tries) == 1 && len(t.Args) == 3 && t.Args[1] == w && t.Args[2] == rq && t.Gor == 0, "upgrade", "Server.Upgrade (once)", t.Pos, pt, "the upgrade is tried %d times, or with another request", len(tries))
			c.ob(isClosed == False && isGet == True && firstClosed.Seq < t.Seq, "upgrade", "Server.Upgrade (allowed)", t.Pos, pt, "the upgrade is tried without seeing that the server is open and the method GET")
			c.ob(len(st) == 0 && !body, "upgrade", "Server.Upgrade (answered)", t.Pos, pt, "the request is answered although the upgrader does that")
			c.headerOrder(pt, t, rq)
			if t.Res == nil || t.Res.Op != OpTuple || len(t.Res.Args) != 2 {
				c.ob(false, "upgrade", "Server.Upgrade (results)", t.Pos, pt, "unexpected results")
				continue
			}
			err := t.Res.Args[1]
			has := pt.Facts.nilness(of(srv, fieldCalled(r.Server, "OnUpgradeError")))
			switch pt.Facts.nilness(err) {
			case False:
				for _, e := range pt.Events {
					c.ob(!creates(e) && conn == nil, "nothing", "Server.Upgrade (failed)", e.Pos, pt, "a failed upgrade goes on: %s", e.Name)
				}
				if complete(pt) {
					okT := len(told) == 1 && has == False && told[0].Args[1] == err && told[0].Gor == 0 || len(told) == 0 && has == True
					c.ob(okT, "upgrade", "Server.Upgrade (told)", t.Pos, pt, "the upgrade-error callback hears %d times of a failed upgrade", len(told))
					c.ob(pt.Facts.isNil(pt.Results[0]) && pt.Results[1] == err, "upgrade", "Server.Upgrade (returned)", t.Pos, pt, "a failed upgrade returns %s, %s", pt.Results[0], pt.Results[1])
				}
				continue
			case Unknown:
				c.ob(false, "upgrade", "Server.Upgrade (looked at)", t.Pos, pt, "whether the upgrade failed is not looked at")
				continue
			}
			c.ob(len(told) == 0, "upgrade", "Server.Upgrade (succeeded)", t.Pos, pt, "the callback hears of an upgrade that did not fail")
			if conn != nil {
				c.completeConn(pt, up, srv, conn, w, rq, wrap, gen, t.Res.Args[0], rd, wr)
			} else if complete(pt) {
				c.ob(false, "complete", "Server.Upgrade (none)", t.Pos, pt, "an upgraded request gets no connection")
			}
			continue
		}
		c.ob(len(told) == 0, "upgrade", "Server.Upgrade (not tried)", up.Pos(), pt, "the callback hears of an upgrade that was not tried")
		for _, e := range pt.Events {
			c.ob(!creates(e), "nothing", "Server.Upgrade", e.Pos, pt, "a request that is not upgraded has an effect: %s %s", e.Kind, e.Name)
		}
		c.ob(conn == nil, "nothing", "Server.Upgrade (connection)", up.Pos(), pt, "a connection is created without an upgrade")
		if !complete(pt) {
			continue
		}
		c.ob(len(st) == 1, "nothing", "Server.Upgrade (answered)", up.Pos(), pt, "a refused request is answered %d times", len(st))
		if len(st) != 1 {
			continue
		}
		c.ob(pt.Facts.isNil(pt.Results[0]) && pt.Facts.isNonNil(pt.Results[1]), "nothing", "Server.Upgrade (returned)", up.Pos(), pt, "a refused request returns %s, %s", pt.Results[0], pt.Results[1])
		err := pt.Results[1]
		switch {
		case isClosed == True:
			c.ob(st[0] == 500, "closed", "Server.Upgrade", stEv.Pos, pt, "a closed server answers %d", st[0])
			srvErr[err] = true
		case isClosed != False:
			c.ob(false, "closed", "Server.Upgrade (looked at)", stEv.Pos, pt, "a request is refused without seeing whether the server is closed")
		case isHead == True:
			c.ob(st[0] == 302, "probe", "Server.Upgrade", stEv.Pos, pt, "a probe is answered with %d", st[0])
			probeErr[err] = true
		case isHead == False && isGet == False:
			allow := 0
			for _, e := range pt.Events {
				if e.Kind == "Call" && (e.Name == "(net/http.Header).Set" || e.Name == "(net/http.Header).Add") && e.Seq < stEv.Seq && pt.Facts.eqStr(e.Args[1], "Allow") {
					if c.respHeader(pt, e.Args[0], w) && pt.Facts.eqStr(e.Args[2], "GET") {
						allow++
					} else {
						allow = 9
					}
				}
			}
			c.ob(st[0] == 405 && allow == 1, "method", "Server.Upgrade", stEv.Pos, pt, "another method is answered with %d and the allowed methods are not exactly GET", st[0])
			methErr[err] = true
		default:
			c.ob(false, "method", "Server.Upgrade (refused)", stEv.Pos, pt, "a request is refused whose method is not known to be wrong")
		}
	}
	c.ob(len(srvErr) == 1 && len(probeErr) == 1 && len(methErr) == 1, "distinct", "Server.Upgrade", up.Pos(), nil, "%d, %d and %d errors for a closed server, a probe and a wrong method", len(srvErr), len(probeErr), len(methErr))
	for e := range probeErr {
		c.ob(!srvErr[e] && !methErr[e], "distinct", "Server.Upgrade (probe)", up.Pos(), nil, "a probe ends like another refusal")
		c.probeReported(e)
	}
	for e := range srvErr {
		c.ob(!methErr[e], "distinct", "Server.Upgrade (closed)", up.Pos(), nil, "a closed server refuses like a wrong method")
	}
	c.headerRules(up)
	c.need("closed", 1)
	c.need("probe", 2)
	c.need("method", 1)
	c.need("upgrade", 5)
	c.need("nothing", 3)
	c.need("headers", 4)
	c.need("complete", 7)
}

// respHeader: the header of the response that w writes.
func (c *Chk) respHeader(pt *Path, t, w *Term) bool {
	for _, e := range pt.Events {
		if e.Kind == "Invoke" && e.Name == "http.ResponseWriter.Header" && e.Args[0] == w && e.Res == t {
			return true
		}
	}
	return false
}

// probeReported: IsTryingToReconnect answers true for exactly that error.
func (c *Chk) probeReported(probe *Term) {
	f := c.p.fn("IsTryingToReconnect")
	if !c.ob(f != nil && len(f.Params) == 1, "anchor", "IsTryingToReconnect", token.NoPos, nil, "not found") {
		return
	}
	p := TT.mk(OpParam, f.Params[0].Name(), f.Params[0].Type())
	for _, pt := range c.explore(f, "IsTryingToReconnect", c.base()) {
		if !complete(pt) {
			continue
		}
		res := pt.Results[0]
		same := mkEq(p, probe)
		got, want := pt.Facts.eval(res), pt.Facts.eval(same)
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Name == "errors.Is" || e.Kind == "Load" && e.Res != probe && !e.Res.IsConst() && e.Res.Op == OpLoad {
				same = mkEq(p, e.Res)
			}
		}
		// the comparison itself is the result
		if got == Unknown {
			c.ob(isEqOf(res, p, probe) || isErrorsIs(res, p, probe), "probe", "IsTryingToReconnect", f.Pos(), pt, "%s is not whether it is the probe's error", res)
			continue
		}
		if pt.Facts.isNil(p) {
			want = False
		}
		c.ob(got == want, "probe", "IsTryingToReconnect", f.Pos(), pt, "answers %v", res)
	}
}

func isEqOf(t, a, b *Term) bool {
	t2, pos := canon(t)
	return t2.Op == OpBin && t2.Sym == "==" && pos && (t2.Args[0] == a && t2.Args[1] == b || t2.Args[0] == b && t2.Args[1] == a)
}

func isErrorsIs(t, a, b *Term) bool {
	return t.Op == OpPure && t.Sym == "errors.Is" && t.Args[0] == a && t.Args[1] == b
}

func mkEq(a, b *Term) *Term { return mkBin(token.EQL, a, b, types.Typ[types.Bool]) }

// isQuery: the parameters of the request.
func isQuery(pt *Path, t, rq *Term) bool {
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Name == "(*net/url.URL).Query" && e.Res == t {
			u := e.Args[0]
			return u.any(func(x *Term) bool { return x == rq })
		}
	}
	return false
}

// headerOrder: all parameters were looked at before the upgrade.
func (c *Chk) headerOrder(pt *Path, up *Event, rq *Term) {
	n := 0
	for _, e := range pt.Events {
		if e.Kind == "Range" && isQuery(pt, e.Args[0], rq) {
			n++
			c.ob(e.Seq < up.Seq && e.Gor == 0, "headers", "Server.Upgrade (before)", e.Pos, pt, "the parameters become headers after the upgrade")
			var last *Event
			for _, x := range pt.Events {
				if x.Kind == "Next" && x.Args[0] == e.Res {
					last = x
				}
			}
			c.ob(last != nil && pt.Facts.is(last.Args[1], false), "headers", "Server.Upgrade (all)", e.Pos, pt, "not all of the parameters are looked at")
		}
	}
	c.ob(n == 1, "headers", "Server.Upgrade (looked at)", up.Pos, pt, "the parameters are looked at %d times before the upgrade", n)
}

// headerRules: each parameter.
func (c *Chk) headerRules(up *ssa.Function) {
	prefix := ""
	if k, ok := c.p.Root.Pkg.Scope().Lookup("URLParamAsHeaderPrefix").(*types.Const); ok {
		prefix = constant.StringVal(k.Val())
	}
	if !c.ob(prefix != "", "anchor", "URLParamAsHeaderPrefix", token.NoPos, nil, "not found") {
		return
	}
	n := int64(len(prefix))
	pred := func(in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || ci.Common().StaticCallee() == nil {
			return false
		}
		return ci.Common().StaticCallee().String() == "(*net/url.URL).Query"
	}
	rq := TT.mk(OpParam, up.Params[2].Name(), up.Params[2].Type())
	_, paths := c.upgradePaths()
	isName := func(t, k *Term) bool { // the canonical form of the parameter's name
		return t.Op == OpPure && (t.Sym == "net/http.CanonicalHeaderKey" || t.Sym == "net/textproto.CanonicalMIMEHeaderKey") && t.Args[0] == k
	}
	for _, pt := range paths {
		var it *Event
		for _, e := range pt.Events {
			if e.Kind == "Range" && isQuery(pt, e.Args[0], rq) {
				it = e
			}
		}
		if it == nil {
			continue
		}
		q := it.Args[0]
		for i, nx := range pt.Events {
			if nx.Kind != "Next" || nx.Args[0] != it.Res || !pt.Facts.is(nx.Args[1], true) {
				continue
			}
			k := nx.Args[2]
			values := map[*Term]bool{nx.Args[3]: true}
			end := len(pt.Events)
			over := false
			for j := i + 1; j < len(pt.Events); j++ {
				e := pt.Events[j]
				if e.Kind == "Next" && e.Args[0] == it.Res {
					end, over = j, true
					break
				}
				if e.Kind == "LoopBack" && e.Loop != nil && nx.Loop != nil && e.Loop.Header == nx.Loop.Header {
					end, over = j, true
					break
				}
				if e.Kind == "MapGet" && e.Args[0] == q && e.Args[1] == k && e.Res != nil {
					values[e.Res] = true
					if e.Res.Op == OpTuple {
						values[e.Res.Args[0]] = true
					}
				}
			}
			over = over || turned(pt, nx)
			// has the parameter the prefix?
			has := Unknown
			for a, v := range pt.Facts.b {
				switch {
				case a.Op == OpBin && a.Sym == "==" && a.Args[0].Op == OpPure && a.Args[0].Sym == "strings.Index" && isName(a.Args[0].Args[0], k) && pt.Facts.eqStr(a.Args[0].Args[1], prefix) && isZero(a.Args[1]):
					has = tri(v)
				case a.Op == OpPure && (a.Sym == "strings.HasPrefix" || a.Sym == "strings.CutPrefix#1") && isName(a.Args[0], k) && pt.Facts.eqStr(a.Args[1], prefix):
					has = tri(v)
				case a.Op == OpBin && a.Sym == "==" && a.Args[0].Op == OpSlice && isName(a.Args[0].Args[0], k) && isZeroOrNil(a.Args[0].Args[1]) && isIntTerm(a.Args[0].Args[2], n) && pt.Facts.eqStr(a.Args[1], prefix):
					has = tri(v)
				}
			}
			for a, m := range pt.Facts.eq {
				if a.Op == OpSlice && isName(a.Args[0], k) && isZeroOrNil(a.Args[1]) && isIntTerm(a.Args[2], n) && m != nil && pt.Facts.eqStr(a, prefix) {
					has = True
				}
			}
			if has == Unknown {
				for _, l := range []*Term{k, canonName(pt, k, isName)} {
					if l != nil {
						if _, hi := pt.Facts.rng(lenOf(l)); hi <= n {
							has = False
						}
					}
				}
			}
			// the prefix alone names no header
			if has == True && nothingLeft(pt, k, prefix, n, isName) {
				has = False
			}
			var adds []*Event
			for _, e := range pt.Events[i+1 : end] {
				if e.Kind == "Call" && strings.HasPrefix(e.Name, "(net/http.Header).") && e.Name != "(net/http.Header).Get" && e.Name != "(net/http.Header).Values" {
					adds = append(adds, e)
				}
				if e.Kind == "MapSet" && c.reqHeader(pt, e.Args[0], rq, e.Seq) {
					adds = append(adds, e)
				}
				if e.Kind == "MapDel" && c.reqHeader(pt, e.Args[0], rq, e.Seq) {
					c.ob(false, "headers", "parameter (removes)", e.Pos, pt, "a header is removed")
				}
			}
			for _, e := range adds {
				c.ob(has == True, "headers", "parameter (prefix)", e.Pos, pt, "a parameter without the prefix becomes a header")
			}
			if has == Unknown && over {
				c.ob(false, "headers", "parameter (looked at)", nx.Pos, pt, "whether a parameter has the prefix is not looked at")
			}
			if has != True {
				continue
			}
			// which values arrived
			okName := func(t *Term) bool {
				if t.Op == OpSlice && (isName(t.Args[0], k) || t.Args[0] == k) && isIntTerm(t.Args[1], n) && (t.Args[2].IsNil() || isLenOf(t.Args[2], t.Args[0])) {
					return true
				}
				if t.Op == OpPure && (t.Sym == "strings.TrimPrefix" || t.Sym == "strings.CutPrefix#0") && isName(t.Args[0], k) && pt.Facts.eqStr(t.Args[1], prefix) {
					return true
				}
				return t.Op == OpPure && (t.Sym == "net/http.CanonicalHeaderKey" || t.Sym == "net/textproto.CanonicalMIMEHeaderKey") && t.Args[0].Op == OpSlice && (isName(t.Args[0].Args[0], k) || t.Args[0].Args[0] == k) && isIntTerm(t.Args[0].Args[1], n) && t.Args[0].Args[2].IsNil()
			}
			whole := false
			at := 0
			var list *Term
			ixs := []*Term{}
			ended := false
			for v := range values {
				x, e, ok := visited(pt, v)
				if ok && (len(x) > 0 || e) {
					list, ixs, ended = v, x, e
				}
			}
			for _, e := range adds {
				if !c.ob(c.reqHeader(pt, e.Args[0], rq, e.Seq), "headers", "parameter (request)", e.Pos, pt, "the parameter becomes a header of something else") {
					continue
				}
				c.ob(okName(e.Args[1]), "headers", "parameter (name)", e.Pos, pt, "the header is named %s", e.Args[1])
				switch {
				case e.Kind == "MapSet":
					v := e.Args[2]
					all := v.Op == OpAppend && len(v.Args) == 2 && values[v.Args[1]] && c.oldValues(pt, v.Args[0], e)
					whole = whole || all
					c.ob(all, "headers", "parameter (values)", e.Pos, pt, "a header is replaced or gets other values")
				case e.Name != "(net/http.Header).Add":
					c.ob(false, "headers", "parameter (values)", e.Pos, pt, "of several values only one is kept")
				default:
					s, ix, ok := indexed(e.Args[2])
					good := ok && values[s] && list == s && at < len(ixs) && ix == ixs[at]
					c.ob(good, "headers", "parameter (values)", e.Pos, pt, "the values become headers in another order, twice, or not all")
					at++
				}
			}
			if over && !whole {
				c.ob(list != nil && ended && at == len(ixs), "headers", "parameter (all values)", nx.Pos, pt, "not all values of a parameter become headers")
			}
		}
	}
	// nobody else does
	for _, f := range c.p.Funcs {
		if isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if pred(in) {
					c.ob(c.visited[in], "headers", "parameters read in "+rel(c, f), in.Pos(), nil, "the parameters are read where no analysed path gets")
				}
			}
		}
	}
}

// nothingLeft tells whether the path knows that behind the prefix of the
// parameter's name nothing follows.
func nothingLeft(pt *Path, k *Term, prefix string, n int64, isName func(t, k *Term) bool) bool {
	left := func(t *Term) bool {
		if t.Op == OpPure && t.Sym == "strings.TrimPrefix" && isName(t.Args[0], k) && pt.Facts.eqStr(t.Args[1], prefix) {
			return true
		}
		return t.Op == OpSlice && (isName(t.Args[0], k) || t.Args[0] == k) && isIntTerm(t.Args[1], n) && (t.Args[2].IsNil() || isLenOf(t.Args[2], t.Args[0]))
	}
	found := false
	look := func(t *Term) bool {
		if left(t) {
			if pt.Facts.eqStr(t, "") {
				found = true
			} else if _, hi := pt.Facts.rng(lenOf(t)); hi == 0 {
				found = true
			}
		}
		return false
	}
	for a := range pt.Facts.b {
		a.any(look)
	}
	for a := range pt.Facts.eq {
		a.any(look)
	}
	return found
}

func canonName(pt *Path, k *Term, isName func(t, k *Term) bool) *Term {
	var out *Term
	for a := range pt.Facts.b {
		a.any(func(t *Term) bool {
			if isName(t, k) {
				out = t
			}
			return false
		})
	}
	return out
}

func isZeroOrNil(t *Term) bool { return t.IsNil() || isZero(t) }
func isIntTerm(t *Term, n int64) bool {
	v, ok := t.IntVal()
	return ok && v == n
}
func isLenOf(t, x *Term) bool { return t.Op == OpLen && t.Args[0] == x }

// oldValues: what the header of that name held before.
func (c *Chk) oldValues(pt *Path, t *Term, set *Event) bool {
	for _, e := range pt.Events {
		if e.Seq >= set.Seq {
			break
		}
		if e.Kind == "MapGet" && e.Args[0] == set.Args[0] && e.Args[1] == set.Args[1] && (e.Res == t || e.Res.Op == OpTuple && e.Res.Args[0] == t) {
			return true
		}
	}
	return false
}

// reqHeader: the header of the request.
func (c *Chk) reqHeader(pt *Path, h, rq *Term, seq int) bool {
	is := func(a *Term) bool {
		return a.Op == OpFAddr && a.FieldVar.Name() == "Header" && a.Args[0] == rq
	}
	if h.Op == OpLoad && is(h.Args[0]) {
		return true
	}
	if h.FieldVar != nil && h.FieldVar.Name() == "Header" && fieldBase(h, h.FieldVar) == rq {
		return true
	}
	for _, e := range pt.Events {
		if e.Kind == "Store" && e.Seq < seq && is(e.Args[0]) && e.Args[1] == h {
			return true
		}
	}
	return false
}

// completeConn: what a new connection holds when it is first seen by others.
func (c *Chk) completeConn(pt *Path, up *ssa.Function, srv, conn, w, rq, wrap, gen, sock *Term, rd, wr *types.Var) {
	r := c.r
	var seen *Event
	for _, e := range pt.Events {
		if seen == nil {
			hit := false
			switch e.Kind {
			case "Send", "Go", "Invoke", "Dyn":
				for _, a := range e.Args {
					hit = hit || a == conn || a.Op == OpIface && a.Args[0] == conn || a.Op == OpClosure && a.any(func(t *Term) bool { return t == conn })
				}
				if e.Kind == "Go" {
					for _, v := range goValues(pt, e) {
						hit = hit || v == conn
					}
				}
			}
			if hit {
				seen = e
			}
		}
	}
	tries := fieldCalled(r.Conn, "ReconnectTries")
	nss := structField(r.Server, same(c.p.Root.Pkg.Scope().Lookup("Namespaces").Type()))
	cns := structField(r.Conn, same(c.p.Root.Pkg.Scope().Lookup("Namespaces").Type()))
	sid := r.connSID
	if !c.ob(tries != nil && len(nss) == 1 && len(cns) == 1 && sid != nil, "anchor", "Conn fields", token.NoPos, nil, "ReconnectTries, the namespaces or the server's connection identifier not found") {
		return
	}
	own := map[*types.Var]bool{r.connID: true, r.connServer: true, rd: true, wr: true, tries: true, cns[0]: true, r.socket: true, sid: true}
	if seen == nil {
		return
	}
	for _, e := range pt.Events {
		if e.Kind == "Store" && e.Seq > seen.Seq && e.Args[0].Op == OpFAddr && e.Args[0].Args[0] == conn && own[e.Args[0].FieldVar] {
			c.ob(false, "complete", "Conn."+e.Args[0].FieldVar.Name()+" (late)", e.Pos, pt, "set after others have seen the connection")
		}
	}
	at := func(fv *types.Var) *Term { return c.fieldAt(pt, conn, fv, seen.Seq) }
	f := pt.Facts
	// identifier
	id := at(r.connID)
	var made *Event
	for _, e := range pt.Events {
		if e.Kind == "Dyn" && e.Res == id && id != nil && e.Seq < seen.Seq {
			made = e
		}
	}
	okID := false
	if made != nil && len(made.Args) == 3 && made.Args[1] == w && made.Args[2] == rq {
		idg := fieldCalled(r.Server, "IDGenerator")
		switch f.nilness(gen) {
		case True:
			okID = idg != nil && isFieldOf(made.Args[0], srv, idg)
		case False:
			okID = made.Args[0] == gen
		}
	}
	c.ob(okID, "complete", "Conn.id", seen.Pos, pt, "the identifier is not the custom generator's, or the server's when there is none, for this request")
	c.ob(at(r.connServer) == srv, "complete", "Conn.server", seen.Pos, pt, "not its server")
	srd, swr := c.serverTimeouts()
	c.ob(srd != nil && at(rd) != nil && isFieldOf(at(rd), srv, srd), "complete", "Conn."+rd.Name(), seen.Pos, pt, "not the server's read timeout")
	c.ob(swr != nil && at(wr) != nil && isFieldOf(at(wr), srv, swr), "complete", "Conn."+wr.Name(), seen.Pos, pt, "not the server's write timeout")
	c.ob(at(cns[0]) != nil && isFieldOf(at(cns[0]), srv, nss[0]), "complete", "Conn."+cns[0].Name(), seen.Pos, pt, "not the server's namespaces")
	s := at(sid)
	c.ob(s != nil && !isZeroTerm(s) && s.any(func(t *Term) bool { return t == conn }) && id != nil && s.any(func(t *Term) bool { return t == id }), "complete", "Conn."+sid.Name(), seen.Pos, pt, "the server's identifier of the connection is not made of the connection and its identifier")
	// socket
	so := at(r.socket)
	okS := false
	switch f.nilness(wrap) {
	case True:
		okS = so == sock
	case False:
		for _, e := range pt.Events {
			okS = okS || e.Kind == "Dyn" && e.Args[0] == wrap && len(e.Args) == 2 && e.Args[1] == sock && e.Res == so
		}
	}
	c.ob(okS, "complete", "Conn.socket", seen.Pos, pt, "not the upgraded socket, wrapped when there is a wrapper")
	// reconnect count
	var hdr *Term
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Name == "(net/http.Header).Get" && e.Seq < seen.Seq && f.eqStr(e.Args[1], "X-Websocket-Reconnect") {
			hdr = e.Res
		}
	}
	tv := at(tries)
	okT := false
	if hdr != nil {
		switch {
		case tv != nil && tv.any(func(t *Term) bool { return t == hdr }):
			okT = isParsed(tv, hdr)
		case tv == nil || isZeroTerm(tv):
			okT = f.isEmpty(hdr) || parseFailed(pt, hdr)
		}
	}
	c.ob(okT, "complete", "Conn.ReconnectTries", seen.Pos, pt, "not the number of the reconnect header")
}

func isParsed(t, hdr *Term) bool {
	for t.Op == OpConv {
		t = t.Args[0]
	}
	return t.Op == OpPure && (t.Sym == "strconv.Atoi#0" || t.Sym == "strconv.ParseInt#0") && t.Args[0] == hdr
}

func parseFailed(pt *Path, hdr *Term) bool {
	for a, v := range pt.Facts.b {
		if a.Op == OpBin && a.Sym == "==" && a.Args[0].Op == OpPure && a.Args[0].Sym == "strconv.Atoi#1" && a.Args[0].Args[0] == hdr && !v {
			return true
		}
	}
	return false
}

// serverTimeouts: the fields of the server that hold the timeouts of its handlers, by what New puts there.
func (c *Chk) serverTimeouts() (rd, wr *types.Var) {
	if c.srvRd != nil {
		return c.srvRd, c.srvWr
	}
	f := c.p.fn("New")
	if !c.ob(f != nil, "anchor", "New", token.NoPos, nil, "not found") {
		return
	}
	for _, pt := range c.explore(f, "New", c.base()) {
		for _, e := range pt.Events {
			if e.Kind == "Store" && e.Args[0].Op == OpFAddr && namedOf(e.Args[0].Args[0].Typ) == c.r.Server {
				if k := withTimeout(e.Args[1]); k == 1 {
					rd = e.Args[0].FieldVar
				} else if k == 2 {
					wr = e.Args[0].FieldVar
				}
			}
		}
	}
	c.ob(rd != nil && wr != nil && rd != wr, "anchor", "Server timeouts", token.NoPos, nil, "New keeps no read and write timeouts of their own")
	c.srvRd, c.srvWr = rd, wr
	return
}

// withTimeout: the read (1) or write (2) timeout of a WithTimeout handler.
func withTimeout(t *Term) int {
	if t.Op == OpField && t.FieldVar != nil && t.Args[0].Op == OpAssert {
		if n := namedOf(t.Args[0].Typ); n != nil && n.Obj().Name() == "WithTimeout" {
			switch t.FieldVar.Name() {
			case "ReadTimeout":
				return 1
			case "WriteTimeout":
				return 2
			}
		}
	}
	return 0
}
