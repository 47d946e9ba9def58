package main

// C19: the transports.

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C19"] = checkC19 }

// transport: a package that implements neffos.Socket over a library's connection.
type transport struct {
	pkg   *ssa.Package
	sock  *types.Named
	conn  *types.Var // the underlying connection
	lib   string     // gorilla or gobwas
	label string
}

func (c *Chk) transports() []*transport {
	var out []*transport
	iface := c.r.Socket.Underlying().(*types.Interface)
	seen := map[*ssa.Package]bool{}
	for _, f := range c.p.Funcs {
		pk := fnPkg(f)
		if pk == nil || pk == c.p.Root || seen[pk] || !c.p.isRepo(f) {
			continue
		}
		seen[pk] = true
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := types.Unalias(tn.Type()).(*types.Named)
			if !ok || !types.Implements(types.NewPointer(nt), iface) && !types.Implements(nt, iface) {
				continue
			}
			t := &transport{pkg: pk, sock: nt, label: pk.Pkg.Name()}
			for _, fv := range structField(nt, isLibConn) {
				t.conn = fv
				if strings.Contains(types.TypeString(fv.Type(), nil), "websocket.Conn") {
					t.lib = "gorilla"
				} else {
					t.lib = "gobwas"
				}
			}
			out = append(out, t)
		}
	}
	return out
}

// isLibConn: a connection of the library below.
func isLibConn(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "net.Conn" || s == "*github.com/gorilla/websocket.Conn"
}

// connArg: the underlying connection among the event's arguments.
func connArg(e *Event) *Term {
	for _, a := range e.Args {
		b := a
		for b.Op == OpIface || b.Op == OpConv {
			b = b.Args[0]
		}
		if b.Typ != nil && isLibConn(b.Typ) {
			return b
		}
	}
	return nil
}

func calleeName(e *Event) string {
	n := e.Name
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// harmlessOnConn: operations on a connection that may run beside a writer.
func harmlessOnConn(t *transport, n string) bool {
	switch n {
	case "Close", "LocalAddr", "RemoteAddr", "SetReadDeadline", "Read", "ReadMessage", "NextReader", "ReadJSON", "UnderlyingConn", "NetConn", "Subprotocol",
		"SetReadLimit", "SetPingHandler", "SetPongHandler", "SetCloseHandler", "PingHandler", "PongHandler", "CloseHandler":
		return true
	case "WriteControl":
		return t.lib == "gorilla" // serialised by the library, with a deadline of its own
	}
	return false
}

func checkC19(c *Chk) {
	c.rule("serialised", "everything that writes to the underlying connection, or changes its write deadline, does so holding the socket's own lock")
	c.rule("deadline", "a write with a positive timeout runs under a deadline that was set for it in the same critical section, any other write under none")
	c.rule("left-behind", "no write runs under a deadline that another one left: each critical section that sets a deadline also clears it, or every write sets its own")
	c.rule("frames", "WriteText and WriteBinary write exactly one message with the given body and their own type")
	c.rule("read-deadline", "a read with a positive timeout has its deadline set before it waits")
	c.rule("complete", "ReadData returns the whole of a message that was read without an error, with the type of that very message, text or binary, and drops no such message")
	c.rule("errors", "no error of the underlying connection is lost")
	c.rule("handed-over", "what the library read ahead during the handshake is not lost, and header checks are on")
	ts := c.transports()
	c.ob(len(ts) >= 2, "anchor", "transports", token.NoPos, nil, "%d implementations of neffos.Socket found", len(ts))
	for _, t := range ts {
		if !c.ob(t.conn != nil, "anchor", t.label, token.NoPos, nil, "the field that holds the underlying connection was not found") {
			continue
		}
		c.transport(t)
	}
	c.need("serialised", 4)
	c.need("deadline", 4)
	c.need("frames", 4)
	c.need("read-deadline", 2)
	c.need("complete", 4)
	c.need("errors", 4)
	c.need("handed-over", 2)
}

func (c *Chk) transport(t *transport) {
	cfg := Config{Opaque: func(fn *ssa.Function) string {
		if fnPkg(fn) == c.p.Root {
			return "Neffos"
		}
		return ""
	}}
	leaves, unset := (*Event)(nil), (*Event)(nil)
	var leavesPt, unsetPt *Path
	for _, root := range c.p.entryPoints() {
		if fnPkg(root) != t.pkg || root.Synthetic != "" || isTestFile(c.p, root) {
			continue
		}
		name := t.label + "." + root.RelString(t.pkg.Pkg)
		var timeout *Term
		for _, p := range root.Params {
			if types.TypeString(p.Type(), nil) == "time.Duration" {
				timeout = TT.mk(OpParam, p.Name(), p.Type())
			}
		}
		isSockMethod := root.Signature.Recv() != nil && namedOf(root.Signature.Recv().Type()) == t.sock
		for _, pt := range c.explore(root, name, cfg) {
			for _, e := range pt.Events {
				if e.Kind != "Call" && e.Kind != "Invoke" && e.Kind != "Dyn" && e.Kind != "Go" && e.Kind != "Defer" {
					continue
				}
				k := connArg(e)
				if k == nil || harmlessOnConn(t, calleeName(e)) {
					continue
				}
				own := k.Op == OpLoad && k.Args[0].Op == OpFAddr && k.Args[0].FieldVar == t.conn && ownLock(e, k.Args[0].Args[0], true) || k.FieldVar == t.conn && ownLock(e, fieldBase(k, t.conn), true)
				if !c.ob(own && e.Gor == 0, "serialised", name+" ("+calleeName(e)+")", e.Pos, pt, "%s is called without the socket's lock", e.Name) {
					continue
				}
				if strings.HasSuffix(calleeName(e), "Deadline") {
					continue
				}
				// a write
				set := deadlineBefore(pt, e, k)
				if set == nil {
					unset, unsetPt = e, pt
				}
				if timeout == nil {
					continue
				}
				switch pt.Facts.eval(mkBin(token.LSS, TT.Int(0), timeout, types.Typ[types.Bool])) {
				case True:
					c.ob(set != nil && isFromNow(set.Args[1], timeout), "deadline", name, e.Pos, pt, "a write with a timeout runs without its deadline")
				case False:
					c.ob(set == nil || isNoTime(set.Args[1]), "deadline", name, e.Pos, pt, "a write without a timeout gets a deadline")
				default:
					c.ob(set != nil && isFromNow(set.Args[1], timeout) && false, "deadline", name, e.Pos, pt, "whether there is a timeout is not looked at")
				}
			}
			if e := leftBehind(pt); e != nil {
				leaves, leavesPt = e, pt
			}
			if isSockMethod {
				switch root.Name() {
				case "WriteText":
					c.oneFrame(t, pt, root, name, 1)
				case "WriteBinary":
					c.oneFrame(t, pt, root, name, 2)
				case "ReadData":
					c.readData(t, pt, root, name, timeout)
				}
			}
			c.noLostErrors(t, pt, root, name)
		}
		if isSockMethod && root.Name() == "ReadData" {
			c.ob(timeout != nil, "anchor", name, root.Pos(), nil, "has no timeout")
		}
	}
	if leaves != nil {
		c.ob(unset == nil, "left-behind", t.label, leaves.Pos, leavesPt, "the deadline stays in force and another write does not set its own")
		_ = unsetPt
	} else {
		c.ob(true, "left-behind", t.label, t.sock.Obj().Pos(), nil, "")
	}
	c.handedOver(t)
	// nothing hides behind functions that were not analysed
	for _, f := range c.p.Funcs {
		if fnPkg(f) != t.pkg || f.Synthetic != "" || isTestFile(c.p, f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					hit := ci.Common().IsInvoke() && isLibConn(ci.Common().Value.Type())
					for _, a := range ci.Common().Args {
						hit = hit || isLibConn(a.Type())
					}
					if hit {
						c.ob(c.visited[in], "serialised", "call in "+f.RelString(t.pkg.Pkg), in.Pos(), nil, "the connection is used where no analysed path gets")
					}
				}
			}
		}
	}
}

// deadlineBefore: the last change of the write deadline in the same critical section.
func deadlineBefore(pt *Path, w *Event, k *Term) *Event {
	var set *Event
	for _, e := range pt.Events {
		if e.Seq >= w.Seq {
			break
		}
		switch {
		case e.Kind == "Lock":
			set = nil
		case (e.Kind == "Call" || e.Kind == "Invoke") && (calleeName(e) == "SetWriteDeadline" || calleeName(e) == "SetDeadline") && connArg(e) == k:
			set = e
		}
	}
	return set
}

// leftBehind: a critical section ends with a deadline in force.
func leftBehind(pt *Path) *Event {
	var set *Event
	for _, e := range pt.Events {
		switch {
		case e.Kind == "Unlock":
			if set != nil {
				return set
			}
		case (e.Kind == "Call" || e.Kind == "Invoke") && (calleeName(e) == "SetWriteDeadline" || calleeName(e) == "SetDeadline") && connArg(e) != nil:
			set = e
			if isNoTime(e.Args[1]) {
				set = nil
			}
		}
	}
	return set
}

func isNoTime(t *Term) bool { return isZeroTerm(t) }

// isFromNow: the moment that lies the timeout ahead.
func isFromNow(t, timeout *Term) bool {
	return t.Op == OpPure && t.Sym == "(time.Time).Add" && len(t.Args) == 2 && t.Args[1] == timeout && strings.HasPrefix(t.Args[0].String(), "time.Now")
}

// oneFrame: a write method.
func (c *Chk) oneFrame(t *transport, pt *Path, root *ssa.Function, name string, op int64) {
	if !complete(pt) {
		return
	}
	var body *Term
	for _, p := range root.Params {
		if isBytes(p.Type()) {
			body = TT.mk(OpParam, p.Name(), p.Type())
		}
	}
	n := 0
	for _, e := range pt.Events {
		if e.Kind != "Call" && e.Kind != "Invoke" && e.Kind != "Dyn" || connArg(e) == nil || harmlessOnConn(t, calleeName(e)) || strings.HasSuffix(calleeName(e), "Deadline") {
			continue
		}
		n++
		okOp, okBody := false, false
		for _, a := range e.Args {
			if a == body {
				okBody = true
			}
			if v, ok := a.IntVal(); ok && v == op {
				okOp = true
			}
		}
		c.ob(calleeName(e) == "WriteMessage" && okOp && okBody, "frames", name, e.Pos, pt, "%s does not write the given body as one message of type %d", e.Name, op)
	}
	if n == 0 {
		c.ob(pt.Facts.isNonNil(pt.Results[0]), "frames", name+" (nothing)", root.Pos(), pt, "nothing is written and no error returned")
	} else {
		c.ob(n == 1, "frames", name+" (one)", root.Pos(), pt, "%d messages are written", n)
	}
}

// noLostErrors: every failed call ends in an error result.
func (c *Chk) noLostErrors(t *transport, pt *Path, root *ssa.Function, name string) {
	if !complete(pt) || len(pt.Results) == 0 {
		return
	}
	rs := root.Signature.Results()
	errT := rs.At(rs.Len() - 1).Type()
	if errT.String() != "error" {
		return
	}
	last := pt.Results[len(pt.Results)-1]
	f := pt.Facts
	for _, e := range pt.Events {
		if e.Kind != "Call" && e.Kind != "Invoke" && e.Kind != "Dyn" || e.Res == nil || e.Instr == nil {
			continue
		}
		if strings.HasSuffix(calleeName(e), "Deadline") || calleeName(e) == "Close" {
			continue // the operation itself fails when these do
		}
		v, ok := e.Instr.(ssa.Value)
		if !ok {
			continue
		}
		var err *Term
		switch tt := v.Type().(type) {
		case *types.Tuple:
			if n := tt.Len(); n > 0 && tt.At(n-1).Type().String() == "error" && e.Res.Op == OpTuple {
				err = e.Res.Args[n-1]
			}
		default:
			if v.Type().String() == "error" {
				err = e.Res
			}
		}
		if err == nil {
			continue
		}
		switch f.nilness(err) {
		case True:
			c.ob(true, "errors", name+" ("+calleeName(e)+")", e.Pos, pt, "")
		case False:
			c.ob(f.nilness(last) == False, "errors", name+" ("+calleeName(e)+")", e.Pos, pt, "an error of %s is not returned", e.Name)
		default:
			c.ob(last == err, "errors", name+" ("+calleeName(e)+")", e.Pos, pt, "the error of %s is neither looked at nor returned", e.Name)
		}
	}
}

// opEval evaluates a condition for a given opcode.
func opEval(pt *Path, t, op *Term, v int64) (int64, bool) {
	if t == op {
		return v, true
	}
	if n, ok := t.IntVal(); ok {
		return n, true
	}
	if b, ok := t.BoolVal(); ok {
		if b {
			return 1, true
		}
		return 0, true
	}
	b2i := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	switch t.Op {
	case OpConv:
		return opEval(pt, t.Args[0], op, v)
	case OpBin:
		a, ok1 := opEval(pt, t.Args[0], op, v)
		b, ok2 := opEval(pt, t.Args[1], op, v)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.Sym {
		case "&":
			return a & b, true
		case "|":
			return a | b, true
		case "^":
			return a ^ b, true
		case "&^":
			return a &^ b, true
		case "+":
			return a + b, true
		case "-":
			return a - b, true
		case "==":
			return b2i(a == b)
		case "!=":
			return b2i(a != b)
		case "<":
			return b2i(a < b)
		case "<=":
			return b2i(a <= b)
		}
	}
	for _, e := range pt.Events {
		if e.Kind == "Call" && e.Res == t && len(e.Args) == 1 && e.Args[0] == op {
			switch calleeName(e) {
			case "IsControl":
				return b2i(v&8 != 0)
			case "IsData":
				return b2i(v&8 == 0)
			case "IsReserved":
				return b2i(v >= 3 && v <= 7 || v >= 11)
			}
		}
	}
	return 0, false
}

// opPossible: the path can be taken with that opcode.
func opPossible(pt *Path, op *Term, v int64) bool {
	f := pt.Facts
	for a, val := range f.b {
		if n, ok := opEval(pt, a, op, v); ok && (n != 0) != val {
			return false
		}
	}
	for a, k := range f.eq {
		if n, ok := opEval(pt, a, op, v); ok {
			if kv, ok := opEval(pt, k, op, v); ok && kv != n {
				return false
			}
		}
	}
	for a, ks := range f.ne {
		if n, ok := opEval(pt, a, op, v); ok {
			for _, k := range ks {
				if kv, ok := opEval(pt, k, op, v); ok && kv == n {
					return false
				}
			}
		}
	}
	return true
}

// readData: what is read and returned.
func (c *Chk) readData(t *transport, pt *Path, root *ssa.Function, name string, timeout *Term) {
	f := pt.Facts
	pos := Unknown
	if timeout != nil {
		pos = f.eval(mkBin(token.LSS, TT.Int(0), timeout, types.Typ[types.Bool]))
	}
	var set *Event
	type frame struct {
		e   *Event
		op  *Term
		end int
	}
	var frames []frame
	for _, e := range pt.Events {
		if e.Kind != "Call" && e.Kind != "Invoke" && e.Kind != "Dyn" {
			continue
		}
		n := calleeName(e)
		if (n == "SetReadDeadline" || n == "SetDeadline") && connArg(e) != nil {
			set = e
			continue
		}
		waits := false
		switch n {
		case "NextFrame", "ReadMessage", "NextReader", "ReadAll", "Discard", "Read", "ReadFull", "Copy", "ReadJSON", "ReadHeader", "ReadFrame", "ReadData":
			waits = true
		}
		if !waits {
			continue
		}
		switch pos {
		case True:
			c.ob(set != nil && isFromNow(set.Args[1], timeout), "read-deadline", name+" ("+n+")", e.Pos, pt, "a read with a timeout waits without its deadline")
		case False:
			c.ob(set == nil || isNoTime(set.Args[1]), "read-deadline", name+" ("+n+")", e.Pos, pt, "a read without a timeout gets a deadline")
		default:
			c.ob(false, "read-deadline", name+" ("+n+")", e.Pos, pt, "whether there is a timeout is not looked at")
		}
		if n == "NextFrame" || n == "ReadMessage" {
			if e.Res == nil || e.Res.Op != OpTuple {
				c.ob(false, "complete", name+" (frame)", e.Pos, pt, "unexpected results")
				continue
			}
			fr := frame{e: e}
			if n == "ReadMessage" {
				fr.op = e.Res.Args[0]
			} else if st, ok := e.Res.Args[0].Typ.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == "OpCode" {
						fr.op = mf(e.Res.Args[0], st.Field(i))
					}
				}
			}
			if fr.op == nil {
				c.ob(false, "complete", name+" (type)", e.Pos, pt, "the type of a frame was not found")
				continue
			}
			frames = append(frames, fr)
		}
	}
	errOf := func(e *Event) *Term { return e.Res.Args[len(e.Res.Args)-1] }
	// dropped frames: all but the last, and the last when the loop goes on
	for i, fr := range frames {
		if i == len(frames)-1 && pt.Outcome != "loop" {
			continue
		}
		if pt.Outcome == "loop" && !f.isNil(errOf(fr.e)) && i == len(frames)-1 {
			c.ob(false, "complete", name+" (goes on)", fr.e.Pos, pt, "it goes on after an error")
			continue
		}
		for _, v := range []int64{1, 2} {
			if t.lib == "gorilla" || opPossible(pt, fr.op, v) {
				c.ob(!opPossible(pt, fr.op, v), "complete", name+" (dropped)", fr.e.Pos, pt, "a message of type %d can be dropped", v)
			}
		}
	}
	if !complete(pt) {
		return
	}
	if len(pt.Results) != 3 {
		c.ob(false, "anchor", name, root.Pos(), pt, "unexpected results")
		return
	}
	data, typ, err := pt.Results[0], pt.Results[1], pt.Results[2]
	if f.isNonNil(err) {
		c.ob(true, "complete", name+" (failed)", root.Pos(), pt, "")
		return
	}
	if len(frames) == 0 {
		c.ob(false, "complete", name+" (nothing read)", root.Pos(), pt, "returns without an error and without reading")
		return
	}
	fr := frames[len(frames)-1]
	if !c.ob(f.isNil(errOf(fr.e)), "complete", name+" (read)", fr.e.Pos, pt, "a frame whose reading may have failed is returned") {
		return
	}
	// whole
	whole := false
	if calleeName(fr.e) == "ReadMessage" {
		whole = data == fr.e.Res.Args[1]
	} else {
		for _, e := range pt.Events {
			if e.Kind == "Call" && e.Seq > fr.e.Seq && (e.Name == "io.ReadAll" || e.Name == "io/ioutil.ReadAll") && e.Res.Op == OpTuple && e.Res.Args[0] == data {
				rd := e.Args[0]
				for rd.Op == OpIface {
					rd = rd.Args[0]
				}
				whole = rd == fr.e.Args[0] && (f.isNil(e.Res.Args[1]) || err == e.Res.Args[1])
			}
		}
	}
	c.ob(whole, "complete", name+" (whole)", fr.e.Pos, pt, "what is returned is not the whole message, or its reading may have failed")
	// its type
	for v := int64(0); v < 16; v++ {
		if t.lib == "gorilla" && v != 1 && v != 2 || t.lib == "gobwas" && (v == 0 || v >= 3 && v <= 7 || v >= 11) {
			continue // refused by the library (header checks, see handed-over)
		}
		if !opPossible(pt, fr.op, v) {
			continue
		}
		c.ob(v == 1 || v == 2, "complete", name+" (kind)", fr.e.Pos, pt, "a frame of type %d is returned as a message", v)
		got, ok := opEval(pt, typ, fr.op, v)
		c.ob(ok && got == v, "complete", name+" (type)", fr.e.Pos, pt, "a message of type %d is returned as of type %s", v, typ)
	}
}

// handedOver: constructors.
func (c *Chk) handedOver(t *transport) {
	for _, root := range c.p.entryPoints() {
		if fnPkg(root) != t.pkg || root.Synthetic != "" || isTestFile(c.p, root) {
			continue
		}
		rs := root.Signature.Results()
		if rs.Len() != 2 || namedOf(rs.At(0).Type()) != c.r.Socket {
			continue
		}
		name := t.label + "." + root.RelString(t.pkg.Pkg)
		for _, pt := range c.explore(root, name, c.base()) {
			if !complete(pt) {
				continue
			}
			var open *Event
			for _, e := range pt.Events {
				if e.Kind == "Call" && e.Res != nil && e.Res.Op == OpTuple && len(e.Res.Args) > 0 && e.Res.Args[0].Typ != nil && isLibConn(e.Res.Args[0].Typ) {
					open = e
				}
			}
			if !c.ob(open != nil, "handed-over", name+" (opened)", root.Pos(), pt, "no connection is opened") {
				continue
			}
			err := open.Res.Args[len(open.Res.Args)-1]
			f := pt.Facts
			switch f.nilness(err) {
			case False:
				c.ob(f.isNil(pt.Results[0]) && f.isNonNil(pt.Results[1]), "handed-over", name+" (failed)", open.Pos, pt, "a failed handshake returns %s, %s", pt.Results[0], pt.Results[1])
				continue
			case Unknown:
				c.ob(false, "handed-over", name+" (looked at)", open.Pos, pt, "whether the handshake failed is not looked at")
				continue
			}
			sock := pt.Results[0]
			for sock.Op == OpIface {
				sock = sock.Args[0]
			}
			conn := open.Res.Args[0]
			ok := f.isNil(pt.Results[1]) && c.memOf(pt, sock, t.conn.Name()) == conn
			c.ob(ok, "handed-over", name, open.Pos, pt, "the returned socket is not the opened connection's")
			if t.lib != "gobwas" {
				continue
			}
			var reader *Term
			for a, v := range pt.St.mem {
				if a.Op == OpFAddr && a.Args[0] == sock && strings.HasSuffix(types.TypeString(v.Typ, nil), "wsutil.Reader") {
					reader = v
				}
			}
			if !c.ob(reader != nil, "handed-over", name+" (reader)", open.Pos, pt, "the socket has no reader") {
				continue
			}
			src := c.memOf(pt, reader, "Source")
			for src != nil && src.Op == OpIface {
				src = src.Args[0]
			}
			ahead := (*Term)(nil)
			for _, r := range open.Res.Args {
				if types.TypeString(r.Typ, nil) == "*bufio.Reader" {
					ahead = r
				}
			}
			switch {
			case ahead == nil || f.isNil(ahead):
				c.ob(src == conn, "handed-over", name+" (source)", open.Pos, pt, "frames are not read from the connection")
			case f.isNonNil(ahead):
				c.ob(src == ahead, "handed-over", name+" (read ahead)", open.Pos, pt, "what came with the handshake response is lost")
			default:
				c.ob(src == ahead && false, "handed-over", name+" (read ahead)", open.Pos, pt, "what came with the handshake response is lost")
			}
			skip := c.memOf(pt, reader, "SkipHeaderCheck")
			c.ob(skip == nil || isZeroTerm(skip) || skip == TT.Const(constant.MakeBool(false), types.Typ[types.Bool]), "handed-over", name+" (header checks)", open.Pos, pt, "invalid frames are not refused")
		}
	}
}

func (c *Chk) memOf(pt *Path, obj *Term, field string) *Term {
	for a, v := range pt.St.mem {
		if a.Op == OpFAddr && a.Args[0] == obj && a.FieldVar != nil && a.FieldVar.Name() == field {
			return v
		}
	}
	return nil
}
