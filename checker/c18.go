package main

// C18: the redis and nats backends.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

// adapter: a package with a type that implements neffos.StackExchange.
type adapter struct {
	pkg   *ssa.Package
	typ   *types.Named
	label string
	table *types.Var // connection -> subscriber
	entry *types.Named
	// of a subscriber
	client, link *types.Var
	msgCh, subs  *types.Var
	// channels of the loop
	add, sub, unsub, del *types.Var
	// address shapes
	self, ns string
	literal  Tri // channels are subscribed to by their own name and not as patterns
}

func (c *Chk) adapters() []*adapter {
	var out []*adapter
	seen := map[*ssa.Package]bool{}
	for _, f := range c.p.Funcs {
		pk := fnPkg(f)
		if pk == nil || pk == c.p.Root || seen[pk] || !c.p.isRepo(f) {
			continue
		}
		seen[pk] = true
		for _, n := range pk.Pkg.Scope().Names() {
			tn, ok := pk.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || !c.implements(nt) || types.IsInterface(nt) {
				continue
			}
			a := &adapter{pkg: pk, typ: nt, label: pk.Pkg.Name()}
			for _, fv := range structField(nt, func(t types.Type) bool {
				m, ok := t.Underlying().(*types.Map)
				return ok && namedOf(m.Key()) == c.r.Conn && namedOf(m.Elem()) != nil
			}) {
				a.table = fv
				a.entry = namedOf(fv.Type().Underlying().(*types.Map).Elem())
			}
			if a.entry != nil {
				for _, fv := range structField(a.entry, func(t types.Type) bool { return namedOf(t) == c.r.Conn }) {
					a.client = fv
				}
				for _, fv := range structField(a.entry, isLink) {
					a.link = fv
				}
				for _, fv := range structField(a.entry, func(t types.Type) bool { _, ok := t.Underlying().(*types.Chan); return ok }) {
					a.msgCh = fv
				}
				for _, fv := range structField(a.entry, func(t types.Type) bool {
					m, ok := t.Underlying().(*types.Map)
					return ok && strings.HasSuffix(types.TypeString(m.Elem(), nil), "nats.go.Subscription")
				}) {
					a.subs = fv
				}
			}
			out = append(out, a)
		}
	}
	return out
}

// isLink: a connection to the backend's server.
func isLink(t types.Type) bool {
	s := types.TypeString(t, nil)
	return strings.HasSuffix(s, "radix/v3.PubSubConn") || s == "*github.com/nats-io/nats.go.Conn"
}

// bop: an operation on the backend's server.
type bop struct {
	kind string // open, sub, unsub, close, publish, flush, check, closed?
	ev   *Event
	link *Term // the connection (the subscription for the end of a nats one)
	addr *Term
	to   *Term // channel or handler of a subscription
	data *Term
	lit  bool // by name, not by pattern
	err  *Term
}

func lastOf(t *Term) *Term {
	if t != nil && t.Op == OpTuple && len(t.Args) > 0 {
		return t.Args[len(t.Args)-1]
	}
	return t
}

func plain(t *Term) *Term {
	for t != nil && (t.Op == OpIface || t.Op == OpConv) && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// operation: what the event does to the backend's server.
func operation(pt *Path, e *Event) *bop {
	if e.Kind != "Call" && e.Kind != "Invoke" {
		return nil
	}
	n := calleeName(e)
	err := lastOf(e.Res)
	switch {
	case strings.Contains(e.Name, "radix.PubSubConn.") || strings.Contains(e.Name, "radix/v3.PubSubConn."):
		o := &bop{ev: e, link: e.Args[0], err: err}
		switch n {
		case "Subscribe", "PSubscribe":
			o.kind = "sub"
		case "Unsubscribe", "PUnsubscribe":
			o.kind = "unsub"
		case "Close":
			o.kind = "close"
			return o
		default:
			return nil
		}
		o.lit = n[0] != 'P'
		if len(e.Args) == 3 {
			o.to = e.Args[1]
			if l := e.Args[2]; l.Op == OpArr && len(l.Args) == 1 {
				o.addr = l.Args[0]
			}
		}
		return o
	case strings.Contains(e.Name, "radix/v3.PersistentPubSub"):
		r := e.Res
		if r != nil && r.Op == OpTuple {
			return &bop{kind: "open", ev: e, link: r.Args[0], err: err}
		}
		return &bop{kind: "open", ev: e, link: r}
	case strings.Contains(e.Name, "radix") && n == "Do" && len(e.Args) > 0:
		cmd := plain(e.Args[len(e.Args)-1])
		for _, x := range pt.Events {
			if x.Seq >= e.Seq || x.Kind != "Call" || plain(x.Res) != cmd || len(x.Args) < 3 {
				continue
			}
			if s, ok := x.Args[1].StrVal(); !ok || !strings.EqualFold(s, "PUBLISH") {
				continue
			}
			o := &bop{kind: "publish", ev: e, link: e.Args[0], err: err}
			switch calleeName(x) {
			case "FlatCmd":
				if l := x.Args[3]; len(x.Args) == 4 && l.Op == OpArr && len(l.Args) == 1 {
					o.addr, o.data = x.Args[2], plain(l.Args[0])
				}
			case "Cmd":
				if l := x.Args[2]; l.Op == OpArr && len(l.Args) == 2 {
					o.addr, o.data = l.Args[0], plain(l.Args[1])
				}
			}
			return o
		}
	case strings.HasPrefix(e.Name, "(github.com/nats-io/nats.go.Options).Connect") || strings.HasPrefix(e.Name, "github.com/nats-io/nats.go.Connect"):
		if e.Res != nil && e.Res.Op == OpTuple {
			return &bop{kind: "open", ev: e, link: e.Res.Args[0], err: err}
		}
	case strings.HasPrefix(e.Name, "(*github.com/nats-io/nats.go.Conn)."):
		o := &bop{ev: e, link: e.Args[0], err: err}
		switch n {
		case "Subscribe":
			o.kind, o.addr, o.to = "sub", e.Args[1], e.Args[2]
		case "Publish":
			o.kind, o.addr, o.data = "publish", e.Args[1], plain(e.Args[2])
		case "Flush", "FlushTimeout", "FlushWithContext":
			o.kind = "flush"
		case "LastError":
			o.kind = "check"
		case "Close":
			o.kind = "close"
		case "IsClosed":
			o.kind = "closed?"
		default:
			return nil
		}
		return o
	case strings.HasPrefix(e.Name, "(*github.com/nats-io/nats.go.Subscription).Unsubscribe"):
		return &bop{kind: "unsub", ev: e, link: e.Args[0], err: err, lit: true}
	}
	return nil
}

func operations(pt *Path) []*bop {
	var out []*bop
	for _, e := range pt.Events {
		if o := operation(pt, e); o != nil {
			out = append(out, o)
		}
	}
	return out
}

func kindOf(ops []*bop, kind string) []*bop {
	var out []*bop
	for _, o := range ops {
		if o.kind == kind {
			out = append(out, o)
		}
	}
	return out
}

// shape of an address around its variable part; "" if that part is not in it once.
func shape(pt *Path, addr *Term, hole func(*Term) bool) string {
	s, n := "", 0
	for _, p := range flatten(addr) {
		switch {
		case p.term == nil:
			s += fmt.Sprintf("%q", p.lit)
		case hole(p.term):
			s += "<>"
			n++
		default:
			if p.term.Op == OpLoad && p.term.Args[0].Op == OpFAddr && p.term.Args[0].Args[0].Op == OpParam {
				s += "{" + p.term.Args[0].FieldVar.Name() + "}"
			} else {
				s += "{" + p.term.String() + "}"
			}
		}
	}
	if n != 1 {
		return ""
	}
	return s
}

// bindings: what the parameters and captured variables of a started or registered function stand for.
type bindings struct {
	fn   *ssa.Function
	vals map[*Term]*Term
}

func bindFn(pt *Path, f *Term, args []*Term) *bindings {
	f = plain(f)
	if f == nil || f.Fn == nil {
		return nil
	}
	b := &bindings{fn: f.Fn, vals: map[*Term]*Term{}}
	for i, p := range f.Fn.Params {
		if i < len(args) {
			b.vals[TT.mk(OpParam, p.Name(), p.Type())] = args[i]
		}
	}
	b.free(pt, f, 0)
	return b
}

// free: what the captured variables hold, those of literals they hold included.
func (b *bindings) free(pt *Path, f *Term, depth int) {
	if f.Op != OpClosure || f.Fn == nil || depth > 3 {
		return
	}
	for i, fv := range f.Fn.FreeVars {
		if i >= len(f.Args) {
			continue
		}
		v := f.Args[i]
		if v.Op == OpAlloc {
			if m, ok := pt.St.mem[v]; ok {
				v = m
			}
		}
		k := TT.mk(OpParam, "free:"+fv.Name(), fv.Type())
		if _, ok := b.vals[k]; !ok || depth == 0 {
			b.vals[k] = v
		}
		if v.Op == OpClosure {
			b.free(pt, v, depth+1)
		}
	}
}

// is: the term inside the function is that value outside.
func (b *bindings) is(t, v *Term) bool {
	return t != nil && v != nil && plain(b.get(t)) == plain(v)
}

func (b *bindings) get(t *Term) *Term {
	t = plain(t)
	if v, ok := b.vals[t]; ok {
		return v
	}
	if t.Op == OpLoad {
		if v, ok := b.vals[t.Args[0]]; ok {
			return v
		}
	}
	return nil
}

func checkC18(c *Chk) {
	c.rule("address", "a message for a named recipient is published to the address that the recipient subscribes to on connect, any other to the address that the members of its namespace subscribe to and unsubscribe from; questions and their replies use the token itself")
	c.rule("delivered", "each message that arrives for a client is decoded by its connection, marked as coming from the backend and written to it once, for as long as its subscriber lives")
	c.rule("published", "Publish sends every message of the list once, in order, until the first failure; it reports success exactly when all were sent")
	c.rule("asked", "Ask publishes its question once, after its subscription is in effect; it returns the reply with its error, the context's error, or the error of the step that failed")
	c.rule("notified", "NotifyAsk publishes the reply once and returns the failure to do so")
	c.rule("closed", "every connection that is opened for a question is closed on every way out, and one opened for a client is closed or handed over to the loop")
	c.rule("told", "Subscribe, Unsubscribe and OnDisconnect tell the loop of their connection and namespace, once")
	c.rule("loop", "the loop remembers every subscriber, subscribes and unsubscribes the known ones, and closes and forgets a disconnected one; it never ends")
	c.rule("confined", "the table of the subscribers is used by the loop alone")
	c.rule("constructed", "a new backend has all of its parts and one loop")
	as := c.adapters()
	c.ob(len(as) >= 2, "anchor", "backends", token.NoPos, nil, "%d implementations of neffos.StackExchange found outside of the root package", len(as))
	for _, a := range as {
		if !c.ob(a.table != nil && a.client != nil && a.link != nil && (a.msgCh != nil || a.subs != nil), "anchor", a.label, token.NoPos, nil, "the table of the subscribers or the parts of a subscriber were not found") {
			continue
		}
		c.adapter(a)
	}
	c.need("address", 8)
	c.need("delivered", 4)
	c.need("published", 4)
	c.need("asked", 6)
	c.need("notified", 2)
	c.need("closed", 4)
	c.need("told", 6)
	c.need("loop", 8)
	c.need("confined", 2)
	c.need("constructed", 2)
}

func (c *Chk) adapterMethod(a *adapter, name string, params int) *ssa.Function {
	f := c.p.methodOf(a.pkg, a.typ.Obj().Name(), name)
	if !c.ob(f != nil && f.Blocks != nil && len(f.Params) == params+1, "anchor", a.label+"."+name, token.NoPos, nil, "not found") {
		return nil
	}
	return f
}

func (c *Chk) adapter(a *adapter) {
	a.add = c.adapterConnect(a)
	a.sub = c.tells(a, "Subscribe", true)
	a.unsub = c.tells(a, "Unsubscribe", true)
	a.del = c.tells(a, "OnDisconnect", false)
	chans := map[*types.Var]bool{a.add: true, a.sub: true, a.unsub: true, a.del: true}
	if !c.ob(len(chans) == 4 && !chans[nil], "told", a.label+" (channels)", token.NoPos, nil, "the loop's channels are not told apart") {
		return
	}
	run := c.constructor(a)
	if run != nil {
		c.adapterLoop(a, run)
		c.confined(a, run)
	}
	c.adapterPublish(a)
	c.adapterAsk(a)
	c.adapterNotify(a)
}

// deliver: the decoded message goes to the client, once.
func (c *Chk) deliver(a *adapter, pt *Path, name string, b *bindings, conn *Term, from, to int, data func(*Term) bool, over bool) {
	var dec, wr []*Event
	for _, e := range pt.Events {
		if e.Seq <= from || e.Seq >= to {
			continue
		}
		switch e.Kind {
		case "Decode":
			dec = append(dec, e)
		case "Write":
			wr = append(wr, e)
		}
	}
	if !over {
		return
	}
	pos := b.fn.Pos()
	if !c.ob(len(dec) == 1 && len(wr) == 1 && dec[0].Seq < wr[0].Seq, "delivered", name, pos, pt, "a received message is decoded %d times and written %d times", len(dec), len(wr)) {
		return
	}
	d, w := dec[0], wr[0]
	own := false
	whole := false
	for _, x := range d.Args {
		own = own || b.is(x, conn)
		whole = whole || data(x)
	}
	c.ob(own && d.Gor == 0, "delivered", name+" (decoded)", d.Pos, pt, "the message is not decoded by the rules of the client's connection")
	c.ob(whole, "delivered", name+" (data)", d.Pos, pt, "something else than the received data is decoded")
	m := c.argOf(w, c.isMsg)
	c.ob(b.is(w.Args[0], conn) && w.Gor == 0, "delivered", name+" (client)", w.Pos, pt, "the message is written to another connection, or out of order")
	bad := ""
	if m != nil && m.Op == OpStruct {
		st := m.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			fv := st.Field(i)
			if fv.Name() == "FromStackExchange" {
				if !pt.Facts.is(m.Args[i], true) {
					bad = fv.Name()
				}
			} else if m.Args[i] != mf(d.Res, fv) {
				bad = fv.Name()
			}
		}
	} else {
		bad = "FromStackExchange"
	}
	c.ob(bad == "", "delivered", name+" (marked)", w.Pos, pt, "the written message differs from the received one, or is not marked as the backend's: %s", bad)
}

// receiver: the function that delivers what arrives on a channel (redis) or is called with it (nats).
func (c *Chk) receiver(a *adapter, b *bindings, ch, conn *Term, name string) {
	if ch != nil {
		recvs := 0
		for _, pt := range c.explore(b.fn, "receiver:"+a.label+name, Config{LoopMin: 1, Opaque: c.r.baseOpaque}) {
			open := true
			for _, t := range turns(pt) {
				if !c.ob(b.is(t.recv.Args[0], ch), "delivered", name+" (channel)", t.recv.Pos, pt, "the receiver waits for something else") {
					continue
				}
				recvs++
				ok := True
				if r := t.recv.Res; r != nil && r.Op == OpTuple {
					ok = pt.Facts.eval(r.Args[1])
				}
				if ok == False {
					open = false
					continue
				}
				got := t.got
				c.deliver(a, pt, name, b, conn, t.from, t.to, func(x *Term) bool {
					x = plain(x)
					return x.Op == OpField && x.Args[0] == got && x.FieldVar.Name() == "Message"
				}, t.over(pt))
			}
			if complete(pt) {
				c.ob(!open, "delivered", name+" (ends)", b.fn.Pos(), pt, "the receiver ends while its channel is open")
			}
		}
		c.ob(recvs > 0, "delivered", name+" (receives)", b.fn.Pos(), nil, "nothing is received")
		return
	}
	for _, pt := range c.explore(b.fn, "receiver:"+a.label+name, c.base()) {
		if len(b.fn.Params) == 0 {
			break
		}
		m := paramN(b.fn, len(b.fn.Params)-1)
		c.deliver(a, pt, name, b, conn, -1, 1<<30, func(x *Term) bool {
			x = plain(x)
			return x.Op == OpLoad && x.Args[0].Op == OpFAddr && x.Args[0].Args[0] == m && x.Args[0].FieldVar.Name() == "Data"
		}, complete(pt))
	}
}

// goesTo: what is subscribed to is received for the client.
func (c *Chk) goesTo(a *adapter, pt *Path, o *bop, conn func(*Term) bool, name string) {
	if a.msgCh == nil { // nats: a handler
		b := bindFn(pt, o.to, nil)
		if !c.ob(b != nil, "delivered", name+" (handler)", o.ev.Pos, pt, "what handles the messages is not known") {
			return
		}
		var k *Term
		for _, v := range b.vals {
			if namedOf2(v.Typ) == c.r.Conn && conn(v) {
				k = v
			}
		}
		if c.ob(k != nil, "delivered", name+" (whose)", o.ev.Pos, pt, "the handler is not of the subscribed connection") {
			c.receiver(a, b, nil, k, name)
		}
		return
	}
	n := 0
	for _, e := range pt.Events {
		if e.Kind != "Go" || e.Flag {
			continue
		}
		b := bindFn(pt, e.Args[0], e.Args[1:])
		if b == nil {
			continue
		}
		reads := false
		var k *Term
		for _, v := range b.vals {
			reads = reads || plain(v) == plain(o.to)
			if namedOf2(v.Typ) == c.r.Conn && conn(v) {
				k = v
			}
		}
		if !reads {
			continue
		}
		n++
		if c.ob(k != nil, "delivered", name+" (whose)", e.Pos, pt, "the receiver is not of the subscribed connection") {
			c.receiver(a, b, o.to, k, name)
		}
	}
	c.ob(n == 1, "delivered", name+" (receiver)", o.ev.Pos, pt, "%d functions are started to receive the messages", n)
}

func namedOf2(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	return namedOf(t)
}

// adapterConnect: OnConnect. Gives the channel that subscribers are handed over on.
func (c *Chk) adapterConnect(a *adapter) *types.Var {
	f := c.adapterMethod(a, "OnConnect", 1)
	if f == nil {
		return nil
	}
	name := a.label + ".OnConnect"
	self, conn := selfOf(f), paramN(f, 1)
	isID := func(t *Term) bool { return fieldBase(t, c.r.connID) == conn }
	var add *types.Var
	for _, pt := range c.explore(f, name, c.base()) {
		if !complete(pt) {
			c.ob(pt.Outcome == "panic", "closed", name+" (ends)", f.Pos(), pt, "it does not end")
			continue
		}
		ops := operations(pt)
		fa := pt.Facts
		accepted := fa.nilness(pt.Results[0])
		opens := kindOf(ops, "open")
		if !c.ob(accepted != Unknown, "closed", name+" (known)", f.Pos(), pt, "whether the connection is accepted is not decided") {
			continue
		}
		var sends []*Event
		for _, e := range pt.Events {
			if e.Kind == "Send" && namedOf2(e.Args[1].Typ) == a.entry {
				sends = append(sends, e)
			}
		}
		if accepted == False {
			c.ob(len(sends) == 0, "closed", name+" (refused)", f.Pos(), pt, "a refused connection gets a subscriber")
			for _, o := range opens {
				if o.err != nil && fa.nilness(o.err) == False {
					continue
				}
				c.closedLater(pt, ops, o, "closed", name)
			}
			continue
		}
		if !c.ob(len(opens) == 1 && (opens[0].err == nil || fa.isNil(opens[0].err)), "loop", name+" (opened)", f.Pos(), pt, "%d connections are opened for the client, or a failed one is used", len(opens)) {
			continue
		}
		link := opens[0].link
		subs := kindOf(ops, "sub")
		if !c.ob(len(subs) == 1 && subs[0].link == link, "address", name+" (subscribed)", f.Pos(), pt, "the client's own address is subscribed to %d times", len(subs)) {
			continue
		}
		s := subs[0]
		if !fa.is(mkEq(idTerm(pt, isID), strT("")), true) {
			sh := shape(pt, s.addr, isID)
			if c.ob(sh != "" && (a.self == "" || a.self == sh), "address", name+" (own)", s.ev.Pos, pt, "the address that is subscribed to is not made of the connection's ID") {
				a.self = sh
			}
		}
		c.literal(a, s, name, pt)
		c.goesTo(a, pt, s, func(t *Term) bool { return t == conn }, name)
		if s.lit == false && a.msgCh == nil {
			// nats: in effect before the connection is accepted
			ok := fa.isNil(s.err)
			in := false
			for _, o := range ops {
				if o.ev.Seq > s.ev.Seq && o.link == link {
					if o.kind == "flush" && (fa.isNil(o.err) || checkedAfter(pt, ops, o)) {
						in = true
					}
				}
			}
			c.ob(ok && in, "loop", name+" (in effect)", s.ev.Pos, pt, "the connection is accepted although its subscription failed, or before it is known to the server")
		}
		if !c.ob(len(sends) == 1 && sends[0].Gor == 0 && sends[0].Name != "select", "loop", name+" (handed over)", f.Pos(), pt, "the subscriber is handed over %d times", len(sends)) {
			continue
		}
		e := sends[0]
		fv, owner := chanField(e.Args[0])
		c.ob(owner == self && (add == nil || add == fv), "loop", name+" (channel)", e.Pos, pt, "it is handed over on another channel")
		add = fv
		obj := e.Args[1]
		get := func(fv *types.Var) *Term {
			if fv == nil {
				return nil
			}
			return c.memOf(pt, obj, fv.Name())
		}
		c.ob(get(a.client) == conn && get(a.link) == link && (a.msgCh == nil || plain(get(a.msgCh)) == plain(s.to)), "loop", name+" (complete)", e.Pos, pt, "the subscriber does not hold its connection, its backend connection and its channel")
		c.ob(len(kindOf(ops, "close")) == 0, "loop", name+" (open)", f.Pos(), pt, "the backend connection of an accepted client is closed")
	}
	return add
}

// checkedAfter: the connection's error is looked at after the operation, and there is none.
func checkedAfter(pt *Path, ops []*bop, o *bop) bool {
	for _, x := range ops {
		if x.kind == "check" && x.ev.Seq > o.ev.Seq && x.link == o.link && pt.Facts.isNil(x.err) {
			return true
		}
	}
	return false
}

func strT(s string) *Term { return TT.Str(s) }

// idTerm: the connection's ID as the path reads it.
func idTerm(pt *Path, isID func(*Term) bool) *Term {
	for _, e := range pt.Events {
		if e.Kind == "Load" && e.Res != nil && isID(e.Res) {
			return e.Res
		}
	}
	return TT.Nil()
}

// literal: all subscriptions of a backend are of one kind.
func (c *Chk) literal(a *adapter, o *bop, name string, pt *Path) {
	if a.msgCh == nil {
		return
	}
	if a.literal == Unknown {
		a.literal = tri(o.lit)
	}
	c.ob(a.literal == tri(o.lit), "loop", name+" (kind)", o.ev.Pos, pt, "subscriptions by name and by pattern are mixed")
}

// closedLater: the connection is closed on the rest of the path.
func (c *Chk) closedLater(pt *Path, ops []*bop, o *bop, rule, name string) {
	n := 0
	for _, x := range ops {
		if x.kind == "close" && x.link == o.link && x.ev.Seq > o.ev.Seq && x.ev.Gor == 0 {
			n++
		}
	}
	c.ob(n >= 1, rule, name, o.ev.Pos, pt, "a connection to the backend stays open")
}

// tells: Subscribe, Unsubscribe and OnDisconnect. Gives the channel.
func (c *Chk) tells(a *adapter, method string, withNs bool) *types.Var {
	n := 1
	if withNs {
		n = 2
	}
	f := c.adapterMethod(a, method, n)
	if f == nil {
		return nil
	}
	name := a.label + "." + method
	self := selfOf(f)
	var ch *types.Var
	for _, pt := range c.explore(f, name, c.base()) {
		if !complete(pt) {
			c.ob(pt.Outcome == "panic", "told", name+" (ends)", f.Pos(), pt, "it does not end")
			continue
		}
		var sends []*Event
		for _, e := range pt.Events {
			if e.Kind == "Send" {
				sends = append(sends, e)
			}
		}
		if !c.ob(len(sends) == 1 && sends[0].Gor == 0 && sends[0].Name != "select", "told", name, f.Pos(), pt, "the loop is told %d times, or maybe", len(sends)) {
			continue
		}
		e := sends[0]
		fv, owner := chanField(e.Args[0])
		c.ob(owner == self && (ch == nil || ch == fv), "told", name+" (channel)", e.Pos, pt, "the loop is told on different channels")
		ch = fv
		want := []*Term{paramN(f, 1)}
		if withNs {
			want = append(want, paramN(f, 2))
		}
		for i, w := range want {
			c.ob(c.hasPart(pt, e.Args[1], w), "told", fmt.Sprintf("%s (%d)", name, i), e.Pos, pt, "the loop is not told of %s", w)
		}
	}
	return ch
}

// hasPart: the value is the other one or holds it in a field.
func (c *Chk) hasPart(pt *Path, v, w *Term) bool {
	if v == w {
		return true
	}
	if v.Op == OpStruct {
		for _, x := range v.Args {
			if x == w {
				return true
			}
		}
	}
	if v.Op == OpAlloc {
		for a, x := range pt.St.mem {
			if a.Op == OpFAddr && a.Args[0] == v && x == w {
				return true
			}
		}
	}
	return false
}

// constructor: what makes the backend. Gives the loop.
func (c *Chk) constructor(a *adapter) *ssa.Function {
	var run *ssa.Function
	n := 0
	for _, f := range c.p.entryPoints() {
		if fnPkg(f) != a.pkg || f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || namedOf(f.Signature.Results().At(0).Type()) != a.typ {
			continue
		}
		n++
		name := a.label + "." + f.Name()
		for _, pt := range c.explore(f, name, c.base()) {
			if !complete(pt) {
				continue
			}
			obj := pt.Results[0]
			ops := operations(pt)
			if pt.Facts.isNil(obj) {
				for _, o := range kindOf(ops, "open") {
					if o.err != nil && !pt.Facts.isNil(o.err) {
						continue
					}
					c.closedLater(pt, ops, o, "constructed", name+" (failed)")
				}
				continue
			}
			var loops []*Event
			for _, e := range pt.Events {
				if e.Kind == "Go" {
					loops = append(loops, e)
				}
			}
			if !c.ob(len(loops) == 1 && loops[0].Fn != nil && !loops[0].Flag, "constructed", name+" (loop)", f.Pos(), pt, "%d loops are started", len(loops)) {
				continue
			}
			b := bindFn(pt, loops[0].Args[0], loops[0].Args[1:])
			own := false
			if b != nil {
				for _, v := range b.vals {
					own = own || v == obj
				}
			}
			c.ob(own && (run == nil || run == loops[0].Fn), "constructed", name+" (its loop)", loops[0].Pos, pt, "the loop of another backend is started")
			run = loops[0].Fn
			seen := map[*Term]bool{}
			st := a.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				fv := st.Field(i)
				switch fv.Type().Underlying().(type) {
				case *types.Chan, *types.Map, *types.Pointer, *types.Signature, *types.Interface:
				default:
					continue
				}
				v := c.memOf(pt, obj, fv.Name())
				ok := v != nil && !pt.Facts.isNil(v)
				if ok {
					if e := opened(ops, v); e != nil && e.err != nil {
						ok = pt.Facts.isNil(e.err)
					}
				}
				c.ob(ok && !seen[v], "constructed", name+" ("+fv.Name()+")", f.Pos(), pt, "%s is missing, failed or shared", fv.Name())
				if _, isFn := fv.Type().Underlying().(*types.Signature); !isFn {
					seen[v] = true
				}
			}
		}
	}
	c.ob(n > 0 && run != nil, "constructed", a.label, token.NoPos, nil, "nothing makes this backend")
	return run
}

func opened(ops []*bop, v *Term) *bop {
	for _, o := range ops {
		if o.kind == "open" && o.link == v {
			return o
		}
	}
	return nil
}

func (c *Chk) adapterLoop(a *adapter, run *ssa.Function) {
	self := readerConn(run)
	name := a.label + "." + rel2(run)
	got := map[*types.Var]int{}
	for _, pt := range c.explore(run, a.label+".loop", Config{LoopMin: 1, Opaque: c.r.baseOpaque}) {
		if pt.Outcome == "panic" {
			continue
		}
		if !c.ob(pt.Outcome == "loop", "loop", name+" (ends)", run.Pos(), pt, "the loop ends") {
			continue
		}
		ts := turns(pt)
		for _, t := range ts {
			fv, owner := chanField(t.recv.Args[0])
			if !c.ob(owner == self && (fv == a.add || fv == a.sub || fv == a.unsub || fv == a.del), "loop", name+" (waits)", t.recv.Pos, pt, "the loop waits for something else") {
				continue
			}
			got[fv]++
			if !t.over(pt) {
				continue
			}
			c.adapterTurn(a, pt, self, name, fv, t)
		}
		// nothing else waits
		for _, e := range pt.Events {
			if e.Kind == "Select" {
				c.ob(e.Flag && len(e.Args) == 4, "loop", name+" (all)", e.Pos, pt, "the loop does not wait for all of its channels at once")
			}
		}
	}
	for _, fv := range []*types.Var{a.add, a.sub, a.unsub, a.del} {
		c.ob(got[fv] > 0, "loop", name+" ("+fv.Name()+")", run.Pos(), nil, "nothing receives from %s", fv.Name())
	}
}

func rel2(f *ssa.Function) string { return f.RelString(fnPkg(f).Pkg) }

func (c *Chk) adapterTurn(a *adapter, pt *Path, self *Term, name string, fv *types.Var, t turn) {
	fa := pt.Facts
	in := func(e *Event) bool { return e.Seq > t.from && e.Seq < t.to }
	var ops []*bop
	for _, o := range operations(pt) {
		if in(o.ev) {
			ops = append(ops, o)
			c.ob(o.ev.Gor == 0, "loop", name+" (in order)", o.ev.Pos, pt, "an operation on the backend runs in the background")
		}
	}
	var sets, dels, gets []*Event
	for _, e := range pt.Events {
		if !in(e) || len(e.Args) == 0 || !isFieldOf(e.Args[0], self, a.table) {
			continue
		}
		switch e.Kind {
		case "MapSet":
			sets = append(sets, e)
		case "MapDel":
			dels = append(dels, e)
		case "MapGet":
			gets = append(gets, e)
		}
	}
	what := name + " (" + fv.Name() + ")"
	pos := t.recv.Pos
	isKey := func(k, got *Term) bool {
		return k == got || k != nil && (k.Op == OpField && k.Args[0] == got || k.Op == OpLoad && k.Args[0].Op == OpFAddr && k.Args[0].Args[0] == got) && namedOf2(k.Typ) == c.r.Conn
	}
	if fv == a.add {
		ok := len(sets) == 1 && len(dels) == 0 && sets[0].Args[2] == t.got && isFieldOf(sets[0].Args[1], t.got, a.client)
		c.ob(ok && len(ops) == 0, "loop", what, pos, pt, "a new subscriber is not put in the table under its connection")
		return
	}
	c.ob(len(sets) == 0, "loop", what+" (adds)", pos, pt, "the table gets a subscriber")
	if !c.ob(len(gets) >= 1 && isKey(gets[0].Args[1], t.got), "loop", what+" (looked up)", pos, pt, "the subscriber of the connection is not looked up") {
		return
	}
	g := gets[0]
	if absent(pt, g) {
		c.ob(len(ops) == 0, "loop", what+" (unknown)", pos, pt, "something is done for an unknown connection")
		return
	}
	if !c.ob(present(pt, g), "loop", what+" (known)", pos, pt, "whether the connection has a subscriber is not looked at") {
		return
	}
	who := g.Res.Args[0]
	link := func(t *Term) bool { return isFieldOf(t, who, a.link) }
	for _, o := range ops {
		if o.kind != "unsub" || a.msgCh != nil {
			c.ob(link(o.link), "loop", what+" (whose)", o.ev.Pos, pt, "the connection of another subscriber is used")
		}
	}
	forgets := len(dels) == 1 && isKey(dels[0].Args[1], t.got)
	// a subscriber whose connection ended by itself
	for _, o := range ops {
		if o.kind == "closed?" && fa.is(o.ev.Res, true) && fv != a.del {
			c.ob(len(ops) == 1 && (forgets || len(dels) == 0), "loop", what+" (ended)", pos, pt, "an ended connection is used")
			return
		}
	}
	isNs := func(x *Term) bool {
		return (x.Op == OpField && x.Args[0] == t.got || x.Op == OpLoad && x.Args[0].Op == OpFAddr && x.Args[0].Args[0] == t.got) && isString(x.Typ)
	}
	address := func(addr *Term, pos token.Pos) {
		sh := shape(pt, addr, isNs)
		if c.ob(sh != "" && (a.ns == "" || a.ns == sh), "address", what, pos, pt, "the address is not the one of the namespace that is subscribed to: %s", sh) {
			a.ns = sh
		}
	}
	switch fv {
	case a.sub:
		c.ob(len(dels) == 0, "loop", what+" (forgets)", pos, pt, "a living subscriber is forgotten")
		subs := kindOf(ops, "sub")
		if !c.ob(len(subs) == 1 && len(kindOf(ops, "unsub")) == 0 && len(kindOf(ops, "close")) == 0, "loop", what, pos, pt, "the namespace is subscribed to %d times", len(subs)) {
			return
		}
		s := subs[0]
		address(s.addr, s.ev.Pos)
		c.literal(a, s, what, pt)
		if a.msgCh != nil {
			c.ob(isFieldOf(plain(s.to), who, a.msgCh), "delivered", what+" (channel)", s.ev.Pos, pt, "the messages go to another channel than the subscriber's")
			return
		}
		c.goesTo(a, pt, s, func(t2 *Term) bool { return isKey(t2, t.got) || isFieldOf(t2, who, a.client) }, what)
		switch fa.nilness(s.err) {
		case True:
			n := 0
			for _, e := range pt.Events {
				if in(e) && e.Kind == "MapSet" && c.isSubs(pt, e.Args[0], who, a.subs, e.Seq) && e.Args[2] == s.ev.Res.Args[0] {
					n++
					address(e.Args[1], e.Pos)
				}
			}
			for _, e := range pt.Events {
				if in(e) && e.Kind == "MapDel" && c.isSubs(pt, e.Args[0], who, a.subs, e.Seq) {
					n = 0
				}
			}
			c.ob(n == 1, "loop", what+" (kept)", s.ev.Pos, pt, "the subscription is kept %d times", n)
		case Unknown:
			c.ob(false, "loop", what+" (kept)", s.ev.Pos, pt, "a failed subscription is kept")
		}
	case a.unsub:
		c.ob(len(dels) == 0, "loop", what+" (forgets)", pos, pt, "a living subscriber is forgotten")
		us := kindOf(ops, "unsub")
		c.ob(len(kindOf(ops, "sub")) == 0 && len(kindOf(ops, "close")) == 0, "loop", what+" (only)", pos, pt, "something else is done than to unsubscribe")
		if a.msgCh != nil {
			if c.ob(len(us) == 1, "loop", what, pos, pt, "the namespace is unsubscribed from %d times", len(us)) {
				address(us[0].addr, us[0].ev.Pos)
				c.literal(a, us[0], what, pt)
				c.ob(isFieldOf(plain(us[0].to), who, a.msgCh), "loop", what+" (channel)", us[0].ev.Pos, pt, "another channel than the subscriber's is unsubscribed")
			}
			return
		}
		var get, del *Event
		for _, e := range pt.Events {
			if in(e) && len(e.Args) > 1 && isFieldOf(e.Args[0], who, a.subs) {
				switch e.Kind {
				case "MapGet":
					get = e
				case "MapDel":
					del = e
				}
			}
		}
		if !c.ob(get != nil, "loop", what, pos, pt, "the subscription is not looked up") {
			return
		}
		address(get.Args[1], get.Pos)
		if absent(pt, get) {
			c.ob(len(us) == 0, "loop", what+" (none)", pos, pt, "a missing subscription is ended")
			return
		}
		if c.ob(present(pt, get) && len(us) == 1 && us[0].link == get.Res.Args[0], "loop", what+" (ended)", pos, pt, "the namespace's subscription is ended %d times", len(us)) {
			c.ob(del != nil && sameStr(pt, del.Args[1], get.Args[1]), "loop", what+" (removed)", pos, pt, "the ended subscription is kept")
		}
	case a.del:
		cl := kindOf(ops, "close")
		if !c.ob(len(cl) == 1 && len(ops) == 1+len(kindOf(ops, "closed?"))+len(kindOf(ops, "unsub"))+len(kindOf(ops, "flush")), "closed", what, pos, pt, "the connection of a disconnected client is closed %d times", len(cl)) {
			return
		}
		c.ob(forgets, "closed", what+" (forgotten)", pos, pt, "the subscriber of a disconnected client is not forgotten")
		if a.msgCh != nil {
			n := 0
			for _, e := range pt.Events {
				if in(e) && e.Kind == "CloseChan" && isFieldOf(plain(e.Args[0]), who, a.msgCh) {
					n++
					c.ob(e.Seq > cl[0].ev.Seq && e.Gor == 0, "closed", what+" (order)", e.Pos, pt, "the channel is closed while messages may still be sent on it")
				}
			}
			c.ob(n == 1, "closed", what+" (receiver)", pos, pt, "the receiver of a disconnected client is ended %d times", n)
		}
	}
}

// isSubs: the table of the subscriber's subscriptions, also when it is made right here.
func (c *Chk) isSubs(pt *Path, t, who *Term, fv *types.Var, seq int) bool {
	return isFieldOf(t, who, fv) || t == c.fieldAt(pt, who, fv, seq)
}

// confined: only the loop touches the table.
func (c *Chk) confined(a *adapter, run *ssa.Function) {
	inLoop := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, in map[*ssa.Function]bool)
	rec = func(f *ssa.Function, in map[*ssa.Function]bool) {
		if in[f] || !c.p.isRepo(f) {
			return
		}
		in[f] = true
		for _, g := range c.p.staticRefs(f) {
			if g != run {
				rec(g, in)
			}
		}
	}
	rec(run, inLoop)
	other := map[*ssa.Function]bool{}
	for _, f := range c.p.entryPoints() {
		if fnPkg(f) == a.pkg && f.Signature.Recv() != nil && f != run {
			rec(f, other)
		}
	}
	n := 0
	c.fieldUses(a.table, func(f *ssa.Function, in ssa.Instruction, write bool) {
		n++
		fresh := false
		if st, ok := in.(*ssa.Store); ok && write {
			if fad, ok := st.Addr.(*ssa.FieldAddr); ok {
				fresh = c.p.freshBase(fad.X, 0)
			}
		}
		c.ob(fresh || inLoop[f] && !other[f] && !write, "confined", a.label+" "+rel2(f), in.Pos(), nil, "the table of the subscribers is used besides the loop")
	})
	c.ob(n > 0, "confined", a.label, token.NoPos, nil, "the table is not used")
}

// published: the address and the content of a publication of the message.
func (c *Chk) publishes(a *adapter, pt *Path, o *bop, m *Term, name string) {
	to := mf(m, c.r.mTo)
	ns := mf(m, c.r.mNS)
	sent := o.data
	if sent == nil || sent.Sym != "Encode" || len(sent.Args) == 0 {
		c.ob(false, "address", name+" (content)", o.ev.Pos, pt, "something else than the encoded message is published")
		return
	}
	c.ob(sent.Args[0] == m, "address", name+" (content)", o.ev.Pos, pt, "another message is published")
	switch pt.Facts.eval(mkEq(to, strT(""))) {
	case False:
		sh := shape(pt, o.addr, func(t *Term) bool { return t == to })
		c.ob(sh != "" && sh == a.self, "address", name+" (recipient)", o.ev.Pos, pt, "a message for a connection is published to %s, which subscribes to %s", sh, a.self)
	case True:
		sh := shape(pt, o.addr, func(t *Term) bool { return t == ns })
		c.ob(sh != "" && sh == a.ns, "address", name+" (namespace)", o.ev.Pos, pt, "a message for a namespace is published to %s, its members subscribe to %s", sh, a.ns)
	default:
		c.ob(false, "address", name+" (looked at)", o.ev.Pos, pt, "whether the message has a recipient is not looked at")
	}
}

func (c *Chk) adapterPublish(a *adapter) {
	f := c.adapterMethod(a, "Publish", 1)
	if f == nil {
		return
	}
	name := a.label + ".Publish"
	list := paramN(f, 1)
	for _, pt := range c.explore(f, name, c.base()) {
		pubs := kindOf(operations(pt), "publish")
		ixs, ended, ok := visited(pt, list)
		if !c.ob(ok, "published", name+" (list)", f.Pos(), pt, "the way through the list is not understood") {
			continue
		}
		over := complete(pt)
		failed := false
		for i, o := range pubs {
			if !c.ob(!failed && o.ev.Gor == 0, "published", name+" (stops)", o.ev.Pos, pt, "it goes on after a failure, or in the background") {
				break
			}
			if !c.ob(i < len(ixs), "published", name+" (once)", o.ev.Pos, pt, "more is published than there is") {
				break
			}
			m := messageOf(o)
			s, ix, ok := (*Term)(nil), (*Term)(nil), false
			if m != nil {
				s, ix, ok = indexed(m)
			}
			if ok {
				s, ix = place(s, ix)
				l2, x2 := place(list, ixs[i])
				ok = s == l2 && ix == x2
			}
			if c.ob(ok, "published", name+" (in order)", o.ev.Pos, pt, "another message than the next one is published") {
				c.publishes(a, pt, o, m, name)
			}
			switch pt.Facts.nilness(o.err) {
			case False:
				failed = true
			case Unknown:
				last := i == len(pubs)-1 && over
				c.ob(last || !over && i == len(pubs)-1, "published", name+" (looked at)", o.ev.Pos, pt, "whether it failed is not looked at")
			}
		}
		if !over {
			continue
		}
		switch pt.Facts.eval(pt.Results[0]) {
		case True:
			c.ob(ended && !failed && len(pubs) == len(ixs), "published", name+" (success)", f.Pos(), pt, "success is reported after %d of %d messages", len(pubs), len(ixs))
			for _, o := range pubs {
				c.ob(pt.Facts.isNil(o.err), "published", name+" (success)", o.ev.Pos, pt, "success is reported without a look at it")
			}
		case False:
			c.ob(failed, "published", name+" (failure)", f.Pos(), pt, "a failure is reported, or the list given up, without one")
		default:
			c.ob(false, "published", name+" (result)", f.Pos(), pt, "the result is not decided")
		}
	}
}

// messageOf: the message that is published.
func messageOf(o *bop) *Term {
	if o.data != nil && o.data.Sym == "Encode" && len(o.data.Args) > 0 {
		return o.data.Args[0]
	}
	return nil
}

func (c *Chk) adapterAsk(a *adapter) {
	f := c.adapterMethod(a, "Ask", 3)
	if f == nil {
		return
	}
	name := a.label + ".Ask"
	ctx, msg, token := paramN(f, 1), paramN(f, 2), paramN(f, 3)
	answers := 0
	for _, pt := range c.explore(f, name, c.base()) {
		if !complete(pt) {
			c.ob(pt.Outcome == "panic", "asked", name+" (ends)", f.Pos(), pt, "it does not end")
			continue
		}
		fa := pt.Facts
		ops := operations(pt)
		for _, o := range kindOf(ops, "open") {
			if o.err != nil && fa.nilness(o.err) == False {
				continue
			}
			c.closedLater(pt, ops, o, "closed", name)
		}
		subs := kindOf(ops, "sub")
		pubs := kindOf(ops, "publish")
		res, err := pt.Results[0], pt.Results[1]
		c.ob(len(subs) <= 1 && len(pubs) <= 1, "asked", name+" (once)", f.Pos(), pt, "it subscribes %d times and publishes %d times", len(subs), len(pubs))
		for _, o := range ops {
			// a failed step ends it with an error
			if o.err != nil && fa.nilness(o.err) == False && (o.kind == "open" || o.kind == "sub" || o.kind == "publish" || o.kind == "flush") {
				c.ob(fa.nilness(err) == False, "asked", name+" ("+o.kind+" failed)", o.ev.Pos, pt, "a failure is not returned")
			}
		}
		for _, s := range subs {
			c.ob(s.addr == token && (a.msgCh == nil || s.lit), "address", name+" (token)", s.ev.Pos, pt, "the reply is not waited for at the token")
			if a.msgCh != nil {
				c.drained(a, pt, ops, s, name)
			}
		}
		if len(pubs) == 0 {
			c.ob(fa.nilness(err) == False, "asked", name+" (not asked)", f.Pos(), pt, "the question is not published and no error is returned")
			continue
		}
		p := pubs[0]
		c.publishes(a, pt, p, msg, name)
		ready := len(subs) == 1 && subs[0].ev.Seq < p.ev.Seq && fa.isNil(subs[0].err)
		if ready && a.msgCh == nil {
			ready = false
			for _, o := range kindOf(ops, "flush") {
				if o.link == subs[0].link && o.ev.Seq > subs[0].ev.Seq && o.ev.Seq < p.ev.Seq && (fa.isNil(o.err) || checkedAfter(pt, ops, o)) {
					ready = true
				}
			}
		}
		c.ob(ready, "asked", name+" (ready)", p.ev.Pos, pt, "the question is published before its subscription is in effect")
		if fa.nilness(p.err) == False {
			continue
		}
		c.ob(fa.isNil(p.err), "asked", name+" (looked at)", p.ev.Pos, pt, "whether the question was published is not looked at")
		// what is waited for
		var recv *Event
		n := 0
		for _, e := range pt.Events {
			if e.Kind == "Recv" && e.Gor == 0 && e.Seq > p.ev.Seq && !c.afterReturn(pt, e) {
				recv = e
				n++
			}
			if e.Kind == "Select" && e.Gor == 0 && e.Seq > p.ev.Seq {
				done, reply := false, false
				for _, ch := range e.Args {
					done = done || isDone(ch, ctx)
					reply = reply || !isDone(ch, ctx)
				}
				c.ob(e.Flag && done && reply, "asked", name+" (waits)", e.Pos, pt, "it does not wait for both the reply and the end of the context")
			}
		}
		if !c.ob(n == 1 && recv.Name == "select", "asked", name+" (answer)", p.ev.Pos, pt, "it waits %d times", n) {
			continue
		}
		if isDone(recv.Args[0], ctx) {
			ok := false
			for _, e := range pt.Events {
				ok = ok || e.Kind == "Invoke" && e.Name == "context.Context.Err" && e.Args[0] == ctx && e.Res == err
			}
			c.ob(ok || fa.nilness(err) == False, "asked", name+" (given up)", recv.Pos, pt, "the end of the context is not returned as an error")
			continue
		}
		answers++
		got := recv.Res
		if got.Op == OpTuple {
			got = got.Args[0]
		}
		if a.msgCh != nil {
			c.ob(plain(recv.Args[0]) == plain(subs[0].to), "asked", name+" (whose answer)", recv.Pos, pt, "the answer is taken from elsewhere")
			// decoded here
			var d *Event
			for _, e := range pt.Events {
				if e.Kind == "Decode" && e.Seq > recv.Seq {
					d = e
				}
			}
			ok := d != nil && sameMsg2(res, d.Res)
			if ok {
				ok = false
				for _, x := range d.Args {
					x = plain(x)
					ok = ok || x.Op == OpField && x.Args[0] == got && x.FieldVar.Name() == "Message"
				}
			}
			c.ob(ok && err == mf(d.Res, c.r.mErr), "asked", name+" (reply)", recv.Pos, pt, "the reply and its error are not what is returned")
			continue
		}
		c.ob(sameMsg2(res, got) && err == mf(got, c.r.mErr), "asked", name+" (reply)", recv.Pos, pt, "the reply and its error are not what is returned")
		b := bindFn(pt, subs[0].to, nil)
		if !c.ob(b != nil, "asked", name+" (handler)", subs[0].ev.Pos, pt, "what handles the reply is not known") {
			continue
		}
		c.replyHandler(a, pt, b, recv.Args[0], name)
	}
	c.ob(answers > 0, "asked", name+" (answers)", f.Pos(), nil, "no answer is returned")
}

func isDone(ch, ctx *Term) bool {
	return ch != nil && strings.HasSuffix(ch.Sym, "Context.Done") && ch.any(func(t *Term) bool { return t == ctx })
}

// afterReturn: the event belongs to what is done on the way out.
func (c *Chk) afterReturn(pt *Path, e *Event) bool { return false }

// replyHandler: sends the first reply, decoded, and never blocks.
func (c *Chk) replyHandler(a *adapter, outer *Path, b *bindings, ch *Term, name string) {
	room := false
	for _, e := range outer.Events {
		if e.Kind == "MakeChan" && e.Res == ch {
			if n, ok := e.Args[0].IntVal(); ok && n >= 1 {
				room = true
			}
		}
	}
	n := 0
	for _, pt := range c.explore(b.fn, "reply:"+a.label, c.base()) {
		if !complete(pt) {
			continue
		}
		m := paramN(b.fn, len(b.fn.Params)-1)
		var dec *Event
		tried := false
		for _, e := range pt.Events {
			switch e.Kind {
			case "Decode":
				dec = e
			case "Select":
				for _, x := range e.Args {
					tried = tried || b.is(x, ch)
				}
				c.ob(!e.Flag, "asked", name+" (handler blocks)", e.Pos, pt, "the handler may wait forever")
			case "Send":
				ok := e.Name == "select" && b.is(e.Args[0], ch) && dec != nil && sameMsg2(e.Args[1], dec.Res)
				if ok {
					ok = false
					for _, x := range dec.Args {
						x = plain(x)
						ok = ok || x.Op == OpLoad && x.Args[0].Op == OpFAddr && x.Args[0].Args[0] == m && x.Args[0].FieldVar.Name() == "Data"
					}
				}
				c.ob(ok, "asked", name+" (handler)", e.Pos, pt, "the handler does not pass on the decoded reply, or may wait forever")
				n++
			}
		}
		c.ob(tried, "asked", name+" (handler drops)", b.fn.Pos(), pt, "a reply is dropped")
	}
	c.ob(n > 0 && room, "asked", name+" (kept)", b.fn.Pos(), outer, "a reply that comes before it is waited for is lost")
}

// drained: the subscriber's channel is read while the subscriber is closed, which waits for it.
func (c *Chk) drained(a *adapter, pt *Path, ops []*bop, s *bop, name string) {
	for _, cl := range kindOf(ops, "close") {
		if cl.link != s.link {
			continue
		}
		n := 0
		for _, e := range pt.Events {
			if e.Kind != "Go" || e.Flag || e.Seq > cl.ev.Seq {
				continue
			}
			b := bindFn(pt, e.Args[0], e.Args[1:])
			if b == nil {
				continue
			}
			reads := false
			for _, v := range b.vals {
				reads = reads || plain(v) == plain(s.to)
			}
			if !reads {
				continue
			}
			n++
			for _, gp := range c.explore(b.fn, "drain:"+a.label, Config{LoopMin: 1, Opaque: c.r.baseOpaque}) {
				for _, g := range gp.Events {
					if g.Kind == "Select" {
						has := false
						for _, x := range g.Args {
							has = has || b.is(x, s.to)
						}
						c.ob(has, "closed", name+" (drained)", g.Pos, gp, "the messages are not received while the subscriber is closed")
					}
				}
				if !complete(gp) {
					continue
				}
				ts := turns(gp)
				if !c.ob(len(ts) > 0, "closed", name+" (drained)", b.fn.Pos(), gp, "the messages are not received while the subscriber is closed") {
					continue
				}
				// what ends it is closed after the subscriber
				last := ts[len(ts)-1].recv
				if b.is(last.Args[0], s.to) {
					if last.Res == nil || last.Res.Op != OpTuple || gp.Facts.eval(last.Res.Args[1]) != False {
						c.ob(false, "closed", name+" (drained)", last.Pos, gp, "a message ends the receiver while the subscriber is closed")
						continue
					}
				}
				by := b.get(last.Args[0])
				ended := false
				for _, x := range pt.Events {
					if x.Kind == "CloseChan" && plain(x.Args[0]) == plain(by) && x.Seq > cl.ev.Seq {
						ended = true
					}
				}
				c.ob(ended, "closed", name+" (receiver)", cl.ev.Pos, pt, "the receiver is not ended after the subscriber is closed, or before")
			}
		}
		c.ob(n >= 1, "closed", name+" (drained)", cl.ev.Pos, pt, "nothing receives the messages while the subscriber is closed")
	}
}

func (c *Chk) adapterNotify(a *adapter) {
	f := c.adapterMethod(a, "NotifyAsk", 2)
	if f == nil {
		return
	}
	name := a.label + ".NotifyAsk"
	msg, token := paramN(f, 1), paramN(f, 2)
	for _, pt := range c.explore(f, name, c.base()) {
		if !complete(pt) {
			continue
		}
		pubs := kindOf(operations(pt), "publish")
		if !c.ob(len(pubs) == 1 && pubs[0].ev.Gor == 0, "notified", name, f.Pos(), pt, "the reply is published %d times", len(pubs)) {
			continue
		}
		o := pubs[0]
		c.ob(o.addr == token, "address", name+" (token)", o.ev.Pos, pt, "the reply is not published to the token")
		m := messageOf(o)
		same := m != nil
		for i, st := 0, c.r.Message.Underlying().(*types.Struct); same && i < st.NumFields(); i++ {
			fv := st.Field(i)
			v := mf(m, fv)
			same = v == mf(msg, fv) || fv == c.r.mWait && sameStr(pt, v, strT(""))
		}
		c.ob(same, "notified", name+" (reply)", o.ev.Pos, pt, "another reply is published")
		r0 := pt.Results[0]
		c.ob(r0 == o.err || pt.Facts.isNil(o.err) || pt.Facts.nilness(o.err) == False && pt.Facts.nilness(r0) == False, "notified", name+" (failure)", o.ev.Pos, pt, "the failure to publish is not returned")
	}
}
