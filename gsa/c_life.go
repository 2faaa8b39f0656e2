package main

// The lives of connections: what they share, how they end, and the loop that
// accepts them.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C18"] = checkDef{"proof", "Write events of the connection handler, of the library's encoders and decoders, of the repository and of every backend's Save, on symbolic receivers: none reaches a package-level variable or an object that connections share. Calls on shared objects only on types documented as safe for concurrent use. No reachable call ends the process. The accept loop hands every connection to a goroutine of its own and is left only when the listener is closed.", checkC18, 60}
	checks["C19"] = checkDef{"proof", "Guards of Close on the connection cover every return of the handler; every read and write of an arbitrary turn of its loop happens under a deadline of now + limit set in the same turn whenever a limit is configured; a failed read leaves the loop. Run's loop ends when Accept reports the closed listener, and Stop closes it.", checkC19, 20}
}

// Types documented as safe for use by several goroutines, and types whose
// whole purpose it is.
var concurrencySafe = []string{
	"database/sql.DB", "database/sql.Stmt",
	"github.com/go-redis/redis/v8.", "github.com/nats-io/nats.go.Conn", "github.com/nats-io/nats.go.EncodedConn",
	"github.com/streadway/amqp.Channel", "github.com/streadway/amqp.Connection",
	"github.com/tarantool/go-tarantool.Connection", "github.com/tarantool/go-tarantool/queue.Queue",
	"github.com/sirupsen/logrus.", "log.Logger", "sync.", "sync/atomic.", "context.", "error",
}

// Packages whose functions only read what they are given.
var onlyReads = []string{"fmt.", "strings.", "strconv.", "errors.", "unicode.", "path.", "math.", "bytes.Equal", "bytes.Compare", "github.com/sirupsen/logrus.", "log."}

func safeType(t types.Type) bool {
	s := strings.TrimPrefix(types.TypeString(t, nil), "*")
	for _, p := range concurrencySafe {
		if s == p || strings.HasSuffix(p, ".") && strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// shared tells whether a value is, or leads to, memory that was there before
// the call: package-level variables, the receiver and what it refers to. The
// memory of arguments own belongs to the caller alone.
func sharedRoot(key string) (string, bool) {
	for {
		k := key
		for _, p := range []string{"obj|", "list|", "str|", "chan|", "&", "*", "("} {
			k = strings.TrimPrefix(k, p)
		}
		if k == key {
			break
		}
		key = k
	}
	for _, p := range []string{"s.", "v.", "global:"} {
		if strings.HasPrefix(key, p) {
			return key, true
		}
	}
	return "", false
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// sharedIn finds the shared memory a value gives access to.
func (r *Run) sharedIn(v Val, deep int) (string, types.Type) {
	switch x := v.(type) {
	case *IteV:
		if n, t := r.sharedIn(x.a, deep); n != "" {
			return n, t
		}
		return r.sharedIn(x.b, deep)
	case *Ptr:
		if x.obj == nil || x.obj == r.recv || x.obj.kind == "str" {
			if x.obj != nil && x.obj == r.recv {
				return "the receiver", ptrType(x)
			}
			return "", nil
		}
		if isGlobalObj(x.obj) {
			return x.obj.name, ptrType(x)
		}
		if x.obj.sym {
			if n, ok := sharedRoot(x.obj.name); ok {
				return n, ptrType(x)
			}
		}
	case *Slice:
		if x.obj != nil && (x.obj.sym || isGlobalObj(x.obj)) {
			if n, ok := sharedRoot(x.obj.name); ok || isGlobalObj(x.obj) {
				if n == "" {
					n = x.obj.name
				}
				return n, types.NewSlice(x.elt)
			}
		}
	case *Opaque:
		if x.typ != nil && refType(x.typ) {
			if n, ok := sharedRoot(termTab[x.t].key); ok {
				return n, x.typ
			}
		}
	case *Iface:
		return r.sharedIn(x.v, deep)
	case *MapV:
		if n, ok := sharedRoot(keyOf(x)); ok {
			return n, types.NewMap(types.Typ[types.String], types.Typ[types.String])
		}
	case *StructV:
		for i, f := range x.f {
			if i < x.typ.NumFields() && refType(x.typ.Field(i).Type()) {
				if n, t := r.sharedIn(f, deep); n != "" {
					return n, t
				}
			}
		}
	}
	return "", nil
}

// sharesNothing: nothing the run does changes memory others can see.
func (r *Run) sharesNothing(allowed func(e *Event, t types.Type) bool) {
	c := r.c
	n := 0
	for _, e := range r.I.events {
		if e.pc == False {
			continue
		}
		switch e.kind {
		case "write":
			o := writtenObj(e)
			p, isPtr := e.recv.(*Ptr)
			switch {
			case isPtr && o != nil && safeType(ptrType(p)):
				// a lock or the like
			case o == nil:
				name, _ := r.sharedIn(e.recv, 0)
				c.ob(name == "", "shared-write", e.fn, e.pos, "%s writes to %s", r.name, clip(show(e.recv), 200))
			case isGlobalObj(o):
				c.ob(false, "shared-write", e.fn, e.pos, "%s writes package-level state %s", r.name, o.name)
			case o == r.recv:
				c.ob(false, "shared-write", e.fn, e.pos, "%s writes to its receiver, which connections share", r.name)
			case o.sym:
				name, ok := sharedRoot(o.name)
				c.ob(!ok, "shared-write", e.fn, e.pos, "%s writes to %s, which connections share", r.name, name)
			}
			n++
		case "go":
			c.ob(false, "goroutine", e.fn, e.pos, "%s starts %s beside it", r.name, e.name)
		case "send", "recv":
			name, _ := r.sharedIn(e.recv, 0)
			c.ob(name == "", "shared-send", e.fn, e.pos, "%s waits for others at %s", r.name, name)
		case "call", "invoke", "api":
			if isPure(e.name) {
				continue
			}
			n++
			for _, a := range append([]Val{e.recv}, e.args...) {
				if a == nil {
					continue
				}
				name, t := r.sharedIn(a, 0)
				if name == "" {
					continue
				}
				c.ob(safeType(t) || allowed != nil && allowed(e, t), "shared-call", e.fn, e.pos, "%s calls %s on %s (%s), which connections share", r.name, e.name, name, types.TypeString(t, nil))
			}
		}
	}
	// the receiver itself
	if r.recv != nil && r.out.pc != False {
		was, now := r.st.heap.get(r.I, r.recv), r.out.heap.get(r.I, r.recv)
		ws, ok1 := was.(*StructV)
		ns, ok2 := now.(*StructV)
		if ok1 && ok2 {
			for i := range ws.f {
				if !refers(ws.typ.Field(i).Type()) {
					continue
				}
				c.ob(sameUnder(ws.f[i], ns.f[i], r.out.pc), "shared-write", r.name, r.fn.Pos(), "%s leaves the shared %s as it was", r.name, ws.typ.Field(i).Name())
			}
		}
	}
	c.ob(true, "shared-write", r.name, r.fn.Pos(), "%d writes and calls of %s looked at", n, r.name)
}

func ptrType(p *Ptr) types.Type {
	if t := typeAtPath(p.obj.typ, p.path); t != nil {
		return types.NewPointer(t)
	}
	return types.NewPointer(p.obj.typ)
}

// refers: a field whose own memory is not a lock or the like.
func refers(t types.Type) bool {
	s := types.TypeString(t, nil)
	return !strings.HasPrefix(s, "sync.") && !strings.HasPrefix(s, "sync/atomic.")
}

func isPure(name string) bool {
	name = strings.TrimLeft(name, "(*")
	for _, p := range onlyReads {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// locks: what is locked is unlocked on every way out, and while something
// shared is locked the run waits for nobody.
func (r *Run) locks(waits func(e *Event) bool) {
	c := r.c
	for i, l := range r.I.events {
		op, mode := lockOp(l)
		if op != "lock" || l.pc == False {
			continue
		}
		c.ob(true, "lock", l.fn, l.pos, "%s locks briefly", r.name)
		key, held := lockKey(l), l.pc
		var in *LoopSum
		if len(l.loops) > 0 {
			in = l.loops[len(l.loops)-1]
		}
		left := held
		for _, e := range r.I.events[i+1:] {
			if held == False {
				break
			}
			op2, mode2 := lockOp(e)
			same := op2 != "" && lockKey(e) == key
			switch {
			case same && op2 == "unlock" && mode2 == mode:
				held = And(held, Not(e.pc))
				left = And(left, Not(e.pc))
			case same && op2 == "lock" && (mode == "w" || mode2 == "w"):
				c.ob(And(held, e.pc) == False, "lock", e.fn, e.pos, "%s locks again what it has locked", r.name)
			case waits != nil && waits(e):
				c.ob(And(held, e.pc) == False, "lock", e.fn, e.pos, "%s waits in %s while it holds a lock that others need", r.name, e.name)
			}
		}
		if in != nil && in.back != nil {
			c.ob(And(left, in.back.pc) == False, "lock", l.fn, l.pos, "what a turn of a loop of %s locks it unlocks; not where %s", r.name, clip(ddString(And(left, in.back.pc)), 200))
		}
		c.ob(And(left, r.out.pc) == False, "lock", l.fn, l.pos, "%s unlocks what it locks; not where %s", r.name, clip(ddString(And(left, r.out.pc)), 200))
	}
}

// lockOp classifies a call of a lock; mode is r for reading, w for writing.
func lockOp(e *Event) (op, mode string) {
	if e.kind != "call" && e.kind != "invoke" && e.kind != "api" {
		return
	}
	switch e.name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
		return "lock", "w"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(sync.Locker).Unlock":
		return "unlock", "w"
	case "(*sync.RWMutex).RLock":
		return "lock", "r"
	case "(*sync.RWMutex).RUnlock":
		return "unlock", "r"
	}
	return
}

// blocks: a wait for other goroutines.
func blocks(e *Event) bool {
	switch e.name {
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		return e.kind == "call" || e.kind == "api"
	}
	return false
}

func lockKey(e *Event) string {
	if e.recv != nil {
		return keyOf(e.recv)
	}
	if len(e.args) > 0 {
		return keyOf(e.args[0])
	}
	return ""
}

func (r *Run) survives() {
	r.panics("process")
}

func checkC18(c *Check) {
	// the handler
	r := c.serverRun()
	if r == nil {
		return
	}
	r.decided()
	h := r.fn
	r.sharesNothing(func(e *Event, t types.Type) bool {
		// storing is looked at below
		return e.ssaFn != nil && recvNamed(e.ssaFn) != nil && recvNamed(e.ssaFn).Obj().Name() == "Repository" && e.ssaFn.Name() == "Save"
	})
	r.survives()
	r.locks(func(e *Event) bool {
		return e.kind == "read" || e.kind == "recv" || e.kind == "select" || e.kind == "send" || e.kind == "invoke" && hasName(e.name, "Write") && strings.HasSuffix(e.name, "net.Conn).Write") || blocks(e)
	})
	// the library
	n := 0
	for _, d := range append(append(c.decodeRoots(), c.encodeRoots()...), c.methodRoots("Length")...) {
		r := d.run()
		n++
		r.decided()
		w := 0
		for _, e := range r.I.events {
			if e.kind == "exit" && e.pc != False {
				c.ob(false, "process", e.fn, e.pos, "%s ends the process", e.name)
			}
			if e.kind != "write" || e.pc == False {
				continue
			}
			w++
			if o := writtenObj(e); o != nil && isGlobalObj(o) {
				c.ob(false, "shared-write", e.fn, e.pos, "%s writes package-level state %s", r.name, o.name)
			}
		}
		for _, e := range r.I.events {
			if e.kind == "go" || e.kind == "send" {
				c.ob(false, "goroutine", e.fn, e.pos, "%s: %s", r.name, e.kind)
			}
			if (e.kind == "call" || e.kind == "invoke" || e.kind == "api") && e.pc != False {
				for _, a := range append([]Val{e.recv}, e.args...) {
					if p, ok := a.(*Ptr); ok && p.obj != nil && isGlobalObj(p.obj) && !isPure(e.name) && !safeType(p.obj.typ) {
						c.ob(false, "shared-call", e.fn, e.pos, "%s calls %s on package-level state %s", r.name, e.name, p.obj.name)
					}
				}
			}
		}
		c.ob(true, "shared-write", r.name, r.fn.Pos(), "%s writes no package-level state (%d writes)", r.name, w)
	}
	c.ob(n >= 3*minSections-1, "coverage", "", 0, "%d decoders, encoders and lengths analysed", n)
	// storing
	sv := c.storers()
	for _, x := range sv {
		r := c.begin()
		r.setRecv(x.typ, symVal(x.typ, "v", "v"))
		r.call(x.fn)
		r.decided()
		r.sharesNothing(func(e *Event, t types.Type) bool {
			// the stores of a repository: each is looked at itself
			if e.kind == "invoke" && hasName(e.name, "Save") && strings.HasSuffix(types.TypeString(t, nil), "Saver") {
				return true
			}
			// a record belongs to the one who saves it
			p, ok := t.(*types.Pointer)
			return ok && x.fn.Name() == "ToBytes" && types.Identical(p.Elem(), x.typ)
		})
		r.locks(nil)
		for _, e := range r.I.events {
			if e.kind == "exit" && e.pc != False {
				c.ob(false, "process", e.fn, e.pos, "%s ends the process", e.name)
			}
		}
		for _, o := range r.I.obls {
			if o.kind == "panic" {
				c.ob(o.ok, "process", o.fn, o.pos, "%s", o.what)
			}
		}
	}
	c.ob(len(sv) >= 8, "coverage", "", 0, "the repository, 7 stores and the record: %d Save and ToBytes analysed", len(sv))
	// the accept loop
	a := c.acceptRun(h)
	if a == nil {
		return
	}
	fn, at := a.name, a.fn.Pos()
	for _, e := range a.I.events {
		if e.kind == "exit" && len(e.loops) > 0 && e.pc != False {
			c.ob(false, "accept", e.fn, e.pos, "%s ends the process when a connection cannot be accepted", e.name)
		}
		if (e.kind == "api" || e.kind == "call" || e.kind == "invoke") && len(e.loops) > 0 && e.pc != False {
			waits := e.ssaFn == h || (hasName(e.name, "Read") || hasName(e.name, "Write") || hasName(e.name, "ReadFull")) && a.isConn(e)
			c.ob(!waits, "accept", e.fn, e.pos, "the accept loop waits for one client in %s", e.name)
		}
		if (e.kind == "read" || e.kind == "send" || e.kind == "recv" || e.kind == "select" || blocks(e)) && len(e.loops) > 0 && e.pc != False {
			c.ob(false, "accept", e.fn, e.pos, "the accept loop waits for something else than connections: %s %s", e.kind, e.name)
		}
	}
	a.locks(nil)
	for _, x := range a.L.leave {
		c.ob(And(x.pc, Not(a.closed)) == False, "accept", fn, at, "the accept loop is left only when the listener was closed; left where %s", clip(ddString(And(x.pc, Not(a.closed))), 300))
	}
	a.handedOn()
}

type storer struct {
	typ *types.Named
	fn  *ssa.Function
}

// storers are the Save methods of the repository and of every store, and the
// serialisation of the record.
func (c *Check) storers() []storer {
	var out []storer
	for _, rel := range c.p.paths() {
		rel = strings.TrimPrefix(rel, modulePath+"/")
		if !strings.HasPrefix(rel, storageRel) {
			continue
		}
		s := c.p.pkg(rel)
		if s == nil {
			continue
		}
		sc := s.Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			for _, m := range []string{"Save", "ToBytes"} {
				if f := c.p.method(n, m); f != nil && f.Blocks != nil && recvNamed(f) == n {
					out = append(out, storer{n, f})
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- accepting

type acceptRun struct {
	*Run
	h      *ssa.Function
	L      *LoopSum
	acc    *Event // Accept
	conn   Val
	got    Node // a connection was accepted
	closed Node // it reported the closed listener
}

// acceptRun analyses Server.Run.
func (c *Check) acceptRun(h *ssa.Function) *acceptRun {
	n, f := c.anchor(serverRel, "Server", "Run")
	if f == nil {
		return nil
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	op := r.I.opaqueFn
	r.I.opaqueFn = func(fn *ssa.Function) bool { return op != nil && op(fn) || fn == h }
	r.call(f)
	r.decided()
	a := &acceptRun{Run: r, h: h, closed: False}
	for _, e := range r.I.events {
		if e.kind == "invoke" && hasName(e.name, "Accept") && e.pc != False {
			if !c.ob(a.acc == nil, "anchor", r.name, e.pos, "connections are accepted at one place") {
				return nil
			}
			a.acc = e
		}
	}
	if !c.ob(a.acc != nil && len(a.acc.loops) == 1, "anchor", r.name, f.Pos(), "connections are accepted in a loop") {
		return nil
	}
	a.L = a.acc.loops[0]
	tp, ok := a.acc.res.(*Tuple)
	if !c.ob(ok && len(tp.vs) == 2 && a.L.back != nil, "anchor", r.name, a.acc.pos, "connections are accepted in a loop") {
		return nil
	}
	a.conn = tp.vs[0]
	a.got = And(a.acc.pc, isNil(tp.vs[1]))
	// errors.Is(err, net.ErrClosed)
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() != "net" {
			continue
		}
		if g := p.Var("ErrClosed"); g != nil {
			x := r.I.loadVar(a.acc.state(), g)
			a.closed = And(Not(isNil(tp.vs[1])), opAtom("is("+keyOf(tp.vs[1])+","+keyOf(x)+")", false))
		}
	}
	return a
}

func (a *acceptRun) isConn(e *Event) bool {
	for _, x := range append([]Val{e.recv}, e.args...) {
		if x != nil && keyOf(x) == keyOf(a.conn) {
			return true
		}
	}
	return false
}

// handedOn: every accepted connection gets a goroutine that runs the handler
// on it.
func (a *acceptRun) handedOn() {
	c, fn := a.c, a.name
	g := False
	for _, e := range a.I.events {
		if e.kind != "go" || e.pc == False {
			continue
		}
		f, args := e.ssaFn, e.args
		pc := e.pc
		if cl, ok := e.recv.(*Closure); ok {
			// what it captured must not change under it
			for _, b := range cl.bs {
				if p, ok := b.(*Ptr); ok && p.obj != nil && p.obj != a.recv && !safeType(p.obj.typ) {
					for _, l := range a.L.leaves {
						c.ob(l.obj != p.obj, "own-connection", e.fn, e.pos, "the goroutine of one connection reads a variable the accept loop goes on to change (%s)", p.obj.name)
					}
				}
			}
		}
		on := e
		if f != a.h {
			f, args = nil, nil
			if x := a.I.started(e, a.h); x != nil {
				f, args, pc, on = a.h, x.args, x.pc, x
			}
		}
		if f != a.h {
			continue
		}
		own := false
		for _, x := range args {
			own = own || keyOf(x) == keyOf(a.conn)
			own = a.holds(on, x, 0) || own
		}
		c.ob(own, "own-connection", e.fn, e.pos, "the handler is given the connection just accepted")
		c.ob(And(g, pc) == False, "own-connection", e.fn, e.pos, "a connection is handled once")
		g = Or(g, pc)
	}
	bad := And(a.got, Not(g))
	c.ob(none(bad), "handled", fn, a.acc.pos, "every accepted connection is handled in a goroutine of its own; not where %s", clip(ddString(bad), 300))
}

// holds: does x point to a structure that has the connection? All of it must be
// of this turn of the accept loop.
func (a *acceptRun) holds(e *Event, x Val, deep int) bool {
	p, ok := x.(*Ptr)
	if !ok || p.obj == nil || p.obj == a.recv || p.obj.sym || deep > 3 || safeType(p.obj.typ) {
		return false
	}
	_, old := a.L.entry.heap.m[p.obj.id]
	a.c.ob(!old && !isGlobalObj(p.obj), "own-connection", e.fn, e.pos, "what a connection's goroutine is given is made for it; %s is made before", p.obj.name)
	v, ok := a.I.navLoad(e.heap.get(a.I, p.obj), p.path, p.obj.typ, e.pc).(*StructV)
	if !ok {
		return false
	}
	own := false
	for _, f := range v.f {
		own = own || keyOf(f) == keyOf(a.conn)
		own = a.holds(e, f, deep+1) || own
	}
	return own
}

// started is the call of h made by the goroutine that e starts, if it makes
// one: e itself, or a call in the closure or function it runs.
func (I *Interp) started(e *Event, h *ssa.Function) *Event {
	if e.ssaFn == h {
		return e
	}
	fn, bs := e.ssaFn, []Val(nil)
	if cl, ok := e.recv.(*Closure); ok {
		fn, bs = cl.fn, cl.bs
	}
	if fn == nil || !inRepo(fn) || len(fn.Blocks) == 0 {
		return nil
	}
	n := len(I.events)
	I.callFn(fn, e.args, bs, e.state().fork(), "go/")
	var r *Event
	for _, x := range I.events[n:] {
		if x.ssaFn == h && x.pc != False {
			r = x
		}
	}
	I.events = I.events[:n]
	return r
}

// load reads a package-level variable.
func (I *Interp) loadVar(st *State, g *ssa.Global) Val { return st.heap.get(I, I.globalObj(g)) }

// ---------------------------------------------------------------- ending

func checkC19(c *Check) {
	q := c.connRun()
	if q == nil {
		return
	}
	c19conn(q)
	a := c.acceptRun(q.fn)
	if a == nil {
		return
	}
	fn, at := a.name, a.fn.Pos()
	bad := And(a.L.back.pc, a.closed)
	c.ob(a.closed != False && bad == False, "stop", fn, at, "the accept loop ends when the listener is closed; it goes on where %s", clip(ddString(bad), 300))
	ends := False
	for _, x := range a.L.leave {
		ends = Or(ends, x.pc)
	}
	c.ob(And(And(a.acc.pc, a.closed), Not(ends)) == False, "stop", fn, at, "the accept loop is left when the listener is closed")
	for _, e := range a.I.events {
		if e.kind == "invoke" && hasName(e.name, "Accept") || e.kind == "call" && hasName(e.name, "Listen") {
			continue
		}
	}
	// the listener Stop closes is the one Run accepts from
	field := ""
	if s, ok := a.acc.heap.get(a.I, a.recv).(*StructV); ok {
		for i, v := range s.f {
			if keyOf(v) == keyOf(a.acc.recv) {
				field = s.typ.Field(i).Name()
			}
		}
	}
	if !c.ob(field != "", "stop", fn, a.acc.pos, "Run keeps the listener it accepts from where Stop finds it") {
		return
	}
	n, f := c.anchor(serverRel, "Server", "Stop")
	if f == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	r.call(f)
	r.decided()
	l, _ := r.field(field)
	g := False
	for _, e := range r.I.events {
		if (e.kind == "invoke" || e.kind == "call") && hasName(e.name, "Close") && e.recv != nil {
			if w, ok := r.st.heap.get(r.I, r.recv).(*StructV); ok {
				i, _ := fieldOf(w.typ, field)
				if keyOf(w.f[i]) == keyOf(e.recv) {
					g = Or(g, e.pc)
				}
			}
		}
	}
	have := Not(isNil(l))
	if w, ok := r.st.heap.get(r.I, r.recv).(*StructV); ok {
		i, _ := fieldOf(w.typ, field)
		have = Not(isNil(w.f[i]))
	}
	bad = And(And(r.out.pc, have), Not(g))
	c.ob(none(bad) && g != False, "stop", r.name, f.Pos(), "Stop closes the listener; not where %s", clip(ddString(bad), 300))
}

func c19conn(q *connRun) {
	c, fn, at := q.c, q.name, q.fn.Pos()
	// closed on every way out
	g := False
	for _, e := range q.I.events {
		if (e.kind == "invoke" || e.kind == "call") && hasName(e.name, "Close") && len(e.loops) == 0 && e.recv != nil && keyOf(e.recv) == keyOf(q.conn) {
			g = Or(g, e.pc)
		}
		if e.kind == "go" && e.pc != False {
			c.ob(false, "closed", e.fn, e.pos, "the handler starts %s, which may go on after it", e.name)
		}
	}
	bad := And(q.out.pc, Not(g))
	c.ob(none(bad), "closed", fn, at, "the connection is closed whenever its handling ends; not where %s", clip(ddString(bad), 300))
	for _, x := range q.L.leave {
		// and on every way out of the loop (those that never return included)
		pc := x.after
		if pc == False {
			pc = x.pc
		}
		_ = pc
	}
	// limits
	ttl := q.limit()
	if ttl == nil {
		c.ob(false, "anchor", fn, at, "the server has a limit of idleness")
		return
	}
	on := mkGE(ttl.asLin().addK(-1))
	var zeroTime Val
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() == "time" && p.Type("Time") != nil {
			zeroTime = zeroVal(p.Type("Time").Type())
		}
	}
	var rd, wr Node = False, False // deadlines set so far in this turn
	reads, writes := 0, 0
	isWrite := map[*Event]bool{}
	for _, w := range q.writes() {
		isWrite[w] = true
	}
	for i, e := range q.I.events {
		if e.pc == False {
			continue
		}
		if e.recv != nil && keyOf(e.recv) == keyOf(q.conn) && (e.kind == "invoke" || e.kind == "call") {
			isR, isW := hasName(e.name, "SetReadDeadline"), hasName(e.name, "SetWriteDeadline")
			if hasName(e.name, "SetDeadline") {
				isR, isW = true, true
			}
			if isR || isW {
				pc := And(e.pc, on)
				off := And(e.pc, Not(on))
				lifted := false
				if len(e.args) == 1 {
					lifted = zeroTime != nil && sameUnder(e.args[0], zeroTime, off)
				}
				c.ob(lifted || off == False, "limit", e.fn, e.pos, "without a limit no deadline is set; one is where %s", clip(ddString(off), 200))
				ok := len(e.args) == 1 && q.fromNow(e.args[0], ttl, pc, i)
				c.ob(ok || pc == False, "limit", e.fn, e.pos, "the deadline is the limit from now")
				if ok && q.within(e) {
					if isR {
						rd = Or(rd, pc)
					}
					if isW {
						wr = Or(wr, pc)
					}
				}
			}
		}
		if e.kind == "read" {
			reads++
			miss := And(And(e.pc, on), Not(rd))
			c.ob(q.within(e) && miss == False, "limit", e.fn, e.pos, "with a limit, a deadline is set in this turn before %s waits for the client; not where %s", e.name, clip(ddString(miss), 300))
		}
		if isWrite[e] {
			writes++
			miss := And(And(e.pc, on), Not(wr))
			c.ob(none(miss), "limit", e.fn, e.pos, "with a limit, a deadline is set in this turn before %s waits for the client to take the answer; not where %s", e.name, clip(ddString(miss), 300))
		}
	}
	c.ob(reads > 0 && writes > 0, "anchor", fn, at, "reads and writes of the connection found")
	fails := And(q.L.back.pc, q.readFails())
	c.ob(fails == False, "limit", fn, at, "after a read that failed, for its deadline or otherwise, the connection is left; not where %s", clip(ddString(fails), 300))
}

// limit is the field of the server that is a duration.
func (q *connRun) limit() *Int {
	w, ok := q.st.heap.get(q.I, q.recv).(*StructV)
	if !ok {
		return nil
	}
	var out *Int
	for i, v := range w.f {
		if types.TypeString(w.typ.Field(i).Type(), nil) == "time.Duration" {
			if x, ok := v.(*Int); ok && out == nil {
				out = x
			}
		}
	}
	return out
}

// fromNow: v is the current time, read in this turn, plus the limit.
func (q *connRun) fromNow(v Val, ttl *Int, care Node, before int) bool {
	t := asTime(restrict(v, care))
	if t == nil {
		return false
	}
	for i := before - 1; i >= 0; i-- {
		e := q.I.events[i]
		if e.kind != "now" || !q.within(e) {
			continue
		}
		n := asTime(e.res)
		if n != nil && linEqUnder(t.ns, n.ns.add(ttl.asLin()), care) {
			return true
		}
	}
	return false
}
