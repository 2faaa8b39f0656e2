package main

// The stores: the repository, the backends, the settings.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = checkDef{"proof", "Repository.Save's loop in an arbitrary turn: element, argument and guard of the call, what follows a failure, and what success implies. LoadStorages in an arbitrary turn: which connector is initialised for which name with which parameters, what is registered and after what, and that every failure is reported.", checkC20, 20}
}

// The documented names of backends and the packages that implement them.
var backends = []string{"rabbitmq", "postgresql", "nats", "tarantool_queue", "redis", "mysql"}

func checkC20(c *Check) {
	c.repositorySave()
	c.addStore()
	c.loadStorages()
}

// listOf is the content of the only slice field of a receiver whose elements
// have a Save method.
func (r *Run) saversField() (int, *types.Slice) {
	st, ok := r.nam.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if m, _, _ := types.LookupFieldOrMethod(sl.Elem(), true, r.nam.Obj().Pkg(), "Save"); m != nil {
				return i, sl
			}
		}
	}
	return -1, nil
}

func (c *Check) repositorySave() {
	n, f := c.anchor(storageRel, "Repository", "Save")
	if f == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	r.call(f)
	r.decided()
	i, sl := r.saversField()
	if !c.ob(i >= 0, "anchor", r.name, f.Pos(), "the repository has a list of stores") {
		return
	}
	was := r.st.heap.get(r.I, r.recv).(*StructV)
	list, _ := r.I.contentAny(r.st, was.f[i], sl)
	// what happens to the record of one store
	var offers []*Event
	for _, e := range r.I.events {
		if (e.kind == "invoke" || e.kind == "api" || e.kind == "call") && hasName(e.name, "Save") && e.pc != False {
			offers = append(offers, e)
		}
		if e.kind == "go" && e.pc != False {
			c.ob(false, "offer", e.fn, e.pos, "stores are asked before Save returns; %s is started", e.name)
		}
	}
	if !c.ob(len(offers) == 1, "offer", r.name, f.Pos(), "the record is offered at one place (found %d)", len(offers)) {
		return
	}
	e := offers[0]
	if !c.ob(len(e.loops) == 1, "offer", e.fn, e.pos, "the record is offered in a loop over the stores") {
		return
	}
	L := e.loops[0]
	item := r.I.seqElem(list, lt(L.k), sl.Elem(), e.pc)
	c.ob(keyOf(item) == keyOf(e.recv) || sameUnder(item, e.recv, e.pc), "offer", e.fn, e.pos, "turn k offers it to store k; it is offered to %s", clip(show(e.recv), 200))
	c.ob(len(e.args) == 1 && sameUnder(e.args[0], r.args[1], e.pc), "offer", e.fn, e.pos, "the store is given the record that was to be saved")
	failed := Not(isNil(e.res))
	// leaving
	end := False
	for _, x := range L.leave {
		if x.known && linEqUnder(x.n, list.length(), x.after) {
			end = Or(end, x.after)
			continue
		}
		bad := And(x.pc, Not(And(e.pc, failed)))
		c.ob(L.onlyAfter(bad, And(e.pc, failed)), "offer", r.name, f.Pos(), "the stores behind a store are left out only when it failed; left out where %s", clip(ddString(bad), 300))
	}
	c.ob(end != False, "offer", r.name, f.Pos(), "the loop goes on to the last store")
	if L.back != nil {
		bad := And(L.back.pc, failed)
		c.ob(none(bad) || L.notNext(e.pc, failed), "offer", r.name, f.Pos(), "after a store failed no other is offered the record; goes on where %s", clip(ddString(bad), 300))
		bad = And(L.back.pc, Not(e.pc))
		c.ob(none(bad), "offer", r.name, f.Pos(), "no store is skipped; skipped where %s", clip(ddString(bad), 300))
	}
	r.fallsReported("report", false)
	nf := 0
	for _, x := range r.I.falls {
		if hasName(x.what, "Save") {
			nf++
		}
	}
	c.ob(nf > 0, "report", r.name, f.Pos(), "a store's error is looked at")
	bad := And(end, Not(r.succ))
	c.ob(L.onlyAfter(bad, And(e.pc, failed)), "report", r.name, f.Pos(), "success is reported when all accepted; not where %s", clip(ddString(bad), 300))
}

func (c *Check) addStore() {
	n, f := c.anchor(storageRel, "Repository", "AddStore")
	if f == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	r.call(f)
	r.decided()
	i, sl := r.saversField()
	if !c.ob(i >= 0, "anchor", r.name, f.Pos(), "the repository has a list of stores") {
		return
	}
	was := r.st.heap.get(r.I, r.recv).(*StructV)
	now := r.out.heap.get(r.I, r.recv).(*StructV)
	a, _ := r.I.contentAny(r.st, was.f[i], sl)
	b, _ := r.I.contentAny(r.out, now.f[i], sl)
	want := a.concat(seqOf(r.args[1]))
	d, _ := seqDiff(b, want, r.out.pc)
	c.ob(d == "" && r.out.pc == True, "register", r.name, f.Pos(), "AddStore puts the store behind those already there: %s", d)
}

func (c *Check) loadStorages() {
	n, f := c.anchor(storageRel, "Repository", "LoadStorages")
	if f == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	op := r.I.opaqueFn
	r.I.opaqueFn = func(fn *ssa.Function) bool {
		return op != nil && op(fn) || fn.Name() == "Init" && recvNamed(fn) != nil && fn.Blocks != nil
	}
	r.call(f)
	r.decided()
	fn, at := r.name, f.Pos()
	i, sl := r.saversField()
	if !c.ob(i >= 0, "anchor", fn, at, "the repository has a list of stores") {
		return
	}
	cfg := r.args[1]
	mt, ok := f.Params[1].Type().Underlying().(*types.Map)
	if !c.ob(ok, "anchor", fn, at, "storages are configured by name") {
		return
	}
	key := "entry(" + keyOf(cfg) + ")"
	name := asStr(symVal(mt.Key(), key+".key", "key("+show(cfg)+")"))
	params := symVal(mt.Elem(), key+".val", "val("+show(cfg)+")")
	var inits []*Event
	for _, e := range r.I.events {
		if hasName(e.name, "Init") && e.pc != False {
			inits = append(inits, e)
		}
		if e.kind == "go" && e.pc != False {
			c.ob(false, "init", e.fn, e.pos, "storages are connected before LoadStorages returns")
		}
	}
	if !c.ob(len(inits) > 0 && len(inits[0].loops) > 0, "init", fn, at, "storages are initialised in a loop over the configuration") {
		return
	}
	L := inits[0].loops[0]
	c.ob(L.back != nil, "init", fn, at, "the loop goes on to the next storage")
	turn := False // an entry was taken
	natural := False
	for _, e := range inits {
		if !c.ob(len(e.loops) == 1 && e.loops[0] == L, "init", e.fn, e.pos, "a storage is initialised once for its entry") {
			return
		}
	}
	for _, x := range L.leave {
		if x.pc != False && And(x.pc, r.nextAtom(L)) == False {
			natural = Or(natural, x.pc)
		}
	}
	turn = And(L.head.pc, r.nextAtom(L))
	c.ob(natural != False && r.nextAtom(L) != False, "init", fn, at, "the loop goes over all entries of the configuration")
	known := False
	for _, b := range backends {
		is := seqEQ(name.s, strK(b).s)
		known = Or(known, is)
		g := False
		for _, e := range inits {
			rt := recvNamed(e.ssaFn)
			if rt == nil || rt.Obj().Pkg().Name() != b || !strings.HasPrefix(rt.Obj().Pkg().Path(), modulePath+"/"+storageRel+"/store/") {
				continue
			}
			bad := And(e.pc, Not(is))
			c.ob(none(bad), "backend", e.fn, e.pos, "%s is initialised only for its own name; also where %s", b, clip(ddString(bad), 300))
			c.ob(len(e.args) == 2 && sameUnder(e.args[1], params, e.pc), "params", e.fn, e.pos, "%s is given the parameters of its own entry; it gets %s", b, clip(show(e.args[len(e.args)-1]), 200))
			c.ob(And(g, e.pc) == False, "backend", e.fn, e.pos, "%s is initialised once", b)
			g = Or(g, e.pc)
		}
		miss := AndN(turn, is, Not(g))
		c.ob(none(miss) && g != False, "backend", fn, at, "the name %q connects its backend; not where %s", b, clip(ddString(miss), 300))
	}
	// unknown names
	back := False
	if L.back != nil {
		back = L.back.pc
	}
	bad := And(back, Not(known))
	c.ob(none(bad), "unknown", fn, at, "an unknown name ends loading; it goes on where %s", clip(ddString(bad), 300))
	bad = And(r.succ, Not(r.afterNatural(L)))
	c.ob(none(bad), "unknown", fn, at, "loading succeeds only when all entries were taken; also where %s", clip(ddString(bad), 300))
	for _, x := range L.leave {
		// every other way out is a failure
		if And(x.pc, r.nextAtom(L)) == False {
			continue
		}
		bad := And(x.after, r.succ)
		c.ob(none(bad), "unknown", fn, at, "an entry that ends loading makes it fail; it succeeds where %s", clip(ddString(bad), 300))
	}
	// failed initialisation
	r.fallsReported("report", false)
	nf := map[string]bool{}
	for _, x := range r.I.falls {
		if hasName(x.what, "Init") {
			nf[x.what] = true
		}
	}
	c.ob(len(nf) > 0, "report", fn, at, "the error of a failed initialisation is looked at")
	for _, e := range inits {
		bad := AndN(back, e.pc, Not(isNil(e.res)))
		c.ob(none(bad), "report", e.fn, e.pos, "a failed initialisation ends loading; it goes on where %s", clip(ddString(bad), 300))
	}
	// the empty configuration
	none := r.emptyMap(cfg)
	bad = And(none, r.succ)
	c.ob(none != False && bad == False, "empty", fn, at, "an empty configuration is an error; success where %s", clip(ddString(bad), 300))
	// what is registered
	r.registered(L, i, sl, inits)
}

// nextAtom: the loop's range statement took another entry.
func (r *Run) nextAtom(L *LoopSum) Node {
	for _, x := range L.leave {
		for _, v := range support(x.pc) {
			if a := atoms[v]; a.kind == aOp && strings.HasPrefix(a.key, "next(") {
				return opAtom(a.key, a.fail)
			}
		}
	}
	return False
}

// afterNatural: the loop came to its end.
func (r *Run) afterNatural(L *LoopSum) Node {
	g := False
	for _, x := range L.leave {
		if And(x.pc, r.nextAtom(L)) == False {
			g = Or(g, x.after)
		}
	}
	return g
}

func (r *Run) emptyMap(m Val) Node {
	n := intTerm(intern("len", "len("+keyOf(m)+")", 64, 0, 1<<40, nil, nil), 64, true)
	return intEQ(n, intK(0, 64, true))
}

// registered: one turn registers the storage it initialised, and nothing else.
func (r *Run) registered(L *LoopSum, field int, sl *types.Slice, inits []*Event) {
	c, fn, at := r.c, r.name, r.fn.Pos()
	var leaf *Leaf
	for _, l := range L.leaves {
		if l.obj == r.recv && l.kind == "acc" {
			leaf = l
		}
	}
	if !c.ob(leaf != nil && leaf.delta != nil, "register", fn, at, "initialised storages are added to those of the repository") {
		return
	}
	ps := leaf.delta.under(L.back.pc).ps
	one := linEqUnder(leaf.delta.length(), lk(1), L.back.pc)
	c.ob(one, "register", fn, at, "an entry registers one storage; it registers %s", leaf.delta.length().under(L.back.pc))
	for _, e := range inits {
		g := And(L.back.pc, e.pc)
		ok := g != False
		for _, p := range ps {
			h := And(g, p.g)
			if h == False {
				continue
			}
			v := restrict(p.v, h)
			ok = ok && p.v != nil && sameTarget(v, e.args[0])
		}
		c.ob(ok, "register", e.fn, e.pos, "what is registered is the storage initialised for the entry")
	}
	// nothing is registered when the entry ends loading
	was, ok := L.head.heap.get(r.I, r.recv).(*StructV)
	if !ok {
		return
	}
	a, _ := r.I.contentAny(L.head, was.f[field], sl)
	for i, x := range L.leave {
		if x.pc == False || And(x.pc, r.nextAtom(L)) == False || i >= len(L.exits) {
			continue
		}
		now := L.exits[i].heap.get(r.I, r.recv).(*StructV)
		b, _ := r.I.contentAny(L.exits[i], now.f[field], sl)
		d, _ := seqDiff(b, a, x.pc)
		c.ob(d == "", "register", fn, at, "a storage that could not be initialised is not registered: %s", d)
	}
}

// sameTarget: both lead to the same memory.
func sameTarget(a, b Val) bool {
	for {
		switch x := a.(type) {
		case *Iface:
			a = x.v
			continue
		}
		break
	}
	for {
		if x, ok := b.(*Iface); ok {
			b = x.v
			continue
		}
		break
	}
	p, ok1 := a.(*Ptr)
	q, ok2 := b.(*Ptr)
	if ok1 && ok2 {
		return p.obj == q.obj && len(p.path) == len(q.path)
	}
	return keyOf(a) == keyOf(b)
}
