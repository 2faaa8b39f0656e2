package main

// The receiver's server: the run of one connection.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const serverRel = "cli/receiver/server"
const storageRel = "cli/receiver/storage"

// connHandler is the function of the server package that a connection is given
// to: it takes a net.Conn and no other function of the package that takes one
// comes to call it.
func (c *Check) connHandler() *ssa.Function {
	s := c.p.pkg(serverRel)
	if s == nil {
		c.ob(false, "anchor", "", 0, "package %s does not exist", serverRel)
		return nil
	}
	takes := map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]*ssa.Function{}
	var callees func(f, in *ssa.Function)
	callees = func(f, in *ssa.Function) {
		for _, b := range in.Blocks {
			for _, ins := range b.Instrs {
				for _, o := range ins.Operands(nil) {
					g, ok := (*o).(*ssa.Function)
					if !ok || g == f {
						continue
					}
					calls[f] = append(calls[f], g)
					if g.Synthetic != "" && g.Parent() == nil && g != in && len(calls[f]) < 1000 {
						callees(f, g) // of a method value
					}
				}
			}
		}
		for _, a := range in.AnonFuncs {
			callees(f, a)
		}
	}
	for _, f := range pkgFuncs(c.p.prog, s) {
		if f.Parent() != nil {
			continue
		}
		callees(f, f)
		for _, q := range f.Params {
			if types.TypeString(q.Type(), nil) == "net.Conn" {
				takes[f] = true
			}
		}
	}
	called := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function)
	reach = func(f *ssa.Function) {
		for _, g := range calls[f] {
			if !called[g] {
				called[g] = true
				reach(g)
			}
		}
	}
	for f := range takes {
		reach(f)
	}
	var roots []*ssa.Function
	for f := range takes {
		if !called[f] {
			roots = append(roots, f)
		}
	}
	if len(roots) != 1 {
		if f := sessionHandler(c.p.prog, s); f != nil {
			return f
		}
	}
	if !c.ob(len(roots) == 1, "anchor", "", 0, "one function of %s handles a connection; found %d", serverRel, len(roots)) {
		return nil
	}
	return roots[0]
}

// sessionHandler is the method that a goroutine runs on a structure made for
// the connection that it holds.
func sessionHandler(prog *ssa.Program, s *ssa.Package) *ssa.Function {
	var found *ssa.Function
	many := false
	try := func(cc *ssa.CallCommon) {
		h := cc.StaticCallee()
		if h == nil || len(h.Params) != 1 || recvNamed(h) == nil || h.Pkg != s {
			return
		}
		st, ok := recvNamed(h).Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			if types.TypeString(st.Field(i).Type(), nil) == "net.Conn" {
				many = many || found != nil && found != h
				found = h
			}
		}
	}
	for _, f := range pkgFuncs(prog, s) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				g, ok := ins.(*ssa.Go)
				if !ok {
					continue
				}
				try(&g.Call)
				if c := g.Call.StaticCallee(); c != nil && c.Parent() != nil {
					for _, cb := range c.Blocks {
						for _, ci := range cb.Instrs {
							if x, ok := ci.(*ssa.Call); ok {
								try(&x.Call)
							}
						}
					}
				}
			}
		}
	}
	if many {
		return nil
	}
	return found
}

// sessionRun analyses the handler of a structure made for a connection, from
// where the accept loop starts it.
func (c *Check) sessionRun(h *ssa.Function) *Run {
	n, f := c.anchor(serverRel, "Server", "Run")
	if f == nil {
		return nil
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "s", "s"))
	r.I.separate(c.p)
	op := r.I.opaqueFn
	r.I.opaqueFn = func(fn *ssa.Function) bool { return op != nil && op(fn) || fn == h }
	r.call(f)
	r.decided()
	var start *Event
	var acc *Tuple
	many := false
	for _, e := range r.I.events {
		if e.pc == False {
			continue
		}
		if e.kind == "invoke" && hasName(e.name, "Accept") {
			many = many || acc != nil
			acc, _ = e.res.(*Tuple)
		}
		if e.kind == "go" {
			if x := r.I.started(e, h); x != nil {
				many = many || start != nil
				start = x
			}
		}
	}
	if !c.ob(start != nil && acc != nil && len(acc.vs) == 2 && !many, "anchor", r.name, f.Pos(), "connections are accepted and handled at one place") {
		return nil
	}
	if o, ok := acc.vs[0].(*Opaque); ok {
		nonNilTerms[o.t] = true
	}
	r.I.opaqueFn = op
	r.serverContracts()
	r.I.events, r.I.loops, r.I.obls = nil, nil, nil
	r.conn = acc.vs[0]
	r.st = start.state().fork()
	r.st.pc = True
	r.args = nil
	r.call(h, start.args...)
	return r
}

// pkgConst is the value of a constant of the library.
func (p *Program) pkgConst(rel, name string) (int64, bool) {
	s := p.pkg(rel)
	if s == nil {
		return 0, false
	}
	k, ok := s.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	v, ok := constant.Int64Val(k.Val())
	return v, ok
}

// serverRun analyses the handling of one connection. What the library promises
// of decoded packets (checked for C01, C10, C11) and the repository of its
// stores (C20) is assumed.
func (c *Check) serverRun() *Run {
	f := c.connHandler()
	if f == nil {
		return nil
	}
	takes := false
	for _, q := range f.Params {
		takes = takes || types.TypeString(q.Type(), nil) == "net.Conn"
	}
	if !takes {
		return c.sessionRun(f)
	}
	r := c.begin()
	if n := recvNamed(f); n != nil {
		r.setRecv(n, symVal(n, "s", "s"))
	}
	r.I.separate(c.p)
	r.serverContracts()
	for _, q := range f.Params[len(r.args):] {
		v := symVal(q.Type(), q.Name(), q.Name())
		if o, ok := v.(*Opaque); ok && types.IsInterface(q.Type()) {
			nonNilTerms[o.t] = true
		}
		r.args = append(r.args, v)
	}
	r.call(f)
	return r
}

func (r *Run) serverContracts() {
	I := r.I
	op, ct := I.opaqueFn, I.contract
	I.opaqueFn = func(fn *ssa.Function) bool {
		return op(fn) || fn.Name() == "Save" && recvNamed(fn) != nil && recvNamed(fn).Obj().Name() == "Repository"
	}
	I.contract = func(ev *Event, st *State) bool {
		if ev.ssaFn != nil && ev.ssaFn.Name() == "Save" {
			return true // stores only read the record
		}
		if ev.ssaFn != nil && isPackage2(recvNamed(ev.ssaFn)) && ev.ssaFn.Name() == "Decode" {
			return I.packageDecoded(r.c.p, ev, st)
		}
		if ev.ssaFn != nil && isPackage2(recvNamed(ev.ssaFn)) && ev.ssaFn.Name() == "Encode" {
			return I.packageEncoded(ev, st)
		}
		return ct(ev, st)
	}
}

func isPackage2(n *types.Named) bool { return n != nil && isPackage(n) }

// packageDecoded: after a successful Decode the body has the type its packet
// type announces; the code is OK exactly on success.
func (I *Interp) packageDecoded(p *Program, ev *Event, st *State) bool {
	I.havocReach(nil, st, ev.args[0], ev.ctx+"/recv", ev.pos)
	tp, ok := ev.res.(*Tuple)
	if !ok || len(tp.vs) != 2 {
		return false
	}
	ok2 := isNil(tp.vs[1])
	code := tp.vs[0].(*Int)
	ev.res = &Tuple{[]Val{iteVal(ok2, intK(0, code.w, code.sgn), intL(code.asLin(), code.w, code.sgn)), tp.vs[1]}}
	ptr, isp := ev.args[0].(*Ptr)
	if !isp {
		return true
	}
	pk, isS := I.navLoad(st.heap.get(I, ptr.obj), ptr.path, ptr.obj.typ, st.pc).(*StructV)
	if !isS {
		return true
	}
	ti, _ := fieldOf(pk.typ, "PacketType")
	bi, bt := fieldOf(pk.typ, "ServicesFrameData")
	if ti < 0 || bi < 0 {
		return true
	}
	pt, isI := pk.f[ti].(*Int)
	if !isI {
		return true
	}
	n := &StructV{typ: pk.typ, nam: pk.nam, f: append([]Val(nil), pk.f...)}
	// other packet types are refused
	bits := append([]Node(nil), pt.bitVec()...)
	for i := range bits {
		if i > 0 {
			bits[i] = And(bits[i], Not(ok2))
		}
	}
	pt = intBits(bits, pt.sgn)
	n.f[ti] = pt
	body := pk.f[bi]
	for _, x := range [][2]string{{"PtResponsePacket", "PtResponse"}, {"PtAppdataPacket", "ServiceDataSet"}} {
		tn := x[1]
		k, ok := p.pkgConst(libRel, x[0])
		nt := p.named(libRel, tn)
		if !ok || nt == nil {
			continue
		}
		t := types.NewPointer(nt)
		o := &Opaque{nn(internShown("obj", "body:"+ev.ctx+":"+tn, "body", 0, 0, 0, t)), t}
		body = iteVal(And(ok2, intEQ(pt, intK(k, 8, false))), &Iface{typ: t, v: o}, body)
	}
	_ = bt
	n.f[bi] = body
	if nv, ok := I.navStore(st.heap.get(I, ptr.obj), ptr.path, n, ptr.obj.typ, st.pc); ok {
		st.set(ptr.obj, nv)
	}
	return true
}

// packageEncoded: a packet is at least a header long, and nothing where
// encoding fails (checked by encodedOrNothing).
func (I *Interp) packageEncoded(ev *Event, st *State) bool {
	tp, ok := ev.res.(*Tuple)
	if !ok || len(tp.vs) != 2 {
		return false
	}
	good := isNil(tp.vs[1])
	src := internShown("list", "packet:"+ev.ctx, "packet", 0, 0, 0, types.NewSlice(types.Typ[types.Uint8]))
	addFact(lenTerm(src).addK(-11))
	q := &Seq{byts: true, ps: []Piece{{g: good, src: src, off: lk(0), n: lenTerm(src)}}}
	sl := I.newArr(st, types.Typ[types.Uint8], q, "packet")
	sl.nilG = Not(good)
	ev.res = &Tuple{[]Val{sl, tp.vs[1]}}
	// it may fill in its header length
	if p, isp := ev.args[0].(*Ptr); isp {
		I.havocReach(nil, st, p, ev.ctx+"/recv", ev.pos)
	}
	return true
}

// encodedOrNothing: what the runs of a connection assume of Package.Encode.
func (c *Check) encodedOrNothing() {
	n, f := c.anchor(libRel, "Package", "Encode")
	if f == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	r.I.separate(c.p, n)
	r.call(f, c.optArg(r, f.Params[1].Type(), false))
	r.decided()
	st := r.out.fork()
	q, _ := r.I.contentAny(st, r.res[0], types.NewSlice(types.Typ[types.Uint8]))
	l := q.length()
	fails := And(r.out.pc, Not(r.succ))
	c.ob(fails != False && linEqUnder(l, lk(0), fails), "encoder", r.name, f.Pos(), "a failed encoding gives no bytes; it gives %s", l.under(fails))
	c.ob(r.succ != False && entails(r.succ, l.addK(-11)), "encoder", r.name, f.Pos(), "an encoded packet has at least 11 bytes; it has %s", l.under(r.succ))
}

var _ = fmt.Sprint
var _ = strings.Cut
