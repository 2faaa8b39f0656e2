package main

// Abstract interpreter over go/ssa.  One traversal of every function body in
// reverse postorder with joins at merge points; loops are summarised
// (loops.go), library calls are modelled (models.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var modulePath = "github.com/kuznetsovin/egts-protocol"

// ---------------------------------------------------------------- heap

type Heap struct {
	m      map[int]Val
	shared bool
}

func (h *Heap) get(I *Interp, o *Obj) Val {
	if v, ok := h.m[o.id]; ok {
		return v
	}
	return I.baseVal(o)
}

func (I *Interp) baseVal(o *Obj) Val {
	if v, ok := I.base[o.id]; ok {
		return v
	}
	if s, ok := symSeqs[o.id]; ok {
		return s
	}
	return nil
}

type State struct {
	heap *Heap
	pc   Node
	lv   map[ssa.Value]Val // values that left an unrolled loop
}

func (s *State) fork() *State {
	s.heap.shared = true
	return &State{heap: s.heap, pc: s.pc, lv: s.lv}
}

func (s *State) set(o *Obj, v Val) {
	if s.heap.shared {
		n := make(map[int]Val, len(s.heap.m)+8)
		for k, x := range s.heap.m {
			n[k] = x
		}
		s.heap = &Heap{m: n}
	}
	s.heap.m[o.id] = v
}

// ---------------------------------------------------------------- records

type Obl struct {
	kind, fn, what string
	pos            token.Pos
	ok             bool
	pc             Node
	loops          []*LoopSum
}

// Fall is a step that can fail: where pc and fail hold, it failed.
type Fall struct {
	what string
	fn   string
	pos  token.Pos
	pc   Node
	fail Node
	loop []*LoopSum
}

type Event struct {
	kind  string // call, write, go, exit, send...
	name  string
	fn    string
	ssaFn *ssa.Function
	recv  Val
	args  []Val
	res   Val
	pc    Node
	heap  *Heap
	pos   token.Pos
	loops []*LoopSum
	note  string
	ctx   string
}

type Alarm struct {
	what string
	pos  token.Pos
	fn   string
}

type Interp struct {
	whole    bool // reads of streams are repeated until all is there
	lastRead Val
	prog     *ssa.Program
	fset     *token.FileSet
	base     map[int]Val
	events   []*Event
	obls     []*Obl
	falls    []*Fall
	loops    []*LoopSum
	unsup    []Alarm
	globals  map[*ssa.Global]*Obj
	opaqueFn func(fn *ssa.Function) bool
	havocked map[*Obj]string // by which call memory was first filled
	// contract is applied to the results of opaque calls
	contract func(ev *Event, st *State) bool
	stack    []*ssa.Function
	loopStk  []*LoopSum
	streams  map[Term]*Obj
	analysed map[*ssa.Function]bool
	steps    int
	rootObjs map[int]bool
	pools    map[int]bool
	visited  int
	nPaths   int
	noUnroll bool
	// what earlier passes over the same loop found
	leafMemo   map[string][]memoLeaf
	noUnrollAt map[string]bool
}

func newInterp(p *Program) *Interp {
	I := &Interp{prog: p.prog, fset: p.fset, base: map[int]Val{}, globals: map[*ssa.Global]*Obj{},
		streams: map[Term]*Obj{}, analysed: map[*ssa.Function]bool{}, rootObjs: map[int]bool{}, pools: map[int]bool{},
		leafMemo: map[string][]memoLeaf{}, noUnrollAt: map[string]bool{}}
	I.opaqueFn = func(*ssa.Function) bool { return false }
	I.havocked = map[*Obj]string{}
	return I
}

func resetAll() {
	ddReset()
	termsReset()
	satAddCache = map[[2]Node]Node{}
	codeTab = map[string]map[string]int{}
	codeName = map[string]string{}
	symObjs = map[Term]*Obj{}
	symSeqs = map[int]*Seq{}
	nextObj = 0
	allObjs = map[int]*Obj{}
	bornSeqs = map[int]*Seq{}
	elemHooks = map[Term]func(i Lin) Val{}
	nonNilTerms = map[Term]bool{}
	parseArgs = map[Term]*Seq{}
	errTerms = map[Term]bool{}
	subOf = map[Term]subInfo{}
	globalFacts = nil
	rangeHook = nil
	strHook = nil
	entailCache = map[string]bool{}
	loopLeafs = map[Term]*Leaf{}
	elemAlias = map[Term]elData{}
}

func (I *Interp) unsupported(fr *Frame, pos token.Pos, format string, a ...interface{}) {
	fn := ""
	if fr != nil {
		fn = fr.fn.String()
	}
	I.unsup = append(I.unsup, Alarm{fmt.Sprintf(format, a...), pos, fn})
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	ctx    string
	defers []deferred
	exits  []exitRec
	loops  map[*ssa.BasicBlock]*natLoop
	rpo    []*ssa.BasicBlock
	cur    *ssa.BasicBlock
	inDef  bool
}

type deferred struct {
	g    Node
	call *ssa.CallCommon
	fn   Val
	args []Val
	ins  *ssa.Defer
}

type exitRec struct {
	st  *State
	res []Val
	pos token.Pos
}

type edge struct {
	from *ssa.BasicBlock
	st   *State
	phis []Val
}

// ---------------------------------------------------------------- calls

const maxDepth = 60

// callFn analyses a function body with the given arguments.
func (I *Interp) callFn(fn *ssa.Function, args, binds []Val, st *State, ctx string) ([]Val, *State) {
	ex := I.runFn(fn, args, binds, st, ctx)
	if len(ex) == 0 {
		return nil, &State{heap: st.heap, pc: False}
	}
	return I.mergeExits(ex)
}

func (I *Interp) mergeExits(ex []exitRec) ([]Val, *State) {
	cur := ex[0]
	for _, e := range ex[1:] {
		care := Or(cur.st.pc, e.st.pc)
		g := minimizeGuard(e.st.pc, care, gateRank)
		n := exitRec{st: I.mergeStates(cur.st, e.st, g), pos: e.pos}
		for i := range cur.res {
			n.res = append(n.res, iteVal(g, e.res[i], cur.res[i]))
		}
		cur = n
	}
	return cur.res, cur.st
}

// runFn returns the exits of the function separately.
func (I *Interp) runFn(fn *ssa.Function, args, binds []Val, st *State, ctx string) []exitRec {
	if len(fn.Blocks) == 0 {
		I.unsupported(nil, fn.Pos(), "function %s has no body", fn)
		return nil
	}
	I.analysed[fn] = true
	I.stack = append(I.stack, fn)
	defer func() { I.stack = I.stack[:len(I.stack)-1] }()
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, ctx: ctx}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, b := range fn.FreeVars {
		if i < len(binds) {
			fr.regs[b] = binds[i]
		}
	}
	fr.rpo = rpoOf(fn)
	fr.loops = natLoops(fn, fr.rpo)
	if fr.loops == nil {
		I.unsupported(fr, fn.Pos(), "irreducible control flow")
		return nil
	}
	in := map[*ssa.BasicBlock][]edge{}
	in[fn.Blocks[0]] = []edge{{nil, st.fork(), nil}}
	s := st
	s.lv = nil
	in[fn.Blocks[0]][0].st.lv = nil
	I.execRegion(fr, fr.rpo, in, nil)
	return fr.exits
}

// execRegion runs the blocks (in reverse postorder); it returns the back edges
// of loop and the edges leaving the region.
func (I *Interp) execRegion(fr *Frame, blocks []*ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, cur *natLoop) (back []edge, exits map[*ssa.BasicBlock][]edge) {
	exits = map[*ssa.BasicBlock][]edge{}
	inRegion := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		inRegion[b] = true
	}
	done := map[*ssa.BasicBlock]bool{}
	route := func(to *ssa.BasicBlock, e edge) {
		if e.st.pc == False {
			return
		}
		if cur != nil && to == cur.header {
			back = append(back, e)
		} else if !inRegion[to] {
			exits[to] = append(exits[to], e)
		} else {
			in[to] = append(in[to], e)
		}
	}
	for _, b := range blocks {
		if done[b] || len(in[b]) == 0 {
			continue
		}
		if L := fr.loops[b]; L != nil && L != cur {
			ex := I.execLoop(fr, L, in[b])
			for _, lb := range L.blocks {
				done[lb] = true
			}
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
			for _, to := range tos {
				for _, e := range ex[to] {
					route(to, e)
				}
			}
			continue
		}
		done[b] = true
		st := I.enter(fr, b, in[b])
		for _, o := range I.execBlock(fr, b, st) {
			route(o.to, o.e)
		}
	}
	return back, exits
}

type outEdge struct {
	to *ssa.BasicBlock
	e  edge
}

// enter merges the incoming edges of a block.
func (I *Interp) enter(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	cur := es[0].st
	phis := es[0].phis
	for _, e := range es[1:] {
		care := Or(cur.pc, e.st.pc)
		g := minimizeGuard(e.st.pc, care, gateRank)
		cur = I.mergeStates(cur, e.st, g)
		np := make([]Val, len(phis))
		for i := range phis {
			np[i] = iteVal(g, e.phis[i], phis[i])
		}
		phis = np
	}
	if len(es) == 1 {
		cur = cur.fork()
	}
	i := 0
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if i < len(phis) {
			fr.regs[phi] = phis[i]
			if cur.lv != nil {
				if _, ok := cur.lv[phi]; ok {
					cur.lv = cloneLV(cur.lv)
					delete(cur.lv, phi)
				}
			}
		}
		i++
	}
	return cur
}

func cloneLV(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := map[ssa.Value]Val{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// mergeStates: b where g holds, else a.
func (I *Interp) mergeStates(a, b *State, g Node) *State {
	r := &State{pc: Or(a.pc, b.pc)}
	if a.heap == b.heap {
		a.heap.shared = true
		r.heap = a.heap
	} else {
		m := make(map[int]Val, len(a.heap.m)+4)
		for k, v := range a.heap.m {
			m[k] = v
		}
		for k, vb := range b.heap.m {
			va, ok := a.heap.m[k]
			if !ok {
				va, ok = I.base[k], I.base[k] != nil
				if !ok {
					if s, ok2 := symSeqs[k]; ok2 {
						va, ok = s, true
					}
				}
			}
			if !ok {
				m[k] = vb
				continue
			}
			if sameIface(va, vb) {
				continue
			}
			m[k] = iteVal(g, vb, va)
		}
		for k, va := range a.heap.m {
			if _, ok := b.heap.m[k]; !ok {
				if vb := I.base[k]; vb != nil {
					m[k] = iteVal(g, vb, va)
				} else if s, ok2 := symSeqs[k]; ok2 {
					m[k] = iteVal(g, s, va)
				}
			}
		}
		r.heap = &Heap{m: m}
	}
	if len(a.lv) > 0 || len(b.lv) > 0 {
		r.lv = map[ssa.Value]Val{}
		for k, v := range a.lv {
			r.lv[k] = v
		}
		for k, v := range b.lv {
			if w, ok := r.lv[k]; ok {
				if !sameIface(v, w) {
					r.lv[k] = iteVal(g, v, w)
				}
			} else {
				r.lv[k] = v
			}
		}
	}
	return r
}

func sameIface(a, b Val) (same bool) {
	defer func() {
		if recover() != nil {
			same = false
		}
	}()
	return a == b
}

func (I *Interp) get(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return &Ptr{obj: I.globalObj(x)}
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return &BuiltinV{x.Name()}
	}
	if st.lv != nil {
		if r, ok := st.lv[v]; ok {
			return r
		}
	}
	if r, ok := fr.regs[v]; ok {
		return r
	}
	r := symVal(v.Type(), "undef:"+fr.ctx+":"+fr.fn.String()+":"+v.Name(), "undef:"+v.Name())
	I.unsupported(fr, v.Pos(), "value %s used before it is known", v.Name())
	return r
}

func (I *Interp) insID(fr *Frame, ins ssa.Instruction) string {
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			return fmt.Sprintf("%s%s:%d.%d", fr.ctx, shortFn(fr.fn), b.Index, i)
		}
	}
	return fr.ctx + shortFn(fr.fn)
}

func shortFn(fn *ssa.Function) string {
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, modulePath+"/", "")
}

func (I *Interp) require(fr *Frame, st *State, pos token.Pos, kind string, cond Node, what string) {
	bad := And(st.pc, Not(cond))
	ok := bad == False
	if !ok {
		c := I.simplify(st.pc, cond)
		if And(st.pc, Not(c)) == False {
			ok = true
		}
	}
	I.obls = append(I.obls, &Obl{kind, fr.fn.String(), what, pos, ok, bad, I.loopStkCopy()})
	if !ok {
		st.pc = And(st.pc, cond)
	}
}

func (I *Interp) requireGE(fr *Frame, st *State, pos token.Pos, kind string, l Lin, what string) {
	ok := I.entails(st.pc, l)
	I.obls = append(I.obls, &Obl{kind, fr.fn.String(), what, pos, ok, st.pc, I.loopStkCopy()})
	if !ok {
		st.pc = And(st.pc, mkGE(l))
	}
}

var entailCache map[string]bool

func (I *Interp) entails(pc Node, l Lin) bool { return entails(pc, l) }

// simplify decides comparison atoms of cond that follow from pc.
func (I *Interp) simplify(pc, cond Node) Node {
	if cond == True || cond == False {
		return cond
	}
	if Implies(pc, cond) {
		return True
	}
	if And(pc, cond) == False {
		return False
	}
	m := map[int32]Node{}
	for _, v := range support(cond) {
		a := atoms[v]
		x := ddVar(int(v))
		switch a.kind {
		case aGE:
			if And(pc, x) != False && And(pc, Not(x)) != False {
				if entails(pc, a.l) {
					m[v] = True
				} else if entails(pc, a.l.neg().addK(-1)) {
					m[v] = False
				}
			}
		case aEQ:
			if And(pc, x) != False && And(pc, Not(x)) != False {
				if entails(pc, a.l) && entails(pc, a.l.neg()) {
					m[v] = True
				} else if entails(pc, a.l.addK(-1)) || entails(pc, a.l.neg().addK(-1)) {
					m[v] = False
				}
			}
		}
	}
	if len(m) > 0 {
		cond = ddCompose(cond, m)
	}
	return cond
}

func (I *Interp) loopStkCopy() []*LoopSum { return append([]*LoopSum(nil), I.loopStk...) }

func (I *Interp) event(fr *Frame, st *State, kind, name string, pos token.Pos, recv Val, args []Val, res Val) *Event {
	st.heap.shared = true
	fn := ""
	ctx := ""
	if fr != nil {
		fn = fr.fn.String()
		ctx = fr.ctx
	}
	e := &Event{kind: kind, name: name, fn: fn, recv: recv, args: args, res: res, pc: st.pc, heap: st.heap, pos: pos, loops: I.loopStkCopy(), ctx: ctx}
	I.events = append(I.events, e)
	return e
}

func (I *Interp) fall(fr *Frame, st *State, pos token.Pos, what string, fail Node) {
	if And(st.pc, fail) == False {
		return
	}
	I.falls = append(I.falls, &Fall{what, fr.fn.String(), pos, st.pc, fail, I.loopStkCopy()})
}

// ---------------------------------------------------------------- blocks

var traceExec = os.Getenv("GSA_TRACE") != ""

func (I *Interp) execBlock(fr *Frame, b *ssa.BasicBlock, st *State) []outEdge {
	fr.cur = b
	I.visited++
	for _, ins := range b.Instrs {
		if st.pc == False {
			return nil
		}
		if traceExec {
			fmt.Fprintf(os.Stderr, "%s%s b%d: %v\n", strings.Repeat(" ", len(I.stack)), fr.fn.Name(), b.Index, ins)
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return []outEdge{I.mkEdge(fr, b, b.Succs[0], st)}
		case *ssa.If:
			c := I.boolOf(fr, st, x.Cond)
			c = I.simplify(st.pc, c)
			t, f := st.fork(), st.fork()
			t.pc = And(st.pc, c)
			f.pc = And(st.pc, Not(c))
			var out []outEdge
			if t.pc != False {
				out = append(out, I.mkEdge(fr, b, b.Succs[0], t))
			}
			if f.pc != False {
				out = append(out, I.mkEdge(fr, b, b.Succs[1], f))
			}
			return out
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, I.get(fr, st, r))
			}
			fr.exits = append(fr.exits, exitRec{st.fork(), res, x.Pos()})
			return nil
		case *ssa.Panic:
			I.obls = append(I.obls, &Obl{"panic", fr.fn.String(), "explicit panic", x.Pos(), false, st.pc, I.loopStkCopy()})
			return nil
		default:
			I.exec(fr, ins, st)
		}
	}
	return nil
}

func (I *Interp) mkEdge(fr *Frame, from, to *ssa.BasicBlock, st *State) outEdge {
	e := edge{from: from, st: st}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		e.phis = append(e.phis, I.get(fr, st, phi.Edges[idx]))
	}
	return outEdge{to, e}
}

func (I *Interp) boolOf(fr *Frame, st *State, v ssa.Value) Node {
	x := I.get(fr, st, v)
	return asBool(x)
}

func asBool(x Val) Node {
	switch y := x.(type) {
	case Bool:
		return y.n
	case *IteV:
		return Ite(y.g, asBool(y.a), asBool(y.b))
	}
	return opAtom("bool("+keyOf(x)+")", false)
}

func asInt(v Val, t types.Type) *Int {
	switch x := v.(type) {
	case *Int:
		return x
	case *IteV:
		a, b := asInt(x.a, t), asInt(x.b, t)
		if r, ok := iteVal(x.g, a, b).(*Int); ok {
			return r
		}
	}
	w, sgn := intType(t)
	if w == 0 {
		w, sgn = 64, true
	}
	lo, hi := typeRange(w, sgn)
	return intTerm(intern("opq", keyOf(v), w, lo, hi, t, nil), w, sgn)
}

func asStr(v Val) *Str {
	switch x := v.(type) {
	case *Str:
		return x
	case *IteV:
		return &Str{seqIte(x.g, asStr(x.a).s, asStr(x.b).s)}
	}
	return symStr("opq:"+keyOf(v), "opaque")
}

func asSlice(v Val, t types.Type) *Slice {
	switch x := v.(type) {
	case *Slice:
		return x
	case NilV:
		return &Slice{elt: elemType(t), off: lk(0), n: lk(0), cap: lk(0), nilG: True}
	case *Opaque:
		return symSlice(t, termTab[x.t].key, termString(x.t))
	}
	return nil
}

// ---------------------------------------------------------------- memory

// targets lists the objects a pointer may refer to.
type target struct {
	g    Node
	obj  *Obj
	path []pathEl
}

func (I *Interp) targets(v Val, g Node) []target {
	switch x := v.(type) {
	case *Ptr:
		return []target{{g, x.obj, x.path}}
	case *IteV:
		var out []target
		if a := And(g, x.g); a != False {
			out = append(out, I.targets(x.a, a)...)
		}
		if b := And(g, Not(x.g)); b != False {
			out = append(out, I.targets(x.b, b)...)
		}
		return out
	case *Opaque:
		if o := I.materialise(x); o != nil {
			return []target{{g, o, nil}}
		}
	}
	return nil
}

// materialise gives the object an unknown pointer refers to.
func (I *Interp) materialise(x *Opaque) *Obj {
	if o := symObjs[x.t]; o != nil {
		return o
	}
	if x.typ == nil {
		return nil
	}
	p, ok := x.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	o := newObj("cell", p.Elem(), termString(x.t))
	o.sym = true
	o.root = termTab[x.t].key
	symObjs[x.t] = o
	I.base[o.id] = symVal(p.Elem(), termTab[x.t].key+".*", termString(x.t))
	return o
}

func (I *Interp) globalObj(g *ssa.Global) *Obj {
	if o := I.globals[g]; o != nil {
		return o
	}
	el := g.Type().(*types.Pointer).Elem()
	o := newObj("global", el, g.String())
	o.root = "global:" + g.String()
	I.globals[g] = o
	v := I.globalInit(g)
	if v == nil {
		v = symVal(el, "global:"+g.String(), g.Name())
		if op, ok := v.(*Opaque); ok {
			nonNilTerms[op.t] = true
			if isErrorType(el) {
				v = &ErrV{op.t}
			}
		}
	}
	I.base[o.id] = v
	return o
}

type elData struct {
	s   *Seq
	idx Lin
}

var elemAlias map[Term]elData

func (I *Interp) seqElem(s *Seq, idx Lin, et types.Type, pc Node) Val {
	if v, ok := s.at(idx, pc); ok && v != nil {
		return v
	}
	// a table of known elements indexed by a number
	flat := len(s.ps) > 0 && len(s.ps) <= 1024
	for _, p := range s.ps {
		if p.v == nil || p.g != True {
			flat = false
			break
		}
	}
	if flat && isByteType(et) {
		for _, m := range idx.ts {
			if termTab[m.t].kind == "k" {
				flat = false
			}
		}
	}
	if flat {
		iv := intL(idx, 32, false)
		lo, hi := idx.rangeUnder(pc)
		if lo >= 0 && hi < 1<<31 {
			bs := iv.bitVec()
			nb := 0
			for 1<<uint(nb) < len(s.ps) {
				nb++
			}
			vals := make([]Val, len(s.ps))
			for i, p := range s.ps {
				vals[i] = p.v
			}
			return mux(bs[:nb], vals)
		}
	}
	if isByteType(et) {
		t := intern("el", s.key()+"@"+idx.key(), 8, 0, 255, nil, nil)
		elemAlias[t] = elData{s, idx}
		return intTerm(t, 8, false)
	}
	return symVal(et, "el:"+s.key()+"@"+idx.key(), "elem["+idx.String()+"]")
}

func mux(bs []Node, vals []Val) Val {
	if len(vals) == 1 {
		return vals[0]
	}
	n := len(bs) - 1
	half := 1 << uint(n)
	if half >= len(vals) {
		return mux(bs[:n], vals)
	}
	return iteVal(bs[n], mux(bs[:n], vals[half:]), mux(bs[:n], vals[:half]))
}

func (I *Interp) navLoad(v Val, path []pathEl, t types.Type, pc Node) Val {
	if len(path) == 0 {
		return v
	}
	switch x := v.(type) {
	case *IteV:
		return iteVal(x.g, I.navLoad(x.a, path, t, And(pc, x.g)), I.navLoad(x.b, path, t, And(pc, Not(x.g))))
	case *StructV:
		if path[0].field >= 0 {
			return I.navLoad(x.f[path[0].field], path[1:], x.typ.Field(path[0].field).Type(), pc)
		}
	case *Seq:
		if path[0].field < 0 {
			et := elemType(t)
			return I.navLoad(I.seqElem(x, path[0].idx, et, pc), path[1:], et, pc)
		}
	case *Opaque:
		if st, ok := t.Underlying().(*types.Struct); ok && path[0].field >= 0 {
			f := st.Field(path[0].field)
			if termTab[x.t].kind == "zero" {
				return I.navLoad(zeroVal(f.Type()), path[1:], f.Type(), pc)
			}
			key := termTab[x.t].key + "." + f.Name()
			return I.navLoad(symVal(f.Type(), key, termString(x.t)+"."+f.Name()), path[1:], f.Type(), pc)
		}
	}
	return nil
}

func (I *Interp) navStore(v Val, path []pathEl, n Val, t types.Type, pc Node) (Val, bool) {
	if len(path) == 0 {
		return n, true
	}
	switch x := v.(type) {
	case *IteV:
		a, ok1 := I.navStore(x.a, path, n, t, pc)
		b, ok2 := I.navStore(x.b, path, n, t, pc)
		return iteVal(x.g, a, b), ok1 && ok2
	case *StructV:
		if i := path[0].field; i >= 0 {
			s := &StructV{typ: x.typ, nam: x.nam, f: append([]Val(nil), x.f...)}
			nv, ok := I.navStore(x.f[i], path[1:], n, x.typ.Field(i).Type(), pc)
			s.f[i] = nv
			return s, ok
		}
	case *Seq:
		if path[0].field < 0 {
			et := elemType(t)
			if len(path) > 1 {
				old := I.seqElem(x, path[0].idx, et, pc)
				nv, ok := I.navStore(old, path[1:], n, et, pc)
				if !ok {
					return v, false
				}
				n = nv
			}
			return I.seqStore(x, path[0].idx, n, et, pc), true
		}
	case *Opaque:
		if st, ok := t.Underlying().(*types.Struct); ok && path[0].field >= 0 {
			// an opaque struct: remember the field, forget nothing else
			s := &StructV{typ: st, nam: t}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if termTab[x.t].kind == "zero" {
					s.f = append(s.f, zeroVal(f.Type()))
					continue
				}
				s.f = append(s.f, symVal(f.Type(), termTab[x.t].key+"."+f.Name(), termString(x.t)+"."+f.Name()))
			}
			return I.navStore(s, path, n, t, pc)
		}
	}
	return v, false
}

func (I *Interp) seqStore(s *Seq, idx Lin, n Val, et types.Type, pc Node) *Seq {
	pos := lk(0)
	for i, p := range s.ps {
		if p.v != nil && Implies(pc, p.g) && linEqUnder(pos, idx, pc) {
			r := &Seq{byts: s.byts, ps: append([]Piece(nil), s.ps...)}
			r.ps[i].v = n
			return r
		}
		pos = pos.add(p.ln())
	}
	if _, c := idx.isConst(); !c {
		flat := len(s.ps) <= 64
		for _, p := range s.ps {
			if p.v == nil || p.g != True {
				flat = false
			}
		}
		if flat {
			r := &Seq{byts: s.byts}
			for i, p := range s.ps {
				r.ps = append(r.ps, Piece{g: True, v: iteVal(mkEQ(idx.addK(-int64(i))), n, p.v)})
			}
			return r
		}
	}
	// split a segment around a constant position
	if sub1, ok := s.slice(lk(0), idx, pc); ok {
		if sub2, ok := s.slice(idx.addK(1), s.length().sub(idx).addK(-1), pc); ok {
			r := &Seq{byts: s.byts}
			r.ps = append(r.ps, sub1.ps...)
			r.ps = append(r.ps, Piece{g: True, v: n})
			r.ps = append(r.ps, sub2.ps...)
			return r
		}
	}
	src := intern("list", "upd:"+s.key()+"@"+idx.key()+"="+keyOf(n), 0, 0, 0, types.NewSlice(et), nil)
	return &Seq{byts: s.byts, ps: []Piece{{g: True, src: src, off: lk(0), n: s.length()}}}
}

func (I *Interp) load(fr *Frame, st *State, p Val, t types.Type, pos token.Pos) Val {
	I.nilCheck(fr, st, p, pos, "dereference")
	ts := I.targets(p, True)
	var r Val
	for _, tg := range ts {
		if And(st.pc, tg.g) == False {
			continue
		}
		v := I.navLoad(st.heap.get(I, tg.obj), tg.path, tg.obj.typ, And(st.pc, tg.g))
		if v == nil {
			continue
		}
		if r == nil {
			r = v
		} else {
			r = iteVal(tg.g, v, r)
		}
	}
	if r == nil {
		return symVal(t, "load:"+keyOf(p)+fmt.Sprintf("@%d", len(I.events)), "*"+show(p))
	}
	return r
}

func (I *Interp) store(fr *Frame, st *State, p Val, v Val, pos token.Pos) {
	I.nilCheck(fr, st, p, pos, "store")
	ts := I.targets(p, True)
	if len(ts) == 0 {
		I.unsupported(fr, pos, "store through unknown pointer %s", show(p))
		return
	}
	for _, tg := range ts {
		if And(st.pc, tg.g) == False {
			continue
		}
		old := st.heap.get(I, tg.obj)
		nv, ok := I.navStore(old, tg.path, v, tg.obj.typ, And(st.pc, tg.g))
		if !ok {
			I.unsupported(fr, pos, "store to %s", show(p))
			continue
		}
		if tg.obj.shared() {
			e := I.event(fr, st, "write", tg.obj.name, pos, &Ptr{tg.obj, tg.path}, []Val{v}, nil)
			e.pc = And(st.pc, tg.g)
		}
		if Implies(st.pc, tg.g) {
			st.set(tg.obj, nv)
		} else {
			st.set(tg.obj, iteVal(tg.g, nv, old))
		}
	}
}

func (I *Interp) nilCheck(fr *Frame, st *State, v Val, pos token.Pos, what string) {
	n := isNil(v)
	if n == False {
		return
	}
	I.require(fr, st, pos, "nil", Not(n), what+" of "+show(v))
}

func (I *Interp) addr(p Val, el pathEl) Val {
	switch x := p.(type) {
	case *Ptr:
		return &Ptr{x.obj, append(append([]pathEl(nil), x.path...), el)}
	case *IteV:
		return iteVal(x.g, I.addr(x.a, el), I.addr(x.b, el))
	case *Opaque:
		if o := I.materialise(x); o != nil {
			return &Ptr{o, []pathEl{el}}
		}
	}
	return nil
}

// content is the element sequence of a slice.
func (I *Interp) content(st *State, s *Slice) *Seq {
	if s.obj == nil {
		return &Seq{byts: isByteType(s.elt)}
	}
	v := st.heap.get(I, s.obj)
	return I.contentOf(v, s, st.pc)
}

func (I *Interp) contentOf(v Val, s *Slice, pc Node) *Seq {
	switch x := v.(type) {
	case *Seq:
		if r, ok := x.slice(s.off, s.n, pc); ok {
			return r
		}
		src := intern("list", "sub:"+x.key()+"@"+s.off.key()+"+"+s.n.key(), 0, 0, 0, types.NewSlice(s.elt), subSeq{x, s.off})
		return &Seq{byts: x.byts, ps: []Piece{{g: True, src: src, off: lk(0), n: s.n}}}
	case *IteV:
		return seqIte(x.g, I.contentOf(x.a, s, And(pc, x.g)), I.contentOf(x.b, s, And(pc, Not(x.g))))
	}
	src := intern("list", "cont:"+keyOf(v)+"@"+s.off.key(), 0, 0, 0, types.NewSlice(s.elt), nil)
	return &Seq{byts: isByteType(s.elt), ps: []Piece{{g: True, src: src, off: lk(0), n: s.n}}}
}

type subSeq struct {
	s   *Seq
	off Lin
}

// contentAny handles slices under conditions.
func (I *Interp) contentAny(st *State, v Val, t types.Type) (*Seq, Lin) {
	if x, ok := v.(*IteV); ok {
		a := st.fork()
		a.pc = And(st.pc, x.g)
		b := st.fork()
		b.pc = And(st.pc, Not(x.g))
		if a.pc == False {
			return I.contentAny(st, x.b, t)
		}
		if b.pc == False {
			return I.contentAny(st, x.a, t)
		}
		sa, na := I.contentAny(a, x.a, t)
		sb, nb := I.contentAny(b, x.b, t)
		return seqIte(x.g, sa, sb), linIte(x.g, na, nb)
	}
	if x, ok := v.(*Str); ok {
		return x.s, x.s.length()
	}
	s := asSlice(v, t)
	if s == nil {
		src := intern("list", "any:"+keyOf(v), 0, 0, 0, t, nil)
		return &Seq{byts: true, ps: []Piece{{g: True, src: src, off: lk(0), n: lenTerm(src)}}}, lenTerm(src)
	}
	c := I.content(st, s)
	return c, s.n
}

// bornSeqs: what an array held when it was made.
var bornSeqs map[int]*Seq

// made is the content the array behind a result had when the call returned it.
func (I *Interp) made(st *State, v Val) *Seq {
	if s, ok := v.(*Slice); ok && s.obj != nil {
		if q, ok := bornSeqs[s.obj.id]; ok && s.off.key() == lk(0).key() && linEqUnder(s.n, q.length(), True) {
			return q
		}
	}
	q, _ := I.contentAny(st, v, types.NewSlice(types.Typ[types.Uint8]))
	return q
}

func (I *Interp) newArr(st *State, et types.Type, s *Seq, name string) *Slice {
	o := newObj("arr", types.NewSlice(et), name)
	st.set(o, s)
	bornSeqs[o.id] = s
	n := s.length()
	return &Slice{obj: o, off: lk(0), n: n, cap: n, elt: et, nilG: False}
}

// ---------------------------------------------------------------- instructions

func (I *Interp) exec(fr *Frame, ins ssa.Instruction, st *State) {
	set := func(v ssa.Value, x Val) {
		fr.regs[v] = x
		if st.lv != nil {
			if _, ok := st.lv[v]; ok {
				st.lv = cloneLV(st.lv)
				delete(st.lv, v)
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		o := newObj("cell", el, x.Comment)
		o.site = I.insID(fr, ins)
		st.set(o, zeroVal(el))
		set(x, &Ptr{obj: o})
	case *ssa.BinOp:
		set(x, I.binop(fr, st, x))
	case *ssa.UnOp:
		set(x, I.unop(fr, st, x))
	case *ssa.Store:
		I.store(fr, st, I.get(fr, st, x.Addr), I.get(fr, st, x.Val), x.Pos())
	case *ssa.FieldAddr:
		b := I.get(fr, st, x.X)
		I.nilCheck(fr, st, b, x.Pos(), "field access")
		a := I.addr(b, pathEl{field: x.Field})
		if a == nil {
			I.unsupported(fr, x.Pos(), "field address of %s", show(b))
			a = &Opaque{intern("addr", keyOf(b)+fmt.Sprint(x.Field), 0, 0, 0, x.Type(), nil), x.Type()}
		}
		set(x, a)
	case *ssa.Field:
		v := I.navLoad(I.get(fr, st, x.X), []pathEl{{field: x.Field}}, x.X.Type(), st.pc)
		if v == nil {
			v = symVal(x.Type(), "field:"+keyOf(I.get(fr, st, x.X))+fmt.Sprint(x.Field), x.Name())
		}
		set(x, v)
	case *ssa.IndexAddr:
		set(x, I.indexAddr(fr, st, x))
	case *ssa.Index:
		base := I.get(fr, st, x.X)
		idx := asInt(I.get(fr, st, x.Index), x.Index.Type())
		var s *Seq
		switch b := base.(type) {
		case *Seq:
			s = b
		case *Str:
			s = b.s
		default:
			s = asStr(base).s
		}
		il := idx.asLin()
		I.requireGE(fr, st, x.Pos(), "index", il, "index >= 0: "+il.String())
		I.requireGE(fr, st, x.Pos(), "index", s.length().sub(il).addK(-1), "index "+il.String()+" < length "+s.length().String())
		set(x, I.seqElem(s, il, x.Type(), st.pc))
	case *ssa.Slice:
		set(x, I.sliceOp(fr, st, x))
	case *ssa.Call:
		set(x, I.call(fr, st, x, &x.Call))
	case *ssa.ChangeType:
		set(x, I.get(fr, st, x.X))
	case *ssa.ChangeInterface:
		set(x, I.get(fr, st, x.X))
	case *ssa.MakeInterface:
		set(x, &Iface{typ: x.X.Type(), v: I.get(fr, st, x.X)})
	case *ssa.Convert:
		set(x, I.convert(fr, st, x.X.Type(), x.Type(), I.get(fr, st, x.X), x))
	case *ssa.MultiConvert:
		set(x, I.convert(fr, st, x.X.Type(), x.Type(), I.get(fr, st, x.X), x))
	case *ssa.Extract:
		tv := I.get(fr, st, x.Tuple)
		set(x, extract(tv, x.Index, x.Type(), I.insID(fr, ins)))
	case *ssa.TypeAssert:
		set(x, I.typeAssert(fr, st, x))
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bs = append(c.bs, I.get(fr, st, b))
		}
		set(x, c)
	case *ssa.MakeSlice:
		n := asInt(I.get(fr, st, x.Len), x.Len.Type()).asLin()
		c := asInt(I.get(fr, st, x.Cap), x.Cap.Type()).asLin()
		I.requireGE(fr, st, x.Pos(), "make", n, "make length >= 0: "+n.String())
		I.requireGE(fr, st, x.Pos(), "make", c.sub(n), "make capacity >= length")
		el := x.Type().Underlying().(*types.Slice).Elem()
		e := I.event(fr, st, "make", x.Type().String(), x.Pos(), nil, []Val{intL(n, 64, true), intL(c, 64, true)}, nil)
		_ = e
		set(x, I.makeSlice(st, el, n, c, I.insID(fr, ins)))
	case *ssa.MakeMap:
		o := newObj("map", x.Type(), "map")
		st.set(o, &MapV{elt: x.Type().Underlying().(*types.Map).Elem()})
		set(x, &Ptr{obj: o})
	case *ssa.MapUpdate:
		m := I.get(fr, st, x.Map)
		k, v := I.get(fr, st, x.Key), I.get(fr, st, x.Value)
		if p, ok := m.(*Ptr); ok && p.obj.kind == "map" && len(p.path) == 0 {
			old, ok := st.heap.get(I, p.obj).(*MapV)
			if ok {
				n := &MapV{elt: old.elt}
				rep := false
				for i := range old.keys {
					n.keys = append(n.keys, old.keys[i])
					if keyOf(old.keys[i]) == keyOf(k) {
						n.vals = append(n.vals, v)
						rep = true
					} else {
						n.vals = append(n.vals, old.vals[i])
					}
				}
				if !rep {
					n.keys = append(n.keys, k)
					n.vals = append(n.vals, v)
				}
				st.set(p.obj, n)
				return
			}
		}
		if n := isNil(m); And(st.pc, n) != False {
			I.require(fr, st, x.Pos(), "nilmap", Not(n), "write to map "+show(m))
		}
		I.event(fr, st, "write", "map "+show(m), x.Pos(), m, []Val{k, v}, nil)
	case *ssa.Lookup:
		set(x, I.lookup(fr, st, x))
	case *ssa.Range:
		set(x, &rangeIter{v: I.get(fr, st, x.X), typ: x.X.Type(), id: I.insID(fr, ins)})
	case *ssa.Next:
		set(x, I.next(fr, st, x))
	case *ssa.Go:
		fnv, args := I.callee(fr, st, &x.Call)
		ev := I.event(fr, st, "go", calleeName(&x.Call, fnv), x.Pos(), fnv, args, nil)
		if f, ok := fnv.(*ssa.Function); ok {
			ev.ssaFn = f
		}
	case *ssa.Defer:
		fnv, args := I.callee(fr, st, &x.Call)
		fr.defers = append(fr.defers, deferred{st.pc, &x.Call, fnv, args, x})
		I.event(fr, st, "defer", calleeName(&x.Call, fnv), x.Pos(), fnv, args, nil)
	case *ssa.RunDefers:
		I.runDefers(fr, st)
	case *ssa.MakeChan:
		set(x, &Opaque{nn(intern("chan", I.insID(fr, ins), 0, 0, 0, x.Type(), nil)), x.Type()})
	case *ssa.Send:
		I.event(fr, st, "send", "chan", x.Pos(), I.get(fr, st, x.Chan), []Val{I.get(fr, st, x.X)}, nil)
	case *ssa.Select:
		I.event(fr, st, "select", "select", x.Pos(), nil, nil, nil)
		set(x, symTuple(x.Type().(*types.Tuple), "select:"+I.insID(fr, ins)))
	case *ssa.SliceToArrayPointer:
		I.unsupported(fr, x.Pos(), "slice to array pointer conversion")
		set(x, symVal(x.Type(), I.insID(fr, ins), "arrptr"))
	default:
		I.unsupported(fr, ins.Pos(), "instruction %T", ins)
		if v, ok := ins.(ssa.Value); ok {
			set(v, symVal(v.Type(), I.insID(fr, ins), v.Name()))
		}
	}
}

func nn(t Term) Term { nonNilTerms[t] = true; return t }

func symTuple(t *types.Tuple, key string) *Tuple {
	r := &Tuple{}
	for i := 0; i < t.Len(); i++ {
		r.vs = append(r.vs, symVal(t.At(i).Type(), fmt.Sprintf("%s#%d", key, i), fmt.Sprintf("%s#%d", key, i)))
	}
	return r
}

func extract(tv Val, i int, t types.Type, id string) Val {
	switch y := tv.(type) {
	case *Tuple:
		if i < len(y.vs) {
			return y.vs[i]
		}
	case *IteV:
		return iteVal(y.g, extract(y.a, i, t, id), extract(y.b, i, t, id))
	}
	return symVal(t, "ext:"+id, "ext")
}

func (I *Interp) makeSlice(st *State, el types.Type, n, c Lin, id string) *Slice {
	s := &Seq{byts: isByteType(el)}
	o := newObj("arr", types.NewSlice(el), "make")
	o.site = id
	s.ps = zeros(el, n)
	st.set(o, s)
	return &Slice{obj: o, off: lk(0), n: n, cap: c, elt: el, nilG: False}
}

// zeros is n zero elements.
func zeros(el types.Type, n Lin) (ps []Piece) {
	k, ok := n.isConst()
	if ok && k <= 64 {
		for i := int64(0); i < k; i++ {
			ps = append(ps, Piece{g: True, v: zeroVal(el)})
		}
		return ps
	}
	src := intern("zeros", el.String(), 0, 0, 0, types.NewSlice(el), nil)
	return []Piece{{g: True, src: src, off: lk(0), n: n}}
}

// padTo writes out the zeros of an array's spare capacity, which the state
// leaves out as long as no slice reaches them.
func (I *Interp) padTo(st *State, s *Slice) *Seq {
	full, ok := st.heap.get(I, s.obj).(*Seq)
	if !ok {
		return nil
	}
	if s.obj.shared() || !I.capKnown(s) {
		return full
	}
	n := s.off.add(s.cap).sub(full.length())
	if entails(st.pc, n.neg()) {
		return full
	}
	full = full.concat(&Seq{byts: full.byts, ps: zeros(s.elt, n)})
	st.set(s.obj, full)
	return full
}

type rangeIter struct {
	v   Val
	typ types.Type
	id  string
	pos *Obj
}

func (I *Interp) next(fr *Frame, st *State, x *ssa.Next) Val {
	it, ok := I.get(fr, st, x.Iter).(*rangeIter)
	tt := x.Type().(*types.Tuple)
	if !ok {
		return symTuple(tt, "next:"+I.insID(fr, x))
	}
	if x.IsString {
		s := asStr(it.v).s
		if it.pos == nil {
			it.pos = newObj("cell", types.Typ[types.Int], "iter")
			st.set(it.pos, intK(0, 64, true))
		}
		p, _ := st.heap.get(I, it.pos).(*Int)
		if p == nil {
			p = intK(0, 64, true)
		}
		pl := p.asLin()
		more := mkGE(s.length().sub(pl).addK(-1))
		b := asInt(I.seqElem(s, pl, types.Typ[types.Byte], st.pc), types.Typ[types.Byte])
		// bytes below 128 are runes of length one
		r := convInt(b, 32, true, st.pc)
		if _, hi := b.asLin().rangeUnder(st.pc); hi > 127 {
			t := intern("rune", keyOf(b), 32, 0, 0x10ffff, nil, nil)
			r = intTerm(t, 32, true)
		}
		st.set(it.pos, intL(pl.addK(1), 64, true))
		return &Tuple{[]Val{Bool{more}, intL(pl, 64, true), r}}
	}
	// map iteration: an arbitrary entry
	if p, ok := it.v.(*Ptr); ok && p.obj.kind == "map" {
		if m, ok := st.heap.get(I, p.obj).(*MapV); ok && len(m.keys) > 0 {
			sel := intern("mapsel", it.id, 8, 0, int64(len(m.keys)-1), nil, nil)
			bs := intTerm(sel, 8, false).bitVec()
			nb := 0
			for 1<<uint(nb) < len(m.keys) {
				nb++
			}
			return &Tuple{[]Val{Bool{opAtom("next("+it.id+")", false)}, mux(bs[:nb], m.keys), mux(bs[:nb], m.vals)}}
		}
	}
	key := "entry(" + keyOf(it.v) + ")"
	k := symVal(tt.At(1).Type(), key+".key", "key("+show(it.v)+")")
	v := symVal(tt.At(2).Type(), key+".val", "val("+show(it.v)+")")
	return &Tuple{[]Val{Bool{opAtom("next("+it.id+")", false)}, k, v}}
}

func (I *Interp) lookup(fr *Frame, st *State, x *ssa.Lookup) Val {
	base := I.get(fr, st, x.X)
	if _, ok := base.(*IteV); ok {
		base = restrict(base, st.pc)
	}
	k := I.get(fr, st, x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
		s := asStr(base).s
		il := asInt(k, x.Index.Type()).asLin()
		I.requireGE(fr, st, x.Pos(), "index", il, "index >= 0")
		I.requireGE(fr, st, x.Pos(), "index", s.length().sub(il).addK(-1), "string index in range")
		return I.seqElem(s, il, types.Typ[types.Byte], st.pc)
	}
	et := x.X.Type().Underlying().(*types.Map).Elem()
	var v Val
	var okG Node
	if p, ok := base.(*Ptr); ok && p.obj.kind == "map" {
		if m, ok := st.heap.get(I, p.obj).(*MapV); ok {
			v = zeroVal(et)
			okG = False
			for i := range m.keys {
				g := I.valEQ(st, m.keys[i], k, x.Index.Type())
				v = iteVal(g, m.vals[i], v)
				okG = Or(okG, g)
			}
		}
	}
	if v == nil {
		key := "lookup(" + keyOf(base) + "," + keyOf(k) + ")"
		okG = opAtom("has("+key+")", false)
		own := "entry(" + keyOf(base) + ")"
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok && keyOf(k) == keyOf(symVal(mt.Key(), own+".key", "")) {
			// the key came from ranging over this map
			key, okG = own+".val", True
		}
		if !x.CommaOk {
			okG = True
		}
		sv := symVal(et, key, show(base)+"["+show(k)+"]")
		if x.CommaOk {
			v = iteVal(okG, sv, zeroVal(et))
		} else {
			v = sv
		}
	}
	if x.CommaOk {
		return &Tuple{[]Val{v, Bool{okG}}}
	}
	return v
}

func (I *Interp) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) Val {
	base := I.get(fr, st, x.X)
	idx := asInt(I.get(fr, st, x.Index), x.Index.Type())
	il := idx.asLin()
	switch x.X.Type().Underlying().(type) {
	case *types.Slice:
		return I.indexSlice(fr, st, x, base, il)
	case *types.Pointer: // *array
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		I.nilCheck(fr, st, base, x.Pos(), "index")
		I.requireGE(fr, st, x.Pos(), "index", il, "index >= 0")
		I.requireGE(fr, st, x.Pos(), "index", lk(at.Len()-1).sub(il), fmt.Sprintf("index %s < %d", il, at.Len()))
		if a := I.addr(base, pathEl{field: -1, idx: il}); a != nil {
			return a
		}
	}
	I.unsupported(fr, x.Pos(), "index address of %s", show(base))
	return &Opaque{intern("addr", keyOf(base)+"@"+il.key(), 0, 0, 0, x.Type(), nil), x.Type()}
}

func (I *Interp) indexSlice(fr *Frame, st *State, x *ssa.IndexAddr, base Val, il Lin) Val {
	if iv, ok := base.(*IteV); ok {
		a, b := st.fork(), st.fork()
		a.pc, b.pc = And(st.pc, iv.g), And(st.pc, Not(iv.g))
		if a.pc == False {
			return I.indexSlice(fr, st, x, iv.b, il)
		}
		if b.pc == False {
			return I.indexSlice(fr, st, x, iv.a, il)
		}
		pa := I.indexSlice(fr, a, x, iv.a, il)
		pb := I.indexSlice(fr, b, x, iv.b, il)
		st.pc = Or(a.pc, b.pc)
		return iteVal(iv.g, pa, pb)
	}
	s := asSlice(base, x.X.Type())
	if s == nil {
		I.unsupported(fr, x.Pos(), "index of %s", show(base))
		return &Opaque{intern("addr", keyOf(base)+"@"+il.key(), 0, 0, 0, x.Type(), nil), x.Type()}
	}
	I.requireGE(fr, st, x.Pos(), "index", il, "index >= 0: "+il.String())
	I.requireGE(fr, st, x.Pos(), "index", s.n.sub(il).addK(-1), "index "+il.String()+" < length "+s.n.String())
	if s.obj == nil {
		return &Opaque{intern("addr", "nilslice@"+il.key(), 0, 0, 0, x.Type(), nil), x.Type()}
	}
	return &Ptr{s.obj, []pathEl{{field: -1, idx: s.off.add(il)}}}
}

func (I *Interp) sliceOp(fr *Frame, st *State, x *ssa.Slice) Val {
	base := I.get(fr, st, x.X)
	var lo, hi, mx *Lin
	gi := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		l := settle(asInt(I.get(fr, st, v), v.Type()).asLin(), st.pc)
		return &l
	}
	lo, hi, mx = gi(x.Low), gi(x.High), gi(x.Max)
	return I.sliceVal(fr, st, x.X.Type(), base, x.X, lo, hi, mx, x.Pos())
}

func (I *Interp) sliceVal(fr *Frame, st *State, t types.Type, base Val, x ssa.Value, lo, hi, mx *Lin, pos token.Pos) Val {
	if iv, ok := base.(*IteV); ok {
		a, b := st.fork(), st.fork()
		a.pc, b.pc = And(st.pc, iv.g), And(st.pc, Not(iv.g))
		if a.pc == False {
			return I.sliceVal(fr, st, t, iv.b, x, lo, hi, mx, pos)
		}
		if b.pc == False {
			return I.sliceVal(fr, st, t, iv.a, x, lo, hi, mx, pos)
		}
		pa := I.sliceVal(fr, a, t, iv.a, x, lo, hi, mx, pos)
		pb := I.sliceVal(fr, b, t, iv.b, x, lo, hi, mx, pos)
		st.pc = Or(a.pc, b.pc)
		return iteVal(iv.g, pa, pb)
	}
	l := lk(0)
	if lo != nil {
		l = *lo
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := asStr(base).s
		n := s.length()
		h := n
		if hi != nil {
			h = *hi
		}
		I.sliceObl(fr, st, pos, l, h, n)
		if r, ok := s.slice(l, h.sub(l), st.pc); ok {
			return &Str{r}
		}
		src := intern("str", "sub:"+s.key()+"@"+l.key()+"+"+h.key(), 0, 0, 0, types.Typ[types.String], nil)
		return &Str{&Seq{byts: true, ps: []Piece{{g: True, src: src, off: lk(0), n: h.sub(l)}}}}
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		s := asSlice(base, t)
		if s == nil {
			I.unsupported(fr, pos, "slice of %s", show(base))
			return symVal(t, "slice:"+keyOf(base), "slice")
		}
		if s.obj != nil {
			u := *s
			u.off, u.n, u.cap = settle(s.off, st.pc), settle(s.n, st.pc), settle(s.cap, st.pc)
			s = &u
		}
		h := s.n
		if hi != nil {
			h = *hi
		}
		// bounds are checked against the capacity; where that is unknown the length is what is safe
		lim := s.cap
		if mx != nil {
			I.sliceObl(fr, st, pos, h, *mx, lim)
		}
		I.sliceObl(fr, st, pos, l, h, lim)
		c := s.cap.sub(l)
		if mx != nil {
			c = mx.sub(l)
		}
		if s.obj != nil && !entails(st.pc, s.n.sub(h)) {
			I.padTo(st, s)
		}
		return &Slice{obj: s.obj, off: s.off.add(l), n: h.sub(l), cap: c, elt: s.elt, nilG: s.nilG}
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		at, ok := p.Elem().Underlying().(*types.Array)
		if ok {
			n := lk(at.Len())
			h := n
			if hi != nil {
				h = *hi
			}
			I.nilCheck(fr, st, base, pos, "slice")
			I.sliceObl(fr, st, pos, l, h, n)
			if pp, ok := base.(*Ptr); ok && len(pp.path) == 0 {
				if al, ok := x.(*ssa.Alloc); ok && al.Comment == "makeslice" {
					// what append has not reached yet is left out
					if full, ok := st.heap.get(I, pp.obj).(*Seq); ok {
						if q, ok := full.slice(lk(0), h, st.pc); ok {
							st.set(pp.obj, q)
						}
					}
				}
				return &Slice{obj: pp.obj, off: l, n: h.sub(l), cap: n.sub(l), elt: at.Elem(), nilG: False}
			}
			I.unsupported(fr, pos, "slice of array inside %s", show(base))
		}
	}
	return symVal(t, "slice:"+keyOf(base), "slice")
}

func (I *Interp) sliceObl(fr *Frame, st *State, pos token.Pos, l, h, lim Lin) {
	I.requireGE(fr, st, pos, "slice", l, "slice start >= 0: "+l.String())
	I.requireGE(fr, st, pos, "slice", h.sub(l), "slice start "+l.String()+" <= end "+h.String())
	I.requireGE(fr, st, pos, "slice", lim.sub(h), "slice end "+h.String()+" <= limit "+lim.String())
}

func (I *Interp) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	v := I.get(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		return I.load(fr, st, v, x.Type(), x.Pos())
	case token.NOT:
		return Bool{Not(asBool(v))}
	case token.SUB:
		switch y := v.(type) {
		case *Int:
			return mkInt(y.asLin().neg(), y.w, y.sgn, st.pc)
		}
		if f := asFloat(v); f != nil {
			if f.base == nil {
				return &Float{r: new(big.Rat).Neg(f.r)}
			}
			return mkFloat(new(big.Rat).Neg(f.r), f.base, f.neg)
		}
		if iv, ok := v.(*IteV); ok {
			_ = iv
		}
		if isFloatType(x.Type()) {
			return mapIte(v, func(w Val) Val {
				if f := asFloat(w); f != nil {
					return mkFloat(new(big.Rat).Neg(f.r), f.base, f.neg)
				}
				return &Opaque{intern("neg", keyOf(w), 0, 0, 0, x.Type(), nil), x.Type()}
			})
		}
	case token.XOR:
		if y, ok := v.(*Int); ok {
			bs := y.bitVec()
			out := make([]Node, len(bs))
			for i := range bs {
				out[i] = Not(bs[i])
			}
			return intBits(out, y.sgn)
		}
	case token.ARROW:
		I.event(fr, st, "recv", "chan", x.Pos(), v, nil, nil)
		if x.CommaOk {
			return symTuple(x.Type().(*types.Tuple), "recv:"+I.insID(fr, x))
		}
		return symVal(x.Type(), "recv:"+I.insID(fr, x), "recv")
	}
	return symVal(x.Type(), fmt.Sprintf("unop%s:%s", x.Op, keyOf(v)), x.Op.String()+show(v))
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func mapIte(v Val, f func(Val) Val) Val {
	if x, ok := v.(*IteV); ok {
		return iteVal(x.g, mapIte(x.a, f), mapIte(x.b, f))
	}
	return f(v)
}

func asFloat(v Val) *Float {
	switch x := v.(type) {
	case *Float:
		return x
	case *Opaque:
		if x.typ != nil && isFloatType(x.typ) {
			return &Float{r: big.NewRat(1, 1), base: x}
		}
	}
	return nil
}

func (I *Interp) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	a, b := I.get(fr, st, x.X), I.get(fr, st, x.Y)
	return I.binopVal(fr, st, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
}

func (I *Interp) binopVal(fr *Frame, st *State, op token.Token, a, b Val, ta, tb, tr types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return Bool{I.valEQ(st, a, b, ta)}
	case token.NEQ:
		return Bool{Not(I.valEQ(st, a, b, ta))}
	}
	bt, _ := ta.Underlying().(*types.Basic)
	if bt == nil {
		return symVal(tr, fmt.Sprintf("op%s:%s,%s", op, keyOf(a), keyOf(b)), "op")
	}
	switch {
	case bt.Info()&types.IsInteger != 0:
		p := asInt(a, ta)
		q := asInt(b, tb)
		return I.intOp(fr, st, op, p, q, tr, pos)
	case bt.Info()&types.IsString != 0:
		p, q := asStr(a), asStr(b)
		if op == token.ADD {
			return &Str{p.s.concat(q.s)}
		}
		return Bool{opAtom(fmt.Sprintf("str%s(%s,%s)", op, p.s.key(), q.s.key()), false)}
	case bt.Info()&types.IsFloat != 0:
		return I.floatOp(op, a, b, tr)
	case bt.Info()&types.IsBoolean != 0:
		p, q := asBool(a), asBool(b)
		switch op {
		case token.AND, token.LAND:
			return Bool{And(p, q)}
		case token.OR, token.LOR:
			return Bool{Or(p, q)}
		}
	}
	return symVal(tr, fmt.Sprintf("op%s:%s,%s", op, keyOf(a), keyOf(b)), "op")
}

func (I *Interp) floatOp(op token.Token, a, b Val, tr types.Type) Val {
	if x, ok := a.(*IteV); ok {
		return iteVal(x.g, I.floatOp(op, x.a, b, tr), I.floatOp(op, x.b, b, tr))
	}
	if x, ok := b.(*IteV); ok {
		return iteVal(x.g, I.floatOp(op, a, x.a, tr), I.floatOp(op, a, x.b, tr))
	}
	p, q := asFloat(a), asFloat(b)
	if p != nil && q != nil {
		switch op {
		case token.MUL:
			if p.base == nil || q.base == nil {
				base := p.base
				if base == nil {
					base = q.base
				}
				return mkFloat(new(big.Rat).Mul(p.r, q.r), base, Xor(p.neg, q.neg))
			}
		case token.QUO:
			if q.base == nil && q.r.Sign() != 0 {
				return mkFloat(new(big.Rat).Quo(p.r, q.r), p.base, Xor(p.neg, q.neg))
			}
		case token.ADD, token.SUB:
			if p.base == nil && q.base == nil {
				if op == token.ADD {
					return &Float{r: new(big.Rat).Add(p.r, q.r)}
				}
				return &Float{r: new(big.Rat).Sub(p.r, q.r)}
			}
			if q.base == nil && q.r.Sign() == 0 {
				return p
			}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if p.base == nil && q.base != nil {
				p, q = q, p
				op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
				a, b = b, a
			}
			if q.base == nil && q.r.Sign() == 0 && p.base != nil {
				// sign test of r*base
				neg := opAtom("neg("+keyOf(p.base)+")", false)
				zero := opAtom("zero("+keyOf(p.base)+")", false)
				neg = And(neg, Not(zero))
				if p.r.Sign() < 0 {
					neg = AndN(Not(neg), Not(zero))
				}
				neg = Xor(neg, And(p.neg, Not(zero)))
				switch op {
				case token.LSS:
					return Bool{neg}
				case token.LEQ:
					return Bool{Or(neg, zero)}
				case token.GTR:
					return Bool{AndN(Not(neg), Not(zero))}
				default:
					return Bool{Or(Not(neg), zero)}
				}
			}
		}
	}
	if b, ok := tr.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return Bool{opAtom(fmt.Sprintf("flt%s(%s,%s)", op, keyOf(a), keyOf(b)), false)}
	}
	return &Float{r: big.NewRat(1, 1), base: &Opaque{intern("fop", fmt.Sprintf("%s(%s,%s)", op, keyOf(a), keyOf(b)), 0, 0, 0, tr, nil), tr}}
}

func (I *Interp) intOp(fr *Frame, st *State, op token.Token, p, q *Int, tr types.Type, pos token.Pos) Val {
	w, sgn := p.w, p.sgn
	pc := st.pc
	opq := func(name string) Val {
		lo, hi := typeRange(w, sgn)
		return intTerm(intern("iop", fmt.Sprintf("%s(%s,%s)", name, keyOf(p), keyOf(q)), w, lo, hi, nil, nil), w, sgn)
	}
	qc, qk := q.constant()
	pcn, pk := p.constant()
	switch op {
	case token.ADD:
		return mkInt(p.asLin().add(q.asLin()), w, sgn, pc)
	case token.SUB:
		return mkInt(p.asLin().sub(q.asLin()), w, sgn, pc)
	case token.MUL:
		if qk {
			return mkInt(p.asLin().scale(qc), w, sgn, pc)
		}
		if pk {
			return mkInt(q.asLin().scale(pcn), w, sgn, pc)
		}
		return opq("mul")
	case token.QUO, token.REM:
		if !qk {
			I.require(fr, st, pos, "div", Not(intEQ(q, intK(0, q.w, q.sgn))), "division by "+show(q))
			return opq(op.String())
		}
		if qc == 0 {
			I.require(fr, st, pos, "div", False, "division by zero")
			return opq(op.String())
		}
		if qc < 0 {
			return opq(op.String())
		}
		l := p.asLin()
		if !sgn || entails(pc, l) {
			if op == token.REM && qc&(qc-1) == 0 && (p.bits != nil || structuralBits(l)) {
				bs := p.bitVec()
				out := make([]Node, w)
				for i := range out {
					if int64(1)<<uint(i) < qc {
						out[i] = bs[i]
					} else {
						out[i] = False
					}
				}
				return intBits(out, sgn)
			}
			if op == token.QUO && qc&(qc-1) == 0 && (p.bits != nil || structuralBits(l)) {
				n := 0
				for 1<<uint(n) < qc {
					n++
				}
				return shiftInt(p, n, false)
			}
			d, _ := divLin(l, qc, pc)
			if op == token.QUO {
				return intL(d, w, sgn)
			}
			return intL(l.sub(d.scale(qc)), w, sgn)
		}
		if pk {
			if op == token.QUO {
				return intK(pcn/qc, w, sgn)
			}
			return intK(pcn%qc, w, sgn)
		}
		return opq(op.String())
	case token.SHL, token.SHR:
		if q.sgn {
			if !qk || qc < 0 {
				I.requireGE(fr, st, pos, "shift", q.asLin(), "shift count >= 0")
			}
		}
		if qk {
			n := int(qc)
			if qc >= int64(w) {
				n = w
			}
			if op == token.SHL && p.l != nil && !structuralBits(*p.l) && n < 62 {
				return mkInt(p.l.scale(1<<uint(n)), w, sgn, pc)
			}
			if op == token.SHR && p.l != nil && !structuralBits(*p.l) && n < 62 {
				if d, ok := divLin(*p.l, 1<<uint(n), pc); ok {
					return intL(d, w, sgn)
				}
			}
			return shiftInt(p, n, op == token.SHL)
		}
		// symbolic count with few bits
		if lo, hi := q.asLin().rangeUnder(pc); lo >= 0 && hi < 64 && (p.bits != nil || structuralBits(p.asLin())) {
			bs := q.bitVec()
			cur := Val(p)
			for i := 0; i < 6 && i < len(bs); i++ {
				if bs[i] == False {
					continue
				}
				cur = iteVal(bs[i], shiftInt(cur.(*Int), 1<<uint(i), op == token.SHL), cur)
			}
			return cur
		}
		return opq(op.String())
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if pk && qk {
			var r int64
			switch op {
			case token.AND:
				r = pcn & qc
			case token.OR:
				r = pcn | qc
			case token.XOR:
				r = pcn ^ qc
			default:
				r = pcn &^ qc
			}
			return intK(r, w, sgn)
		}
		m := map[token.Token]string{token.AND: "&", token.OR: "|", token.XOR: "^", token.AND_NOT: "&^"}
		return bitwise(m[op], p, q)
	case token.LSS:
		return Bool{Not(intGE(p, q))}
	case token.GEQ:
		return Bool{intGE(p, q)}
	case token.GTR:
		return Bool{Not(intGE(q, p))}
	case token.LEQ:
		return Bool{intGE(q, p)}
	}
	return symVal(tr, "iop:"+op.String(), "iop")
}

// valEQ is the guard under which two values of type t are equal.
func (I *Interp) valEQ(st *State, a, b Val, t types.Type) Node {
	if x, ok := a.(*IteV); ok {
		return Ite(x.g, I.valEQ(st, x.a, b, t), I.valEQ(st, x.b, b, t))
	}
	if x, ok := b.(*IteV); ok {
		return Ite(x.g, I.valEQ(st, a, x.a, t), I.valEQ(st, a, x.b, t))
	}
	if _, ok := b.(NilV); ok {
		return isNil(a)
	}
	if _, ok := a.(NilV); ok {
		return isNil(b)
	}
	if s, ok := b.(*Slice); ok && s.obj == nil {
		return isNil(a)
	}
	if s, ok := a.(*Slice); ok && s.obj == nil {
		return isNil(b)
	}
	switch x := a.(type) {
	case *Int:
		if y, ok := b.(*Int); ok {
			return intEQ(x, y)
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			return Not(Xor(x.n, y.n))
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return seqEQ(gatedUnder(x.s, st.pc), gatedUnder(y.s, st.pc))
		}
	case *Float:
		if y, ok := b.(*Float); ok {
			if x.base == nil && y.base == nil {
				if x.r.Cmp(y.r) == 0 {
					return True
				}
				return False
			}
			if y.base == nil && y.r.Sign() == 0 {
				return opAtom("zero("+keyOf(x.base)+")", false)
			}
		}
	case *Iface:
		if y, ok := b.(*Iface); ok {
			if !types.Identical(x.typ, y.typ) {
				return False
			}
			return I.valEQ(st, x.v, y.v, x.typ)
		}
		if y, ok := b.(*ErrV); ok {
			return I.errEQ(keyOf(a), keyOf(y))
		}
	case *Ptr:
		if y, ok := b.(*Ptr); ok {
			if keyOf(x) == keyOf(y) {
				return True
			}
			if x.obj != y.obj {
				return False
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			r := True
			for i := range x.f {
				r = And(r, I.valEQ(st, x.f[i], y.f[i], x.typ.Field(i).Type()))
			}
			return r
		}
	case *ErrV:
		if keyOf(a) == keyOf(b) {
			return True
		}
		if _, ok := b.(*ErrV); ok {
			return False
		}
		return I.errEQ(keyOf(a), keyOf(b))
	}
	if keyOf(a) == keyOf(b) {
		return True
	}
	k1, k2 := keyOf(a), keyOf(b)
	return I.errEQ(k1, k2)
}

func (I *Interp) errEQ(k1, k2 string) Node {
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return opAtom("eq("+k1+","+k2+")", false)
}

func (I *Interp) convert(fr *Frame, st *State, from, to types.Type, v Val, ins ssa.Instruction) Val {
	if x, ok := v.(*IteV); ok {
		return iteVal(x.g, I.convert(fr, st, from, to, x.a, ins), I.convert(fr, st, from, to, x.b, ins))
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if tb != nil && tb.Info()&types.IsInteger != 0 {
		w, sgn := intType(to)
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			r := convInt(asInt(v, from), w, sgn, st.pc)
			return r
		}
		if fb != nil && fb.Info()&types.IsFloat != 0 {
			return floatToInt(asFloat(v), w, sgn, st.pc, keyOf(v))
		}
	}
	if tb != nil && tb.Info()&types.IsFloat != 0 {
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			iv := asInt(v, from)
			if c, ok := iv.constant(); ok {
				return &Float{r: new(big.Rat).SetInt64(c)}
			}
			if tb.Kind() == types.Float32 {
				return &Float{r: big.NewRat(1, 1), base: &Opaque{intern("f32", keyOf(iv), 0, 0, 0, to, nil), to}}
			}
			return &Float{r: big.NewRat(1, 1), base: intL(iv.asLin(), 64, true)}
		}
		if f := asFloat(v); f != nil {
			if tb.Kind() == types.Float32 && fb.Kind() == types.Float64 {
				return &Float{r: big.NewRat(1, 1), base: &Opaque{intern("f32", keyOf(v), 0, 0, 0, to, nil), to}}
			}
			return f
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if _, ok := from.Underlying().(*types.Slice); ok {
			s, _ := I.contentAny(st, v, from)
			return &Str{s}
		}
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			iv := asInt(v, from)
			if c, ok := iv.constant(); ok {
				return strK(string(rune(c)))
			}
			l := iv.asLin()
			if lo, hi := l.rangeUnder(st.pc); lo >= 0 && hi < 128 {
				return &Str{seqOf(convInt(iv, 8, false, st.pc))}
			}
			return symStr("runestr:"+keyOf(iv), "string(rune)")
		}
	}
	if ts, ok := to.Underlying().(*types.Slice); ok {
		if fb != nil && fb.Info()&types.IsString != 0 {
			s := asStr(v).s
			if !isByteType(ts.Elem()) {
				return symSlice(to, "runes:"+s.key(), "runes")
			}
			return I.newArr(st, ts.Elem(), s, "[]byte(string)")
		}
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return symVal(to, "conv:"+to.String()+keyOf(v), "conv("+show(v)+")")
}

func floatToInt(f *Float, w int, sgn bool, pc Node, key string) Val {
	if f != nil {
		if f.base == nil {
			q := new(big.Int).Quo(f.r.Num(), f.r.Denom())
			return intK(q.Int64(), w, sgn)
		}
		if iv, ok := f.base.(*Int); ok && f.neg == False && f.r.Sign() > 0 && f.r.Num().IsInt64() && f.r.Denom().IsInt64() {
			l := iv.asLin().scale(f.r.Num().Int64())
			if entails(pc, l) {
				d, _ := divLin(l, f.r.Denom().Int64(), pc)
				return convInt(intL(d, 64, true), w, sgn, pc)
			}
		}
	}
	lo, hi := typeRange(w, sgn)
	return intTerm(intern("trunc", fmt.Sprintf("%v%d:%s", sgn, w, key), w, lo, hi, nil, f), w, sgn)
}

func (I *Interp) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) Val {
	v := I.get(fr, st, x.X)
	g, r := I.assertTo(st, v, x.AssertedType)
	g = I.simplify(st.pc, g)
	if x.CommaOk {
		return &Tuple{[]Val{iteVal(g, r, zeroVal(x.AssertedType)), Bool{g}}}
	}
	I.require(fr, st, x.Pos(), "assert", g, fmt.Sprintf("type assertion %s.(%s)", show(v), types.TypeString(x.AssertedType, shortQ)))
	return r
}

func (I *Interp) assertTo(st *State, v Val, t types.Type) (Node, Val) {
	switch x := v.(type) {
	case *IteV:
		g1, r1 := I.assertTo(st, x.a, t)
		g2, r2 := I.assertTo(st, x.b, t)
		g := Ite(x.g, g1, g2)
		if And(x.g, g1) == False {
			return g, r2
		}
		if And(Not(x.g), g2) == False {
			return g, r1
		}
		return g, iteVal(x.g, r1, r2)
	case NilV:
		return False, zeroVal(t)
	case *Iface:
		if types.IsInterface(t) {
			if types.Implements(x.typ, t.Underlying().(*types.Interface)) {
				return True, x
			}
			return False, zeroVal(t)
		}
		if types.Identical(x.typ, t) {
			return True, x.v
		}
		return False, zeroVal(t)
	case *Opaque:
		if types.IsInterface(t) {
			if x.typ != nil && types.IsInterface(x.typ) && types.Implements(x.typ, t.Underlying().(*types.Interface)) {
				return Not(isNil(x)), x
			}
			return And(Not(isNil(x)), opAtom("impl("+termTab[x.t].key+","+t.String()+")", false)), x
		}
		g := typeIs(x, t)
		key := termTab[x.t].key + ".(" + types.TypeString(t, shortQ) + ")"
		r := symVal(t, key, termString(x.t)+".("+types.TypeString(t, shortQ)+")")
		if o, ok := r.(*Opaque); ok {
			nonNilTerms[o.t] = true
		}
		return g, r
	case *ErrV:
		if types.IsInterface(t) && !isErrorType(t) || !types.IsInterface(t) {
			key := fmt.Sprintf("err%d.(%s)", x.t, t)
			r := symVal(t, key, key)
			if o, ok := r.(*Opaque); ok {
				nonNilTerms[o.t] = true
			}
			return opAtom("is("+key+")", false), r
		}
		return True, x
	}
	return opAtom("assert("+keyOf(v)+","+t.String()+")", false), symVal(t, "assert:"+keyOf(v)+t.String(), "assert")
}

// ---------------------------------------------------------------- calls

func calleeName(c *ssa.CallCommon, fnv Val) string {
	if c.IsInvoke() {
		return types.TypeString(c.Value.Type(), nil) + "." + c.Method.Name()
	}
	switch f := fnv.(type) {
	case *ssa.Function:
		return f.String()
	case *Closure:
		return f.fn.String()
	case *BuiltinV:
		return "builtin." + f.name
	}
	return "dynamic"
}

func (I *Interp) callee(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, I.get(fr, st, c.Value))
		for _, a := range c.Args {
			args = append(args, I.get(fr, st, a))
		}
		return &invokeV{c.Method, c.Value.Type()}, args
	}
	for _, a := range c.Args {
		args = append(args, I.get(fr, st, a))
	}
	return I.get(fr, st, c.Value), args
}

type invokeV struct {
	m   *types.Func
	typ types.Type
}

func (I *Interp) call(fr *Frame, st *State, ins ssa.CallInstruction, c *ssa.CallCommon) Val {
	fnv, args := I.callee(fr, st, c)
	return I.apply(fr, st, fnv, args, c, ins.Pos(), I.insID(fr, ins), resType(c))
}

func resType(c *ssa.CallCommon) *types.Tuple { return c.Signature().Results() }

// split runs f under the two sides of a guard and joins the results.
func (I *Interp) split(st *State, g Node, fa, fb func(*State) Val) Val {
	a, b := st.fork(), st.fork()
	a.pc, b.pc = And(st.pc, g), And(st.pc, Not(g))
	if a.pc == False {
		return fb(st)
	}
	if b.pc == False {
		return fa(st)
	}
	va := fa(a)
	vb := fb(b)
	if a.pc == False {
		*st = *b
		return vb
	}
	if b.pc == False {
		*st = *a
		return va
	}
	care := Or(a.pc, b.pc)
	mg := minimizeGuard(a.pc, care, gateRank)
	*st = *I.mergeStates(b, a, mg)
	if va == nil {
		return vb
	}
	return iteVal(mg, va, vb)
}

func packRes(res []Val, sig *types.Tuple) Val {
	if sig.Len() == 0 {
		return nil
	}
	if sig.Len() == 1 {
		if len(res) > 0 {
			return res[0]
		}
		return nil
	}
	return &Tuple{res}
}

func (I *Interp) apply(fr *Frame, st *State, fnv Val, args []Val, c *ssa.CallCommon, pos token.Pos, id string, rt *types.Tuple) Val {
	switch f := fnv.(type) {
	case *IteV:
		return I.split(st, f.g,
			func(s *State) Val { return I.apply(fr, s, f.a, args, c, pos, id, rt) },
			func(s *State) Val { return I.apply(fr, s, f.b, args, c, pos, id, rt) })
	case *BuiltinV:
		return I.builtin(fr, st, f.name, args, c, pos, id)
	case *Closure:
		return I.callBody(fr, st, f.fn, args, f.bs, pos, id, rt)
	case *ssa.Function:
		return I.callStatic(fr, st, f, args, pos, id, rt)
	case *invokeV:
		return I.invoke(fr, st, f, args, c, pos, id, rt)
	case NilV:
		I.require(fr, st, pos, "nil", False, "call of nil function")
		return symRes(rt, "call:"+id)
	}
	// an unknown function value
	if n := isNil(fnv); n != False {
		I.require(fr, st, pos, "nil", Not(n), "call of function value "+show(fnv))
	}
	return I.unknownCall(fr, st, "dyncall", "dynamic:"+show(fnv), fnv, args, pos, id, rt)
}

func symRes(rt *types.Tuple, key string) Val {
	if rt.Len() == 0 {
		return nil
	}
	if rt.Len() == 1 {
		return symRes1(rt.At(0).Type(), key)
	}
	t := &Tuple{}
	for i := 0; i < rt.Len(); i++ {
		t.vs = append(t.vs, symRes1(rt.At(i).Type(), fmt.Sprintf("%s#%d", key, i)))
	}
	return t
}

func symRes1(t types.Type, key string) Val {
	if isErrorType(t) {
		x := intern("obj", key, 0, 0, 0, t, nil)
		errTerms[x] = true
		return &Opaque{x, t}
	}
	return symVal(t, key, key)
}

// unknownCall: an effect outside the analysed code; memory it can reach is forgotten.
func (I *Interp) unknownCall(fr *Frame, st *State, kind, name string, recv Val, args []Val, pos token.Pos, id string, rt *types.Tuple) Val {
	res := symRes(rt, "call:"+id)
	ev := I.event(fr, st, kind, name, pos, recv, args, res)
	ev.ctx = id
	if name != "(net.Conn).Write" && name != "(io.Writer).Write" { // a Writer must not change what it is given
		for i, a := range args {
			I.havocReach(fr, st, a, fmt.Sprintf("%s/arg%d", id, i), pos)
		}
	}
	if fr2, n := errOf(res, rt); n {
		I.fall(fr, st, pos, name, Not(isNil(fr2)))
	}
	return res
}

// errOf gives the error among the results.
func errOf(res Val, rt *types.Tuple) (Val, bool) {
	for i := rt.Len() - 1; i >= 0; i-- {
		if isErrorType(rt.At(i).Type()) {
			if rt.Len() == 1 {
				return res, true
			}
			if t, ok := res.(*Tuple); ok {
				return t.vs[i], true
			}
		}
	}
	return nil, false
}

// havocReach forgets objects reachable through a mutable reference.
func (I *Interp) havocReach(fr *Frame, st *State, v Val, key string, pos token.Pos) {
	switch x := v.(type) {
	case *Ptr:
		if x.obj.kind == "global" {
			I.event(fr, st, "write", x.obj.name, pos, x, nil, nil)
			return
		}
		if x.obj.kind == "map" {
			st.set(x.obj, &Opaque{intern("map", "havoc:"+key, 0, 0, 0, x.obj.typ, nil), x.obj.typ})
			return
		}
		if len(x.path) == 0 {
			if _, ok := I.havocked[x.obj]; !ok {
				I.havocked[x.obj] = key
			}
			st.set(x.obj, symVal(x.obj.typ, "havoc:"+key, "after("+key+")"))
		} else {
			old := I.navLoad(st.heap.get(I, x.obj), x.path, x.obj.typ, st.pc)
			t := typeAtPath(x.obj.typ, x.path)
			_ = old
			if nv, ok := I.navStore(st.heap.get(I, x.obj), x.path, symVal(t, "havoc:"+key, "after("+key+")"), x.obj.typ, st.pc); ok {
				st.set(x.obj, nv)
			}
		}
		if x.obj.shared() {
			I.event(fr, st, "write", x.obj.name, pos, x, nil, nil)
		}
	case *Slice:
		if x.obj != nil {
			src := intern("list", "havoc:"+key, 0, 0, 0, types.NewSlice(x.elt), nil)
			if s, ok := st.heap.get(I, x.obj).(*Seq); ok {
				pre, ok1 := s.slice(lk(0), x.off, st.pc)
				post, ok2 := s.slice(x.off.add(x.n), s.length().sub(x.off).sub(x.n), st.pc)
				if ok1 && ok2 {
					n := &Seq{byts: s.byts}
					n.ps = append(n.ps, pre.ps...)
					n.ps = append(n.ps, segSeq(src, lk(0), x.n, s.byts, x.elt).ps...)
					n.ps = append(n.ps, post.ps...)
					st.set(x.obj, n)
				} else {
					st.set(x.obj, &Seq{byts: s.byts, ps: []Piece{{g: True, src: src, off: lk(0), n: s.length()}}})
				}
			}
			if x.obj.shared() {
				I.event(fr, st, "write", x.obj.name, pos, x, nil, nil)
			}
		}
	case *Iface:
		I.havocReach(fr, st, x.v, key, pos)
	case *IteV:
		I.havocReach(fr, st, x.a, key+"a", pos)
		I.havocReach(fr, st, x.b, key+"b", pos)
	case *Closure:
		for i, b := range x.bs {
			I.havocReach(fr, st, b, fmt.Sprintf("%s.b%d", key, i), pos)
		}
	}
}

func typeAtPath(t types.Type, path []pathEl) types.Type {
	for _, p := range path {
		if p.field >= 0 {
			t = t.Underlying().(*types.Struct).Field(p.field).Type()
		} else {
			t = elemType(t)
		}
	}
	return t
}

func (I *Interp) inStack(fn *ssa.Function) bool {
	for _, f := range I.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p != nil && (p.Path() == modulePath || strings.HasPrefix(p.Path(), modulePath+"/"))
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkg(o)
	}
	return nil
}

func (I *Interp) callStatic(fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos, id string, rt *types.Tuple) Val {
	if inRepo(fn) && I.opaqueFn(fn) {
		return I.opaqueCall(fr, st, fn, args, pos, id, rt)
	}
	if !inRepo(fn) {
		// bound method wrappers and thunks of library methods
		if v, ok := I.model(fr, st, fn.String(), fn, args, pos, id, rt); ok {
			return v
		}
		if fn.Synthetic != "" && len(fn.Blocks) > 0 && !I.inStack(fn) {
			return I.callBody(fr, st, fn, args, nil, pos, id, rt)
		}
		return I.unknownCall(fr, st, "call", fn.String(), nil, args, pos, id, rt)
	}
	return I.callBody(fr, st, fn, args, nil, pos, id, rt)
}

func (I *Interp) callBody(fr *Frame, st *State, fn *ssa.Function, args, binds []Val, pos token.Pos, id string, rt *types.Tuple) Val {
	if I.opaqueFn(fn) && inRepo(fn) {
		return I.opaqueCall(fr, st, fn, args, pos, id, rt)
	}
	if !inRepo(fn) && fn.Synthetic == "" {
		return I.callStatic(fr, st, fn, args, pos, id, rt)
	}
	if len(I.stack) > maxDepth || I.inStack(fn) {
		I.event(fr, st, "recursion", fn.String(), pos, nil, args, nil)
		I.unsupported(fr, pos, "recursive call of %s", fn)
		return I.unknownCall(fr, st, "call", fn.String(), nil, args, pos, id, rt)
	}
	cst := st.fork()
	lv := st.lv
	res, out := I.callFn(fn, args, binds, cst, id+"/")
	*st = *out
	st.lv = lv
	r := packRes(res, rt)
	if e, ok := errOf(r, rt); ok && fr != nil {
		I.fall(fr, st, pos, fn.String(), Not(isNil(e)))
	}
	return r
}

// opaqueCall: a repository function analysed separately.
func (I *Interp) opaqueCall(fr *Frame, st *State, fn *ssa.Function, args []Val, pos token.Pos, id string, rt *types.Tuple) Val {
	return I.opaqueMethod(fr, st, fn.String(), fn, args, pos, id, rt)
}

func (I *Interp) opaqueMethod(fr *Frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos, id string, rt *types.Tuple) Val {
	res := symRes(rt, "call:"+id)
	ev := I.event(fr, st, "api", name, pos, nil, args, res)
	ev.ssaFn = fn
	ev.ctx = id
	if len(args) > 0 {
		ev.recv = args[0]
	}
	if I.contract != nil && I.contract(ev, st) {
		res = ev.res
	} else {
		for i, a := range args {
			I.havocReach(fr, st, a, fmt.Sprintf("%s/arg%d", id, i), pos)
		}
	}
	if e, ok := errOf(res, rt); ok {
		I.fall(fr, st, pos, name, Not(isNil(e)))
	}
	return res
}

func (I *Interp) invoke(fr *Frame, st *State, m *invokeV, args []Val, c *ssa.CallCommon, pos token.Pos, id string, rt *types.Tuple) Val {
	recv := args[0]
	if n := isNil(recv); n != False {
		I.require(fr, st, pos, "nil", Not(n), "method call "+m.m.Name()+" on "+show(recv))
		if st.pc == False {
			return symRes(rt, "call:"+id)
		}
	}
	if I.opaqueInvoke(m, recv) {
		return I.opaqueMethod(fr, st, "("+types.TypeString(m.typ, nil)+")."+m.m.Name(), nil, args, pos, id, rt)
	}
	switch x := recv.(type) {
	case *IteV:
		return I.split(st, x.g,
			func(s *State) Val {
				return I.invoke(fr, s, m, append([]Val{x.a}, args[1:]...), c, pos, id, rt)
			},
			func(s *State) Val {
				return I.invoke(fr, s, m, append([]Val{x.b}, args[1:]...), c, pos, id, rt)
			})
	case *Iface:
		fn := I.prog.LookupMethod(x.typ, m.m.Pkg(), m.m.Name())
		if fn != nil {
			nargs := append([]Val{x.v}, args[1:]...)
			if _, isPtr := x.typ.Underlying().(*types.Pointer); isPtr && fn.Synthetic != "" && fn.Object() != nil {
				// promoted or wrapper: follow the body
			}
			return I.callStatic(fr, st, fn, nargs, pos, id, rt)
		}
	case NilV:
		return symRes(rt, "call:"+id)
	}
	name := "(" + types.TypeString(m.typ, nil) + ")." + m.m.Name()
	if v, ok := I.model(fr, st, name, nil, args, pos, id, rt); ok {
		return v
	}
	return I.unknownCall(fr, st, "invoke", name, recv, args[1:], pos, id, rt)
}

var opaqueIfaceMethods map[string]bool

func (I *Interp) opaqueInvoke(m *invokeV, recv Val) bool {
	switch recv.(type) {
	case *IteV, *Iface, NilV:
		return false
	}
	n, ok := m.typ.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
		return false
	}
	return opaqueIfaceMethods[n.Obj().Name()+"."+m.m.Name()]
}

func (I *Interp) runDefers(fr *Frame, st *State) {
	if fr.inDef {
		return
	}
	fr.inDef = true
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		id := I.insID(fr, d.ins) + "d"
		g := minimizeGuard(And(d.g, st.pc), st.pc, gateRank)
		I.split(st, g, func(s *State) Val {
			return I.apply(fr, s, d.fn, d.args, d.call, d.ins.Pos(), id, resType(d.call))
		}, func(s *State) Val { return nil })
	}
	fr.inDef = false
}

func (I *Interp) builtin(fr *Frame, st *State, name string, args []Val, c *ssa.CallCommon, pos token.Pos, id string) Val {
	switch name {
	case "len", "cap":
		return mapIte(args[0], func(v Val) Val {
			switch x := v.(type) {
			case *Str:
				return intL(x.s.length(), 64, true)
			case *Slice:
				if name == "cap" {
					return intL(x.cap, 64, true)
				}
				return intL(x.n, 64, true)
			case *Seq:
				return intL(x.length(), 64, true)
			case NilV:
				return intK(0, 64, true)
			case *Ptr:
				if x.obj.kind == "map" {
					if m, ok := st.heap.get(I, x.obj).(*MapV); ok {
						return intK(int64(len(m.keys)), 64, true)
					}
				}
			}
			t := c.Args[0].Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return intK(a.Len(), 64, true)
				}
			}
			if _, ok := t.Underlying().(*types.Slice); ok {
				if s := asSlice(v, t); s != nil {
					return intL(s.n, 64, true)
				}
			}
			if _, ok := t.Underlying().(*types.Basic); ok {
				return intL(asStr(v).s.length(), 64, true)
			}
			return intTerm(intern("len", "len("+keyOf(v)+")", 64, 0, 1<<40, nil, nil), 64, true)
		})
	case "append":
		return I.appendOp(fr, st, args[0], args[1], c.Args[0].Type(), c.Args[1].Type(), pos, id)
	case "copy":
		return I.copyOp(fr, st, args[0], args[1], c.Args[0].Type(), c.Args[1].Type(), pos, id)
	case "panic":
		I.obls = append(I.obls, &Obl{"panic", fr.fn.String(), "explicit panic", pos, false, st.pc, I.loopStkCopy()})
		st.pc = False
		return nil
	case "recover":
		return NilV{types.NewInterfaceType(nil, nil)}
	case "print", "println":
		return nil
	case "close":
		I.event(fr, st, "closechan", "close", pos, args[0], nil, nil)
		return nil
	case "delete", "clear":
		I.event(fr, st, "write", "map "+show(args[0]), pos, args[0], args[1:], nil)
		return nil
	case "min", "max":
		r := asInt(args[0], c.Args[0].Type())
		for i := range args[1:] {
			y := asInt(args[1+i], c.Args[1+i].Type())
			g := intGE(r, y)
			if name == "min" {
				g = Not(g)
			}
			r = iteVal(g, r, y).(*Int)
		}
		return r
	case "ssa:wrapnilchk":
		I.nilCheck(fr, st, args[0], pos, "method value")
		return args[0]
	}
	I.unsupported(fr, pos, "builtin %s", name)
	return symRes(c.Signature().Results(), "call:"+id)
}

func (I *Interp) appendOp(fr *Frame, st *State, a, b Val, ta, tb types.Type, pos token.Pos, id string) Val {
	if x, ok := a.(*IteV); ok {
		if r, ok := I.appendMerged(st, x, b, ta, tb, id); ok {
			return r
		}
		return I.split(st, x.g,
			func(s *State) Val { return I.appendOp(fr, s, x.a, b, ta, tb, pos, id) },
			func(s *State) Val { return I.appendOp(fr, s, x.b, b, ta, tb, pos, id) })
	}
	add, addN := I.contentAny(st, b, tb)
	s := asSlice(a, ta)
	if s == nil {
		I.unsupported(fr, pos, "append to %s", show(a))
		return symVal(ta, "append:"+id, "append")
	}
	if isZeroUnder(addN, st.pc) && s.obj == nil {
		return s
	}
	cur := I.content(st, s)
	// in-place growth into spare capacity
	spare := s.cap.sub(s.n)
	if s.obj != nil && !isZeroUnder(spare, st.pc) {
		if entails(st.pc, spare.sub(addN)) {
			if s.obj.shared() || I.capKnown(s) {
				if s.obj.shared() {
					I.event(fr, st, "write", s.obj.name, pos, &Slice{obj: s.obj, off: s.off.add(s.n), n: addN, cap: addN, elt: s.elt}, nil, nil)
				}
				if full, ok := st.heap.get(I, s.obj).(*Seq); ok {
					if end := s.off.add(s.n); !s.obj.shared() && linEqUnder(full.length(), end, st.pc) {
						st.set(s.obj, full.concat(add))
						return &Slice{obj: s.obj, off: s.off, n: s.n.add(addN), cap: s.cap, elt: s.elt, nilG: False}
					} else if !entails(st.pc, full.length().sub(end).sub(addN)) {
						full = I.padTo(st, s)
					}
					pre, ok1 := full.slice(lk(0), s.off.add(s.n), st.pc)
					post, ok2 := full.slice(s.off.add(s.n).add(addN), full.length().sub(s.off).sub(s.n).sub(addN), st.pc)
					if ok1 && ok2 {
						n := &Seq{byts: full.byts}
						n.ps = append(append(append(n.ps, pre.ps...), add.ps...), post.ps...)
						st.set(s.obj, n)
						return &Slice{obj: s.obj, off: s.off, n: s.n.add(addN), cap: s.cap, elt: s.elt, nilG: False}
					}
				}
			}
		} else if s.obj.shared() {
			I.event(fr, st, "write", s.obj.name, pos, &Slice{obj: s.obj, off: s.off.add(s.n), n: addN, cap: addN, elt: s.elt}, nil, nil)
		}
	}
	n := cur.concat(add)
	r := I.newArr(st, s.elt, n, "append")
	r.obj.site = id
	// the capacity after growing is not specified
	ct := intern("cap", "cap:"+id, 64, 0, 1<<40, nil, nil)
	r.cap = r.n.add(lt(ct))
	if isZeroUnder(addN, st.pc) {
		r.nilG = s.nilG
	} else if s.nilG != False {
		r.nilG = And(s.nilG, mkEQ(addN))
	}
	return r
}

// appendMerged appends to one of several slices none of which has capacity the
// program could count on: the result is a new array with the chosen content.
func (I *Interp) appendMerged(st *State, a *IteV, b Val, ta, tb types.Type, id string) (Val, bool) {
	sl, ok := ta.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	nilG := False
	for _, x := range alternatives(a, st.pc) {
		s := asSlice(x.v, ta)
		if s == nil || s.obj != nil && (s.obj.shared() || I.capKnown(s) && !isZeroUnder(s.cap.sub(s.n), x.g)) {
			return nil, false
		}
		if s.obj == nil {
			nilG = Or(nilG, x.g)
		} else if s.nilG != False {
			nilG = Or(nilG, And(x.g, s.nilG))
		}
	}
	add, addN := I.contentAny(st, b, tb)
	cur, _ := I.contentAny(st, a, ta)
	if add == nil || cur == nil {
		return nil, false
	}
	r := I.newArr(st, sl.Elem(), cur.concat(add), "append")
	r.obj.site = id
	ct := intern("cap", "cap:"+id, 64, 0, 1<<40, nil, nil)
	r.cap = r.n.add(lt(ct))
	r.nilG = And(nilG, mkEQ(addN))
	return r, true
}

// capKnown: the capacity was chosen by the program (make), not by append.
func (I *Interp) capKnown(s *Slice) bool {
	for _, m := range s.cap.ts {
		if termTab[m.t].kind == "cap" {
			return false
		}
	}
	return true
}

func (I *Interp) copyOp(fr *Frame, st *State, a, b Val, ta, tb types.Type, pos token.Pos, id string) Val {
	d := asSlice(a, ta)
	src, sn := I.contentAny(st, b, tb)
	if d == nil {
		I.unsupported(fr, pos, "copy to %s", show(a))
		return symVal(types.Typ[types.Int], "copy:"+id, "copy")
	}
	// number copied = min
	ge := I.simplify(st.pc, mkGE(d.n.sub(sn)))
	n := linIte(ge, sn, d.n)
	if n2, ok := simplifyLin(n, st.pc); ok {
		n = n2
	}
	I.writeSeq(fr, st, d, lk(0), src, n, pos, id)
	return intL(n, 64, true)
}

func simplifyLin(l Lin, pc Node) (Lin, bool) { return l.under(pc), true }

// writeSeq stores the first n elements of src at position off of slice d.
func (I *Interp) writeSeq(fr *Frame, st *State, d *Slice, off Lin, src *Seq, n Lin, pos token.Pos, id string) {
	if d.obj == nil || isZeroUnder(n, st.pc) {
		return
	}
	if d.obj.shared() {
		I.event(fr, st, "write", d.obj.name, pos, &Slice{obj: d.obj, off: d.off.add(off), n: n, cap: n, elt: d.elt}, nil, nil)
	}
	full, ok := st.heap.get(I, d.obj).(*Seq)
	if ok {
		s, ok0 := src.slice(lk(0), n, st.pc)
		if !ok0 {
			t := intern("list", "sub:"+src.key()+"@0+"+n.key(), 0, 0, 0, types.NewSlice(d.elt), subSeq{src, lk(0)})
			s = &Seq{byts: full.byts, ps: []Piece{{g: True, src: t, off: lk(0), n: n}}}
		}
		start := d.off.add(off)
		pre, ok1 := full.slice(lk(0), start, st.pc)
		post, ok2 := full.slice(start.add(n), full.length().sub(start).sub(n), st.pc)
		if ok1 && ok2 {
			r := &Seq{byts: full.byts}
			r.ps = append(append(append(r.ps, pre.ps...), s.ps...), post.ps...)
			st.set(d.obj, r)
			return
		}
		// element by element
		k0, isC0 := start.isConst()
		k, isC := d.n.sub(off).isConst()
		if isC0 && isC && k <= 64 && int(k0+k) <= len(full.ps) {
			r := &Seq{byts: full.byts, ps: append([]Piece(nil), full.ps...)}
			flat := true
			for i := 0; i < int(k0+k) && flat; i++ {
				flat = full.ps[i].v != nil && full.ps[i].g == True
			}
			for i := int64(0); i < k && flat; i++ {
				in := And(st.pc, mkGE(n.addK(-i-1)))
				if in == False {
					continue
				}
				v, ok := src.at(lk(i), in)
				if !ok {
					flat = false
					break
				}
				r.ps[k0+i].v = iteVal(I.simplify(st.pc, mkGE(n.addK(-i-1))), v, full.ps[k0+i].v)
			}
			if flat {
				st.set(d.obj, r)
				return
			}
		}
	}
	t := intern("list", "wr:"+id, 0, 0, 0, types.NewSlice(d.elt), nil)
	ln := d.off.add(d.n)
	if ok {
		ln = full.length()
	}
	st.set(d.obj, &Seq{byts: isByteType(d.elt), ps: []Piece{{g: True, src: t, off: lk(0), n: ln}}})
}

// ---------------------------------------------------------------- globals

// globalInit gives the value of a package-level variable that is only written
// during initialisation, or nil.
func (I *Interp) globalInit(g *ssa.Global) Val {
	if g.Pkg == nil || !(g.Pkg.Pkg.Path() == modulePath || strings.HasPrefix(g.Pkg.Pkg.Path(), modulePath+"/")) {
		return nil
	}
	if I.mutableGlobal(g) {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return nil
	}
	// run only the instructions of init that feed this variable
	v := I.evalInit(init, g)
	if o, ok := v.(*Opaque); ok && o.typ != nil {
		if _, ok := o.typ.Underlying().(*types.Chan); ok {
			v = &Opaque{nn(intern("chan", "global:"+g.String(), 0, 0, 0, o.typ, nil)), o.typ}
		}
	}
	for _, fn := range pkgFuncs(I.prog, g.Pkg) {
		if !isInitFunc(fn) || !mentions(fn, g) || v == nil {
			continue
		}
		o := I.globals[g]
		ne, no, nf, nu := len(I.events), len(I.obls), len(I.falls), len(I.unsup)
		_, out := I.callFn(fn, nil, nil, &State{heap: &Heap{m: map[int]Val{o.id: v}}, pc: True}, "init:"+fn.Name())
		whole := len(I.unsup) == nu && out.pc == True
		I.events, I.obls, I.falls, I.unsup = I.events[:ne], I.obls[:no], I.falls[:nf], I.unsup[:nu]
		if !whole {
			return nil
		}
		v = out.heap.get(I, o)
	}
	return v
}

// isInitFunc: is fn one of the init functions written in the package?
func isInitFunc(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "init#") && fn.Parent() == nil && fn.Signature.Recv() == nil
}

func mentions(fn *ssa.Function, g *ssa.Global) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// mutableGlobal: is the variable written outside init, or its address passed on?
func (I *Interp) mutableGlobal(g *ssa.Global) bool {
	for _, fn := range pkgFuncs(I.prog, g.Pkg) {
		if fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil && fn.Synthetic != "" {
			continue
		}
		if isInitFunc(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if _, ok := ins.(*ssa.DebugRef); ok {
						continue
					}
					if ia, ok := ins.(*ssa.IndexAddr); ok && onlyLoads(ia) {
						continue
					}
					if fa, ok := ins.(*ssa.FieldAddr); ok && onlyLoads(fa) {
						continue
					}
					if sl, ok := ins.(*ssa.Slice); ok && onlyLoads(sl) {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return false
			}
		case *ssa.IndexAddr:
			if !onlyLoads(x) {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyLoads(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

var pkgFuncCache = map[*ssa.Package][]*ssa.Function{}

func pkgFuncs(prog *ssa.Program, p *ssa.Package) []*ssa.Function {
	if f, ok := pkgFuncCache[p]; ok {
		return f
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := prog.MethodValue(ms.At(i))
					if f != nil && f.Pkg == p {
						add(f)
					}
				}
			}
		}
	}
	pkgFuncCache[p] = out
	return out
}

// evalInit interprets the initialiser of g.
func (I *Interp) evalInit(init *ssa.Function, g *ssa.Global) Val {
	// find the stores to g and the instructions they depend on
	need := map[ssa.Instruction]bool{}
	roots := map[ssa.Value]bool{g: true}
	changed := true
	var all []ssa.Instruction
	for _, b := range init.Blocks {
		all = append(all, b.Instrs...)
	}
	var addVal func(v ssa.Value)
	addVal = func(v ssa.Value) {
		if v == nil || roots[v] {
			return
		}
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
			return
		}
		roots[v] = true
		changed = true
	}
	for changed {
		changed = false
		for _, ins := range all {
			if need[ins] {
				continue
			}
			take := false
			switch x := ins.(type) {
			case *ssa.Store:
				if base := addrBase(x.Addr); base != nil && roots[base] {
					if gg, ok := base.(*ssa.Global); !ok || gg == g {
						take = true
					}
				}
			case *ssa.MapUpdate:
				take = roots[x.Map]
			default:
				if v, ok := ins.(ssa.Value); ok && roots[v] {
					take = true
				}
			}
			if take {
				need[ins] = true
				changed = true
				for _, op := range ins.Operands(nil) {
					if _, isG := (*op).(*ssa.Global); isG && *op != ssa.Value(g) {
						continue
					}
					addVal(*op)
				}
			}
		}
	}
	fr := &Frame{fn: init, regs: map[ssa.Value]Val{}, ctx: "init:"}
	st := &State{heap: &Heap{m: map[int]Val{}}, pc: True}
	o := I.globals[g]
	I.base[o.id] = zeroVal(o.typ)
	ne, no, nf := len(I.events), len(I.obls), len(I.falls)
	nu := len(I.unsup)
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if need[ins] {
				switch ins.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi:
					continue
				}
				I.exec(fr, ins, st)
			}
		}
	}
	I.events, I.obls, I.falls, I.unsup = I.events[:ne], I.obls[:no], I.falls[:nf], I.unsup[:nu]
	for k, v := range st.heap.m {
		if k != o.id {
			I.base[k] = v
			if b := I.objByID(k); b != nil {
				b.sym, b.root = true, "global:"+g.String()
			}
		}
	}
	v := st.heap.get(I, o)
	if e, ok := v.(*Opaque); ok && isErrorType(o.typ) {
		nonNilTerms[e.t] = true
	}
	return v
}

func addrBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Value))
}
