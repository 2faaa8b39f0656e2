package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks []*ssa.BasicBlock // in reverse postorder
	in     map[*ssa.BasicBlock]bool
}

func rpoOf(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// natLoops finds the natural loops; nil if the flow graph is irreducible.
func natLoops(fn *ssa.Function, rpo []*ssa.BasicBlock) map[*ssa.BasicBlock]*natLoop {
	num := map[*ssa.BasicBlock]int{}
	for i, b := range rpo {
		num[b] = i
	}
	loops := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if num[s] > num[b] {
				continue
			}
			// retreating edge: must be a back edge
			if !s.Dominates(b) {
				return nil
			}
			L := loops[s]
			if L == nil {
				L = &natLoop{header: s, in: map[*ssa.BasicBlock]bool{s: true}}
				loops[s] = L
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if L.in[x] {
					continue
				}
				L.in[x] = true
				for _, p := range x.Preds {
					if _, ok := num[p]; ok {
						work = append(work, p)
					}
				}
			}
		}
	}
	for _, L := range loops {
		for _, b := range rpo {
			if L.in[b] {
				L.blocks = append(L.blocks, b)
			}
		}
	}
	return loops
}

// Leaf is a location the loop changes, with its value at the head of an
// arbitrary iteration.
type Leaf struct {
	loop   *LoopSum
	name   string
	phi    *ssa.Phi
	obj    *Obj
	path   []leafEl
	typ    types.Type
	kind   string // ind, up, down, acc, seg, shift, fold, fresh
	init   Val
	head   Val
	back   Val
	step   int64 // ind, shift
	delta  *Seq  // acc: what one iteration appends
	dlen   *int64
	fill   bool // acc: the elements replace zeros, from the start
	segSrc Term
	segOff Lin
	tried  map[string]bool
}

type leafEl struct {
	kind string // field, elem, pos, seq
	i    int
}

// LoopSum describes one summarised loop.
type LoopSum struct {
	fn      *ssa.Function
	ctx     string
	pos     token.Pos
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	k       Term
	leaves  []*Leaf
	entry   *State
	head    *State
	back    *State // joined back edges, nil if the loop never iterates
	evLo    int
	evHi    int
	unroll  bool
	exits   []*State
	leave   []loopExit
	regs    map[ssa.Value]Val
	outer   []*LoopSum
	bounded bool // number of iterations bounded by the value bound
	variant string
}

// loopExit: the guard, in terms of the iteration k, of leaving the loop in
// iteration k, and that k if it is known.
type loopExit struct {
	pc    Node
	n     Lin
	known bool
	after Node // the guard after the loop
}

var loopLeafs map[Term]*Leaf

type snap struct {
	ev, ob, fa, lo, un, ex, de, gf int
}

func (I *Interp) snapshot(fr *Frame) snap {
	return snap{len(I.events), len(I.obls), len(I.falls), len(I.loops), len(I.unsup), len(fr.exits), len(fr.defers), len(globalFacts)}
}

func (I *Interp) rollback(fr *Frame, s snap) {
	I.events, I.obls, I.falls, I.loops, I.unsup = I.events[:s.ev], I.obls[:s.ob], I.falls[:s.fa], I.loops[:s.lo], I.unsup[:s.un]
	fr.exits, fr.defers = fr.exits[:s.ex], fr.defers[:s.de]
	globalFacts = globalFacts[:s.gf]
}

func (I *Interp) execLoop(fr *Frame, L *natLoop, in []edge) map[*ssa.BasicBlock][]edge {
	if len(in) == 0 {
		return nil
	}
	if hasAccPhi(L) || I.hasAccCell(L) {
		s := I.snapshot(fr)
		if ex, ok := I.summarise(fr, L, in, true); ok {
			return ex
		}
		I.rollback(fr, s)
	}
	uid := fmt.Sprintf("%s%s@%d", fr.ctx, shortFn(fr.fn), L.header.Index)
	if !I.noUnrollAt[uid] {
		if ex, ok := I.unrollLoop(fr, L, in); ok {
			return ex
		}
		I.noUnrollAt[uid] = true
	}
	ex, _ := I.summarise(fr, L, in, false)
	return ex
}

// memoLeaf remembers how a location changed when the loop was last summarised:
// enclosing loops summarise it again with other entry states. What is recalled
// is only a first guess; it is verified like any other.
type memoLeaf struct {
	lf  *Leaf
	key string
}

func (I *Interp) keepLeaves(lid string, ls []*Leaf) {
	if len(I.loopStk) == 0 {
		return
	}
	var ms []memoLeaf
	for _, lf := range ls {
		switch lf.kind {
		case "fresh", "up", "down", "ind", "acc":
		default:
			continue
		}
		if lf.fill {
			continue
		}
		m := memoLeaf{lf: lf}
		if lf.obj != nil {
			m.key = lf.obj.site
			if m.key == "" {
				m.key = fmt.Sprint("#", lf.obj.id)
			}
		}
		ms = append(ms, m)
	}
	I.leafMemo[lid] = ms
}

func (I *Interp) recallLeaves(sum *LoopSum, lid string, phis []*ssa.Phi, pv []Val, entry *State) []*Leaf {
	ms := I.leafMemo[lid]
	if len(ms) == 0 {
		return nil
	}
	bySite := map[string]*Obj{}
	for id := range entry.heap.m {
		o := I.objByID(id)
		if o == nil {
			continue
		}
		k := o.site
		if k == "" {
			k = fmt.Sprint("#", id)
		}
		if p := bySite[k]; p == nil || p.id < o.id {
			bySite[k] = o
		}
	}
	var out []*Leaf
	for _, m := range ms {
		lf := &Leaf{loop: sum, name: m.lf.name, phi: m.lf.phi, path: m.lf.path, typ: m.lf.typ, kind: m.lf.kind, step: m.lf.step, dlen: m.lf.dlen, tried: map[string]bool{}}
		for k, v := range m.lf.tried {
			lf.tried[k] = v
		}
		ok := false
		func() {
			defer func() { recover() }()
			if lf.phi != nil {
				for j, p := range phis {
					if p == lf.phi {
						lf.init = lf.get(pv[j])
						ok = lf.init != nil
					}
				}
			} else if o := bySite[m.key]; o != nil {
				lf.obj = o
				lf.init = lf.get(entry.heap.get(I, o))
				ok = lf.init != nil
			}
		}()
		if !ok || firstKind(lf.init) != firstKind(m.lf.init) {
			continue
		}
		out = append(out, lf)
	}
	return out
}

// hasAccPhi: an unsigned accumulator carried round the loop.
func hasAccPhi(L *natLoop) bool {
	for _, ins := range L.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if w, sgn := intType(phi.Type()); w > 0 && !sgn && w <= 32 {
			return true
		}
	}
	return false
}

// controlling blocks: those with an exit branch that every iteration passes.
func controlling(L *natLoop) []*ssa.BasicBlock {
	var latches []*ssa.BasicBlock
	for _, b := range L.blocks {
		for _, s := range b.Succs {
			if s == L.header {
				latches = append(latches, b)
			}
		}
	}
	var out []*ssa.BasicBlock
	for _, b := range L.blocks {
		if len(b.Succs) != 2 || (L.in[b.Succs[0]] && L.in[b.Succs[1]]) {
			continue
		}
		dom := true
		for _, l := range latches {
			if !b.Dominates(l) {
				dom = false
			}
		}
		if dom && b == L.header {
			return []*ssa.BasicBlock{b}
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && dom && onPhi(L, iff.Cond, map[ssa.Value]bool{}) {
			out = append(out, b)
		}
	}
	return out
}

// onPhi: is v computed from a value carried round the loop?
func onPhi(L *natLoop, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	ins, ok := v.(ssa.Instruction)
	if !ok || ins.Block() == nil || !L.in[ins.Block()] {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Block() == L.header
	case *ssa.BinOp:
		return onPhi(L, x.X, seen) || onPhi(L, x.Y, seen)
	case *ssa.Convert:
		return onPhi(L, x.X, seen)
	case *ssa.UnOp:
		return x.Op == token.NOT && onPhi(L, x.X, seen)
	}
	return false
}

const maxUnroll = 300

func (I *Interp) unrollLoop(fr *Frame, L *natLoop, in []edge) (map[*ssa.BasicBlock][]edge, bool) {
	ctl := controlling(L)
	if len(ctl) == 0 {
		return nil, false
	}
	s := I.snapshot(fr)
	octx := fr.ctx
	defer func() { fr.ctx = octx }()
	liveOut := loopLiveOut(L)
	all := map[*ssa.BasicBlock][]edge{}
	cur := in
	for it := 0; ; it++ {
		if it > maxUnroll {
			I.rollback(fr, s)
			return nil, false
		}
		fr.ctx = fmt.Sprintf("%s#%d.%d/", octx, L.header.Index, it)
		region := map[*ssa.BasicBlock][]edge{L.header: cur}
		back, exits := I.execRegion(fr, L.blocks, region, L)
		// decided?
		decided := false
		for _, c := range ctl {
			if c == L.header && len(c.Succs) == 2 {
			}
			stay, leave := false, false
			for _, to := range c.Succs {
				if L.in[to] {
					continue
				}
				for _, e := range exits[to] {
					if e.from == c {
						leave = true
					}
				}
			}
			if len(back) > 0 {
				stay = true // it dominates the latches
			}
			if stay != leave {
				decided = true
			}
		}
		if len(back) == 0 {
			decided = true
		}
		if !decided {
			I.rollback(fr, s)
			return nil, false
		}
		for to, es := range exits {
			for _, e := range es {
				e.st = e.st.fork()
				e.st.lv = cloneLV(e.st.lv)
				for _, v := range liveOut {
					if x, ok := fr.regs[v]; ok {
						if _, has := e.st.lv[v]; !has {
							e.st.lv[v] = x
						}
					}
				}
				all[to] = append(all[to], e)
			}
		}
		if len(back) == 0 {
			return all, true
		}
		cur = back
		if len(back) > 1 {
			// join before the next iteration
			st := I.enterTmp(fr, L.header, back)
			cur = []edge{st}
		}
	}
}

// enterTmp joins edges into one without entering the block.
func (I *Interp) enterTmp(fr *Frame, b *ssa.BasicBlock, es []edge) edge {
	cur := es[0].st
	phis := es[0].phis
	for _, e := range es[1:] {
		care := Or(cur.pc, e.st.pc)
		g := minimizeGuard(e.st.pc, care, gateRank)
		cur = I.mergeStates(cur, e.st, g)
		np := make([]Val, len(phis))
		for i := range phis {
			np[i] = iteVal(g, e.phis[i], phis[i])
		}
		phis = np
	}
	return edge{from: es[0].from, st: cur, phis: phis}
}

func loopLiveOut(L *natLoop) []ssa.Value {
	var out []ssa.Value
	for _, b := range L.blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() != nil && !L.in[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- summaries

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, phi)
	}
	return out
}

func (I *Interp) summarise(fr *Frame, L *natLoop, in []edge, foldOnly bool) (map[*ssa.BasicBlock][]edge, bool) {
	ent := I.enterTmp(fr, L.header, in)
	entry := ent.st.fork()
	phis := headerPhis(L.header)
	lid := fmt.Sprintf("%s%s@%d", fr.ctx, shortFn(fr.fn), L.header.Index)
	k := intern("k", "k:"+lid, 64, 0, 1<<40, nil, nil)
	sum := &LoopSum{fn: fr.fn, ctx: fr.ctx, pos: loopPos(L), header: L.header, blocks: L.in, k: k, entry: entry, outer: I.loopStkCopy()}
	var leaves []*Leaf
	octx := fr.ctx
	fr.ctx = fr.ctx + fmt.Sprintf("@%d/", L.header.Index)
	defer func() { fr.ctx = octx }()
	base := I.snapshot(fr)
	leaves = I.recallLeaves(sum, lid, phis, ent.phis, entry)
	for round := 0; ; round++ {
		if round > 14 {
			I.unsupported(fr, sum.pos, "loop did not stabilise")
			return nil, !foldOnly
		}
		I.rollback(fr, base)
		head := entry.fork()
		head.lv = entry.lv
		hp := append([]Val(nil), ent.phis...)
		for i, lf := range leaves {
			I.headValue(sum, lf, fmt.Sprintf("%s.%d", lid, i), head)
			if lf.phi != nil {
				for j, p := range phis {
					if p == lf.phi {
						hp[j] = lf.put(hp[j])
					}
				}
			} else {
				old := head.heap.get(I, lf.obj)
				head.set(lf.obj, lf.put(old))
			}
		}
		sum.leaves = leaves
		sum.head = head.fork()
		sum.evLo = len(I.events)
		I.loopStk = append(I.loopStk, sum)
		region := map[*ssa.BasicBlock][]edge{L.header: {{from: ent.from, st: head, phis: hp}}}
		back, exits := I.execRegion(fr, L.blocks, region, L)
		I.loopStk = I.loopStk[:len(I.loopStk)-1]
		sum.evHi = len(I.events)
		if len(back) == 0 {
			// never iterates
			sum.back = nil
			if len(leaves) == 0 {
				sum.exits = nil
				I.loops = append(I.loops, sum)
				return exits, true
			}
			if foldOnly {
				return nil, false
			}
			I.loops = append(I.loops, sum)
			return exits, true
		}
		be := I.enterTmp(fr, L.header, back)
		sum.back = be.st
		bpc := be.st.pc
		stable := true
		// verify known leaves
		for _, lf := range leaves {
			var bv Val
			if lf.phi != nil {
				for j, p := range phis {
					if p == lf.phi {
						bv = be.phis[j]
					}
				}
			} else {
				bv = be.st.heap.get(I, lf.obj)
			}
			lf.back = lf.get(bv)
			if !I.checkLeaf(sum, lf, be.st, bpc) {
				stable = false
			}
		}
		// find new ones
		add := func(phi *ssa.Phi, o *Obj, hv, bv Val, t types.Type) {
			var walk func(path []leafEl, h, b Val, t types.Type)
			walk = func(path []leafEl, h, b Val, t types.Type) {
				for _, lf := range leaves {
					if lf.phi == phi && lf.obj == o && pathPrefix(lf.path, path) {
						return
					}
				}
				if sameIface(h, b) || sameUnder(b, h, bpc) {
					return
				}
				if hs, ok := h.(*StructV); ok {
					if bs, ok := b.(*StructV); ok {
						for i := range hs.f {
							walk(append(append([]leafEl(nil), path...), leafEl{"field", i}), hs.f[i], bs.f[i], hs.typ.Field(i).Type())
						}
						return
					}
				}
				if hm, ok := h.(*Model); ok {
					if bm, ok := b.(*Model); ok && hm.kind == bm.kind {
						if !linEqUnder(hm.pos, bm.pos, bpc) {
							walk(append(append([]leafEl(nil), path...), leafEl{"pos", 0}), intL(hm.pos, 64, true), intL(bm.pos, 64, true), types.Typ[types.Int])
						}
						if !seqSame(hm.s, bm.s, bpc) {
							walk(append(append([]leafEl(nil), path...), leafEl{"seq", 0}), hm.s, bm.s, types.NewSlice(types.Typ[types.Uint8]))
						}
						return
					}
				}
				if hs, ok := h.(*Seq); ok {
					if bs, ok := b.(*Seq); ok && len(hs.ps) == len(bs.ps) && len(hs.ps) <= 64 {
						flat := true
						for i := range hs.ps {
							if hs.ps[i].v == nil || bs.ps[i].v == nil || hs.ps[i].g != True || bs.ps[i].g != True {
								flat = false
							}
						}
						if flat {
							for i := range hs.ps {
								walk(append(append([]leafEl(nil), path...), leafEl{"elem", i}), hs.ps[i].v, bs.ps[i].v, elemType(t))
							}
							return
						}
					}
				}
				lf := &Leaf{loop: sum, phi: phi, obj: o, path: path, typ: t, tried: map[string]bool{}}
				if phi != nil {
					lf.name = phi.Comment
					for j, p := range phis {
						if p == phi {
							lf.init = lf.get(ent.phis[j])
						}
					}
				} else {
					lf.name = o.name
					lf.init = lf.get(entry.heap.get(I, o))
				}
				lf.kind = firstKind(lf.init)
				leaves = append(leaves, lf)
				stable = false
			}
			walk(nil, hv, bv, t)
		}
		for j, p := range phis {
			add(p, nil, hp[j], be.phis[j], p.Type())
		}
		var ids []int
		for id := range be.st.heap.m {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			hv, ok := sum.head.heap.m[id]
			if !ok {
				hv = I.base[id]
				if hv == nil {
					if s, ok := symSeqs[id]; ok {
						hv = s
					}
				}
			}
			if hv == nil {
				continue // allocated in the loop
			}
			o := I.objByID(id)
			if o == nil {
				continue
			}
			add(nil, o, hv, be.st.heap.m[id], o.typ)
		}
		if !stable {
			continue
		}
		I.keepLeaves(lid, leaves)
		// stable: folds
		folds := map[ssa.Value]func(a Lin) Val{}
		var cells []foldCell
		nfold := 0
		for _, lf := range leaves {
			if lf.kind == "fresh" {
				if f, ok := I.foldOf(sum, lf); ok {
					lf.kind = "fold"
					if lf.phi != nil {
						folds[lf.phi] = f
					} else {
						cells = append(cells, foldCell{lf, f})
					}
					nfold++
				}
			}
		}
		if foldOnly {
			if nfold == 0 {
				return nil, false
			}
		}
		I.headFacts(sum, ent.phis)
		sum.regs = map[ssa.Value]Val{}
		for _, v := range loopLiveOut(L) {
			if x, ok := fr.regs[v]; ok {
				sum.regs[v] = x
			}
		}
		I.loops = append(I.loops, sum)
		out := I.finishExits(fr, L, sum, exits, folds, cells, bpc)
		// returns inside the loop keep their symbols
		I.variantOf(sum)
		return out, true
	}
}

func loopPos(L *natLoop) token.Pos {
	for _, b := range L.blocks {
		for _, ins := range b.Instrs {
			if ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return token.NoPos
}

func pathPrefix(a, b []leafEl) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func firstKind(v Val) string {
	switch v.(type) {
	case *Int:
		return "ind"
	case *Seq, *Str, *Slice:
		return "acc"
	}
	return "fresh"
}

func (lf *Leaf) get(v Val) Val {
	for _, e := range lf.path {
		switch e.kind {
		case "field":
			s, ok := v.(*StructV)
			if !ok {
				return nil
			}
			v = s.f[e.i]
		case "elem":
			s, ok := v.(*Seq)
			if !ok || e.i >= len(s.ps) {
				return nil
			}
			v = s.ps[e.i].v
		case "pos":
			m, ok := v.(*Model)
			if !ok {
				return nil
			}
			v = intL(m.pos, 64, true)
		case "seq":
			m, ok := v.(*Model)
			if !ok {
				return nil
			}
			v = m.s
		}
	}
	return v
}

// put replaces the leaf inside v by its head value.
func (lf *Leaf) put(v Val) Val { return lf.putAt(v, 0) }

func (lf *Leaf) putAt(v Val, d int) Val {
	if d == len(lf.path) {
		return lf.head
	}
	e := lf.path[d]
	switch x := v.(type) {
	case *StructV:
		s := &StructV{typ: x.typ, nam: x.nam, f: append([]Val(nil), x.f...)}
		s.f[e.i] = lf.putAt(x.f[e.i], d+1)
		return s
	case *Seq:
		s := &Seq{byts: x.byts, ps: append([]Piece(nil), x.ps...)}
		s.ps[e.i].v = lf.putAt(x.ps[e.i].v, d+1)
		return s
	case *Model:
		m := *x
		if e.kind == "pos" {
			m.pos = lf.head.(*Int).asLin()
		} else {
			m.s = lf.head.(*Seq)
		}
		return &m
	}
	return v
}

func (I *Interp) objByID(id int) *Obj { return allObjs[id] }

var allObjs map[int]*Obj

// headValue chooses the value of a leaf at the head of iteration k.
func (I *Interp) headValue(sum *LoopSum, lf *Leaf, name string, head *State) {
	switch lf.kind {
	case "ind":
		x := lf.init.(*Int)
		if lf.tried["ind"] {
			l := x.asLin().add(lt(sum.k).scale(lf.step))
			lf.head = intL(l, x.w, x.sgn)
			return
		}
		lf.head = freshInt(lf, name)
		return
	case "up", "down":
		x := lf.init.(*Int)
		lo, hi := typeRange(x.w, x.sgn)
		if w := x.w; w > 40 {
			ilo, ihi := x.asLin().rangeUnder(sum.entry.pc)
			lo, hi = -(1 << 41), 1<<41
			if lf.kind == "up" && ilo > lo {
				lo = ilo
			}
			if lf.kind == "down" && ihi < hi {
				hi = ihi
			}
		}
		t := intern("mono", "h:"+name+":"+lf.kind+":"+x.asLin().key(), x.w, lo, hi, lf.typ, nil)
		loopLeafs[t] = lf
		lf.head = intTerm(t, x.w, x.sgn)
		if lf.kind == "up" {
			addFact(lt(t).sub(x.asLin()))
		} else {
			addFact(x.asLin().sub(lt(t)))
		}
		if n := len(lf.path); n > 0 && lf.path[n-1].kind == "pos" {
			if m, ok := lf.model(head.heap.get(I, lf.obj)).(*Model); ok && m.s != nil && !lf.tried["nobound"] {
				addFact(m.s.length().sub(lt(t)))
			}
		}
		return
	case "tail":
		// the rest of the slice, from a place that only moves on
		x := lf.init.(*Slice)
		m := intern("mono", "h:"+name+":tail:"+keyOf(x), 64, 0, 1<<41, types.Typ[types.Int], nil)
		loopLeafs[m] = lf
		d := lt(m)
		y := *x
		y.off, y.n, y.cap = x.off.add(d), x.n.sub(d), x.cap.sub(d)
		y.nilG = And(x.nilG, mkEQ(d))
		addFact(y.n)
		lf.head = &y
		return
	case "shift":
		x := lf.init.(*Slice)
		d := lt(sum.k).scale(lf.step)
		y := *x
		y.off, y.n, y.cap = x.off.add(d), x.n.sub(d), x.cap.sub(d)
		y.nilG = And(x.nilG, mkEQ(lt(sum.k)))
		addFact(y.n)
		lf.head = &y
		return
	case "acc", "seg":
		t := lf.typ
		var init *Seq
		var sl *Slice
		switch x := lf.init.(type) {
		case *Seq:
			init = x
		case *Str:
			init = x.s
			t = types.NewSlice(types.Typ[types.Uint8])
		case *Slice:
			init = I.content(sum.entry, x)
			sl = x
		}
		var p Piece
		if lf.kind == "seg" {
			p = Piece{g: True, src: lf.segSrc, off: lf.segOff, n: lt(sum.k)}
		} else {
			src := intern("list", "acc:"+name+":"+init.key(), 0, 0, 0, t, nil)
			loopLeafs[src] = lf
			n := lenTerm(src)
			if lf.dlen != nil {
				n = lt(sum.k).scale(*lf.dlen)
			}
			p = Piece{g: True, src: src, off: lk(0), n: n}
		}
		s := &Seq{byts: init.byts}
		if lf.fill {
			// the zeros left over
			z := init.ps[0]
			s.ps = []Piece{p, {g: True, src: z.src, off: z.off.add(p.n), n: z.n.sub(p.n)}}
			addFact(z.n.sub(p.n))
			lf.head = s
			return
		}
		s.ps = append(s.ps, init.ps...)
		s.push(p)
		switch lf.init.(type) {
		case *Seq:
			lf.head = s
		case *Str:
			lf.head = &Str{s}
		case *Slice:
			r := I.newArr(head, sl.elt, s, "acc")
			r.obj.site = "acc:" + name
			ct := intern("cap", "cap:"+name, 64, 0, 1<<40, nil, nil)
			r.cap = r.n.add(lt(ct))
			if sl.nilG != False {
				r.nilG = And(sl.nilG, mkEQ(p.n))
			}
			lf.head = r
		}
		return
	}
	// fresh
	switch x := lf.init.(type) {
	case *Int:
		lf.head = freshInt(lf, name)
	case *Seq:
		src := intern("list", "h:"+name+":"+x.length().key(), 0, 0, 0, lf.typ, nil)
		lf.head = &Seq{byts: x.byts, ps: []Piece{{g: True, src: src, off: lk(0), n: x.length()}}}
	case *Model:
		lf.head = symModel(x.kind, x.typ, "h:"+name)
	default:
		lf.head = symVal(lf.typ, "h:"+name, "loopvar("+lf.name+")")
	}
}

func (lf *Leaf) model(v Val) Val {
	for _, e := range lf.path[:len(lf.path)-1] {
		switch e.kind {
		case "field":
			s, ok := v.(*StructV)
			if !ok {
				return nil
			}
			v = s.f[e.i]
		default:
			return nil
		}
	}
	return v
}

func addFact(l Lin) {
	k := l.key()
	for _, f := range globalFacts {
		if f.key() == k {
			return
		}
	}
	globalFacts = append(globalFacts, l)
}

func freshInt(lf *Leaf, name string) *Int {
	x := lf.init.(*Int)
	lo, hi := typeRange(x.w, x.sgn)
	t := intern("hv", "h:"+name, x.w, lo, hi, lf.typ, nil)
	loopLeafs[t] = lf
	return intTerm(t, x.w, x.sgn)
}

// checkLeaf: does the value at the back edge agree with the assumed class?
func (I *Interp) checkLeaf(sum *LoopSum, lf *Leaf, back *State, bpc Node) bool {
	switch lf.kind {
	case "ind":
		h, b := lf.head.(*Int), asIntAny(lf.back)
		if b != nil {
			d := b.asLin().sub(h.asLin())
			if c, ok := d.under(bpc).isConst(); ok && c != 0 {
				if lf.tried["ind"] {
					if c == lf.step {
						return true
					}
				} else {
					lf.tried["ind"] = true
					lf.step = c
					return false
				}
			}
		}
		lf.kind = "up"
		return false
	case "up", "down":
		h, b := lf.head.(*Int), asIntAny(lf.back)
		if b != nil {
			d := b.asLin().sub(h.asLin())
			if lf.kind == "down" {
				d = d.neg()
			}
			if entails(bpc, d) {
				if n := len(lf.path); n > 0 && lf.path[n-1].kind == "pos" && !lf.tried["nobound"] {
					if m, ok := lf.model(back.heap.get(I, lf.obj)).(*Model); ok {
						if !entails(bpc, m.s.length().sub(b.asLin())) || !entails(sum.entry.pc, m.s.length().sub(lf.init.(*Int).asLin())) {
							lf.tried["nobound"] = true
							return false
						}
					}
				}
				return true
			}
		}
		if lf.kind == "up" {
			lf.kind = "down"
		} else {
			lf.kind = "fresh"
		}
		return false
	case "tail":
		h := lf.head.(*Slice)
		b, ok := sliceUnder(lf.back, bpc)
		if ok && b.obj == h.obj {
			d := settle(b.off.sub(h.off), bpc)
			if linEqUnder(b.n.add(d), h.n, bpc) && entails(bpc, d) && entails(bpc, b.n) {
				return true
			}
		}
		lf.kind = "fresh"
		return false
	case "shift":
		h := lf.head.(*Slice)
		b, ok := sliceUnder(lf.back, bpc)
		if ok && b.obj == h.obj && b.off.sub(h.off).addK(-lf.step).eq(lk(0)) && b.n.sub(h.n).addK(lf.step).eq(lk(0)) && entails(bpc, b.n) {
			return true
		}
		lf.kind = "fresh"
		return false
	case "acc":
		if q, ok := lf.init.(*Seq); ok && !lf.fill && lf.phi == nil && !lf.tried["fill"] && len(q.ps) == 1 && q.ps[0].v == nil && q.ps[0].g == True && termTab[q.ps[0].src].kind == "zeros" {
			// zeros replaced one after the other
			lf.tried["fill"] = true
			lf.fill = true
			one := int64(1)
			lf.dlen = &one
			return false
		}
		if lf.fill {
			h := lf.head.(*Seq)
			b, ok := lf.back.(*Seq)
			if ok {
				b = b.under(bpc)
			}
			if ok && len(b.ps) >= 2 && b.ps[0].key() == h.ps[0].key() && b.ps[1].v != nil && Implies(bpc, b.ps[1].g) {
				left := h.ps[1].n.addK(-1)
				done := len(b.ps) == 2 && linEqUnder(left, lk(0), bpc)
				if len(b.ps) == 3 {
					z := b.ps[2]
					done = z.v == nil && z.src == h.ps[1].src && linEqUnder(z.n, left, bpc)
				}
				if done && entails(bpc, left) {
					lf.delta = &Seq{byts: b.byts, ps: b.ps[1:2]}
					return true
				}
			}
			lf.fill = false
			lf.dlen = nil
			return false
		}
		if h, ok := lf.head.(*Slice); ok && !lf.tried["shift"] {
			// the rest of the slice, a fixed number of elements on
			if b, ok := sliceUnder(lf.back, bpc); ok && b.obj == h.obj {
				c, ok1 := b.off.sub(h.off).isConst()
				if ok1 && c > 0 && b.n.sub(h.n).addK(c).eq(lk(0)) {
					lf.tried["shift"] = true
					lf.kind = "shift"
					lf.step = c
					return false
				}
			}
		}
		if h, ok := lf.head.(*Slice); ok && !lf.tried["tail"] && h.obj != nil {
			// the rest of the slice, some elements on
			if b, ok := sliceUnder(lf.back, bpc); ok && b.obj != nil && b.obj == h.obj {
				lf.tried["tail"] = true
				lf.kind = "tail"
				return false
			}
		}
		hs, bs := I.seqOfVal(sum.head, lf.head), I.seqOfVal(back, lf.back)
		if hs == nil || bs == nil || len(bs.ps) < len(hs.ps) {
			lf.kind = "fresh"
			return false
		}
		for i := range hs.ps {
			if hs.ps[i].key() != bs.ps[i].key() {
				lf.kind = "fresh"
				return false
			}
		}
		lf.delta = (&Seq{byts: bs.byts, ps: bs.ps[len(hs.ps):]}).under(bpc)
		if src, off, ok := kByte(lf.delta, sum.k); ok && !lf.tried["seg"] {
			lf.tried["seg"] = true
			lf.kind = "seg"
			lf.segSrc, lf.segOff = src, off
			return false
		}
		if c, ok := lf.delta.length().under(bpc).isConst(); ok {
			if lf.dlen == nil {
				lf.dlen = &c
				return false
			}
			if *lf.dlen != c {
				lf.kind = "fresh"
				return false
			}
		} else if lf.dlen != nil {
			lf.kind = "fresh"
			return false
		}
		return true
	case "seg":
		hs, bs := I.seqOfVal(sum.head, lf.head), I.seqOfVal(back, lf.back)
		if hs != nil && bs != nil {
			sb := newSubst(map[Term]Lin{sum.k: lt(sum.k).addK(1)})
			if seqSame(bs, sb.seq(hs), bpc) {
				return true
			}
			if n := len(hs.ps); n < len(bs.ps) {
				same := true
				for i := range hs.ps {
					same = same && hs.ps[i].key() == bs.ps[i].key()
				}
				src, off, ok := kByte((&Seq{byts: bs.byts, ps: bs.ps[n:]}).under(bpc), sum.k)
				if same && ok && src == lf.segSrc && off.eq(lf.segOff) {
					return true
				}
			}
		}
		lf.kind = "acc"
		return false
	}
	return true
}

// sliceUnder is the one slice v is under g.
func sliceUnder(v Val, g Node) (*Slice, bool) {
	for {
		switch x := v.(type) {
		case *Slice:
			return x, true
		case *IteV:
			switch {
			case And(g, x.g) == False:
				v = x.b
			case And(g, Not(x.g)) == False:
				v = x.a
			default:
				return nil, false
			}
		default:
			return nil, false
		}
	}
}

func asIntAny(v Val) *Int {
	switch x := v.(type) {
	case *Int:
		return x
	case *IteV:
		a, b := asIntAny(x.a), asIntAny(x.b)
		if a != nil && b != nil {
			if r, ok := iteVal(x.g, a, b).(*Int); ok {
				return r
			}
		}
	}
	return nil
}

func (I *Interp) seqOfVal(st *State, v Val) *Seq {
	switch x := v.(type) {
	case *Seq:
		return x
	case *Str:
		return x.s
	case *Slice:
		return I.content(st, x)
	case *IteV:
		a := st.fork()
		a.pc = And(st.pc, x.g)
		b := st.fork()
		b.pc = And(st.pc, Not(x.g))
		if a.pc == False {
			return I.seqOfVal(st, x.b)
		}
		if b.pc == False {
			return I.seqOfVal(st, x.a)
		}
		sa, sb := I.seqOfVal(a, x.a), I.seqOfVal(b, x.b)
		if sa != nil && sb != nil {
			return seqIte(x.g, sa, sb)
		}
	}
	return nil
}

// kByte: the sequence is one byte at position base+k of an opaque sequence.
func kByte(s *Seq, k Term) (Term, Lin, bool) {
	if s == nil || len(s.ps) != 1 || s.ps[0].g != True {
		return 0, Lin{}, false
	}
	p := s.ps[0]
	if p.v == nil {
		return 0, Lin{}, false
	}
	x, ok := p.v.(*Int)
	if !ok {
		return 0, Lin{}, false
	}
	t, ok := singleTerm(x.asLin())
	if !ok {
		return 0, Lin{}, false
	}
	var d inData
	if e, has := elemAlias[t]; has && termTab[t].kind == "el" {
		d = inData{src: intern("list", "sub:"+e.s.key()+"@0", 0, 0, 0, types.NewSlice(types.Typ[types.Uint8]), subSeq{e.s, lk(0)}), pos: e.idx}
	} else if termTab[t].kind != "in" {
		return 0, Lin{}, false
	} else {
		d = termTab[t].data.(inData)
	}
	off := d.pos.sub(lt(k))
	for _, m := range off.ts {
		if m.t == k {
			return 0, Lin{}, false
		}
	}
	return d.src, off, true
}

// headFacts: bounds of the iteration counter that follow from the continue condition.
func (I *Interp) headFacts(sum *LoopSum, _ []Val) {
	if sum.back == nil {
		return
	}
	fs := I.kFacts(sum, sum.back.pc, sum.entry.pc)
	for _, f := range fs {
		addFact(f)
	}
	// a gated bound says more than what holds in every case
	for _, v := range support(sum.back.pc) {
		x := ddVar(int(v))
		if atoms[v].kind == aGE && I.loopLin(sum, atoms[v].l) && !Implies(sum.back.pc, x) && !Implies(sum.back.pc, Not(x)) {
			if f, ok := I.kFactSplit(sum, sum.back.pc, sum.entry.pc, 2); ok {
				addFact(f)
			}
			break
		}
	}
}

// kFactCases: one bound of the counter, if need be separately for the cases of
// a condition that does not change in the loop.
func (I *Interp) kFactCases(sum *LoopSum, bpc, entry Node, depth int) (Lin, bool) {
	if fs := I.kFacts(sum, bpc, entry); len(fs) > 0 {
		return fs[0], true
	}
	return I.kFactSplit(sum, bpc, entry, depth)
}

func (I *Interp) kFactSplit(sum *LoopSum, bpc, entry Node, depth int) (Lin, bool) {
	if depth == 0 {
		return Lin{}, false
	}
	tried := 0
	for _, v := range support(bpc) {
		a := atoms[v]
		if a.kind != aBit || I.loopTerm(sum, a.t) {
			continue
		}
		if tried++; tried > 4 {
			break
		}
		g := ddVar(int(v))
		yes, no := And(bpc, g), And(bpc, Not(g))
		if yes == False || no == False {
			continue
		}
		f1, ok := I.kFactCases(sum, yes, And(entry, g), depth-1)
		if !ok {
			continue
		}
		if f0, ok := I.kFactCases(sum, no, And(entry, Not(g)), depth-1); ok {
			return linIte(g, f1, f0), true
		}
	}
	return Lin{}, false
}

func (I *Interp) kFacts(sum *LoopSum, bpc, entry Node) []Lin {
	var out []Lin
	sb := newSubst(map[Term]Lin{sum.k: lk(0)})
	for _, v := range support(bpc) {
		a := atoms[v]
		if a.kind != aGE {
			continue
		}
		x := ddVar(int(v))
		l := a.l
		if Implies(bpc, Not(x)) {
			l = l.neg().addK(-1)
		} else if !Implies(bpc, x) {
			continue
		}
		var c int64
		bad := false
		for _, m := range l.ts {
			if m.t == sum.k {
				cc, ok := isK(m.a)
				if !ok {
					bad = true
				}
				c = cc
			} else if I.loopTerm(sum, m.t) {
				bad = true
			}
		}
		if bad || c >= 0 {
			continue
		}
		// on the back edge l(k) >= 0, so at the next head l(k) >= c
		if entails(entry, sb.lin(l).addK(-c)) {
			out = append(out, l.addK(-c))
		}
	}
	return out
}

// loopTerm: does the term change from one iteration to the next?
func (I *Interp) loopTerm(sum *LoopSum, t Term) bool {
	if t == sum.k {
		return true
	}
	if lf := loopLeafs[t]; lf != nil && lf.loop == sum {
		return true
	}
	ti := termTab[t]
	switch d := ti.data.(type) {
	case inData:
		return I.loopLin(sum, d.pos) || I.loopTerm(sum, d.src)
	case Lin:
		return I.loopLin(sum, d)
	case divData:
		return I.loopLin(sum, d.l)
	case Term:
		return I.loopTerm(sum, d)
	case idxData:
		return I.loopLin(sum, d.base) || I.loopTerm(sum, d.src)
	}
	if s, ok := subOf[t]; ok {
		return I.loopTerm(sum, s.t)
	}
	if e, ok := elemAlias[t]; ok {
		return I.loopLin(sum, e.idx)
	}
	return false
}

func (I *Interp) loopLin(sum *LoopSum, l Lin) bool {
	for _, m := range l.ts {
		if I.loopTerm(sum, m.t) {
			return true
		}
	}
	return false
}

type foldData struct {
	init Val
	step string
	w    int
	s    *Seq
}

// mkFold is the accumulator after folding step over the bytes.
func mkFold(init Val, step string, w int, s *Seq) Term {
	var hi int64 = 1<<uint(w) - 1
	return intern("fold", fmt.Sprintf("%s|%s|%s", keyOf(init), step, s.key()), w, 0, hi, nil, foldData{init, step, w, s})
}

func foldCanon(w int) (Term, Term) {
	h := intern("foldh", fmt.Sprint(w), w, 0, 1<<uint(w)-1, nil, nil)
	b := intern("foldb", "b", 8, 0, 255, nil, nil)
	return h, b
}

// foldCell is a place in memory that a loop folds a sequence into.
type foldCell struct {
	lf *Leaf
	at func(Lin) Val
}

// hasAccCell: does the loop read bytes one by one and write an unsigned number
// to memory, itself or in a function that it calls?
func (I *Interp) hasAccCell(L *natLoop) bool {
	bytes, acc := false, false
	scan := func(b *ssa.BasicBlock, in bool) []*ssa.Function {
		var callees []*ssa.Function
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.IndexAddr:
				if t, ok := x.X.Type().Underlying().(*types.Slice); ok && in {
					if w, _ := intType(t.Elem()); w == 8 {
						bytes = true
					}
				}
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.IndexAddr); ok {
					break
				}
				if w, sgn := intType(x.Val.Type()); w > 0 && !sgn && w <= 32 {
					acc = true
				}
			case *ssa.Call:
				switch f := x.Call.Value.(type) {
				case *ssa.Function:
					callees = append(callees, f)
				case *ssa.MakeClosure:
					if g, ok := f.Fn.(*ssa.Function); ok {
						callees = append(callees, g)
					}
				}
			}
		}
		return callees
	}
	for _, b := range L.blocks {
		for _, f := range scan(b, true) {
			if f.Pkg == nil || len(f.Blocks) > 12 {
				continue
			}
			for _, c := range f.Blocks {
				scan(c, false)
			}
		}
	}
	return bytes && acc
}

// foldOf recognises acc' = step(acc, byte k).
func (I *Interp) foldOf(sum *LoopSum, lf *Leaf) (func(a Lin) Val, bool) {
	h, ok := lf.head.(*Int)
	if !ok {
		return nil, false
	}
	b := asIntAny(lf.back)
	if b == nil || h.w > 32 {
		return nil, false
	}
	ht, ok := singleTerm(h.asLin())
	if !ok {
		return nil, false
	}
	budget := 16
	step, mkSeq, ok := I.foldStep(sum, h.w, ht, b.bitVec(), &budget)
	if !ok {
		return nil, false
	}
	init := lf.init
	w, sgn := h.w, h.sgn
	return func(n Lin) Val { return intTerm(mkFold(init, step, w, mkSeq(n, True)), w, sgn) }, true
}

// foldStep says how the bits of the next value come from the value before and
// from one element of a sequence.  Where the sequence depends on conditions
// that the loop does not change, the step is the same for each.
func (I *Interp) foldStep(sum *LoopSum, w int, ht Term, bits []Node, budget *int) (string, func(Lin, Node) *Seq, bool) {
	if *budget--; *budget < 0 {
		return "", nil, false
	}
	ch, cb := foldCanon(w)
	var bt Term = -1
	split := int32(-1)
	var canon []Node
	for _, n := range bits {
		m := map[int32]Node{}
		for _, v := range support(n) {
			a := atoms[v]
			if a.kind == aBit {
				t, i := a.t, a.i
				if s, ok := subOf[t]; ok {
					t, i = s.t, i+s.lo
				}
				if t == ht {
					m[v] = bitAtom(ch, i)
					continue
				}
				if I.loopTerm(sum, t) {
					if bt < 0 {
						bt = t
					}
					if bt == t {
						m[v] = bitAtom(cb, i)
					}
					continue
				}
			} else if a.kind != aGE && a.kind != aEQ || I.loopLin(sum, a.l) {
				return "", nil, false
			}
			if split < 0 || v < split {
				split = v
			}
		}
		canon = append(canon, ddCompose(n, m))
	}
	if split >= 0 {
		half := func(val bool) []Node {
			var out []Node
			for _, n := range bits {
				out = append(out, cofactor(n, split, val))
			}
			return out
		}
		s1, q1, ok1 := I.foldStep(sum, w, ht, half(true), budget)
		s2, q2, ok2 := I.foldStep(sum, w, ht, half(false), budget)
		if !ok1 || !ok2 || s1 != s2 {
			return "", nil, false
		}
		g := ddVar(int(split))
		return s1, func(n Lin, care Node) *Seq {
			a, b := And(care, g), And(care, Not(g))
			return seqIte(g, q1(n.under(a), a), q2(n.under(b), b))
		}, true
	}
	if bt < 0 {
		return "", nil, false
	}
	for _, n := range canon {
		for _, v := range support(n) {
			if t := atoms[v].t; t != ch && t != cb {
				return "", nil, false
			}
		}
	}
	step := bitsKey(canon)
	if termTab[bt].kind == "in" {
		d := termTab[bt].data.(inData)
		off := d.pos.sub(lt(sum.k))
		if I.loopLin(sum, off) {
			return "", nil, false
		}
		return step, func(n Lin, care Node) *Seq { return segSeq(d.src, off, n, true, nil) }, true
	}
	if e, ok := elemAlias[bt]; ok {
		off := e.idx.sub(lt(sum.k))
		if I.loopLin(sum, off) {
			return "", nil, false
		}
		return step, func(n Lin, care Node) *Seq {
			if s, ok := e.s.slice(off, n, care); ok {
				return s
			}
			t := intern("list", "sub:"+e.s.key()+"@"+off.key()+"+"+n.key(), 0, 0, 0, types.NewSlice(types.Typ[types.Uint8]), subSeq{e.s, off})
			return &Seq{byts: true, ps: []Piece{{g: True, src: t, off: lk(0), n: n}}}
		}, true
	}
	return "", nil, false
}

// finishExits rewrites what leaves the loop where the number of iterations is known.
func (I *Interp) finishExits(fr *Frame, L *natLoop, sum *LoopSum, exits map[*ssa.BasicBlock][]edge, folds map[ssa.Value]func(Lin) Val, cells []foldCell, bpc Node) map[*ssa.BasicBlock][]edge {
	live := loopLiveOut(L)
	tos := make([]*ssa.BasicBlock, 0, len(exits))
	for to := range exits {
		tos = append(tos, to)
	}
	sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
	// when each exit is taken, and what the others say about it
	var lv []*loopExit
	for _, to := range tos {
		for _, e := range exits[to] {
			n, ok := I.tripCount(sum, e.st.pc, bpc)
			x := &loopExit{pc: e.st.pc, n: n, known: ok, after: e.st.pc}
			if ok {
				x.after = newSubst(map[Term]Lin{sum.k: n}).node(e.st.pc)
			}
			lv = append(lv, x)
			sum.exits = append(sum.exits, e.st)
		}
	}
	I.separateExits(fr, L, lv)
	at := 0
	for _, to := range tos {
		es := exits[to]
		for i, e := range es {
			x := lv[at]
			at++
			sum.leave = append(sum.leave, *x)
			if !x.known {
				e.st.pc = x.after
				continue
			}
			n := x.n
			sb := newSubst(map[Term]Lin{sum.k: n})
			st := e.st.fork()
			st.pc = x.after
			h := map[int]Val{}
			for id, v := range st.heap.m {
				h[id] = sb.val(v)
			}
			if e.from == L.header {
				for _, c := range cells {
					if v, ok := h[c.lf.obj.id]; ok {
						lf := *c.lf
						lf.head = c.at(n)
						h[c.lf.obj.id] = lf.put(v)
					}
				}
			}
			st.heap = &Heap{m: h}
			st.lv = cloneLV(st.lv)
			for _, v := range live {
				if x, ok := fr.regs[v]; ok {
					if y, has := st.lv[v]; has {
						x = y
					}
					if f, ok := folds[v]; ok && e.from == L.header {
						x = f(n)
					} else {
						x = sb.val(x)
					}
					st.lv[v] = x
				}
			}
			ne := edge{from: e.from, st: st}
			phis := headerPhis(to)
			for j, p := range e.phis {
				x := sb.val(p)
				if j < len(phis) {
					for q, pr := range to.Preds {
						if pr == e.from {
							if f, ok := folds[phis[j].Edges[q]]; ok && e.from == L.header {
								x = f(n)
							}
							break
						}
					}
				}
				ne.phis = append(ne.phis, x)
			}
			es[i] = ne
		}
	}
	return exits
}

// separateExits makes the guards of leaving a loop exclude each other: of two
// exits whose iterations are known the earlier is taken; an exit in an unknown
// iteration gets a choice of its own.
func (I *Interp) separateExits(fr *Frame, L *natLoop, lv []*loopExit) {
	if len(lv) < 2 {
		return
	}
	pre := make([]Node, len(lv))
	for i, x := range lv {
		pre[i] = x.after
	}
	unknown := 0
	for i, x := range lv {
		if !x.known {
			unknown++
			continue
		}
		for j, y := range lv {
			if i == j || !y.known || And(pre[i], pre[j]) == False {
				continue
			}
			d := y.n.sub(x.n)
			if entails(And(pre[i], pre[j]), d) {
				continue
			}
			x.after = And(x.after, Or(Not(pre[j]), mkGE(d)))
		}
	}
	if unknown == 0 {
		return
	}
	// with one unknown exit and nothing else left, no choice is needed
	not := True
	for i, x := range lv {
		if x.known {
			continue
		}
		if i == len(lv)-1 && unknown == len(lv) {
			x.after = And(x.after, not)
			break
		}
		sel := opAtom(fmt.Sprintf("exit:%s%s@%d.%d", fr.ctx, shortFn(fr.fn), L.header.Index, i), false)
		x.after = AndN(x.after, not, sel)
		not = And(not, Not(sel))
	}
	for _, x := range lv {
		if x.known {
			x.after = And(x.after, not)
		}
	}
}

// tripCount: the value of k at this exit.
func (I *Interp) tripCount(sum *LoopSum, epc, bpc Node) (Lin, bool) {
	return I.tripCases(sum, epc, bpc, 2)
}

// tripCases finds the count, if need be separately for the cases of a
// condition that does not change in the loop.
func (I *Interp) tripCases(sum *LoopSum, epc, bpc Node, depth int) (Lin, bool) {
	if n, ok := I.tripCount1(sum, epc, bpc); ok || depth == 0 {
		return n, ok
	}
	tried := 0
	for _, v := range support(epc) {
		a := atoms[v]
		if a.kind != aBit || I.loopTerm(sum, a.t) {
			continue
		}
		if tried++; tried > 4 {
			break
		}
		g := ddVar(int(v))
		yes, no := And(epc, g), And(epc, Not(g))
		if yes == False || no == False {
			continue
		}
		n1, ok := I.tripCases(sum, yes, bpc, depth-1)
		if !ok {
			continue
		}
		n0, ok := I.tripCases(sum, no, bpc, depth-1)
		if ok {
			return linIte(g, n1, n0), true
		}
	}
	return Lin{}, false
}

func (I *Interp) tripCount1(sum *LoopSum, epc, bpc Node) (Lin, bool) {
	hasK := false
	for _, lf := range sum.leaves {
		if lf.kind == "ind" || lf.kind == "shift" || lf.kind == "seg" || lf.kind == "fold" || (lf.kind == "acc" && lf.dlen != nil) {
			hasK = true
		}
	}
	if !hasK {
		return Lin{}, false
	}
	// first byte equal to a delimiter
	seen := map[Term]bool{}
	for _, v := range support(epc) {
		a := atoms[v]
		if a.kind != aBit {
			continue
		}
		t := a.t
		if s, ok := subOf[t]; ok {
			t = s.t
		}
		el, isEl := elemAlias[t]
		isEl = isEl && termTab[t].kind == "el"
		if seen[t] || (termTab[t].kind != "in" && !isEl) {
			continue
		}
		seen[t] = true
		var d inData
		if isEl {
			d.pos = el.idx
		} else {
			d = termTab[t].data.(inData)
		}
		base := d.pos.sub(lt(sum.k))
		if I.loopLin(sum, base) || !I.loopLin(sum, d.pos) {
			continue
		}
		bs := intTerm(t, 8, false).bitVec()
		lo, hi := bitBounds(bs, epc)
		if lo != hi {
			continue
		}
		if And(bpc, intEQ(intTerm(t, 8, false), intK(lo, 8, false))) != False {
			continue
		}
		if isEl {
			c := &mctx{I: I, st: &State{heap: sum.entry.heap, pc: sum.entry.pc}}
			if n, ok := c.index(el.s, base, el.s.length(), byte(lo)); ok == True {
				return n, true
			}
			continue
		}
		return lt(idxTerm(d.src, base, byte(lo))), true
	}
	// the continue condition just failed
	for _, v := range support(epc) {
		a := atoms[v]
		if a.kind != aGE {
			continue
		}
		x := ddVar(int(v))
		l := a.l
		switch {
		case Implies(epc, Not(x)):
		case Implies(epc, x):
			l = l.neg().addK(-1)
		default:
			continue
		}
		// l < 0 here; l(k) >= 0 on back edges
		var c int64
		bad := false
		for _, m := range l.ts {
			if m.t == sum.k {
				cc, ok := isK(m.a)
				if !ok {
					bad = true
				}
				c = cc
			} else if I.loopTerm(sum, m.t) {
				bad = true
			}
		}
		if bad || c != -1 {
			continue
		}
		n := l.add(lt(sum.k)).addK(1)
		if entails(epc, n.sub(lt(sum.k))) && entails(epc, lt(sum.k).sub(n)) {
			return n, true
		}
	}
	for _, v := range support(epc) {
		a := atoms[v]
		if a.kind != aEQ || !Implies(epc, ddVar(int(v))) {
			continue
		}
		for _, m := range a.l.ts {
			if m.t == sum.k {
				c, ok := isK(m.a)
				if !ok || (c != 1 && c != -1) {
					continue
				}
				n := a.l.sub(lt(sum.k).scale(c)).scale(-c)
				if !I.loopLin(sum, n) {
					return n, true
				}
			}
		}
	}
	return Lin{}, false
}

// ints gives a number, or the place a slice starts from, at the head, at first
// and at the back edge.
func (lf *Leaf) ints(bpc Node) (head, init, back Lin, ok bool) {
	switch h := lf.head.(type) {
	case *Int:
		i, ok1 := lf.init.(*Int)
		b := asIntAny(lf.back)
		if !ok1 || b == nil {
			return
		}
		return h.asLin(), i.asLin(), b.asLin(), true
	case *Slice:
		i, ok1 := lf.init.(*Slice)
		b, ok2 := sliceUnder(lf.back, bpc)
		if !ok1 || !ok2 || b.obj != i.obj || h.obj != i.obj {
			return
		}
		return h.off, i.off, settle(b.off, bpc), true
	}
	return
}

// variantOf finds why the loop ends.
func (I *Interp) variantOf(sum *LoopSum) {
	if sum.back == nil {
		sum.bounded = true
		sum.variant = "never iterates"
		return
	}
	bpc := sum.back.pc
	// a form over loop symbols that is >= 0 on every back edge and decreases
	try := func(l Lin) bool {
		var dec int64
		found := false
		for _, m := range l.ts {
			if m.t == sum.k {
				c, ok := isK(m.a)
				if ok && c < 0 {
					dec += c
					found = true
					continue
				}
				return false
			}
			if lf := loopLeafs[m.t]; lf != nil && lf.loop == sum {
				c, ok := isK(m.a)
				if !ok {
					return false
				}
				h, _, b, ok := lf.ints(bpc)
				if !ok {
					return false
				}
				d := b.sub(h).scale(c)
				// d <= -1 ?
				if entails(bpc, d.neg().addK(-1)) {
					found = true
					continue
				}
				return false
			}
			if I.loopTerm(sum, m.t) {
				return false
			}
		}
		return found
	}
	for _, f := range factsOf(bpc) {
		if Implies(bpc, f.lit) && try(f.l) {
			sum.bounded = true
			sum.variant = f.l.String() + " >= 0 and decreasing"
			return
		}
	}
	for _, f := range globalFacts {
		if try(f) {
			sum.bounded = true
			sum.variant = f.String() + " >= 0 and decreasing"
			return
		}
	}
}
