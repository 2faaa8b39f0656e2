package main

// Bytes at positions that depend on guards ("the byte after the optional
// fields") are compared case by case: expandLin and expandNode replace each by
// the bytes at the definite positions.

type posCase struct {
	g   Node
	pos Lin
}

// posCases lists the definite forms of pos under care.
func posCases(pos Lin, care Node) []posCase {
	if care == False {
		return nil
	}
	pos = pos.under(care)
	for _, m := range pos.ts {
		if _, ok := isK(m.a); ok {
			continue
		}
		v := support(m.a)[0]
		x := ddVar(int(v))
		var out []posCase
		for _, pc := range posCases(pos.cof(v, true), And(care, x)) {
			out = append(out, posCase{And(x, pc.g), pc.pos})
		}
		for _, pc := range posCases(pos.cof(v, false), And(care, Not(x))) {
			out = append(out, posCase{And(Not(x), pc.g), pc.pos})
		}
		return out
	}
	var out []posCase
	for _, c := range terminalsUnder(pos.c, care) {
		g := eqK(pos.c, c)
		out = append(out, posCase{g, Lin{c: K(c), ts: pos.ts}})
	}
	return out
}

// eqK is the guard under which the diagram a is c.
func eqK(a Node, c int64) Node {
	d := mapT(a, func(v int64) int64 {
		if v == c {
			return 1
		}
		return 0
	})
	return d
}

func gatedPos(t Term) (inData, bool) {
	if termTab[t].kind != "in" {
		return inData{}, false
	}
	d, ok := termTab[t].data.(inData)
	if !ok {
		return d, false
	}
	if _, ok := isK(d.pos.c); !ok {
		return d, true
	}
	for _, m := range d.pos.ts {
		if _, ok := isK(m.a); !ok {
			return d, true
		}
	}
	return d, false
}

func expandLin(l Lin, care Node) Lin {
	r := Lin{c: expandNode(l.c, care)}
	for _, m := range l.ts {
		a := expandNode(m.a, care)
		d, ok := gatedPos(m.t)
		if !ok {
			r = r.add(Lin{c: False, ts: []monom{{m.t, a}}})
			continue
		}
		nz := Not(eqK(a, 0))
		_ = nz
		for _, pc := range posCases(d.pos, And(care, nz)) {
			r = r.add(byteAt(d.src, pc.pos).asLin().scaleN(Ite(pc.g, a, False)))
		}
	}
	return r
}

// scaleN multiplies a form by a gated constant.
func (l Lin) scaleN(a Node) Lin {
	r := Lin{c: apply(opMul, l.c, a)}
	for _, m := range l.ts {
		if n := apply(opMul, m.a, a); n != False {
			r.ts = append(r.ts, monom{m.t, n})
		}
	}
	return r
}

func expandNode(n, care Node) Node {
	if _, ok := isK(n); ok {
		return n
	}
	m := map[int32]Node{}
	for _, v := range support(n) {
		a := atoms[v]
		if a.kind != aBit {
			continue
		}
		d, ok := gatedPos(a.t)
		if !ok {
			continue
		}
		x := False
		for _, pc := range posCases(d.pos, care) {
			x = Or(x, And(pc.g, byteAt(d.src, pc.pos).bitVec()[a.i]))
		}
		m[v] = x
	}
	if len(m) == 0 {
		return n
	}
	return ddCompose(n, m)
}

// settle restricts l to pc, deciding comparisons by what the linear facts of
// each case of pc imply.
func settle(l Lin, pc Node) Lin {
	l = l.under(pc)
	open := false
	look := func(n Node) {
		for _, v := range support(n) {
			if atoms[v].kind == aGE {
				open = true
			}
		}
	}
	look(l.c)
	for _, m := range l.ts {
		look(m.a)
	}
	if !open {
		return l
	}
	budget := 200
	r, ok := settleCase(l, pc, &budget)
	if !ok {
		return l
	}
	return r.under(pc)
}

func settleCase(l Lin, pc Node, budget *int) (Lin, bool) {
	if *budget--; *budget < 0 {
		return l, false
	}
	l = l.under(pc)
	v := int32(-1)
	top := func(n Node) {
		if d := nodes[n].v; d >= 0 && (v < 0 || d < v) {
			v = d
		}
	}
	top(l.c)
	for _, m := range l.ts {
		top(m.a)
	}
	if v < 0 {
		return l, true
	}
	x := ddVar(int(v))
	if a := atoms[v]; a.kind == aGE {
		if entails(pc, a.l) {
			return settleCase(l.cof(v, true), pc, budget)
		}
		if entails(pc, a.l.neg().addK(-1)) {
			return settleCase(l.cof(v, false), pc, budget)
		}
	}
	hi, ok1 := settleCase(l.cof(v, true), And(pc, x), budget)
	lo, ok2 := settleCase(l.cof(v, false), And(pc, Not(x)), budget)
	if !ok1 || !ok2 {
		return l, false
	}
	return linIte(x, hi, lo), true
}
