package main

import (
	"fmt"
	"go/types"
)

// subst replaces terms by linear forms throughout values and guards.
type subst struct {
	m    map[Term]Lin
	care Node          // what is written down needs to hold under this only
	memo map[Term]*Int // nil: unchanged
	done map[Term]bool
	nm   map[Node]Node
}

func newSubst(m map[Term]Lin) *subst {
	return &subst{m: m, care: True, memo: map[Term]*Int{}, done: map[Term]bool{}, nm: map[Node]Node{}}
}

// term gives the replacement of a term, or nil.
func (s *subst) term(t Term) *Int {
	if l, ok := s.m[t]; ok {
		return intL(l, 64, true)
	}
	if s.done[t] {
		return s.memo[t]
	}
	s.done[t] = true
	r := s.term1(t)
	s.memo[t] = r
	return r
}

func (s *subst) src(t Term) (Term, bool) {
	if t < 0 {
		return t, false
	}
	if d, ok := termTab[t].data.(subSeq); ok {
		q := s.seq(d.s)
		off := s.lin(d.off)
		if q.key() != d.s.key() || !off.eq(d.off) {
			return intern("list", "sub:"+q.key()+"@"+off.key(), 0, 0, 0, termTab[t].typ, subSeq{q, off}), true
		}
	}
	return t, false
}

func (s *subst) term1(t Term) *Int {
	ti := termTab[t]
	switch d := ti.data.(type) {
	case inData:
		p := s.lin(d.pos)
		src, ch := s.src(d.src)
		if !ch && p.eq(d.pos) {
			return nil
		}
		return byteAt(src, p)
	case idxData:
		b := s.lin(d.base)
		if b.eq(d.base) {
			return nil
		}
		return intTerm(idxTerm(d.src, b, d.delim), 64, true)
	case Lin:
		l := s.lin(d)
		if l.eq(d) {
			return nil
		}
		switch ti.kind {
		case "lin":
			return intL(l, 64, true)
		case "wrap":
			sgn := ti.lo < 0
			return mkInt(l, ti.w, sgn, True)
		case "mod":
			return intTerm(intern("mod", fmt.Sprintf("%s%%%d", l.key(), 64), 64, negInf, posInf, nil, l), 64, true)
		}
	case divData:
		l := s.lin(d.l)
		if l.eq(d.l) {
			return nil
		}
		q, _ := divLin(l, d.d, True)
		return intL(q, 64, true)
	case []Node:
		out := make([]Node, len(d))
		ch := false
		for i, n := range d {
			out[i] = s.node(n)
			if out[i] != n {
				ch = true
			}
		}
		if !ch {
			return nil
		}
		return intBits(out, ti.kind == "sbv")
	case foldData:
		q := s.seq(d.s)
		iv := s.val(d.init)
		if q.key() == d.s.key() && keyOf(iv) == keyOf(d.init) {
			return nil
		}
		return intTerm(mkFold(iv, d.step, d.w, q), d.w, false)
	case Term:
		if ti.kind == "len" {
			if n, ch := s.src(d); ch {
				return intL(lenTerm(n), 64, true)
			}
		}
	}
	if si, ok := subOf[t]; ok {
		p := s.term(si.t)
		if p == nil {
			return nil
		}
		w := si.lo + si.n
		if w < 64 {
			w = 64
		}
		bs := linOrBits(p, w)
		return intBits(append([]Node(nil), bs[si.lo:si.lo+si.n]...), false)
	}
	if e, ok := elemAlias[t]; ok {
		q, i := s.seq(e.s), s.lin(e.idx)
		if q.key() == e.s.key() && i.eq(e.idx) {
			return nil
		}
		if v, ok := q.at(i, True); ok {
			if iv, ok := v.(*Int); ok {
				return iv
			}
		}
		n := intern("el", q.key()+"@"+i.key(), 8, 0, 255, nil, nil)
		elemAlias[n] = elData{q, i}
		return intTerm(n, 8, false)
	}
	return nil
}

func linOrBits(x *Int, w int) []Node {
	if x.bits != nil {
		bs := append([]Node(nil), x.bits...)
		for len(bs) < w {
			bs = append(bs, False)
		}
		return bs
	}
	return linBits(*x.l, w)
}

func (s *subst) lin(l Lin) Lin {
	if s.care != True {
		l = l.under(s.care)
	}
	c := s.node(l.c)
	r := Lin{c: c}
	ch := c != l.c
	for _, m := range l.ts {
		a := s.node(m.a)
		if n := s.term(m.t); n != nil {
			ch = true
			x := n.asLin()
			r = r.add(linOp2(x, lk(0), func(p, _ Node) Node { return apply(opMul, p, a) }))
		} else {
			if a != m.a {
				ch = true
			}
			r = r.add(Lin{c: False, ts: []monom{{m.t, a}}})
		}
	}
	if !ch {
		return l
	}
	return r
}

func (s *subst) node(n Node) Node {
	if _, ok := isK(n); ok {
		return n
	}
	if r, ok := s.nm[n]; ok {
		return r
	}
	was := n
	if s.care != True {
		n = simplifyUnder(n, s.care)
		if _, ok := isK(n); ok {
			s.nm[was] = n
			return n
		}
	}
	m := map[int32]Node{}
	for _, v := range support(n) {
		a := atoms[v]
		switch a.kind {
		case aBit:
			if x := s.term(a.t); x != nil {
				w := a.i + 1
				if w < 64 {
					w = 64
				}
				m[v] = linOrBits(x, w)[a.i]
			}
		case aGE:
			if l := s.lin(a.l); !l.eq(a.l) {
				m[v] = mkGE(l)
			}
		case aEQ:
			if l := s.lin(a.l); !l.eq(a.l) {
				m[v] = mkEQ(l)
			}
		}
	}
	r := n
	if len(m) > 0 {
		r = ddCompose(n, m)
	}
	s.nm[was] = r
	return r
}

func (s *subst) seq(q *Seq) *Seq {
	r := &Seq{byts: q.byts}
	ch := false
	for _, p := range q.ps {
		g := s.node(p.g)
		if g != p.g {
			ch = true
		}
		if p.v != nil {
			v := s.val(p.v)
			if !sameIface(v, p.v) {
				ch = true
			}
			r.push(Piece{g: g, v: v})
			continue
		}
		src, c2 := s.src(p.src)
		off, n := s.lin(p.off), s.lin(p.n)
		if c2 || !off.eq(p.off) || !n.eq(p.n) {
			ch = true
			if g == True {
				if d, ok := termTab[src].data.(subSeq); ok && src >= 0 && len(d.s.ps) > 1 {
					if part, ok := d.s.slice(d.off.add(off), n, True); ok {
						for _, x := range part.ps {
							r.push(x)
						}
						continue
					}
				}
				for _, x := range segSeq(src, off, n, q.byts, nil).ps {
					r.push(x)
				}
				continue
			}
		}
		r.push(Piece{g: g, src: src, off: off, n: n})
	}
	if !ch {
		return q
	}
	return r
}

func (s *subst) val(v Val) Val {
	switch x := v.(type) {
	case *Int:
		if x.l != nil {
			l := s.lin(*x.l)
			if l.eq(*x.l) {
				return x
			}
			return intL(l, x.w, x.sgn)
		}
		out := make([]Node, len(x.bits))
		ch := false
		for i, b := range x.bits {
			out[i] = s.node(b)
			ch = ch || out[i] != b
		}
		if !ch {
			return x
		}
		return intBits(out, x.sgn)
	case Bool:
		return Bool{s.node(x.n)}
	case *Str:
		q := s.seq(x.s)
		if q == x.s {
			return x
		}
		return &Str{q}
	case *Seq:
		return s.seq(x)
	case *TimeV:
		return &TimeV{s.lin(x.ns)}
	case *Float:
		if x.base == nil {
			return x
		}
		return mkFloat(x.r, s.val(x.base), s.node(x.neg))
	case *Slice:
		if x.obj == nil {
			return x
		}
		return &Slice{obj: x.obj, off: s.lin(x.off), n: s.lin(x.n), cap: s.lin(x.cap), elt: x.elt, nilG: s.node(x.nilG)}
	case *Ptr:
		ch := false
		for _, e := range x.path {
			if e.field < 0 {
				ch = true
			}
		}
		if !ch {
			return x
		}
		p := &Ptr{obj: x.obj}
		for _, e := range x.path {
			if e.field < 0 {
				e.idx = s.lin(e.idx)
			}
			p.path = append(p.path, e)
		}
		return p
	case *StructV:
		r := &StructV{typ: x.typ, nam: x.nam}
		ch := false
		for _, f := range x.f {
			n := s.val(f)
			if !sameIface(n, f) {
				ch = true
			}
			r.f = append(r.f, n)
		}
		if !ch {
			return x
		}
		return r
	case *Iface:
		n := s.val(x.v)
		if sameIface(n, x.v) {
			return x
		}
		return &Iface{x.typ, n}
	case *IteV:
		return iteVal(s.node(x.g), s.val(x.a), s.val(x.b))
	case *Tuple:
		r := &Tuple{}
		for _, f := range x.vs {
			r.vs = append(r.vs, s.val(f))
		}
		return r
	case *Model:
		m := *x
		m.s = s.seq(x.s)
		m.pos = s.lin(x.pos)
		return &m
	}
	return v
}

var _ = types.Typ
