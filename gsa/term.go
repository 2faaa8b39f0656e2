package main

// Terms, atoms and linear forms.

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Term int32

type termInfo struct {
	key    string
	kind   string
	w      int // bits, 0 if not an integer
	lo, hi int64
	typ    types.Type
	data   interface{}
	// constBits, if set, gives the known value of the term's bits
	known  *int64
	parent Term
}

const (
	negInf = math.MinInt64
	posInf = math.MaxInt64
)

var (
	termTab []termInfo
	termIdx map[string]Term
	atoms   []atomInfo
	atomIdx map[string]int32
)

const (
	aBit = iota // bit i of term t
	aGE         // lin >= 0
	aEQ         // lin == 0
	aOp         // opaque boolean
)

type atomInfo struct {
	kind int
	t    Term
	i    int
	l    Lin
	key  string
	fail bool // atom of an operation that can fail (removed from gates first)
}

func termsReset() {
	termTab = nil
	termIdx = map[string]Term{}
	atoms = nil
	atomIdx = map[string]int32{}
	chainIDs = map[string]int32{}
}

func intern(kind, key string, w int, lo, hi int64, typ types.Type, data interface{}) Term {
	k := kind + "|" + key
	if t, ok := termIdx[k]; ok {
		return t
	}
	t := Term(len(termTab))
	termTab = append(termTab, termInfo{key: k, kind: kind, w: w, lo: lo, hi: hi, typ: typ, data: data})
	termIdx[k] = t
	return t
}

func (t Term) String() string { return termString(t) }

func termString(t Term) string {
	k := termTab[t].key
	i := strings.IndexByte(k, '|')
	s := k[i+1:]
	if termTab[t].kind == "in" {
		d := termTab[t].data.(inData)
		return fmt.Sprintf("%s[%s]", termString(d.src), d.pos)
	}
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func atomString(v int32) string {
	a := atoms[v]
	switch a.kind {
	case aBit:
		return fmt.Sprintf("%s.%d", termString(a.t), a.i)
	case aGE:
		return "(" + a.l.String() + ">=0)"
	case aEQ:
		return "(" + a.l.String() + "==0)"
	}
	return a.key
}

func atomVar(key string, mkf func() atomInfo) Node {
	if v, ok := atomIdx[key]; ok {
		return ddVar(int(v))
	}
	a := mkf()
	v := int32(len(atoms))
	atoms = append(atoms, a)
	atomIdx[key] = v
	return ddVar(int(v))
}

func bitAtom(t Term, i int) Node {
	ti := &termTab[t]
	if ti.known != nil {
		if *ti.known>>uint(i)&1 == 1 {
			return True
		}
		return False
	}
	if ti.lo >= 0 && ti.hi != posInf && i >= bits.Len64(uint64(ti.hi)) {
		return False
	}
	if bs, ok := ti.data.([]Node); ok && (ti.kind == "bv" || ti.kind == "sbv") && i < len(bs) {
		return bs[i]
	}
	if s, ok := subOf[t]; ok {
		return bitAtom(s.t, s.lo+i)
	}
	return atomVar(fmt.Sprintf("b%d.%d", t, i), func() atomInfo { return atomInfo{kind: aBit, t: t, i: i} })
}

func opAtom(key string, fail bool) Node {
	return atomVar("o"+key, func() atomInfo { return atomInfo{kind: aOp, key: key, fail: fail} })
}

// gateRank: atoms dropped first from gates.
func gateRank(v int32) int {
	a := atoms[v]
	switch {
	case a.kind == aGE:
		return 0
	case a.kind == aEQ:
		return 1
	case a.kind == aOp && a.fail:
		return 0
	case a.kind == aOp:
		return 2
	}
	return 3
}

// ---------------------------------------------------------------- linear forms

type monom struct {
	t Term
	a Node
}

type Lin struct {
	c  Node
	ts []monom
}

func lk(v int64) Lin  { return Lin{c: K(v)} }
func lt(t Term) Lin   { return Lin{c: K(0), ts: []monom{{t, K(1)}}} }
func lInd(g Node) Lin { return Lin{c: g} }
func (l Lin) key() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", l.c)
	for _, m := range l.ts {
		fmt.Fprintf(&sb, ",%d*%d", m.a, m.t)
	}
	return sb.String()
}

func (l Lin) String() string {
	var parts []string
	for _, m := range l.ts {
		if m.a == K(1) {
			parts = append(parts, termString(m.t))
		} else {
			parts = append(parts, fmt.Sprintf("%s*%s", ddString(m.a), termString(m.t)))
		}
	}
	if l.c != False || len(parts) == 0 {
		parts = append(parts, ddString(l.c))
	}
	s := strings.Join(parts, " + ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func linOp2(a, b Lin, f func(x, y Node) Node) Lin {
	r := Lin{c: f(a.c, b.c)}
	i, j := 0, 0
	for i < len(a.ts) || j < len(b.ts) {
		var t Term
		x, y := False, False
		switch {
		case j >= len(b.ts) || (i < len(a.ts) && a.ts[i].t < b.ts[j].t):
			t, x = a.ts[i].t, a.ts[i].a
			i++
		case i >= len(a.ts) || b.ts[j].t < a.ts[i].t:
			t, y = b.ts[j].t, b.ts[j].a
			j++
		default:
			t, x, y = a.ts[i].t, a.ts[i].a, b.ts[j].a
			i++
			j++
		}
		if n := f(x, y); n != False {
			r.ts = append(r.ts, monom{t, n})
		}
	}
	return r
}

func (l Lin) add(o Lin) Lin { return linOp2(l, o, func(x, y Node) Node { return apply(opAdd, x, y) }) }
func (l Lin) sub(o Lin) Lin { return linOp2(l, o, func(x, y Node) Node { return apply(opSub, x, y) }) }
func (l Lin) addK(v int64) Lin {
	return Lin{c: apply(opAdd, l.c, K(v)), ts: l.ts}
}
func (l Lin) scale(v int64) Lin {
	return linOp2(l, lk(0), func(x, _ Node) Node { return apply(opMul, x, K(v)) })
}
func (l Lin) neg() Lin { return l.scale(-1) }
func (l Lin) gate(g Node) Lin {
	return linOp2(l, lk(0), func(x, _ Node) Node { return apply(opMul, x, g) })
}
func linIte(g Node, a, b Lin) Lin {
	return linOp2(a, b, func(x, y Node) Node { return Ite(g, x, y) })
}
func (l Lin) isConst() (int64, bool) {
	if len(l.ts) > 0 {
		return 0, false
	}
	return isK(l.c)
}
func (l Lin) eq(o Lin) bool { return l.key() == o.key() }

// under restricts the form to care (canonical only per care).
func (l Lin) under(care Node) Lin {
	if care == True {
		return l
	}
	r := Lin{c: simplifyUnder(l.c, care)}
	for _, m := range l.ts {
		if n := simplifyUnder(m.a, care); n != False {
			r.ts = append(r.ts, monom{m.t, n})
		}
	}
	return r
}

// simplifyUnder drops atoms of a decided by care.
func simplifyUnder(a, care Node) Node {
	if _, ok := isK(a); ok || care == False {
		return a
	}
	t := terminalsUnder(a, care)
	if len(t) == 1 {
		return K(t[0])
	}
	for _, v := range support(a) {
		x := ddVar(int(v))
		if Implies(care, x) {
			a = cofactor(a, v, true)
		} else if Implies(care, Not(x)) {
			a = cofactor(a, v, false)
		}
	}
	return restrictDD(a, care)
}

// restrictDD agrees with f where care holds and has no tests that care decides
// on the way (sibling substitution).
func restrictDD(f, care Node) Node {
	memo := map[[2]Node]Node{}
	var rec func(f, c Node) Node
	rec = func(f, c Node) Node {
		d := nodes[f]
		if c == True || d.v < 0 {
			return f
		}
		if c == False {
			return f
		}
		k := [2]Node{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		var r Node
		e := nodes[c]
		switch {
		case e.v >= 0 && e.v < d.v:
			r = rec(f, Or(e.lo, e.hi))
		case e.v == d.v:
			if e.lo == False {
				r = rec(d.hi, e.hi)
			} else if e.hi == False {
				r = rec(d.lo, e.lo)
			} else {
				r = mk(d.v, rec(d.lo, e.lo), rec(d.hi, e.hi))
			}
		default:
			r = mk(d.v, rec(d.lo, c), rec(d.hi, c))
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a == posInf || a == negInf || b == posInf || b == negInf {
		if (a > 0) == (b > 0) {
			return posInf
		}
		return negInf
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > math.MaxInt64 {
		if (a > 0) == (b > 0) {
			return posInf
		}
		return negInf
	}
	if (a > 0) == (b > 0) {
		return int64(lo)
	}
	return -int64(lo)
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func satAdd(a, b int64) int64 {
	if a == posInf || b == posInf {
		if a == negInf || b == negInf {
			return negInf // caller treats as unknown
		}
		return posInf
	}
	if a == negInf || b == negInf {
		return negInf
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return posInf
	}
	if a < 0 && b < 0 && s >= 0 {
		return negInf
	}
	return s
}

var satAddCache map[[2]Node]Node

func ddSatAdd(a, b Node) Node {
	if a == False {
		return b
	}
	if b == False {
		return a
	}
	if r, ok := satAddCache[[2]Node{a, b}]; ok {
		return r
	}
	da, db := nodes[a], nodes[b]
	var r Node
	if da.v < 0 && db.v < 0 {
		r = K(satAdd(da.val, db.val))
	} else {
		v := da.v
		if v < 0 || (db.v >= 0 && db.v < v) {
			v = db.v
		}
		al, ah, bl, bh := a, a, b, b
		if da.v == v {
			al, ah = da.lo, da.hi
		}
		if db.v == v {
			bl, bh = db.lo, db.hi
		}
		r = mk(v, ddSatAdd(al, bl), ddSatAdd(ah, bh))
	}
	satAddCache[[2]Node{a, b}] = r
	return r
}

// termRange: the range of a term, refined where its known bits say more.
func termRange(t Term) (int64, int64) { return termTab[t].lo, termTab[t].hi }

// lower is a diagram bounding the form from below, pointwise in the guards.
func (l Lin) lower() Node {
	r := l.c
	for _, m := range l.ts {
		lo, hi := termRange(m.t)
		x := mapT(m.a, func(c int64) int64 {
			if c > 0 {
				return satMul(c, lo)
			}
			if c < 0 {
				return satMul(c, hi)
			}
			return 0
		})
		r = ddSatAdd(r, x)
	}
	return r
}
func (l Lin) upper() Node {
	return mapT(l.neg().lower(), func(c int64) int64 {
		if c == negInf {
			return posInf
		}
		if c == posInf {
			return negInf
		}
		return -c
	})
}

// rangeUnder: bounds of the form where care holds (interval reasoning only).
func (l Lin) rangeUnder(care Node) (int64, int64) {
	if care == False {
		return 0, 0
	}
	lo, _, _ := minMax(l.lower(), care)
	_, hi, _ := minMax(l.upper(), care)
	// refine single-term forms by known bits of the term under care
	return lo, hi
}

// refine bounds of term t under care from its bit atoms.
func termRangeUnder(t Term, care Node) (int64, int64) {
	lo, hi := termRange(t)
	ti := termTab[t]
	if ti.w == 0 || ti.w > 32 || ti.lo < 0 {
		return lo, hi
	}
	var must, may int64
	any := false
	for i := 0; i < ti.w; i++ {
		v, ok := atomIdx[fmt.Sprintf("b%d.%d", t, i)]
		if !ok {
			if i < bits.Len64(uint64(hi)) {
				may |= 1 << uint(i)
			}
			continue
		}
		any = true
		x := ddVar(int(v))
		switch {
		case Implies(care, x):
			must |= 1 << uint(i)
			may |= 1 << uint(i)
		case Implies(care, Not(x)):
		default:
			may |= 1 << uint(i)
		}
	}
	if any {
		if must > lo {
			lo = must
		}
		if may < hi {
			hi = may
		}
		// care may also bound the bits jointly; try thresholds lo+1 .. via bit comparison
		if ti.w <= 16 {
			bs := make([]Node, ti.w)
			for i := range bs {
				bs[i] = bitAtom(t, i)
			}
			lo, hi = bitBounds(bs, care)
		}
	}
	return lo, hi
}

// bitBounds: exact minimum and maximum of the number with the given bits under care.
func bitBounds(bs []Node, care Node) (int64, int64) {
	if care == False {
		return 0, 0
	}
	var lo, hi int64
	c := care
	for i := len(bs) - 1; i >= 0; i-- {
		if x := And(c, Not(bs[i])); x != False {
			c = x
		} else {
			lo |= 1 << uint(i)
		}
	}
	c = care
	for i := len(bs) - 1; i >= 0; i-- {
		if x := And(c, bs[i]); x != False {
			c = x
			hi |= 1 << uint(i)
		}
	}
	return lo, hi
}

func normSign(l Lin) Lin {
	// make the first nonzero coefficient positive
	var n Node
	if len(l.ts) > 0 {
		n = l.ts[0].a
	} else {
		n = l.c
	}
	for {
		d := nodes[n]
		if d.v < 0 {
			if d.val < 0 {
				return l.neg()
			}
			return l
		}
		if d.hi != False {
			n = d.hi
		} else {
			n = d.lo
		}
	}
}

// constCoef: are all coefficients of the terms constants?
func (l Lin) constCoef() bool {
	for _, m := range l.ts {
		if _, ok := isK(m.a); !ok {
			return false
		}
	}
	return true
}

var chainIDs map[string]int32

const maxSplit = 128

// byCases builds a guard by cases of the gates in l; f gets forms whose
// coefficients and constant are plain numbers.
func byCases(l Lin, f func(l Lin) Node) (Node, bool) {
	limit := 4 * maxSplit
	if l.constCoef() {
		limit = 20000
	}
	memo := map[string]Node{}
	ok := true
	var rec func(l Lin) Node
	rec = func(l Lin) Node {
		if !ok {
			return False
		}
		k := l.key()
		if r, has := memo[k]; has {
			return r
		}
		v := nodes[l.c].v
		for _, m := range l.ts {
			if mv := nodes[m.a].v; mv >= 0 && (v < 0 || mv < v) {
				v = mv
			}
		}
		if len(memo) > limit {
			ok = false
			return False
		}
		var r Node
		if v < 0 {
			if len(l.ts) == 0 {
				r = f(l)
			} else {
				r = f(l)
			}
		} else {
			r = Ite(ddVar(int(v)), rec(l.cof(v, true)), rec(l.cof(v, false)))
		}
		memo[k] = r
		return r
	}
	r := rec(l)
	return r, ok
}

// cof: the form where the (topmost) variable v has the given value.
func (l Lin) cof(v int32, val bool) Lin {
	co := func(n Node) Node {
		d := nodes[n]
		if d.v != v {
			return n
		}
		if val {
			return d.hi
		}
		return d.lo
	}
	r := Lin{c: co(l.c)}
	for _, m := range l.ts {
		if a := co(m.a); a != False {
			r.ts = append(r.ts, monom{m.t, a})
		}
	}
	return r
}

// mkGE is the guard l >= 0.
func mkGE(l Lin) Node {
	if len(l.ts) == 0 {
		return GE0(l.c)
	}
	if r, ok := byCases(l, geAtom); ok {
		return r
	}
	yes := GE0(l.lower())
	no := Not(GE0(l.upper()))
	if Or(yes, no) == True {
		return yes
	}
	key := "g" + l.key()
	a := atomVar(key, func() atomInfo { return atomInfo{kind: aGE, l: l} })
	return Or(yes, And(Not(no), a))
}

// geAtom: terms of l + c >= 0, constant coefficients.
func geAtom(l Lin) Node {
	c, _ := isK(l.c)
	if len(l.ts) == 0 {
		return boolNode(c >= 0)
	}
	if v, _ := isK(l.lower()); v >= 0 {
		return True
	}
	if v, _ := isK(l.upper()); v < 0 {
		return False
	}
	if v, _ := isK(l.ts[0].a); v < 0 {
		return Not(geAtom(l.neg().addK(-1)))
	}
	key := "g" + l.key()
	if v, ok := atomIdx[key]; ok {
		return ddVar(int(v))
	}
	ck := Lin{c: False, ts: l.ts}.key()
	id, ok := chainIDs[ck]
	if !ok {
		id = int32(len(chainIDs) + 1)
		chainIDs[ck] = id
	}
	setChain(int32(len(atoms)), id, -c)
	return atomVar(key, func() atomInfo { return atomInfo{kind: aGE, l: l} })
}

// mkEQ is the guard l == 0.
func mkEQ(l Lin) Node {
	l = normSign(l)
	if len(l.ts) == 0 {
		return And(GE0(l.c), GE0(mapT(l.c, func(v int64) int64 { return -v })))
	}
	if r, ok := byCases(l, func(l Lin) Node { return And(geAtom(l), geAtom(l.neg())) }); ok {
		return r
	}
	lo, up := l.lower(), l.upper()
	impossible := Or(GE0(mapT(lo, func(v int64) int64 { return satAdd(v, -1) })), Not(GE0(up)))
	if impossible == True {
		return False
	}
	a := atomVar("e"+l.key(), func() atomInfo { return atomInfo{kind: aEQ, l: l} })
	return And(Not(impossible), a)
}

// facts returns the forms known to be >= 0 where the literal holds.
type fact struct {
	lit Node
	l   Lin
}

func factsOf(care Node) []fact {
	var out []fact
	for _, v := range support(care) {
		a := atoms[v]
		x := ddVar(int(v))
		switch a.kind {
		case aGE:
			if And(care, x) != False {
				out = append(out, fact{x, a.l})
			}
			if And(care, Not(x)) != False {
				out = append(out, fact{Not(x), a.l.neg().addK(-1)})
			}
		case aEQ:
			if And(care, x) != False {
				out = append(out, fact{x, a.l}, fact{x, a.l.neg()})
			}
		}
	}
	return out
}

// extra facts that always hold (invariants of objects, assumptions)
var globalFacts []Lin

var entailDepth = 2

// entails: does care imply l >= 0?
func entails(care Node, l Lin) bool {
	if care == False {
		return true
	}
	if Implies(care, mkGE(l)) {
		return true
	}
	cov := coverGE(care, l)
	return Implies(care, cov)
}

func coverGE(care Node, l Lin) Node {
	cov := GE0(lowerUnder(l, care))
	if Implies(care, cov) {
		return True
	}
	fs := factsOf(care)
	for _, g := range globalFacts {
		fs = append(fs, fact{True, g})
	}
	// only facts sharing a term with l can help
	type cand struct {
		lit Node
		l   Lin
	}
	level := []cand{{True, l}}
	seen := map[string]bool{}
	for d := 0; d < 3; d++ {
		var next []cand
		for _, c := range level {
			for _, f := range fs {
				if !sharesOpp(c.l, f.l) {
					continue
				}
				lit := And(c.lit, f.lit)
				if And(lit, care) == False {
					continue
				}
				n := c.l.sub(f.l)
				k := fmt.Sprintf("%d/%s", lit, n.key())
				if seen[k] {
					continue
				}
				seen[k] = true
				cov = Or(cov, And(lit, GE0(lowerUnder(n, And(care, lit)))))
				next = append(next, cand{lit, n})
				if len(next) > 400 {
					break
				}
			}
			if Implies(care, cov) {
				return True
			}
		}
		level = next
	}
	return cov
}

// lowerUnder: like lower, using ranges refined by care.
func lowerUnder(l Lin, care Node) Node {
	r := l.c
	for _, m := range l.ts {
		lo, hi := termRangeUnder(m.t, care)
		x := mapT(m.a, func(c int64) int64 {
			if c > 0 {
				return satMul(c, lo)
			}
			if c < 0 {
				return satMul(c, hi)
			}
			return 0
		})
		r = ddSatAdd(r, x)
	}
	return r
}

// sharesOpp: would subtracting f cancel or reduce a term of l?
func sharesOpp(l, f Lin) bool {
	for _, m := range l.ts {
		for _, n := range f.ts {
			if m.t == n.t {
				// same sign coefficient somewhere
				for _, a := range terminalsUnder(m.a, True) {
					for _, b := range terminalsUnder(n.a, True) {
						if (a > 0 && b > 0) || (a < 0 && b < 0) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// equalUnder: are the forms equal wherever care holds?
func linEqUnder(a, b Lin, care Node) bool {
	d := a.sub(b)
	ok := ddEqUnder(d.c, False, care)
	for _, m := range d.ts {
		if !ddEqUnder(m.a, False, care) {
			ok = false
		}
	}
	if ok {
		return true
	}
	// a number that has one value only where it counts
	c, n := d.c, d.ts
	d = Lin{c: c}
	for _, m := range n {
		nz := And(care, Or(GE0(apply(opSub, m.a, K(1))), GE0(apply(opSub, K(-1), m.a))))
		if nz == False {
			continue
		}
		if lo, hi := termRangeUnder(m.t, nz); lo == hi {
			d.c = apply(opAdd, d.c, mapT(m.a, func(v int64) int64 { return satMul(v, lo) }))
			continue
		}
		d.ts = append(d.ts, m)
	}
	if len(d.ts) < len(n) {
		return linEqUnder(d, lk(0), care)
	}
	return entails(care, d) && entails(care, d.neg())
}

func sortMonoms(ts []monom) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].t < ts[j].t })
}

// termOfLin names a linear form as a term.
func termOfLin(l Lin) Term {
	if len(l.ts) == 1 && l.ts[0].a == True && l.c == False {
		return l.ts[0].t
	}
	lo, hi := l.rangeUnder(True)
	w := 64
	if lo >= 0 && hi != posInf {
		w = bits.Len64(uint64(hi))
	}
	return intern("lin", l.key(), w, lo, hi, nil, l)
}

type inData struct {
	src Term
	pos Lin
}

// inByte is the byte at position pos of the opaque sequence src.
func inByte(src Term, pos Lin) Term {
	return intern("in", fmt.Sprintf("%d@%s", src, pos.key()), 8, 0, 255, nil, inData{src, pos})
}

func boolNode(b bool) Node {
	if b {
		return True
	}
	return False
}
