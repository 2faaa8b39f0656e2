package main

// Abstract values.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// Int is an integer: known bits, or a linear form, or both.
type Int struct {
	w    int
	sgn  bool
	bits []Node // nil if only the form is known
	l    *Lin
}

type Bool struct{ n Node }

type Float struct {
	// value = r * base, base an opaque value; or constant if base == nil
	r    *big.Rat
	base Val // *Opaque or *Int (exact integer)
	neg  Node
}

// mkFloat makes r * base, negated where neg: the factor of a base is kept positive.
func mkFloat(r *big.Rat, base Val, neg Node) *Float {
	if base != nil && r.Sign() < 0 {
		r, neg = new(big.Rat).Neg(r), Not(neg)
	}
	return &Float{r: r, base: base, neg: neg}
}

// TimeV is an instant as nanoseconds since the Unix epoch.
type TimeV struct{ ns Lin }

type Piece struct {
	g   Node
	v   Val  // a single element, or nil for a segment
	src Term // segment of an opaque sequence
	off Lin
	n   Lin
}

type Seq struct {
	ps   []Piece
	byts bool // byte sequence
}

type Str struct{ s *Seq }

type Obj struct {
	id    int
	kind  string // "cell", "arr", "model"
	typ   types.Type
	name  string
	sym   bool // part of the symbolic input
	root  string
	site  string
	fresh int // allocation serial
}

// shared: memory the analysed function did not allocate itself.
func (o *Obj) shared() bool { return o.sym || o.kind == "global" }

type Slice struct {
	obj  *Obj // nil for nil slice
	off  Lin
	n    Lin
	cap  Lin
	elt  types.Type
	nilG Node // guard under which the slice is nil
}

type pathEl struct {
	field int // >= 0: struct field; -1: array element
	idx   Lin
}

type Ptr struct {
	obj  *Obj
	path []pathEl
}

type StructV struct {
	typ *types.Struct
	nam types.Type
	f   []Val
}

type Iface struct {
	typ types.Type
	v   Val
}

type NilV struct{ typ types.Type }

type Opaque struct {
	t   Term
	typ types.Type
}

type IteV struct {
	g    Node
	a, b Val
}

type Tuple struct{ vs []Val }

type Closure struct {
	fn *ssa.Function
	bs []Val
}

type BuiltinV struct{ name string }

type MapV struct {
	keys []Val
	vals []Val
	elt  types.Type
}

// ErrV is a non-nil error made or returned at a given event.
type ErrV struct{ t Term }

// Model is the state of a modelled library object (reader, buffer, stream).
type Model struct {
	kind string // reader, buffer, stream
	s    *Seq
	pos  Lin
	typ  types.Type
	// backing memory shared with the caller
	obj   *Obj
	off   Lin
	spare bool
}

// ---------------------------------------------------------------- integers

func intK(v int64, w int, sgn bool) *Int {
	l := lk(v)
	return &Int{w: w, sgn: sgn, l: &l}
}

func intL(l Lin, w int, sgn bool) *Int { return &Int{w: w, sgn: sgn, l: &l} }

func intBits(bs []Node, sgn bool) *Int { return &Int{w: len(bs), sgn: sgn, bits: bs} }

func intTerm(t Term, w int, sgn bool) *Int { return intL(lt(t), w, sgn) }

func byteAt(src Term, pos Lin) *Int {
	for _, m := range pos.ts {
		if termTab[m.t].kind == "idx" && m.a == True {
			d := termTab[m.t].data.(idxData)
			if d.src == src && pos.sub(lt(m.t)).eq(d.base) {
				return intK(int64(d.delim), 8, false)
			}
		}
	}
	// bytes of a sequence with known content
	return intTerm(inByte(src, pos), 8, false)
}

type idxData struct {
	src   Term
	base  Lin
	delim byte
}

// idxTerm is the distance from base to the first byte equal to delim.
func idxTerm(src Term, base Lin, delim byte) Term {
	return intern("idx", fmt.Sprintf("%d@%s=%d", src, base.key(), delim), 32, 0, 1<<31, nil, idxData{src, base, delim})
}

func typeRange(w int, sgn bool) (int64, int64) {
	if sgn {
		if w >= 64 {
			return negInf, posInf
		}
		return -(1 << uint(w-1)), 1<<uint(w-1) - 1
	}
	if w >= 63 {
		return 0, posInf
	}
	return 0, 1<<uint(w) - 1
}

func (x *Int) constant() (int64, bool) {
	if x.l != nil {
		return x.l.isConst()
	}
	var v int64
	for i, b := range x.bits {
		switch b {
		case True:
			v |= 1 << uint(i)
		case False:
		default:
			return 0, false
		}
	}
	if x.sgn && x.w < 64 && v>>uint(x.w-1)&1 == 1 {
		v -= 1 << uint(x.w)
	}
	return v, true
}

// bitVec gives the bits of the value (two's complement, width w).
func (x *Int) bitVec() []Node {
	if x.bits != nil {
		return x.bits
	}
	x.bits = linBits(*x.l, x.w)
	return x.bits
}

func constBits(c Node, w int) []Node {
	out := make([]Node, w)
	for i := range out {
		sh := uint(i)
		out[i] = mapT(c, func(v int64) int64 { return v >> sh & 1 })
	}
	return out
}

// linBits gives the low w bits of a linear form.
func linBits(l Lin, w int) []Node {
	if len(l.ts) == 0 {
		return constBits(l.c, w)
	}
	out := make([]Node, w)
	for i := range out {
		out[i] = False
	}
	type part struct {
		sh, wd int
		t      Term
		g      Node
	}
	var ps []part
	rest := Lin{c: l.c}
	for _, m := range l.ts {
		ok := false
		ti := termTab[m.t]
		if ti.lo >= 0 && ti.hi != posInf {
			tv := terminalsUnder(m.a, True)
			c := tv[len(tv)-1]
			if c > 0 && c&(c-1) == 0 && (len(tv) == 1 || (len(tv) == 2 && tv[0] == 0)) {
				g := mapT(m.a, func(v int64) int64 {
					if v != 0 {
						return 1
					}
					return 0
				})
				ps = append(ps, part{bits.TrailingZeros64(uint64(c)), bits.Len64(uint64(ti.hi)), m.t, g})
				ok = true
			}
		}
		if !ok {
			rest.ts = append(rest.ts, m)
		}
	}
	// constant part: keep in rest; rest must lie below or be disjoint from the parts
	sort.Slice(ps, func(i, j int) bool { return ps[i].sh < ps[j].sh })
	good := true
	top := 0
	for i := 0; i < len(ps) && good; i++ {
		if i > 0 && ps[i].sh < top {
			good = false
		}
		top = ps[i].sh + ps[i].wd
	}
	if good && (len(rest.ts) > 0 || rest.c != False) {
		if len(rest.ts) == 0 {
			// constant bits must be disjoint from parts
			cb := constBits(rest.c, 63)
			lo, _, _ := minMax(rest.c, True)
			if lo < 0 {
				good = false
			}
			for _, p := range ps {
				for i := p.sh; i < p.sh+p.wd && i < 63; i++ {
					if cb[i] != False {
						good = false
					}
				}
			}
		} else {
			lo, hi := rest.rangeUnder(True)
			if lo < 0 || hi == posInf {
				good = false
			} else if len(ps) > 0 && bits.Len64(uint64(hi)) > ps[0].sh {
				good = false
			}
		}
	}
	if good && len(ps)+len(rest.ts) > 0 {
		if len(rest.ts) > 0 {
			if len(ps) == 0 {
				good = true
			}
		}
		for _, p := range ps {
			for i := 0; i < p.wd && p.sh+i < w; i++ {
				out[p.sh+i] = And(p.g, bitAtom(p.t, i))
			}
		}
		if len(rest.ts) == 0 {
			cb := constBits(rest.c, w)
			for i := range out {
				out[i] = Or(out[i], cb[i])
			}
		} else {
			t := termOfLin(rest)
			n := bits.Len64(uint64(termTab[t].hi))
			for i := 0; i < n && i < w; i++ {
				out[i] = Or(out[i], bitAtom(t, i))
			}
		}
		return out
	}
	// opaque bits of the value modulo 2^w
	lo, hi := l.rangeUnder(True)
	if lo >= 0 && hi != posInf {
		t := termOfLin(l)
		for i := range out {
			out[i] = bitAtom(t, i)
		}
		return out
	}
	t := intern("mod", fmt.Sprintf("%s%%%d", l.key(), 64), 64, negInf, posInf, nil, l)
	for i := range out {
		out[i] = bitAtom(t, i)
	}
	return out
}

// asLin gives the value as a linear form.
func (x *Int) asLin() Lin {
	if x.l != nil {
		return *x.l
	}
	l := bitsLin(x.bits, x.sgn)
	x.l = &l
	return l
}

func bitsLin(bs []Node, sgn bool) Lin {
	w := len(bs)
	if sgn && bs[w-1] != False {
		if c, ok := (&Int{w: w, sgn: sgn, bits: bs}).constant(); ok {
			return lk(c)
		}
		lo, hi := typeRange(w, true)
		return lt(intern("sbv", bitsKey(bs), w, lo, hi, nil, bs))
	}
	r := lk(0)
	rest := make([]Node, w)
	anyRest := false
	for i := range rest {
		rest[i] = False
	}
	for i := 0; i < w; {
		b := bs[i]
		if b == False {
			i++
			continue
		}
		if b == True {
			r = r.addK(1 << uint(i))
			i++
			continue
		}
		d := nodes[b]
		if d.lo == False && d.hi == True && atoms[d.v].kind == aBit {
			a := atoms[d.v]
			j := i + 1
			for j < w {
				dj := nodes[bs[j]]
				if dj.v < 0 || dj.lo != False || dj.hi != True || atoms[dj.v].kind != aBit || atoms[dj.v].t != a.t || atoms[dj.v].i != a.i+(j-i) {
					break
				}
				j++
			}
			t := subTerm(a.t, a.i, j-i)
			if termTab[t].kind == "lin" {
				r = r.add(termTab[t].data.(Lin).scale(1 << uint(i)))
			} else {
				r = r.add(lt(t).scale(1 << uint(i)))
			}
			i = j
			continue
		}
		rest[i] = b
		anyRest = true
		i++
	}
	if anyRest {
		// a common gate g: bits are g & x  ->  g * form(x)
		if g, xs, ok := commonGate(rest); ok {
			in := bitsLin(xs, false)
			return r.add(in.gate(g))
		}
		var hi int64
		for i, b := range rest {
			if b != False {
				if i >= 62 {
					hi = posInf
					break
				}
				hi |= 1 << uint(i)
			}
		}
		t := intern("bv", bitsKey(rest), w, 0, hi, nil, rest)
		r = r.add(lt(t))
	}
	return r
}

// commonGate recognises bits of the form g & x_i with x_i plain atoms.
func commonGate(bs []Node) (Node, []Node, bool) {
	// x_i = the bit atom with the highest index in the support
	xs := make([]Node, len(bs))
	var g Node
	first := true
	for i, b := range bs {
		xs[i] = False
		if b == False {
			continue
		}
		found := false
		for _, v := range support(b) {
			if atoms[v].kind != aBit {
				continue
			}
			x := ddVar(int(v))
			if cofactor(b, v, false) != False {
				continue
			}
			gg := cofactor(b, v, true)
			if first || gg == g {
				// the candidate must belong to a run: accept if the gate does not contain it
				g = gg
				xs[i] = x
				found = true
				// prefer the atom whose bit index fits position
			}
			if found && !first {
				break
			}
		}
		if !found {
			return 0, nil, false
		}
		first = false
		if And(g, xs[i]) != b {
			return 0, nil, false
		}
	}
	if first {
		return 0, nil, false
	}
	if _, ok := isK(g); ok {
		return 0, nil, false
	}
	return g, xs, true
}

func bitsKey(bs []Node) string {
	var sb strings.Builder
	for _, b := range bs {
		fmt.Fprintf(&sb, "%d.", b)
	}
	return sb.String()
}

// subTerm is bits [lo, lo+n) of t as a number.
func subTerm(t Term, lo, n int) Term {
	ti := termTab[t]
	if lo == 0 && ti.lo >= 0 && ti.hi != posInf && bits.Len64(uint64(ti.hi)) <= n {
		return t
	}
	bs := make([]Node, n)
	for i := range bs {
		bs[i] = bitAtom(t, lo+i)
	}
	var hi int64 = posInf
	if n < 63 {
		hi = 1<<uint(n) - 1
	}
	s := intern("sub", fmt.Sprintf("%d[%d+%d]", t, lo, n), n, 0, hi, nil, nil)
	subOf[s] = subInfo{t, lo, n}
	return s
}

type subInfo struct {
	t     Term
	lo, n int
}

var subOf map[Term]subInfo

// canonical bits of sub terms are those of the parent
func init() { subOf = map[Term]subInfo{} }

// ---------------------------------------------------------------- ops on ints

func mkInt(l Lin, w int, sgn bool, pc Node) *Int {
	// exact if in range, else wrapped
	lo, hi := typeRange(w, sgn)
	okLo := lo == negInf || entails(pc, l.addK(-lo))
	okHi := hi == posInf || entails(pc, lk(hi).sub(l))
	if okLo && okHi {
		return intL(l, w, sgn)
	}
	if a, b := l.rangeUnder(True); a == -1 && b == 0 && !sgn {
		// minus a bit: that bit everywhere
		m := linBits(l.scale(-1), 1)[0]
		bs := make([]Node, w)
		for i := range bs {
			bs[i] = m
		}
		return intBits(bs, sgn)
	}
	t := intern("wrap", fmt.Sprintf("%v%d(%s)", sgn, w, l.key()), w, lo, hi, nil, l)
	return intTerm(t, w, sgn)
}

func isWrapTerm(t Term) bool { return termTab[t].kind == "wrap" }

func convInt(x *Int, w int, sgn bool, pc Node) *Int {
	if x.bits != nil && x.l == nil {
		bs := make([]Node, w)
		for i := range bs {
			switch {
			case i < x.w:
				bs[i] = x.bits[i]
			case x.sgn:
				bs[i] = x.bits[x.w-1]
			default:
				bs[i] = False
			}
		}
		return intBits(bs, sgn)
	}
	l := *x.l
	lo, hi := typeRange(w, sgn)
	slo, shi := typeRange(x.w, x.sgn)
	if (lo <= slo && shi <= hi) || (w >= 63 && x.w >= 63 && sgn == x.sgn) {
		return intL(l, w, sgn)
	}
	okLo := lo == negInf || entails(pc, l.addK(-lo))
	okHi := hi == posInf || entails(pc, lk(hi).sub(l))
	if okLo && okHi {
		return intL(l, w, sgn)
	}
	// truncation: use bits if they are structural, else a wrap term
	if structuralBits(l) && w <= x.w {
		bs := x.bitVec()
		return intBits(append([]Node(nil), bs[:w]...), sgn)
	}
	if w > x.w { // sign change upwards
		if structuralBits(l) {
			return convInt(intBits(x.bitVec(), x.sgn), w, sgn, pc)
		}
	}
	t := intern("wrap", fmt.Sprintf("%v%d(%s)", sgn, w, l.key()), w, lo, hi, nil, l)
	return intTerm(t, w, sgn)
}

// structuralBits: the form is a disjoint composition of bit terms.
func structuralBits(l Lin) bool {
	for _, m := range l.ts {
		ti := termTab[m.t]
		if ti.lo < 0 || ti.hi == posInf || ti.kind == "lin" || ti.kind == "mono" {
			return false
		}
		c, ok := isK(m.a)
		if !ok || c <= 0 || c&(c-1) != 0 {
			return false
		}
	}
	if lo, _, _ := minMax(l.c, True); lo < 0 {
		return false
	}
	if l.c == False {
		return true
	}
	// a constant that does not reach into the terms' bits
	cb := constBits(l.c, 63)
	for _, m := range l.ts {
		c, _ := isK(m.a)
		sh := bits.TrailingZeros64(uint64(c))
		for i := sh; i < 63 && i < sh+bits.Len64(uint64(termTab[m.t].hi)); i++ {
			if cb[i] != False {
				return false
			}
		}
	}
	return true
}

func bitwise(op string, x, y *Int) *Int {
	a, b := x.bitVec(), y.bitVec()
	out := make([]Node, x.w)
	for i := range out {
		switch op {
		case "&":
			out[i] = And(a[i], b[i])
		case "|":
			out[i] = Or(a[i], b[i])
		case "^":
			out[i] = Xor(a[i], b[i])
		case "&^":
			out[i] = And(a[i], Not(b[i]))
		}
	}
	return intBits(out, x.sgn)
}

func shiftInt(x *Int, n int, left bool) *Int {
	a := x.bitVec()
	out := make([]Node, x.w)
	for i := range out {
		j := i + n
		if left {
			j = i - n
		}
		switch {
		case j < 0:
			out[i] = False
		case j >= x.w:
			if x.sgn {
				out[i] = a[x.w-1]
			} else {
				out[i] = False
			}
		default:
			out[i] = a[j]
		}
	}
	return intBits(out, x.sgn)
}

// divLin divides by d > 0, rounding down, where the parts that divide exactly come out.
func divLin(l Lin, d int64, pc Node) (Lin, bool) {
	q := Lin{c: mapT(l.c, func(v int64) int64 { return floorDiv(v, d) })}
	rem := Lin{c: apply(opSub, l.c, apply(opMul, q.c, K(d)))}
	for _, m := range l.ts {
		div := true
		for _, v := range terminalsUnder(m.a, True) {
			if v%d != 0 {
				div = false
			}
		}
		if div {
			q.ts = append(q.ts, monom{m.t, mapT(m.a, func(v int64) int64 { return v / d })})
		} else {
			rem.ts = append(rem.ts, m)
		}
	}
	if len(rem.ts) == 0 {
		return q, true
	}
	lo, hi := rem.rangeUnder(pc)
	if lo >= 0 && hi < d {
		return q, true
	}
	// floor(rem/d) as a term
	rlo, rhi := int64(negInf), int64(posInf)
	if lo != negInf {
		rlo = floorDiv(lo, d)
	}
	if hi != posInf {
		rhi = floorDiv(hi, d)
	}
	wb := 64
	if rlo >= 0 && rhi != posInf {
		wb = bits.Len64(uint64(rhi))
	}
	t := intern("div", fmt.Sprintf("(%s)/%d", rem.key(), d), wb, rlo, rhi, nil, divData{rem, d})
	return q.add(lt(t)), true
}

type divData struct {
	l Lin
	d int64
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// cmpEQ compares two integers.
func intEQ(x, y *Int) Node {
	xc, xok := x.constant()
	yc, yok := y.constant()
	if xok && yok {
		if xc == yc {
			return True
		}
		return False
	}
	if (xok || yok) && (x.bits == nil && countsOnly(*x.l) || y.bits == nil && countsOnly(*y.l)) {
		return mkEQ(x.asLin().sub(y.asLin()))
	}
	if (xok || yok || (x.bits != nil && y.bits != nil)) && x.w <= 32 {
		// compare bits unless the forms are arithmetic
		xs := x.bits != nil || structuralBits(*x.l) || xok
		ys := y.bits != nil || structuralBits(*y.l) || yok
		if xs && ys {
			return bitsEQ(x.bitVec(), y.bitVec())
		}
	}
	lx, ly := x.asLin(), y.asLin()
	d := lx.sub(ly)
	if yok || xok {
		// wide value against a constant: bits if structural
		if structuralBits(lx) && yok && yc >= 0 {
			return bitsEQ(x.bitVec(), y.bitVec())
		}
		if structuralBits(ly) && xok && xc >= 0 {
			return bitsEQ(x.bitVec(), y.bitVec())
		}
	}
	return mkEQ(d)
}

// countsOnly: the form is made of lengths.
func countsOnly(l Lin) bool {
	for _, m := range l.ts {
		if termTab[m.t].kind != "len" {
			return false
		}
	}
	return len(l.ts) > 0
}

func bitsEQ(a, b []Node) Node {
	r := True
	for i := range a {
		r = And(r, Not(Xor(a[i], b[i])))
		if r == False {
			break
		}
	}
	return r
}

// intGE is x >= y.
func intGE(x, y *Int) Node {
	yc, yok := y.constant()
	xc, xok := x.constant()
	lx, ly := x.asLin(), y.asLin()
	if (xok || yok) && x.w <= 64 {
		if yok && structuralBits(lx) && len(lx.ts) > 0 && bitLenHi(lx) <= 24 {
			return bitsGEK(x.bitVec(), yc)
		}
		if xok && structuralBits(ly) && len(ly.ts) > 0 && bitLenHi(ly) <= 24 {
			return Not(bitsGEK(y.bitVec(), xc+1))
		}
	}
	return mkGE(lx.sub(ly))
}

func bitLenHi(l Lin) int {
	_, hi := l.rangeUnder(True)
	if hi == posInf {
		return 64
	}
	return bits.Len64(uint64(hi))
}

// bitsGEK: the non-negative number with these bits is >= c.
func bitsGEK(bs []Node, c int64) Node {
	if c <= 0 {
		return True
	}
	r := True // equal so far -> >=
	for i := 0; i < len(bs); i++ {
		if i < 63 && c>>uint(i)&1 == 1 {
			r = And(bs[i], r)
		} else {
			r = Or(bs[i], r)
		}
	}
	if len(bs) < 63 && c>>uint(len(bs)) != 0 {
		return False
	}
	return r
}

// ---------------------------------------------------------------- sequences

func seqOf(vs ...Val) *Seq {
	s := &Seq{byts: true}
	for _, v := range vs {
		s.ps = append(s.ps, Piece{g: True, v: v})
	}
	return s
}

func segSeq(src Term, off, n Lin, byts bool, elt types.Type) *Seq {
	if c, ok := n.isConst(); ok {
		if c <= 0 {
			return &Seq{byts: byts}
		}
		if c <= 64 && byts {
			s := &Seq{byts: true}
			for i := int64(0); i < c; i++ {
				if termTab[src].kind == "zeros" {
					s.ps = append(s.ps, Piece{g: True, v: intK(0, 8, false)})
				} else {
					s.ps = append(s.ps, Piece{g: True, v: byteAt(src, off.addK(i))})
				}
			}
			return s
		}
	}
	if termTab[src].kind == "zeros" {
		off = lk(0)
	}
	return &Seq{byts: byts, ps: []Piece{{g: True, src: src, off: off, n: n}}}
}

func (p Piece) ln() Lin {
	if p.v != nil {
		return lInd(p.g)
	}
	return p.n.gate(p.g)
}

func (s *Seq) length() Lin {
	l := lk(0)
	for _, p := range s.ps {
		l = l.add(p.ln())
	}
	return l
}

func (p Piece) key() string {
	if p.v != nil {
		return fmt.Sprintf("<%d:%s>", p.g, keyOf(p.v))
	}
	return fmt.Sprintf("<%d:%d@%s+%s>", p.g, p.src, p.off.key(), p.n.key())
}

func (s *Seq) key() string {
	var sb strings.Builder
	for _, p := range s.ps {
		sb.WriteString(p.key())
	}
	return sb.String()
}

func (s *Seq) String() string {
	var parts []string
	for i, p := range s.ps {
		if i > 40 {
			parts = append(parts, "...")
			break
		}
		x := ""
		if p.v != nil {
			x = show(p.v)
		} else {
			x = fmt.Sprintf("%s[%s +%s]", termString(p.src), p.off, p.n)
		}
		if p.g != True {
			x = "(" + ddString(p.g) + ")?" + x
		}
		parts = append(parts, x)
	}
	return "[" + strings.Join(parts, " ") + "]"
}

func (s *Seq) concat(o *Seq) *Seq {
	r := &Seq{byts: s.byts || o.byts}
	r.ps = append(r.ps, s.ps...)
	for _, p := range o.ps {
		r.push(p)
	}
	return r
}

// push appends a piece, joining contiguous segments.
func (s *Seq) push(p Piece) {
	if p.g == False {
		return
	}
	if n := len(s.ps); n > 0 && p.g == True && s.ps[n-1].g == True {
		q := s.ps[n-1]
		// segment followed by the byte or segment right after it
		if q.v == nil {
			if p.v == nil && p.src == q.src && q.off.add(q.n).eq(p.off) {
				s.ps[n-1] = Piece{g: True, src: q.src, off: q.off, n: q.n.add(p.n)}
				return
			}
			if iv, ok := p.v.(*Int); ok && iv.l != nil {
				if t, ok := singleTerm(*iv.l); ok && termTab[t].kind == "in" {
					d := termTab[t].data.(inData)
					if d.src == q.src && q.off.add(q.n).eq(d.pos) {
						s.ps[n-1] = Piece{g: True, src: q.src, off: q.off, n: q.n.addK(1)}
						return
					}
				}
			}
		} else if p.v == nil {
			if iv, ok := q.v.(*Int); ok && iv.l != nil {
				if t, ok := singleTerm(*iv.l); ok && termTab[t].kind == "in" {
					d := termTab[t].data.(inData)
					if d.src == p.src && d.pos.addK(1).eq(p.off) {
						s.ps = s.ps[:n-1]
						s.push(Piece{g: True, src: p.src, off: d.pos, n: p.n.addK(1)})
						return
					}
				}
			}
		}
	}
	s.ps = append(s.ps, p)
}

func singleTerm(l Lin) (Term, bool) {
	if len(l.ts) == 1 && l.ts[0].a == True && l.c == False {
		return l.ts[0].t, true
	}
	return 0, false
}

// slice takes [off, off+n) of the sequence; ok=false if the bounds do not fall on pieces.
func (s *Seq) slice(off, n Lin, pc Node) (*Seq, bool) {
	if r, ok := s.slice1(off, n, pc); ok {
		return r, true
	}
	if _, ok := isK(n.c); ok || len(n.ts) > 0 {
		return nil, false
	}
	// a length of a few fixed values
	vs := terminalsUnder(n.c, pc)
	if len(vs) < 2 || len(vs) > 4 {
		return nil, false
	}
	r := &Seq{byts: s.byts}
	for _, v := range vs {
		g := eqK(n.c, v)
		q, ok := s.slice1(off.under(And(pc, g)), lk(v), And(pc, g))
		if !ok {
			return nil, false
		}
		for _, p := range q.ps {
			p.g = And(p.g, g)
			if p.g != False {
				r.ps = append(r.ps, p)
			}
		}
	}
	return r, true
}

func (s *Seq) slice1(off, n Lin, pc Node) (*Seq, bool) {
	r := &Seq{byts: s.byts}
	pos := lk(0)
	end := off.add(n)
	if c, ok := n.isConst(); ok && c == 0 {
		return r, true
	}
	if linEqUnder(off, lk(0), pc) && linEqUnder(n, s.length(), pc) {
		return s, true
	}
	started := false
	for i, p := range s.ps {
		pl := p.ln()
		if !started {
			if linEqUnder(pos, off, pc) {
				started = true
			} else if p.v == nil && p.g == True && entails(pc, off.sub(pos)) && entails(pc, pos.add(pl).sub(off)) {
				// starts inside this segment
				d := off.sub(pos)
				if entails(pc, pos.add(pl).sub(end)) {
					return segSeq(p.src, p.off.add(d), n, s.byts, nil), true
				}
				p = Piece{g: True, src: p.src, off: p.off.add(d), n: p.n.sub(d)}
				pos = off
				pl = p.n
				started = true
			} else {
				pos = pos.add(pl)
				if p.v == nil && !entails(pc, off.sub(pos)) {
					return nil, false
				}
				continue
			}
		}
		if linEqUnder(pos, end, pc) {
			return r, true
		}
		if p.v == nil && p.g == True && entails(pc, pos.add(pl).sub(end)) && !linEqUnder(pos.add(pl), end, pc) {
			for _, q := range segSeq(p.src, p.off, end.sub(pos), s.byts, nil).ps {
				r.push(q)
			}
			return r, true
		}
		r.push(p)
		pos = pos.add(pl)
		if i == len(s.ps)-1 && linEqUnder(pos, end, pc) {
			return r, true
		}
	}
	if linEqUnder(pos, end, pc) && started {
		return r, true
	}
	return nil, false
}

// at gives the element at index i.
func (s *Seq) at(i Lin, pc Node) (Val, bool) {
	pos := lk(0)
	for _, p := range s.ps {
		if p.v != nil {
			if p.g == True || Implies(pc, p.g) {
				if linEqUnder(pos, i, pc) {
					return p.v, true
				}
			}
			pos = pos.add(p.ln())
			continue
		}
		d := i.sub(pos)
		if (p.g == True || Implies(pc, p.g)) && entails(pc, d) && entails(pc, p.n.sub(d).addK(-1)) {
			return segElem(p, d, s.byts), true
		}
		pos = pos.add(p.ln())
	}
	// a single opaque segment: index regardless of proof of bounds
	if len(s.ps) == 1 && s.ps[0].v == nil && s.ps[0].g == True {
		return segElem(s.ps[0], i, s.byts), true
	}
	return nil, false
}

func segElem(p Piece, d Lin, byts bool) Val {
	if byts {
		if termTab[p.src].kind == "zeros" {
			return intK(0, 8, false)
		}
		return byteAt(p.src, p.off.add(d))
	}
	return elemVal(p.src, p.off.add(d))
}

// elemHooks: lists whose elements are assumed to have a given form.
var elemHooks map[Term]func(i Lin) Val

// elemVal is element i of an opaque list.
func elemVal(src Term, i Lin) Val {
	et := elemType(termTab[src].typ)
	if et == nil {
		return nil
	}
	if h := elemHooks[src]; h != nil {
		return h(i)
	}
	return symVal(et, fmt.Sprintf("%s[%s]", termTab[src].key, i.key()), fmt.Sprintf("%s[%s]", termString(src), i))
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return nil
}

// seqIte merges two sequences.
func seqIte(g Node, a, b *Seq) *Seq {
	if a == b || a.key() == b.key() {
		return a
	}
	r := &Seq{byts: a.byts || b.byts}
	i := 0
	for i < len(a.ps) && i < len(b.ps) && a.ps[i].key() == b.ps[i].key() {
		r.ps = append(r.ps, a.ps[i])
		i++
	}
	ra, rb := a.ps[i:], b.ps[i:]
	j := 0
	for j < len(ra) && j < len(rb) && ra[len(ra)-1-j].key() == rb[len(rb)-1-j].key() {
		j++
	}
	suf := ra[len(ra)-j:]
	ra, rb = ra[:len(ra)-j], rb[:len(rb)-j]
	// same shape: merge element-wise
	same := len(ra) == len(rb)
	for k := 0; same && k < len(ra); k++ {
		if ra[k].v == nil || rb[k].v == nil || ra[k].g != rb[k].g {
			same = false
		}
	}
	if same {
		for k := range ra {
			r.ps = append(r.ps, Piece{g: ra[k].g, v: iteVal(g, ra[k].v, rb[k].v)})
		}
	} else {
		for _, p := range ra {
			p.g = And(g, p.g)
			if p.g != False {
				r.ps = append(r.ps, p)
			}
		}
		for _, p := range rb {
			p.g = And(Not(g), p.g)
			if p.g != False {
				r.ps = append(r.ps, p)
			}
		}
	}
	r.ps = append(r.ps, suf...)
	return r
}

// constString gives the constant content of a byte sequence.
func (s *Seq) constString() (string, bool) {
	var out []byte
	for _, p := range s.ps {
		if p.v == nil || p.g != True {
			return "", false
		}
		iv, ok := p.v.(*Int)
		if !ok {
			return "", false
		}
		c, ok := iv.constant()
		if !ok {
			return "", false
		}
		out = append(out, byte(c))
	}
	return string(out), true
}

func strK(s string) *Str {
	q := &Seq{byts: true}
	for i := 0; i < len(s); i++ {
		q.ps = append(q.ps, Piece{g: True, v: intK(int64(s[i]), 8, false)})
	}
	return &Str{q}
}

// seqEQ: guard under which two byte sequences are equal.
func seqEQ(a, b *Seq) Node {
	if a.key() == b.key() {
		return True
	}
	ca, oka := a.constString()
	cb, okb := b.constString()
	if oka && okb {
		if ca == cb {
			return True
		}
		return False
	}
	// element-wise when both have known, ungated length
	flat := func(s *Seq) bool {
		for _, p := range s.ps {
			if p.v == nil || p.g != True {
				return false
			}
		}
		return true
	}
	if flat(a) && flat(b) {
		if len(a.ps) != len(b.ps) {
			return False
		}
		r := True
		for i := range a.ps {
			r = And(r, intEQ(a.ps[i].v.(*Int), b.ps[i].v.(*Int)))
		}
		return r
	}
	if okb {
		a, b = b, a
		ca, oka, okb = cb, true, false
	}
	if oka { // constant against opaque
		if flat2, ok := gatedFlat(b); ok {
			return gatedEQ(flat2, ca)
		}
		if ca == "" {
			return mkEQ(b.length())
		}
		return And(codeEQ("str:"+b.key(), seqShow(b), "s:"+ca), Not(mkEQ(b.length())))
	}
	k1, k2 := a.key(), b.key()
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return opAtom("streq("+k1+","+k2+")", false)
}

func seqShow(s *Seq) string { return s.String() }

// gatedFlat: single elements with gates only.
func gatedFlat(s *Seq) ([]Piece, bool) {
	for _, p := range s.ps {
		if p.v == nil {
			return nil, false
		}
	}
	return s.ps, true
}

func gatedEQ(ps []Piece, c string) Node {
	// dynamic programming over position in c
	if len(ps) == 0 {
		if c == "" {
			return True
		}
		return False
	}
	p := ps[0]
	skip := False
	if p.g != True {
		skip = And(Not(p.g), gatedEQ(ps[1:], c))
	}
	take := False
	if c != "" {
		if iv, ok := p.v.(*Int); ok {
			take = AndN(p.g, intEQ(iv, intK(int64(c[0]), 8, false)), gatedEQ(ps[1:], c[1:]))
		}
	}
	return Or(skip, take)
}

// codeEQ is "opaque thing k equals constant c", with different constants exclusive.
var codeTab map[string]map[string]int
var codeName map[string]string

func codeEQ(k, shown, c string) Node {
	m := codeTab[k]
	if m == nil {
		m = map[string]int{}
		codeTab[k] = m
	}
	i, ok := m[c]
	if !ok {
		i = len(m) + 1
		m[c] = i
	}
	if i >= 64 {
		return opAtom("code("+k+"="+c+")", false)
	}
	r := True
	for b := 0; b < 6; b++ {
		x := opAtom(fmt.Sprintf("code(%s).%d", k, b), false)
		if i>>uint(b)&1 == 0 {
			x = Not(x)
		}
		r = And(r, x)
	}
	return r
}

// ---------------------------------------------------------------- generic

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if constant.BoolVal(c.Value) {
				return Bool{True}
			}
			return Bool{False}
		case u.Info()&types.IsString != 0:
			return strK(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			w, sgn := intType(t)
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return intK(i, w, sgn)
			}
			return intTerm(intern("bigconst", c.Value.ExactString(), w, negInf, posInf, nil, nil), w, sgn)
		case u.Info()&types.IsFloat != 0:
			r, ok := new(big.Rat).SetString(c.Value.ExactString())
			if !ok {
				f, _ := constant.Float64Val(c.Value)
				r = new(big.Rat).SetFloat64(f)
			}
			return &Float{r: r}
		}
	}
	return &Opaque{intern("const", c.String(), 0, 0, 0, t, nil), t}
}

func intType(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isTimeType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func modelType(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "bytes.Buffer":
		return "buffer"
	case "bytes.Reader", "strings.Reader":
		return "reader"
	case "strings.Builder":
		return "buffer"
	}
	return ""
}

func zeroVal(t types.Type) Val {
	if isTimeType(t) {
		return &TimeV{lt(intern("zerotime", "zerotime", 0, negInf, posInf, nil, nil))}
	}
	if m := modelType(t); m != "" {
		return &Model{kind: m, s: &Seq{byts: true}, pos: lk(0), typ: t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{False}
		case u.Info()&types.IsString != 0:
			return strK("")
		case u.Info()&types.IsInteger != 0:
			w, sgn := intType(t)
			return intK(0, w, sgn)
		case u.Info()&types.IsFloat != 0:
			return &Float{r: new(big.Rat)}
		}
		return NilV{t}
	case *types.Struct:
		if opaqueStruct(t) {
			return &Opaque{intern("zero", t.String(), 0, 0, 0, t, nil), t}
		}
		s := &StructV{typ: u, nam: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, zeroVal(u.Field(i).Type()))
		}
		return s
	case *types.Slice:
		return &Slice{elt: u.Elem(), off: lk(0), n: lk(0), cap: lk(0), nilG: True}
	case *types.Array:
		s := &Seq{byts: isByteType(u.Elem())}
		if u.Len() <= 4096 {
			for i := int64(0); i < u.Len(); i++ {
				s.ps = append(s.ps, Piece{g: True, v: zeroVal(u.Elem())})
			}
		}
		return s
	case *types.Tuple:
		tp := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tp.vs = append(tp.vs, zeroVal(u.At(i).Type()))
		}
		return tp
	}
	return NilV{t}
}

// opaqueStruct: struct types of other modules with unexported state.
func opaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if strings.HasPrefix(p, modulePath) {
		return false
	}
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

// rangeHook narrows the range of symbolic integer inputs (assumptions of a mode).
var rangeHook func(key string, w int) (lo, hi int64, ok bool)

// strHook gives symbolic strings of known shape (assumptions of a mode).
var strHook func(key, shown string) *Str

// symVal is an unknown value of type t named key.
func symVal(t types.Type, key, shown string) Val {
	if isTimeType(t) {
		var slo, shi int64 = negInf, posInf
		if rangeHook != nil {
			if a, b, ok := rangeHook(key, 64); ok {
				slo, shi = a, b
			}
		}
		sec := intern("sec", key, 0, slo, shi, nil, nil)
		ns := intern("nsec", key, 0, 0, 999999999, nil, nil)
		return &TimeV{lt(sec).scale(1000000000).add(lt(ns))}
	}
	if m := modelType(t); m != "" {
		return symModel(m, t, key)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool{opAtom("bool("+key+")", false)}
		case u.Info()&types.IsString != 0:
			if strHook != nil {
				if s := strHook(key, shown); s != nil {
					return s
				}
			}
			return symStr(key, shown)
		case u.Info()&types.IsInteger != 0:
			w, sgn := intType(t)
			lo, hi := typeRange(w, sgn)
			if rangeHook != nil {
				if a, b, ok := rangeHook(key, w); ok {
					lo, hi = a, b
				}
			}
			return intTerm(internShown("fld", key, shown, w, lo, hi, t), w, sgn)
		case u.Info()&types.IsFloat != 0:
			return &Float{r: big.NewRat(1, 1), base: &Opaque{internShown("flt", key, shown, 0, 0, 0, t), t}}
		}
	case *types.Struct:
		if opaqueStruct(t) {
			return &Opaque{internShown("obj", key, shown, 0, 0, 0, t), t}
		}
		s := &StructV{typ: u, nam: t}
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			s.f = append(s.f, symVal(u.Field(i).Type(), key+"."+n, shown+"."+n))
		}
		return s
	case *types.Slice:
		return symSlice(t, key, shown)
	case *types.Array:
		src := internShown("list", key, shown, 0, 0, 0, t)
		return &Seq{byts: isByteType(u.Elem()), ps: []Piece{{g: True, src: src, off: lk(0), n: lk(u.Len())}}}
	}
	return &Opaque{internShown("obj", key, shown, 0, 0, 0, t), t}
}

func internShown(kind, key, shown string, w int, lo, hi int64, t types.Type) Term {
	return intern(kind, key, w, lo, hi, t, nil)
}

func lenTerm(src Term) Lin {
	if shortParts && strings.Contains(termTab[src].key, "call:") {
		return lt(intern("len", fmt.Sprintf("len(%s)", termTab[src].key), 64, 0, 65535, nil, src))
	}
	return lt(intern("len", fmt.Sprintf("len(%s)", termTab[src].key), 64, 0, 1<<40, nil, src))
}

func symStr(key, shown string) *Str {
	src := internShown("str", key, shown, 0, 0, 0, types.Typ[types.String])
	return &Str{&Seq{byts: true, ps: []Piece{{g: True, src: src, off: lk(0), n: lenTerm(src)}}}}
}

var symObjs map[Term]*Obj
var symSeqs map[int]*Seq
var nextObj int

func newObj(kind string, typ types.Type, name string) *Obj {
	nextObj++
	o := &Obj{id: nextObj, kind: kind, typ: typ, name: name}
	allObjs[o.id] = o
	return o
}

func symSlice(t types.Type, key, shown string) *Slice {
	u := t.Underlying().(*types.Slice)
	src := internShown("list", key, shown, 0, 0, 0, t)
	o := symObjs[src]
	if o == nil {
		o = newObj("arr", t, shown)
		o.sym = true
		symObjs[src] = o
		symSeqs[o.id] = &Seq{byts: isByteType(u.Elem()), ps: []Piece{{g: True, src: src, off: lk(0), n: lenTerm(src)}}}
	}
	n := lenTerm(src)
	return &Slice{obj: o, off: lk(0), n: n, cap: n, elt: u.Elem(), nilG: And(mkEQ(n), opAtom("nil("+key+")", false))}
}

func symModel(kind string, t types.Type, key string) *Model {
	src := intern("list", key+".data", 0, 0, 0, types.NewSlice(types.Typ[types.Uint8]), nil)
	return &Model{kind: kind, typ: t, s: &Seq{byts: true, ps: []Piece{{g: True, src: src, off: lk(0), n: lenTerm(src)}}}, pos: lk(0)}
}

// iteVal merges two values.
func iteVal(g Node, a, b Val) Val {
	if g == True {
		return a
	}
	if g == False {
		return b
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Int:
		if y, ok := b.(*Int); ok && x.w == y.w {
			_, xc := x.constant()
			_, yc := y.constant()
			xb := x.l == nil || xc || (x.w <= 32 && structuralBits(*x.l))
			yb := y.l == nil || yc || (y.w <= 32 && structuralBits(*y.l))
			if xb && yb && !(xc && yc && x.w > 32) {
				if x.w <= 32 || x.l == nil || y.l == nil {
					p, q := x.bitVec(), y.bitVec()
					out := make([]Node, x.w)
					for i := range out {
						out[i] = Ite(g, p[i], q[i])
					}
					return intBits(out, x.sgn)
				}
			}
			return intL(linIte(g, x.asLin(), y.asLin()), x.w, x.sgn)
		}
	case Bool:
		if y, ok := b.(Bool); ok {
			return Bool{Ite(g, x.n, y.n)}
		}
	case *Str:
		if y, ok := b.(*Str); ok {
			return &Str{seqIte(g, x.s, y.s)}
		}
	case *Seq:
		if y, ok := b.(*Seq); ok {
			return seqIte(g, x, y)
		}
	case *TimeV:
		if y, ok := b.(*TimeV); ok {
			return &TimeV{linIte(g, x.ns, y.ns)}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			same := true
			for i := range x.f {
				if x.f[i] != y.f[i] {
					same = false
				}
			}
			if same {
				return x
			}
			s := &StructV{typ: x.typ, nam: x.nam}
			for i := range x.f {
				s.f = append(s.f, iteVal(g, x.f[i], y.f[i]))
			}
			return s
		}
	case *Tuple:
		if y, ok := b.(*Tuple); ok && len(x.vs) == len(y.vs) {
			s := &Tuple{}
			for i := range x.vs {
				s.vs = append(s.vs, iteVal(g, x.vs[i], y.vs[i]))
			}
			return s
		}
	case *Slice:
		if y, ok := b.(*Slice); ok {
			if x.obj == y.obj {
				return &Slice{obj: x.obj, off: linIte(g, x.off, y.off), n: linIte(g, x.n, y.n), cap: linIte(g, x.cap, y.cap), elt: x.elt, nilG: Ite(g, x.nilG, y.nilG)}
			}
			if x.obj == nil && isZeroLin(x.n) || y.obj == nil && isZeroLin(y.n) {
				p := x
				if x.obj == nil {
					p = y
				}
				return &Slice{obj: p.obj, off: p.off, n: linIte(g, x.n, y.n), cap: linIte(g, x.cap, y.cap), elt: x.elt, nilG: Ite(g, x.nilG, y.nilG)}
			}
		}
	case *Model:
		if y, ok := b.(*Model); ok && x.kind == y.kind {
			r := &Model{kind: x.kind, typ: x.typ, s: seqIte(g, x.s, y.s), pos: linIte(g, x.pos, y.pos)}
			if x.obj == y.obj && x.obj != nil && x.off.eq(y.off) {
				r.obj, r.off, r.spare = x.obj, x.off, x.spare || y.spare
			}
			return r
		}
	case *Iface:
		if y, ok := b.(*Iface); ok && types.Identical(x.typ, y.typ) {
			return &Iface{typ: x.typ, v: iteVal(g, x.v, y.v)}
		}
	case *Float:
		if y, ok := b.(*Float); ok {
			if x.base != nil && y.base != nil && keyOf(x.base) == keyOf(y.base) && x.neg == y.neg {
				if x.r.Cmp(y.r) == 0 {
					return x
				}
				if nr := new(big.Rat).Neg(y.r); nr.Cmp(x.r) == 0 {
					return mkFloat(y.r, y.base, Xor(y.neg, g))
				}
			}
			if x.base != nil && y.base != nil && keyOf(x.base) == keyOf(y.base) && x.r.Cmp(y.r) == 0 {
				return mkFloat(x.r, x.base, Ite(g, x.neg, y.neg))
			}
			if x.base == nil && y.base == nil && x.r.Cmp(y.r) == 0 {
				return x
			}
		}
	case NilV:
		if _, ok := b.(NilV); ok {
			return a
		}
	}
	if keyOf(a) == keyOf(b) {
		return a
	}
	return mkIte(g, a, b)
}

func isZeroLin(l Lin) bool { c, ok := l.isConst(); return ok && c == 0 }

func mkIte(g Node, a, b Val) Val {
	if y, ok := a.(*IteV); ok {
		// ite(g, ite(h, p, q), b): drop sides decided by g
		if Implies(g, y.g) {
			return iteVal(g, y.a, b)
		}
		if Implies(g, Not(y.g)) {
			return iteVal(g, y.b, b)
		}
	}
	if y, ok := b.(*IteV); ok {
		if Implies(Not(g), y.g) {
			return iteVal(g, a, y.a)
		}
		if Implies(Not(g), Not(y.g)) {
			return iteVal(g, a, y.b)
		}
		if keyOf(y.b) == keyOf(a) {
			// ite(g, a, ite(h, p, a)) = ite(!g & h, p, a)
			return mkIte(And(Not(g), y.g), y.a, a)
		}
		if keyOf(y.a) == keyOf(a) {
			return mkIte(Or(g, y.g), a, y.b)
		}
	}
	return &IteV{g, a, b}
}

func keyOf(v Val) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case *Int:
		return fmt.Sprintf("i%d:%s", x.w, x.asLin().key())
	case Bool:
		return fmt.Sprintf("b%d", x.n)
	case *Str:
		return "s" + x.s.key()
	case *Seq:
		return "q" + x.key()
	case *Float:
		return fmt.Sprintf("f%s*%s~%d", x.r.RatString(), keyOf(x.base), x.neg)
	case *TimeV:
		return "t" + x.ns.key()
	case *Slice:
		if x.obj == nil {
			return "nilslice"
		}
		return fmt.Sprintf("sl%d@%s+%s", x.obj.id, x.off.key(), x.n.key())
	case *Ptr:
		return fmt.Sprintf("p%d%s", x.obj.id, pathKey(x.path))
	case *StructV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range x.f {
			sb.WriteString(keyOf(f) + ";")
		}
		sb.WriteString("}")
		return sb.String()
	case *Iface:
		return fmt.Sprintf("if(%s,%s)", x.typ, keyOf(x.v))
	case NilV:
		return "nil"
	case *Opaque:
		return fmt.Sprintf("o%d", x.t)
	case *IteV:
		return fmt.Sprintf("ite(%d,%s,%s)", x.g, keyOf(x.a), keyOf(x.b))
	case *Tuple:
		var sb strings.Builder
		for _, f := range x.vs {
			sb.WriteString(keyOf(f) + ";")
		}
		return "(" + sb.String() + ")"
	case *Closure:
		s := "fn:" + x.fn.String()
		for _, b := range x.bs {
			s += "," + keyOf(b)
		}
		return s
	case *ssa.Function:
		return "fn:" + x.String()
	case *ErrV:
		return fmt.Sprintf("err%d", x.t)
	case *Model:
		return fmt.Sprintf("m:%s:%s@%s", x.kind, x.s.key(), x.pos.key())
	case *MapV:
		s := "map"
		for i := range x.keys {
			s += keyOf(x.keys[i]) + ":" + keyOf(x.vals[i]) + ","
		}
		return s
	case *BuiltinV:
		return "builtin:" + x.name
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func pathKey(p []pathEl) string {
	s := ""
	for _, e := range p {
		if e.field >= 0 {
			s += fmt.Sprintf(".%d", e.field)
		} else {
			s += "[" + e.idx.key() + "]"
		}
	}
	return s
}

func show(v Val) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case *Int:
		if x.l == nil || structuralBits(*x.l) {
			l := x.asLin()
			return l.String()
		}
		return x.asLin().String()
	case Bool:
		return ddString(x.n)
	case *Str:
		if c, ok := x.s.constString(); ok {
			return fmt.Sprintf("%q", c)
		}
		return "str" + x.s.String()
	case *Seq:
		return x.String()
	case *Float:
		s := x.r.RatString()
		if x.base != nil {
			s += "*" + show(x.base)
		}
		if x.neg != False {
			s += " (negated if " + ddString(x.neg) + ")"
		}
		return s
	case *TimeV:
		return "time(" + x.ns.String() + ")"
	case *Slice:
		if x.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("%s[%s +%s]", x.obj.name, x.off, x.n)
	case *Ptr:
		return "&" + x.obj.name + pathKey(x.path)
	case *StructV:
		var parts []string
		for i, f := range x.f {
			parts = append(parts, x.typ.Field(i).Name()+":"+show(f))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case *Iface:
		return fmt.Sprintf("(%s)%s", types.TypeString(x.typ, shortQ), show(x.v))
	case NilV:
		return "nil"
	case *Opaque:
		return termString(x.t)
	case *IteV:
		return fmt.Sprintf("(%s ? %s : %s)", ddString(x.g), show(x.a), show(x.b))
	case *Tuple:
		var parts []string
		for _, f := range x.vs {
			parts = append(parts, show(f))
		}
		return "(" + strings.Join(parts, ", ") + ")"
	case *ErrV:
		return "error@" + termString(x.t)
	case *Closure:
		return x.fn.Name()
	}
	return fmt.Sprintf("%T", v)
}

func shortQ(p *types.Package) string { return p.Name() }

// sameUnder: equal wherever care holds.
func sameUnder(a, b Val, care Node) bool {
	if care == False || same1(a, b, care) {
		return true
	}
	x, ok1 := a.(*Int)
	y, ok2 := b.(*Int)
	if !ok1 || !ok2 || care == True || x.w != y.w {
		return false
	}
	// what is inside the terms simplified as well
	sb := newSubst(nil)
	sb.care = care
	p, q := sb.val(x), sb.val(y)
	if keyOf(p) == keyOf(x) && keyOf(q) == keyOf(y) {
		return false
	}
	return same1(p, q, care)
}

func same1(a, b Val, care Node) bool {
	switch x := a.(type) {
	case *IteV:
		return sameUnder(x.a, b, And(care, x.g)) && sameUnder(x.b, b, And(care, Not(x.g)))
	}
	if y, ok := b.(*IteV); ok {
		return sameUnder(a, y.a, And(care, y.g)) && sameUnder(a, y.b, And(care, Not(y.g)))
	}
	switch x := a.(type) {
	case *Int:
		y, ok := b.(*Int)
		if !ok || x.w != y.w {
			return false
		}
		if x.l != nil && y.l != nil && linEqUnder(*x.l, *y.l, care) {
			return true
		}
		if x.l != nil && y.l != nil {
			a, b := expandLin(*x.l, care), expandLin(*y.l, care)
			if linEqUnder(a, b, care) {
				return true
			}
			if onlyBytes(a) && onlyBytes(b) {
				return false
			}
		}
		p, q := x.bitVec(), y.bitVec()
		for i := range p {
			if !ddEqUnder(p[i], q[i], care) && !ddEqUnder(expandNode(p[i], care), expandNode(q[i], care), care) {
				if m := gatedLins(p, q, care); len(m) > 0 {
					sb := newSubst(m)
					xs, ok1 := sb.val(x).(*Int)
					ys, ok2 := sb.val(y).(*Int)
					if ok1 && ok2 && xs.w == ys.w {
						same := true
						ps, qs := xs.bitVec(), ys.bitVec()
						for j := range ps {
							same = same && ddEqUnder(ps[j], qs[j], care)
						}
						if same {
							return true
						}
					}
				}
				a, b := x.asLin(), y.asLin()
				return linEqUnder(a, b, care) || linEqUnder(expandLin(a, care), expandLin(b, care), care)
			}
		}
		return true
	case Bool:
		y, ok := b.(Bool)
		return ok && ddEqUnder(x.n, y.n, care)
	case *Str:
		y, ok := b.(*Str)
		return ok && seqSame(x.s, y.s, care)
	case *Seq:
		y, ok := b.(*Seq)
		return ok && seqSame(x, y, care)
	case *TimeV:
		y, ok := b.(*TimeV)
		return ok && linEqUnder(x.ns, y.ns, care)
	case *Float:
		y, ok := b.(*Float)
		if !ok {
			return false
		}
		if x.base == nil || y.base == nil {
			return x.base == nil && y.base == nil && x.r.Cmp(y.r) == 0
		}
		return x.r.Cmp(y.r) == 0 && sameBase(x.base, y.base, care) && ddEqUnder(x.neg, y.neg, care)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !sameUnder(x.f[i], y.f[i], care) {
				return false
			}
		}
		return true
	case *Slice:
		y, ok := b.(*Slice)
		if !ok {
			return false
		}
		return (x.obj == y.obj || isZeroUnder(x.n, care) && isZeroUnder(y.n, care)) && linEqUnder(x.n, y.n, care) &&
			(x.obj == nil || y.obj == nil || isZeroUnder(x.n, care) || linEqUnder(x.off, y.off, care)) && ddEqUnder(x.nilG, y.nilG, care)
	case *Model:
		y, ok := b.(*Model)
		return ok && x.kind == y.kind && seqSame(x.s, y.s, care) && linEqUnder(x.pos, y.pos, care)
	case *Iface:
		y, ok := b.(*Iface)
		return ok && types.Identical(x.typ, y.typ) && sameUnder(x.v, y.v, care)
	case *Tuple:
		y, ok := b.(*Tuple)
		if !ok || len(x.vs) != len(y.vs) {
			return false
		}
		for i := range x.vs {
			if !sameUnder(x.vs[i], y.vs[i], care) {
				return false
			}
		}
		return true
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok || x.obj != y.obj || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.path {
			if x.path[i].field != y.path[i].field {
				return false
			}
			if x.path[i].field < 0 && !linEqUnder(x.path[i].idx, y.path[i].idx, care) {
				return false
			}
		}
		return true
	case NilV:
		if _, ok := b.(NilV); ok {
			return true
		}
		return Implies(care, isNil(b))
	}
	if _, ok := b.(NilV); ok {
		return Implies(care, isNil(a))
	}
	return keyOf(a) == keyOf(b)
}

func isZeroUnder(l Lin, care Node) bool { return linEqUnder(l, lk(0), care) }

// seqSame compares sequences piece by piece under care.
func seqSame(a, b *Seq, care Node) bool {
	d, _ := seqDiff(a, b, care)
	return d == ""
}

// simplify removes pieces absent under care and gates implied by it.
func (s *Seq) under(care Node) *Seq {
	r := &Seq{byts: s.byts}
	for _, p := range s.ps {
		g := p.g
		if And(g, care) == False {
			continue
		}
		if Implies(care, g) {
			g = True
		}
		if p.v == nil {
			cg := And(care, g)
			if isZeroUnder(p.n, cg) {
				continue
			}
			p.n, p.off = p.n.under(cg), p.off.under(cg)
		}
		p.g = g
		r.push(p)
	}
	return r
}

// seqDiff describes the first difference of two sequences under care.  Where
// the pieces do not line up because of their guards, the guards are split.
func seqDiff(a, b *Seq, care Node) (string, int) {
	budget := 4000
	return seqDiffAt(a.under(care).ps, b.under(care).ps, care, 0, &budget)
}

func seqDiffAt(x, y []Piece, care Node, at int, budget *int) (string, int) {
	if care == False {
		return "", 0
	}
	*budget--
	if *budget < 0 {
		return "comparison too large", at
	}
	for {
		// drop what is absent here
		for len(x) > 0 && (And(care, x[0].g) == False || x[0].v == nil && isZeroUnder(x[0].n, And(care, x[0].g))) {
			x = x[1:]
		}
		for len(y) > 0 && (And(care, y[0].g) == False || y[0].v == nil && isZeroUnder(y[0].n, And(care, y[0].g))) {
			y = y[1:]
		}
		if len(x) == 0 && len(y) == 0 {
			return "", 0
		}
		if len(x) > 0 && len(y) > 0 && ddEqUnder(x[0].g, y[0].g, care) {
			if d := pieceDiff(x[0], y[0], And(care, x[0].g)); d == "" {
				x, y = x[1:], y[1:]
				at++
				continue
			} else if Implies(care, x[0].g) {
				return fmt.Sprintf("part %d %s", at, d), at
			}
		}
		// a segment of fixed length against single bytes
		if len(x) > 0 && len(y) > 0 && (x[0].v == nil) != (y[0].v == nil) {
			if e, ok := explode(x[0], care); ok {
				x = append(e, x[1:]...)
				continue
			}
			if e, ok := explode(y[0], care); ok {
				y = append(e, y[1:]...)
				continue
			}
		}
		// split on an undecided guard
		var g Node = True
		if len(x) > 0 && !Implies(care, x[0].g) {
			g = x[0].g
		} else if len(y) > 0 && !Implies(care, y[0].g) {
			g = y[0].g
		}
		if g == True {
			switch {
			case len(x) == 0:
				return fmt.Sprintf("ends before part %d, expected %s", at, (&Seq{byts: true, ps: y[:1]}).String()), at
			case len(y) == 0:
				return fmt.Sprintf("part %d is %s, expected the end", at, (&Seq{byts: true, ps: x[:1]}).String()), at
			}
			return fmt.Sprintf("part %d %s", at, pieceDiff(x[0], y[0], care)), at
		}
		if d, i := seqDiffAt(x, y, And(care, g), at, budget); d != "" {
			return d, i
		}
		care = And(care, Not(g))
	}
}

// explode makes a segment of a fixed length single bytes.
func explode(p Piece, care Node) ([]Piece, bool) {
	if p.v != nil {
		return nil, false
	}
	n, ok := isK(p.n.under(And(care, p.g)).c)
	if !ok || len(p.n.under(And(care, p.g)).ts) > 0 || n > 64 {
		return nil, false
	}
	var r []Piece
	for i := int64(0); i < n; i++ {
		r = append(r, Piece{g: p.g, v: segElem(p, lk(i), true)})
	}
	return r, true
}

// gatedLins: what the named linear forms in the bits are where care holds.
func gatedLins(p, q []Node, care Node) map[Term]Lin {
	m := map[Term]Lin{}
	for _, bs := range [][]Node{p, q} {
		for _, b := range bs {
			for _, v := range support(b) {
				if atoms[v].kind != aBit {
					continue
				}
				t := atoms[v].t
				if s, ok := subOf[t]; ok {
					t = s.t
				}
				if termTab[t].kind != "lin" {
					continue
				}
				l := termTab[t].data.(Lin)
				if u := l.under(care); u.key() != l.key() {
					m[t] = u
				}
			}
		}
	}
	return m
}

func pieceDiff(p, q Piece, care Node) string {
	if p.v != nil && q.v != nil {
		if !sameUnder(p.v, q.v, care) {
			return fmt.Sprintf("is %s, expected %s", show(restrict(p.v, care)), show(restrict(q.v, care)))
		}
		return ""
	}
	if p.v == nil && q.v == nil && p.src == q.src && linEqUnder(p.off, q.off, care) && linEqUnder(p.n, q.n, care) {
		return ""
	}
	return fmt.Sprintf("is %s, expected %s", (&Seq{byts: true, ps: []Piece{p}}).String(), (&Seq{byts: true, ps: []Piece{q}}).String())
}

// isNil: guard under which a value is nil.
func isNil(v Val) Node {
	switch x := v.(type) {
	case NilV:
		return True
	case *IteV:
		return Ite(x.g, isNil(x.a), isNil(x.b))
	case *Slice:
		return x.nilG
	case *Opaque:
		return nilAtom(x)
	case *Iface, *Ptr, *Closure, *ssa.Function, *ErrV, *MapV, *BuiltinV:
		return False
	}
	return False
}

var nonNilTerms map[Term]bool
var errTerms map[Term]bool

func nilAtom(x *Opaque) Node {
	if nonNilTerms[x.t] {
		return False
	}
	if x.typ != nil && types.IsInterface(x.typ) && !isErrorType(x.typ) {
		return codeEQ("type:"+termTab[x.t].key, termString(x.t), "nil")
	}
	return opAtom("nil("+termTab[x.t].key+")", errTerms[x.t])
}

// typeIs: guard under which the dynamic type of v is t.
func typeIs(v Val, t types.Type) Node {
	switch x := v.(type) {
	case *IteV:
		return Ite(x.g, typeIs(x.a, t), typeIs(x.b, t))
	case *Iface:
		if types.Identical(x.typ, t) {
			return True
		}
		return False
	case NilV:
		return False
	case *Opaque:
		return codeEQ("type:"+termTab[x.t].key, termString(x.t), types.TypeString(t, nil))
	}
	return opAtom("typeis("+keyOf(v)+","+t.String()+")", false)
}

func sameBase(a, b Val, care Node) bool {
	x, ok1 := a.(*Int)
	y, ok2 := b.(*Int)
	if ok1 && ok2 {
		return linEqUnder(x.asLin(), y.asLin(), care)
	}
	return sameUnder(a, b, care)
}

// onlyBytes: a form over independent input bytes.
func onlyBytes(l Lin) bool {
	for _, m := range l.ts {
		if termTab[m.t].kind != "in" {
			return false
		}
	}
	return true
}

// gatedUnder simplifies the guards of a sequence that has any.
func gatedUnder(s *Seq, pc Node) *Seq {
	for _, p := range s.ps {
		if p.g != True {
			return s.under(pc)
		}
	}
	return s
}
