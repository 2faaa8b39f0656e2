package main

// Canonical decision diagrams with integer terminals.  Guards are diagrams with
// terminals 0 and 1; coefficients of linear forms are general diagrams.

import (
	"fmt"
	"sort"
	"strings"
)

type Node int32

type ddNode struct {
	v      int32 // variable index, -1 for terminals
	lo, hi Node
	val    int64
}

type opKey struct {
	op   uint8
	a, b Node
}
type iteKey struct{ f, g, h Node }

var (
	nodes    []ddNode
	uniq     map[[3]int32]Node
	terms64  map[int64]Node
	opCache  map[opKey]Node
	iteCache map[iteKey]Node
	False    Node
	True     Node
	notCache map[Node]Node
	supCache map[Node][]int32
	geCache  map[Node]Node
	impCache map[impKey]Node
	chains   []chainInfo // by variable
	chainMax []int32     // last variable of each chain
)

// Guards of the form x >= a over the same form x are a chain: on every path
// of a diagram their values are consistent (x >= 5 implies x >= 3).
type chainInfo struct {
	id  int32 // 0: none
	thr int64
}

type impKey struct {
	n      Node
	id     int32
	lb, ub int64
}

func setChain(v int32, id int32, thr int64) {
	for int(v) >= len(chains) {
		chains = append(chains, chainInfo{})
	}
	for int(id) >= len(chainMax) {
		chainMax = append(chainMax, -1)
	}
	chains[v] = chainInfo{id, thr}
	if v > chainMax[id] {
		chainMax[id] = v
	}
}

// impose restricts n to lb <= x <= ub for the form x of the chain.
func impose(n Node, id int32, lb, ub int64) Node {
	d := nodes[n]
	if d.v < 0 || d.v > chainMax[id] {
		return n
	}
	k := impKey{n, id, lb, ub}
	if r, ok := impCache[k]; ok {
		return r
	}
	var r Node
	c := chainInfo{}
	if int(d.v) < len(chains) {
		c = chains[d.v]
	}
	switch {
	case c.id == id && lb >= c.thr:
		r = impose(d.hi, id, lb, ub)
	case c.id == id && ub < c.thr:
		r = impose(d.lo, id, lb, ub)
	default:
		r = mk(d.v, impose(d.lo, id, lb, ub), impose(d.hi, id, lb, ub))
	}
	impCache[k] = r
	return r
}

func ddReset() {
	nodes = nil
	uniq = map[[3]int32]Node{}
	terms64 = map[int64]Node{}
	opCache = map[opKey]Node{}
	iteCache = map[iteKey]Node{}
	notCache = map[Node]Node{}
	supCache = map[Node][]int32{}
	geCache = map[Node]Node{}
	impCache = map[impKey]Node{}
	chains = nil
	chainMax = nil
	False = K(0)
	True = K(1)
}

// K is the terminal with value v.
func K(v int64) Node {
	if n, ok := terms64[v]; ok {
		return n
	}
	n := Node(len(nodes))
	nodes = append(nodes, ddNode{v: -1, val: v})
	terms64[v] = n
	return n
}

func isK(n Node) (int64, bool) {
	d := nodes[n]
	return d.val, d.v < 0
}

func mk(v int32, lo, hi Node) Node {
	if lo == hi {
		return lo
	}
	if int(v) < len(chains) && chains[v].id != 0 {
		c := chains[v]
		hi = impose(hi, c.id, c.thr, posInf)
		lo = impose(lo, c.id, negInf, c.thr-1)
		if lo == hi {
			return lo
		}
		if impose(lo, c.id, c.thr, posInf) == hi {
			return lo
		}
		if impose(hi, c.id, negInf, c.thr-1) == lo {
			return hi
		}
	}
	k := [3]int32{v, int32(lo), int32(hi)}
	if n, ok := uniq[k]; ok {
		return n
	}
	n := Node(len(nodes))
	nodes = append(nodes, ddNode{v: v, lo: lo, hi: hi})
	uniq[k] = n
	return n
}

func ddVar(v int) Node { return mk(int32(v), False, True) }

const (
	opAdd = iota
	opMul
	opSub
	opAnd
	opOr
	opXor
	opMin
	opMax
)

func evalOp(op uint8, a, b int64) int64 {
	switch op {
	case opAdd:
		return a + b
	case opSub:
		return a - b
	case opMul:
		return a * b
	case opAnd:
		return a & b
	case opOr:
		return a | b
	case opXor:
		return a ^ b
	case opMin:
		if a < b {
			return a
		}
		return b
	case opMax:
		if a > b {
			return a
		}
		return b
	}
	panic("op")
}

func apply(op uint8, a, b Node) Node {
	switch op {
	case opAnd:
		if a == False || b == False {
			return False
		}
		if a == True {
			return b
		}
		if b == True || a == b {
			return a
		}
	case opOr:
		if a == True || b == True {
			return True
		}
		if a == False {
			return b
		}
		if b == False || a == b {
			return a
		}
	case opXor:
		if a == b {
			return False
		}
		if a == False {
			return b
		}
		if b == False {
			return a
		}
	case opAdd:
		if a == False {
			return b
		}
		if b == False {
			return a
		}
	case opSub:
		if b == False {
			return a
		}
		if a == b {
			return False
		}
	case opMul:
		if a == False || b == False {
			return False
		}
		if a == True {
			return b
		}
		if b == True {
			return a
		}
	case opMin, opMax:
		if a == b {
			return a
		}
	}
	da, db := nodes[a], nodes[b]
	if da.v < 0 && db.v < 0 {
		return K(evalOp(op, da.val, db.val))
	}
	if op != opSub && a > b {
		a, b = b, a
		da, db = db, da
	}
	k := opKey{op, a, b}
	if r, ok := opCache[k]; ok {
		return r
	}
	v := da.v
	if v < 0 || (db.v >= 0 && db.v < v) {
		v = db.v
	}
	al, ah, bl, bh := a, a, b, b
	if da.v == v {
		al, ah = da.lo, da.hi
	}
	if db.v == v {
		bl, bh = db.lo, db.hi
	}
	r := mk(v, apply(op, al, bl), apply(op, ah, bh))
	opCache[k] = r
	return r
}

func And(a, b Node) Node { return apply(opAnd, a, b) }
func Or(a, b Node) Node  { return apply(opOr, a, b) }
func Xor(a, b Node) Node { return apply(opXor, a, b) }
func Not(a Node) Node    { return apply(opXor, a, True) }

func AndN(xs ...Node) Node {
	r := True
	for _, x := range xs {
		r = And(r, x)
	}
	return r
}

func Implies(a, b Node) bool { return And(a, Not(b)) == False }

// Ite selects g where f holds, else h; f has terminals 0/1.
func Ite(f, g, h Node) Node {
	if f == True {
		return g
	}
	if f == False {
		return h
	}
	if g == h {
		return g
	}
	if g == True && h == False {
		return f
	}
	k := iteKey{f, g, h}
	if r, ok := iteCache[k]; ok {
		return r
	}
	v := nodes[f].v
	for _, x := range []Node{g, h} {
		if xv := nodes[x].v; xv >= 0 && xv < v {
			v = xv
		}
	}
	co := func(n Node, hi bool) Node {
		d := nodes[n]
		if d.v != v {
			return n
		}
		if hi {
			return d.hi
		}
		return d.lo
	}
	r := mk(v, Ite(co(f, false), co(g, false), co(h, false)), Ite(co(f, true), co(g, true), co(h, true)))
	iteCache[k] = r
	return r
}

func cofactor(f Node, v int32, val bool) Node {
	memo := map[Node]Node{}
	var rec func(n Node) Node
	rec = func(n Node) Node {
		d := nodes[n]
		if d.v < 0 || d.v > v {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		var r Node
		if d.v == v {
			if val {
				r = d.hi
			} else {
				r = d.lo
			}
		} else {
			r = mk(d.v, rec(d.lo), rec(d.hi))
		}
		memo[n] = r
		return r
	}
	return rec(f)
}

func exists(f Node, v int32) Node { return Or(cofactor(f, v, false), cofactor(f, v, true)) }

func support(f Node) []int32 {
	if s, ok := supCache[f]; ok {
		return s
	}
	seen := map[Node]bool{}
	vs := map[int32]bool{}
	var rec func(n Node)
	rec = func(n Node) {
		if seen[n] {
			return
		}
		seen[n] = true
		d := nodes[n]
		if d.v < 0 {
			return
		}
		vs[d.v] = true
		rec(d.lo)
		rec(d.hi)
	}
	rec(f)
	out := make([]int32, 0, len(vs))
	for v := range vs {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	supCache[f] = out
	return out
}

// GE0 is the guard "diagram value >= 0".
func GE0(a Node) Node {
	if r, ok := geCache[a]; ok {
		return r
	}
	d := nodes[a]
	var r Node
	if d.v < 0 {
		if d.val >= 0 {
			r = True
		} else {
			r = False
		}
	} else {
		r = mk(d.v, GE0(d.lo), GE0(d.hi))
	}
	geCache[a] = r
	return r
}

// mapT rewrites terminals.
func mapT(a Node, f func(int64) int64) Node {
	memo := map[Node]Node{}
	var rec func(n Node) Node
	rec = func(n Node) Node {
		if r, ok := memo[n]; ok {
			return r
		}
		d := nodes[n]
		var r Node
		if d.v < 0 {
			r = K(f(d.val))
		} else {
			r = mk(d.v, rec(d.lo), rec(d.hi))
		}
		memo[n] = r
		return r
	}
	return rec(a)
}

// terminalsUnder lists the values a takes where care holds.
func terminalsUnder(a, care Node) []int64 {
	type pr struct{ a, c Node }
	seen := map[pr]bool{}
	out := map[int64]bool{}
	var rec func(a, c Node)
	rec = func(a, c Node) {
		if c == False || seen[pr{a, c}] {
			return
		}
		seen[pr{a, c}] = true
		da, dc := nodes[a], nodes[c]
		if da.v < 0 {
			out[da.val] = true
			return
		}
		v := da.v
		if dc.v >= 0 && dc.v < v {
			v = dc.v
		}
		al, ah, cl, ch := a, a, c, c
		if da.v == v {
			al, ah = da.lo, da.hi
		}
		if dc.v == v {
			cl, ch = dc.lo, dc.hi
		}
		rec(al, cl)
		rec(ah, ch)
	}
	rec(a, care)
	r := make([]int64, 0, len(out))
	for v := range out {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func minMax(a, care Node) (int64, int64, bool) {
	t := terminalsUnder(a, care)
	if len(t) == 0 {
		return 0, 0, false
	}
	return t[0], t[len(t)-1], true
}

// eqUnder: do a and b agree wherever care holds?
func ddEqUnder(a, b, care Node) bool {
	if a == b {
		return true
	}
	return Ite(care, a, False) == Ite(care, b, False)
}

// minimize finds a guard g' with few atoms that agrees with g on care; atoms
// for which drop(v) is smaller are removed first.
func minimizeGuard(g, care Node, rank func(int32) int) Node {
	if care == False {
		return False
	}
	if Implies(care, g) {
		return True
	}
	base := And(g, care)
	if base == False {
		return False
	}
	cur := base
	vs := append([]int32(nil), support(base)...)
	sort.SliceStable(vs, func(i, j int) bool {
		ri, rj := rank(vs[i]), rank(vs[j])
		if ri != rj {
			return ri < rj
		}
		return vs[i] > vs[j]
	})
	for _, v := range vs {
		n := exists(cur, v)
		if n == cur {
			continue
		}
		if And(n, care) == base {
			cur = n
		}
	}
	return cur
}

// subst replaces variables by guards.
func ddCompose(f Node, m map[int32]Node) Node {
	memo := map[Node]Node{}
	var rec func(n Node) Node
	rec = func(n Node) Node {
		d := nodes[n]
		if d.v < 0 {
			return n
		}
		if r, ok := memo[n]; ok {
			return r
		}
		g, ok := m[d.v]
		if !ok {
			g = ddVar(int(d.v))
		}
		r := Ite(g, rec(d.hi), rec(d.lo))
		memo[n] = r
		return r
	}
	return rec(f)
}

// ddString prints a guard as a sum of a few cubes.
var ddCubes = 6

func ddString(f Node) string {
	if f == True {
		return "true"
	}
	if v, ok := isK(f); ok {
		if f == False {
			return "false"
		}
		return fmt.Sprint(v)
	}
	var cubes []string
	n := 0
	var rec func(x Node, cube []string)
	rec = func(x Node, cube []string) {
		if n > ddCubes {
			return
		}
		d := nodes[x]
		if d.v < 0 {
			if d.val != 0 {
				n++
				if n > ddCubes {
					cubes = append(cubes, "...")
					return
				}
				s := strings.Join(cube, " & ")
				if d.val != 1 {
					s = fmt.Sprintf("%d*(%s)", d.val, s)
				}
				cubes = append(cubes, s)
			}
			return
		}
		a := atomString(d.v)
		rec(d.hi, append(append([]string(nil), cube...), a))
		rec(d.lo, append(append([]string(nil), cube...), "!"+a))
	}
	rec(f, nil)
	return strings.Join(cubes, " | ")
}
