package main

// Failures noted in a variable and reported after the loop.

// headAtoms gives, for the variables l changes, a test for atoms about their
// value at the head and the rewriting of such atoms to another value.
func (l *LoopSum) headAtoms(pick func(*Leaf) Val) (func(v int32) bool, func(Node) Node) {
	terms := map[Term]Lin{}
	direct := map[int32]Node{}
	note := func(h, n Node) {
		if s := support(h); len(s) == 1 && h == ddVar(int(s[0])) {
			direct[s[0]] = n
		}
	}
	for _, lf := range l.leaves {
		switch lf.kind {
		case "ind", "acc", "seg", "shift", "fold":
			continue
		}
		to := pick(lf)
		if lf.head == nil || to == nil {
			continue
		}
		switch h := lf.head.(type) {
		case *Int:
			hl := h.asLin()
			n := asIntAny(to)
			if n == nil || len(hl.ts) != 1 {
				continue
			}
			if t := hl.ts[0].t; hl.eq(lt(t)) {
				terms[t] = n.asLin()
			}
		case Bool:
			if b, ok := to.(Bool); ok {
				note(h.n, b.n)
			}
		default:
			func() {
				defer func() { recover() }()
				note(isNil(lf.head), isNil(to))
			}()
		}
	}
	is := func(v int32) bool {
		if _, ok := direct[v]; ok {
			return true
		}
		a := atoms[v]
		switch a.kind {
		case aBit:
			_, ok := terms[a.t]
			return ok
		case aGE, aEQ:
			for _, m := range a.l.ts {
				if _, ok := terms[m.t]; !ok {
					return false
				}
			}
			return len(a.l.ts) > 0
		}
		return false
	}
	return is, func(n Node) Node {
		m := map[int32]Node{}
		for _, v := range support(n) {
			if d, ok := direct[v]; ok {
				m[v] = d
			}
		}
		// both at once: the new values may mention the heads
		sb := newSubst(terms)
		for _, v := range support(n) {
			if _, ok := m[v]; !ok {
				x := ddVar(int(v))
				if y := sb.node(x); y != x {
					m[v] = y
				}
			}
		}
		if len(m) == 0 {
			return n
		}
		return ddCompose(n, m)
	}
}

func atBack(lf *Leaf) Val { return lf.back }
func atInit(lf *Leaf) Val { return lf.init }

// sticky: what the variables of the innermost of the loops say at its head
// when there is no success anymore.
func (r *Run) sticky(loops []*LoopSum) Node {
	l := loops[len(loops)-1]
	f := r.succ
	if len(loops) > 1 {
		o := loops[len(loops)-2]
		f = False
		if o.back != nil {
			_, sub := o.headAtoms(atBack)
			f = And(o.back.pc, Not(sub(r.sticky(loops[:len(loops)-1]))))
		}
	}
	is, _ := l.headAtoms(atBack)
	return Not(project(f, is))
}

// stays: with s true at the head it is true at every later head, given what
// else holds in an iteration.
func (r *Run) stays(loops []*LoopSum, s Node, sticky bool, also func(l *LoopSum) Node) bool {
	l := loops[len(loops)-1]
	if l.back == nil {
		return true
	}
	given := And(s, also(l))
	if And(given, l.back.pc) == False {
		return true
	}
	for _, m := range r.I.loops {
		if len(m.outer) == 0 || m.outer[len(m.outer)-1] != l {
			continue
		}
		in := append(append([]*LoopSum(nil), loops...), m)
		sm := r.sticky(in)
		if !sticky {
			sm = Not(sm)
		}
		_, sub := m.headAtoms(atInit)
		if And(m.entry.pc, And(given, Not(sub(sm)))) == False && r.stays(in, sm, sticky, also) {
			given = And(given, sm)
		}
	}
	_, sub := l.headAtoms(atBack)
	return AndN(l.back.pc, given, Not(sub(s))) == False
}

// startsOK: before the loop no failure is noted.
func (r *Run) startsOK(loops []*LoopSum) bool {
	l := loops[len(loops)-1]
	_, sub := l.headAtoms(atInit)
	return And(l.entry.pc, sub(r.sticky(loops))) == False
}

// onlyAfter: what g says of the variables at the head of l is true only when
// ev was in an earlier turn.
func (l *LoopSum) onlyAfter(g, ev Node) bool {
	if g == False {
		return true
	}
	is, sub := l.headAtoms(atBack)
	p := project(g, is)
	if p == True {
		return false
	}
	_, first := l.headAtoms(atInit)
	if And(l.entry.pc, first(p)) != False {
		return false
	}
	return l.back == nil || AndN(l.back.pc, sub(p), Not(ev), Not(p)) == False
}

// notNext: a turn in which ev was is not followed by one in which g can be.
func (l *LoopSum) notNext(g, ev Node) bool {
	if l.back == nil {
		return true
	}
	is, sub := l.headAtoms(atBack)
	return AndN(l.back.pc, ev, sub(project(g, is))) == False
}

// project keeps of g what it says of some atoms.
func project(g Node, keep func(v int32) bool) Node {
	for _, v := range support(g) {
		if !keep(v) {
			g = exists(g, v)
		}
	}
	return g
}
