package main

import (
	"go/types"
	"sort"
	"strings"
)

// The service data record of the standard, without its body.
var recordSpec = section{"ServiceDataRecord", "C05", []fld{
	u(2, "RecordLength"), u(2, "RecordNumber"),
	flags(bitf{"SourceServiceOnDevice", 1, false}, bitf{"RecipientServiceOnDevice", 1, false}, bitf{"Group", 1, false},
		bitf{"RecordProcessingPriority", 2, false}, bitf{"TimeFieldExists", 1, false}, bitf{"EventIDFieldExists", 1, false}, bitf{"ObjectIDFieldExists", 1, false}),
	opt("ObjectIDFieldExists", u(4, "ObjectIdentifier")), opt("EventIDFieldExists", u(4, "EventIdentifier")),
	opt("TimeFieldExists", fld{kind: "time", name: "Time", n: 4}),
	u(1, "SourceServiceType"), u(1, "RecipientServiceType"),
}}

var subrecordSpec = section{"RecordData", "C05", []fld{u(1, "SubrecordType"), u(2, "SubrecordLength")}}

var responseSpec = section{"PtResponse", "C05", []fld{u(2, "ResponsePacketID"), u(1, "ProcessingResult")}}

func init() {
	checks["C05"] = checkDef{"proof", provedNote + "The record and subrecord loops are summarised: what one iteration appends and how far it advances is compared with the standard's header tables at an arbitrary position, so it holds for every list.", checkC05, 60}
	checks["C11"] = checkDef{"proof", provedNote + "For every subrecord type code, the decoder called, its bytes, the resulting kind and the skip of unknown codes are compared with the standard's code table; for every kind, the code written.", checkC11, 60}
	checks["C24"] = checkDef{"proof", provedNote + "The length written in each header is compared with the length of what follows it, and each section's Length with the length of its encoding.", checkC24, 20}
}

// A listRun is the decoding of a list of records, one iteration at a time.
type listRun struct {
	*Run
	el   *types.Named
	L    *LoopSum
	acc  *Leaf
	up   *Leaf
	pos  Lin // where the record of this iteration starts
	next Lin // where the one after it starts
	care Node
	item *StructV // what is appended
	has  Node     // where it is
	d    *decoded
}

func (c *Check) listDecode(typ string, spec *section) *listRun {
	r := c.decodeRun(typ)
	if r == nil {
		return nil
	}
	return c.listOf(r, spec)
}

// listOf looks at how a list is decoded.
func (c *Check) listOf(r *Run, spec *section) *listRun {
	sl, ok := r.nam.Underlying().(*types.Slice)
	if !c.ob(ok, "anchor", r.name, r.fn.Pos(), "a list of records") {
		return nil
	}
	l := &listRun{Run: r}
	l.el, _ = sl.Elem().(*types.Named)
	if !c.ob(l.el != nil && l.el.Obj().Name() == spec.typ, "anchor", r.name, r.fn.Pos(), "a list of %s", spec.typ) {
		return nil
	}
	st, ok := l.el.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	// the list that is returned is what one loop accumulates
	fin := r.out.fork()
	fin.pc = And(fin.pc, r.succ)
	got := r.I.navLoad(fin.heap.get(r.I, r.recv), nil, r.recv.typ, fin.pc)
	q, _ := r.I.contentAny(fin, restrict(got, r.succ), r.nam)
	q = q.under(r.succ)
	for _, s := range r.I.loops {
		for _, lf := range s.leaves {
			if lf.kind != "acc" || s.back == nil || lf.delta == nil {
				continue
			}
			h := r.I.seqOfVal(s.head, lf.head)
			if h == nil || len(h.ps) != 1 || len(q.ps) != 1 || h.ps[0].v != nil || q.ps[0].v != nil || h.ps[0].src != q.ps[0].src {
				continue
			}
			if isEmptyVal(r, s.entry, lf.init) {
				l.L, l.acc = s, lf
			}
		}
	}
	if !c.ob(l.L != nil, "list", r.name, r.fn.Pos(), "the result is the list of what the iterations append; it is %s", clip(q.String(), 200)) {
		return nil
	}
	l.care = l.L.back.pc
	// the position advances from 0
	for _, lf := range l.L.leaves {
		if lf.kind != "up" && lf.kind != "tail" {
			continue
		}
		h, i, b, ok := lf.ints(l.care)
		if !ok {
			continue
		}
		if lf.kind == "tail" && !r.isSource(l.L.head, lf.init.(*Slice)) {
			continue
		}
		if k, isk := i.isConst(); !isk || k != 0 {
			continue
		}
		l.up, l.pos, l.next = lf, h, b
		d, err := spec.decodeAt(st, r.src, l.pos)
		if !c.ob(err == nil, "anchor", r.name, r.fn.Pos(), "the fields of the standard exist: %v", err) {
			return nil
		}
		l.d = d
		break
	}
	if !c.ob(l.up != nil, "list", r.name, r.fn.Pos(), "records are read one behind the other from the start") {
		return nil
	}
	l.has = False
	for _, p := range l.acc.delta.ps {
		x, ok := p.v.(*StructV)
		if !c.ob(ok, "list", r.name, r.fn.Pos(), "an iteration appends records; it appends %s", clip(show(p.v), 200)) {
			return nil
		}
		if And(l.has, And(p.g, l.care)) != False {
			c.ob(false, "list", r.name, r.fn.Pos(), "an iteration appends one record")
			return nil
		}
		if l.item == nil {
			l.item = x
		} else {
			l.item, _ = iteVal(p.g, x, l.item).(*StructV)
			if l.item == nil {
				return nil
			}
		}
		l.has = Or(l.has, p.g)
	}
	if !c.ob(l.item != nil && And(l.has, l.care) != False, "list", r.name, r.fn.Pos(), "an iteration appends a record") {
		return nil
	}
	return l
}

func isEmptyVal(r *Run, st *State, v Val) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case *Slice:
		return x.obj == nil || x.nilG == True || linEqUnder(x.n, lk(0), True)
	case *Seq:
		return linEqUnder(x.length(), lk(0), True)
	}
	return false
}

func (l *listRun) fld(name string) (Val, bool) { return rawField(l.item, name) }

func rawField(v *StructV, name string) (Val, bool) {
	i, _ := fieldOf(v.typ, name)
	if i < 0 {
		return nil, false
	}
	return v.f[i], true
}

// header: the header fields of the record at any position are the standard's.
func (l *listRun) header(spec *section) {
	c := l.c
	g := And(l.care, l.has)
	for _, name := range spec.names() {
		got, ok := l.fld(name)
		want := l.d.fields[name]
		c.ob(ok && sameUnder(got, want, g), "decode", l.name, l.fn.Pos(), "%s.%s = %s; the standard says %s", spec.typ, name, show2(got, g), show2(want, g))
	}
}

// bodyAt: under g the bytes are exactly those at pos of the announced length.
func (l *listRun) bodyAt(rule string, e *Event, n Lin, g Node) {
	q, _ := l.I.contentAny(e.state(), e.args[len(e.args)-1], types.NewSlice(types.Typ[types.Uint8]))
	for _, pc := range posCases(l.d.total, g) {
		diff, _ := seqDiff(q, segSeq(l.src, pc.pos, n, true, nil), And(g, pc.g))
		l.c.ob(diff == "", rule, l.name, e.pos, "the body is exactly the announced bytes behind the header; %s", diff)
	}
}

func (l *listRun) decodeCalls() []*Event {
	var out []*Event
	for _, e := range l.I.events {
		if e.kind == "api" && strings.HasSuffix(e.name, ".Decode") && And(e.pc, l.L.head.pc) != False && len(e.args) > 1 {
			out = append(out, e)
		}
	}
	return out
}

// ended: the list ends only where nothing is left.
func (l *listRun) ended() {
	l.c.ob(entails(l.succ, l.pos.sub(lenTerm(l.src))), "whole", l.name, l.fn.Pos(), "success means that everything was read; it can be returned where %s", clip(ddString(l.succ), 300))
}

// advance: the next record starts where the standard says.
func (l *listRun) advance(want Lin, g Node) {
	for _, pc := range posCases(want, g) {
		x := And(g, pc.g)
		ok := linEqUnder(l.next, pc.pos, x)
		l.c.ob(ok, "next", l.name, l.fn.Pos(), "the next record starts behind this one; it starts at %s, expected %s", clip(l.next.under(x).String(), 200), clip(pc.pos.String(), 200))
	}
}

// goesOn: a good record does not stop the loop.
func (l *listRun) goesOn(end Lin, g Node, what string) {
	g = And(g, l.L.head.pc)
	for _, pc := range posCases(end, g) {
		x := AndN(g, pc.g, mkGE(lenTerm(l.src).sub(pc.pos)), mkGE(lenTerm(l.src).sub(l.pos).addK(-1)))
		l.c.ob(impliesT(x, l.care), "accept", l.name, l.fn.Pos(), "%s is accepted; refused where %s", what, clip(ddString(And(x, Not(l.care))), 300))
	}
}

func checkC05(c *Check) { c.lists() }

// lists: the records of a packet, the subrecords of a record and the records
// of a response, in both directions.
func (c *Check) lists() {
	c.recordsDecode()
	c.subrecordsDecode()
	c.responseDecode()
	if e := c.listEncode("ServiceDataSet", &recordSpec); e != nil {
		e.encoded()
	}
	if e := c.listEncode("RecordDataSet", &subrecordSpec); e != nil {
		e.encoded()
	}
	c.responseEncode()
}

func (c *Check) recordsDecode() {
	l := c.listDecode("ServiceDataSet", &recordSpec)
	if l == nil {
		return
	}
	c.ob(Implies(l.care, l.has), "list", l.name, l.fn.Pos(), "every record read is kept")
	l.header(&recordSpec)
	rl := intBits(leBits(l.src, l.pos, 2), false).asLin()
	end := lenTerm(l.src)
	nested := False
	good := True
	for _, e := range l.decodeCalls() {
		l.bodyAt("body", e, rl, e.pc)
		nested = Or(nested, e.pc)
		good = And(good, Or(Not(e.pc), isNil(e.res)))
		p, ok := e.args[0].(*Ptr)
		g := And(l.care, e.pc)
		got, okf := l.fld("RecordDataSet")
		if !c.ob(ok && okf, "body", l.name, e.pos, "a record carries what its body was decoded into") {
			continue
		}
		want := l.I.navLoad(l.L.back.heap.get(l.I, p.obj), p.path, p.obj.typ, g)
		c.ob(sameUnder(got, want, g), "body", l.name, e.pos, "a record carries what its body was decoded into; it carries %s", show2(got, g))
	}
	for _, pc := range posCases(l.d.total, l.care) {
		more := mkGE(end.sub(pc.pos).addK(-1))
		g := AndN(l.care, pc.g, more)
		c.ob(impliesT(g, nested), "body", l.name, l.fn.Pos(), "the body of every record is decoded")
		none := AndN(l.care, pc.g, Not(more))
		if none != False {
			got, ok := l.fld("RecordDataSet")
			c.ob(ok && emptyUnder(got, none), "body", l.name, l.fn.Pos(), "a record without body has no subrecords; it has %s", show2(got, none))
			l.advance(pc.pos, none)
		}
		l.advance(pc.pos.add(rl), g)
		l.goesOn(pc.pos.add(rl), And(pc.g, good), "a record with a good body")
	}
	l.ended()
}

func emptyUnder(v Val, g Node) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case *IteV:
		return (And(g, x.g) == False || emptyUnder(x.a, And(g, x.g))) && (And(g, Not(x.g)) == False || emptyUnder(x.b, And(g, Not(x.g))))
	case *Slice:
		return linEqUnder(x.n, lk(0), g)
	}
	return false
}

func (c *Check) subrecordsDecode() {
	l := c.listDecode("RecordDataSet", &subrecordSpec)
	if l == nil {
		return
	}
	l.header(&subrecordSpec)
	n := intBits(leBits(l.src, l.pos.addK(1), 2), false).asLin()
	seen := False
	for _, e := range l.decodeCalls() {
		l.bodyAt("body", e, n, e.pc)
		g := And(l.care, e.pc)
		seen = Or(seen, e.pc)
		got, ok := l.fld("SubrecordData")
		c.ob(ok && Implies(g, l.has) && l.isTarget(got, e.args[0], g), "body", l.name, e.pos, "a subrecord carries what its body was decoded into; it carries %s", show2(got, g))
	}
	c.ob(Implies(And(l.care, l.has), seen), "body", l.name, l.fn.Pos(), "the body of every kept subrecord is decoded")
	l.advance(l.pos.addK(3).add(n), l.care)
	l.ended()
}

func (c *Check) responseDecode() {
	r := c.decodeRun("PtResponse")
	if r == nil {
		return
	}
	st, _ := r.nam.Underlying().(*types.Struct)
	d, err := responseSpec.decode(st, r.src)
	if !c.ob(err == nil, "anchor", r.name, r.fn.Pos(), "the fields of the standard exist: %v", err) {
		return
	}
	for _, name := range responseSpec.names() {
		got, ok := r.field(name)
		want := d.fields[name]
		c.ob(ok && sameUnder(got, want, r.succ), "decode", r.name, r.fn.Pos(), "PtResponse.%s = %s; the standard says %s", name, show2(got, r.succ), show2(want, r.succ))
	}
	end := lenTerm(r.src)
	more := mkGE(end.addK(-4))
	seen := False
	for _, e := range r.I.events {
		if e.kind != "api" || !strings.HasSuffix(e.name, ".Decode") {
			continue
		}
		q, _ := r.I.contentAny(e.state(), e.args[len(e.args)-1], types.NewSlice(types.Typ[types.Uint8]))
		diff, _ := seqDiff(q, segSeq(r.src, lk(3), end.addK(-3), true, nil), e.pc)
		c.ob(diff == "", "body", r.name, e.pos, "the records are decoded from the bytes behind the result; %s", diff)
		to, _ := sectionOf(e.args[0])
		c.ob(to == "ServiceDataSet", "body", r.name, e.pos, "a response carries service data records; decoded is %s", to)
		got, ok := r.field("SDR")
		g := And(r.succ, e.pc)
		c.ob(ok && r.isTarget(got, e.args[0], g), "body", r.name, e.pos, "the response carries the decoded records; it has %s", show2(got, g))
		seen = Or(seen, e.pc)
	}
	c.ob(impliesT(And(r.succ, more), seen), "body", r.name, r.fn.Pos(), "records are decoded if there are any")
	if got, ok := r.field("SDR"); ok {
		none := And(r.succ, Not(more))
		c.ob(Implies(none, isNil(got)), "body", r.name, r.fn.Pos(), "a response without records has none; it has %s", show2(got, none))
	}
	full := And(mkGE(end.addK(-3)), r.nestedOK())
	c.ob(impliesT(full, r.succ), "accept", r.name, r.fn.Pos(), "a response with good records is decoded; refused where %s", clip(ddString(And(full, Not(r.succ))), 300))
}

// ---------------------------------------------------------------- encoding

// A listEnc is the encoding of any list of well-formed records.
type listEnc struct {
	*Run
	spec  *section
	el    *types.Named
	L     *LoopSum
	acc   *Leaf
	n     Term // the list
	care  Node
	w     *wf // the record of this iteration
	body  *Seq
	ok    Node // its body was encoded
	data  Val
	given Node // the length is given
	fits  Node
	want  *Seq
}

func (c *Check) listEncode(typ string, spec *section) *listEnc {
	n, f := c.anchor(libRel, typ, "Encode")
	if f == nil {
		return nil
	}
	sl, ok := n.Underlying().(*types.Slice)
	if !c.ob(ok, "anchor", typ, f.Pos(), "a list of records") {
		return nil
	}
	e := &listEnc{Run: c.begin(), spec: spec}
	e.el, _ = sl.Elem().(*types.Named)
	if !c.ob(e.el != nil && e.el.Obj().Name() == spec.typ, "anchor", typ, f.Pos(), "a list of %s", spec.typ) {
		return nil
	}
	v := symVal(n, "v", "v")
	lst, ok := v.(*Slice)
	if !ok {
		return nil
	}
	e.n = symSeqs[lst.obj.id].ps[0].src
	var werr error
	made := map[string]*wf{}
	mk := func(i Lin) *wf {
		k := "v[" + i.key() + "]"
		if w := made[k]; w != nil {
			return w
		}
		w, err := spec.wellFormed(e.el, k, e.I, e.st)
		if err != nil {
			werr = err
			w = &wf{val: symVal(e.el, k, k).(*StructV), rope: &Seq{byts: true}, fields: map[string]Val{}}
		} else if spec == &subrecordSpec {
			st := e.el.Underlying().(*types.Struct)
			if j, t := fieldOf(st, "SubrecordData"); j >= 0 {
				w.val.f[j] = &Opaque{nn(intern("obj", k+".data", 0, 0, 0, t, nil)), t}
			}
		}
		made[k] = w
		return w
	}
	elemHooks[e.n] = func(i Lin) Val { return mk(i).val }
	e.setRecv(n, v)
	e.I.separate(c.p, n)
	e.call(f)
	e.decided()
	if !c.ob(werr == nil, "anchor", e.name, f.Pos(), "the fields of the standard exist: %v", werr) {
		return nil
	}
	fin := e.out.fork()
	fin.pc = And(fin.pc, e.succ)
	if len(e.res) == 0 {
		return nil
	}
	q, _ := e.I.contentAny(fin, restrict(e.res[0], e.succ), types.NewSlice(types.Typ[types.Uint8]))
	q = q.under(e.succ)
	for _, s := range e.I.loops {
		for _, lf := range s.leaves {
			if lf.kind != "acc" || s.back == nil || lf.delta == nil || !isEmptyVal(e.Run, s.entry, lf.init) {
				continue
			}
			h := e.I.seqOfVal(s.head, lf.head)
			if h == nil || len(h.ps) != 1 || len(q.ps) != 1 || h.ps[0].v != nil || q.ps[0].v != nil || h.ps[0].src != q.ps[0].src {
				continue
			}
			e.L, e.acc = s, lf
		}
	}
	if !c.ob(e.L != nil, "list", e.name, f.Pos(), "the encoding is the concatenation of what the iterations write; it is %s", clip(q.String(), 200)) {
		return nil
	}
	e.care = e.L.back.pc
	e.w = mk(lt(e.L.k))
	// every record of the list is written: the loop succeeds only at its end
	for _, x := range e.L.leave {
		if And(x.after, e.succ) == False {
			continue
		}
		c.ob(x.known && linEqUnder(x.n, lenTerm(e.n), And(x.after, e.succ)), "whole", e.name, f.Pos(), "the loop over the records ends with the list; it ends after %s", x.n)
	}
	// the body of the record
	for _, ev := range e.I.events {
		if ev.kind == "api" && strings.HasSuffix(ev.name, ".Encode") && And(ev.pc, e.L.head.pc) != False {
			tp, ok := ev.res.(*Tuple)
			if !ok || len(tp.vs) != 2 || e.body != nil {
				c.ob(false, "body", e.name, ev.pos, "the body of a record is encoded once")
				return nil
			}
			e.body, e.ok = e.I.made(ev.state(), tp.vs[0]), isNil(tp.vs[1])
			e.data = ev.args[0]
			c.ob(Implies(e.care, ev.pc), "body", e.name, ev.pos, "the body of every record is encoded")
		}
	}
	if !c.ob(e.body != nil, "body", e.name, f.Pos(), "the body of a record is encoded") {
		return nil
	}
	ln := map[bool]string{true: "RecordLength", false: "SubrecordLength"}[spec == &recordSpec]
	g, _ := e.w.fields[ln].(*Int)
	if g == nil {
		return nil
	}
	e.given = Not(intEQ(g, intK(0, 16, false)))
	e.fits = mkGE(e.body.length().neg().addK(65535))
	return e
}

// isBody: the encoded body is that of this record.
func (e *listEnc) isBody() bool {
	f := map[bool]string{true: "RecordDataSet", false: "SubrecordData"}[e.spec == &recordSpec]
	want, ok := rawField(e.w.val, f)
	if !ok {
		return false
	}
	k := ""
	if p, ok := e.data.(*Ptr); ok {
		k = "@" + e.I.deepKey(want, e.L.back, 0)
		_ = p
	} else {
		k = keyOf(want)
		if i, ok := want.(*Iface); ok {
			k = e.I.recvKey(i, e.L.back)
		}
	}
	s, _ := encTerms(k)
	return s.key() == e.body.key()
}

// plan is what the standard wants one iteration to write.
func (e *listEnc) plan() *Seq {
	at := map[bool]int{true: 0, false: 1}[e.spec == &recordSpec]
	ps := append([]Piece(nil), e.w.rope.ps...)
	nb := intL(e.body.length(), 16, false).bitVec()
	for i := 0; i < 2; i++ {
		ps[at+i].v = iteVal(e.given, ps[at+i].v, intBits(nb[8*i:8*i+8], false))
	}
	q := &Seq{byts: true, ps: ps}
	return q.concat(e.body)
}

func (e *listEnc) encoded() {
	c := e.c
	c.ob(e.isBody(), "body", e.name, e.fn.Pos(), "the body written is that of the record itself")
	want := e.plan()
	g := e.care
	if e.spec == &subrecordSpec {
		// the type code to write is C11's
		t, _ := e.w.fields["SubrecordType"].(*Int)
		g = And(g, Not(intEQ(t, intK(0, 8, false))))
	}
	diff, _ := seqDiff(e.acc.delta, want, g)
	c.obls += len(want.ps) - 1
	c.rules["encode"] += len(want.ps) - 1
	c.ob(diff == "", "encode", e.name, e.fn.Pos(), "one %s is written as the standard lays it out; first difference: %s", e.spec.typ, diff)
	if g != e.care {
		rest := &Seq{byts: true, ps: append([]Piece(nil), want.ps...)}
		d := &Seq{byts: true, ps: append([]Piece(nil), e.acc.delta.ps...)}
		if len(rest.ps) > 0 && len(d.ps) > 0 && d.ps[0].g == True && d.ps[0].v != nil {
			d.ps[0], rest.ps[0] = Piece{g: True, v: intK(0, 8, false)}, Piece{g: True, v: intK(0, 8, false)}
			diff, _ = seqDiff(d, rest, e.care)
			c.ob(diff == "", "encode", e.name, e.fn.Pos(), "one subrecord is written as the standard lays it out; first difference: %s", diff)
		}
	}
	x := AndN(e.L.head.pc, mkGE(lenTerm(e.n).sub(lt(e.L.k)).addK(-1)), e.ok, Or(e.given, e.fits))
	if e.spec == &subrecordSpec {
		t, _ := e.w.fields["SubrecordType"].(*Int)
		x = And(x, Not(intEQ(t, intK(0, 8, false))))
	}
	c.ob(impliesT(x, e.care), "encode-ok", e.name, e.fn.Pos(), "a well-formed record is encoded; refused where %s", clip(ddString(And(x, Not(e.care))), 300))
}

func (c *Check) responseEncode() {
	n, f := c.anchor(libRel, "PtResponse", "Encode")
	if f == nil {
		return
	}
	r := c.begin()
	w, err := responseSpec.wellFormed(n, "v", r.I, r.st)
	if !c.ob(err == nil, "anchor", "PtResponse", f.Pos(), "the fields of the standard exist: %v", err) {
		return
	}
	r.setRecv(n, w.val)
	r.I.separate(c.p, n)
	r.call(f)
	r.decided()
	sdr, ok := rawField(w.val, "SDR")
	if !c.ob(ok, "anchor", r.name, f.Pos(), "a response has records") || len(r.res) == 0 {
		return
	}
	has := Not(isNil(sdr))
	body, berr := encTerms(r.I.recvKey(sdr, r.out))
	want := &Seq{byts: true, ps: append([]Piece(nil), w.rope.ps...)}
	for _, p := range body.ps {
		p.g = And(p.g, has)
		want.push(p)
	}
	st := r.out.fork()
	st.pc = And(st.pc, r.succ)
	q, _ := r.I.contentAny(st, r.res[0], types.NewSlice(types.Typ[types.Uint8]))
	diff, _ := seqDiff(q, want, r.succ)
	c.ob(diff == "", "encode", r.name, f.Pos(), "a response is written as the standard lays it out; first difference: %s", diff)
	g := Or(Not(has), isNil(berr))
	c.ob(impliesT(g, r.succ), "encode-ok", r.name, f.Pos(), "a well-formed response is encoded; refused where %s", clip(ddString(And(g, Not(r.succ))), 300))
}

// ---------------------------------------------------------------- type codes

func checkC11(c *Check) {
	l := c.listDecode("RecordDataSet", &subrecordSpec)
	if l == nil {
		return
	}
	ty := intBits(leBits(l.src, l.pos, 1), false)
	n := intBits(leBits(l.src, l.pos.addK(1), 2), false)
	is := func(k int64) Node { return intEQ(ty, intK(k, 8, false)) }
	five := intEQ(n, intK(5, 16, false))
	kinds := map[string]Node{}
	known := is(20)
	for k, code := range specCodes {
		kinds[k] = is(code)
		known = Or(known, is(code))
	}
	kinds["SrStateData"] = Or(kinds["SrStateData"], And(is(20), five))
	full := AndN(l.L.head.pc, mkGE(lenTerm(l.src).sub(l.pos).addK(-3)), mkGE(lenTerm(l.src).sub(l.pos).sub(n.asLin()).addK(-3)))
	called := map[string]Node{}
	good := map[string]Node{}
	for _, e := range l.decodeCalls() {
		to, ok := sectionOf(e.args[0])
		want, okk := kinds[to]
		if !c.ob(ok && okk, "kind", l.name, e.pos, "a subrecord is decoded as a kind the standard has a code for; %s has none", to) {
			continue
		}
		c.ob(Implies(e.pc, want), "code", l.name, e.pos, "only type %d is decoded as %s; also where %s", specCodes[to], to, clip(ddString(And(e.pc, Not(want))), 200))
		l.bodyAt("own-bytes", e, n.asLin(), e.pc)
		g := And(l.care, e.pc)
		got, ok := l.fld("SubrecordData")
		c.ob(ok && Implies(g, l.has) && l.isTarget(got, e.args[0], g), "kind", l.name, e.pos, "a subrecord of type %d becomes %s; it becomes %s", specCodes[to], to, show2(got, g))
		if called[to] == 0 {
			called[to], good[to] = False, True
		}
		called[to] = Or(called[to], e.pc)
		good[to] = And(good[to], Or(Not(e.pc), isNil(e.res)))
	}
	var names []string
	for k := range kinds {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		want := And(full, kinds[k])
		cl, ok := called[k]
		if !c.ob(ok, "code", l.name, l.fn.Pos(), "type %d is decoded as %s", specCodes[k], k) {
			continue
		}
		c.ob(impliesT(want, cl), "code", l.name, l.fn.Pos(), "every subrecord of type %d is decoded as %s; not where %s", specCodes[k], k, clip(ddString(And(want, Not(cl))), 200))
		c.ob(impliesT(And(want, good[k]), l.care), "accept", l.name, l.fn.Pos(), "a good subrecord of type %d does not stop decoding; it does where %s", specCodes[k], clip(ddString(AndN(want, good[k], Not(l.care))), 200))
		c.ob(Implies(AndN(l.care, kinds[k]), l.has), "kept", l.name, l.fn.Pos(), "a subrecord of type %d is kept", specCodes[k])
	}
	unk := And(full, Not(known))
	c.ob(impliesT(unk, l.care), "skip", l.name, l.fn.Pos(), "a subrecord of unknown type does not stop decoding; it does where %s", clip(ddString(And(unk, Not(l.care))), 200))
	c.ob(And(unk, l.has) == False || AndN(unk, l.care, l.has) == False, "skip", l.name, l.fn.Pos(), "a subrecord of unknown type is skipped; kept where %s", clip(ddString(AndN(unk, l.care, l.has)), 200))
	l.advance(l.pos.addK(3).add(n.asLin()), l.care)
	l.header(&subrecordSpec)
	l.ended()
	c.typesWritten(names)
}

// typesWritten: a subrecord without a code gets that of its kind.
func (c *Check) typesWritten(names []string) {
	e := c.listEncode("RecordDataSet", &subrecordSpec)
	if e == nil {
		return
	}
	t, _ := e.w.fields["SubrecordType"].(*Int)
	data, ok := rawField(e.w.val, "SubrecordData")
	if !c.ob(ok && t != nil, "anchor", e.name, e.fn.Pos(), "a subrecord has a type and data") || len(e.acc.delta.ps) == 0 {
		return
	}
	op, _ := data.(*Opaque)
	first, _ := e.acc.delta.ps[0].v.(*Int)
	if !c.ob(op != nil && first != nil && e.acc.delta.ps[0].g == True, "written", e.name, e.fn.Pos(), "a subrecord starts with its type") {
		return
	}
	zero := intEQ(t, intK(0, 8, false))
	c.ob(sameUnder(first, t, And(e.care, Not(zero))), "written", e.name, e.fn.Pos(), "an explicit type is written as it is; written is %s", show2(first, And(e.care, Not(zero))))
	more := And(e.L.head.pc, mkGE(lenTerm(e.n).sub(lt(e.L.k)).addK(-1)))
	any := False
	for _, k := range names {
		nm := c.p.named(libRel, k)
		if !c.ob(nm != nil, "anchor", k, e.fn.Pos(), "the kind exists") {
			continue
		}
		is := typeIs(op, types.NewPointer(nm))
		any = Or(any, is)
		g := AndN(e.care, zero, is)
		c.ob(sameUnder(first, intK(specCodes[k], 8, false), g), "written", e.name, e.fn.Pos(), "%s is written with type %d; written is %s", k, specCodes[k], show2(first, g))
		x := AndN(more, zero, is, e.ok, Or(e.given, e.fits))
		c.ob(impliesT(x, e.care), "written", e.name, e.fn.Pos(), "%s needs no explicit type to be encoded; refused where %s", k, clip(ddString(And(x, Not(e.care))), 200))
	}
	rest := AndN(e.care, zero, Not(any))
	c.ob(rest == False, "written", e.name, e.fn.Pos(), "data of a kind without code is not encoded; encoded where %s", clip(ddString(rest), 200))
}

// ---------------------------------------------------------------- lengths

func checkC24(c *Check) {
	for _, n := range c.p.sections() {
		if f := c.p.method(n, "Length"); n.Obj().Name() != "Package" && f != nil && f.Synthetic == "" {
			c.ownLength(n)
		}
	}
	for _, s := range []*section{&recordSpec, &subrecordSpec} {
		e := c.listEncode(map[bool]string{true: "ServiceDataSet", false: "RecordDataSet"}[s == &recordSpec], s)
		if e == nil {
			continue
		}
		at := map[bool]int{true: 0, false: 1}[s == &recordSpec]
		hdr := (&Seq{byts: true, ps: e.w.rope.ps}).length()
		g := And(e.care, Not(e.given))
		d := e.acc.delta
		if !c.ob(len(d.ps) > at+1 && d.ps[at].v != nil && d.ps[at+1].v != nil, "filled", e.name, e.fn.Pos(), "a record's length is written at its place") {
			continue
		}
		n := d.length().sub(hdr).under(g)
		nb := intL(n, 16, false).bitVec()
		for i := 0; i < 2; i++ {
			c.ob(sameUnder(d.ps[at+i].v, intBits(nb[8*i:8*i+8], false), g), "filled", e.name, e.fn.Pos(), "byte %d of the length filled in is that of the number of bytes behind the header; it is %s", i, show2(d.ps[at+i].v, g))
		}
		c.ob(entails(g, n.neg().addK(65535)) && entails(g, n), "too-long", e.name, e.fn.Pos(), "a body longer than its length field can say is an error; encoded where %s", clip(ddString(And(g, Not(e.fits))), 300))
	}
	for _, m := range [][2]bool{{false, false}, {true, true}} {
		e := c.wfPacket(m[0], m[1])
		if e == nil {
			continue
		}
		q := e.out()
		if !c.ob(e.succ != False && len(q.ps) > 10, "filled", e.name, e.fn.Pos(), "a packet is encoded") {
			continue
		}
		b := e.bodyEnc(c, m[1], "filled")
		if b == nil {
			continue
		}
		// header with its checksum, the body and, with a body, its checksum
		body := b.length()
		all := e.hdr.add(body).add(lk(2).gate(mkGE(body.addK(-1))))
		c.ob(linEqUnder(q.length(), all, e.succ), "filled", e.name, e.fn.Pos(), "behind the header are the body and its checksum, %s bytes together; there are %s", all, q.length())
		nb := intL(body, 16, false).bitVec()
		for i := 0; i < 2; i++ {
			c.ob(sameUnder(q.ps[5+i].v, intBits(nb[8*i:8*i+8], false), e.succ), "filled", e.name, e.fn.Pos(), "byte %d of the frame data length is that of the number of bytes of the body; it is %s", i, show2(q.ps[5+i].v, e.succ))
		}
		c.ob(entails(e.succ, body.neg().addK(65535)), "too-long", e.name, e.fn.Pos(), "a body longer than 65535 bytes is an error; encoded where %s", clip(ddString(e.succ), 300))
	}
}

// ownLength: what a section says of its length is the length of its encoding.
func (c *Check) ownLength(n *types.Named) {
	name := n.Obj().Name()
	f := c.p.method(n, "Length")
	enc := c.p.method(n, "Encode")
	r := c.begin()
	v := symVal(n, "v", "v")
	r.setRecv(n, v)
	r.I.separate(c.p)
	r.call(f)
	r.decided()
	if !c.ob(len(r.res) == 1, "anchor", name, f.Pos(), "Length gives a number") {
		return
	}
	// by its own encoding
	seq, err := encTerms(r.I.recvKey(r.args[0], r.st))
	got, ok := r.res[0].(*Int)
	if x, isite := r.res[0].(*IteV); isite {
		got, ok = restrict(x, isNil(err)).(*Int)
	}
	if ok && sameUnder(got, convInt(intL(seq.length().under(isNil(err)), 64, true), 16, false, isNil(err)), isNil(err)) {
		c.ob(true, "length", r.name, f.Pos(), "")
		return
	}
	// or as a constant
	k, isk := int64(0), false
	if ok {
		k, isk = got.constant()
	}
	shown := show(r.res[0])
	q := c.begin()
	q.setRecv(n, symVal(n, "v", "v"))
	q.I.separate(c.p, n)
	q.call(enc)
	q.decided()
	st := q.out.fork()
	st.pc = And(st.pc, q.succ)
	b, _ := q.I.contentAny(st, q.res[0], types.NewSlice(types.Typ[types.Uint8]))
	c.ob(isk && linEqUnder(b.length(), lk(k), q.succ), "length", shortFn(f), f.Pos(), "Length is the number of bytes of the encoding, %s; it is %s", b.length(), clip(shown, 200))
}

// isSource: the slice is the bytes given.
func (r *Run) isSource(st *State, s *Slice) bool {
	q := r.I.content(st, s)
	return q != nil && r.hasSrc && len(q.ps) == 1 && q.ps[0].v == nil && q.ps[0].g == True && q.ps[0].src == r.src && q.ps[0].off.eq(lk(0))
}
