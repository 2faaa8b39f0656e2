package main

import (
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"
)

func init() {
	checks["C14"] = checkDef{"proof", "The run of a connection is one loop over the packets of a symbolic stream. At an arbitrary iteration, starting at an arbitrary position, the bytes given to Package.Decode, the position after it and the conditions of every way out of the loop are compared with the frame the header announces. Assumed: io.ReadFull fills its buffer or fails.", checkC14, 8}
}

// connRun is the handling of a connection, seen at one packet of it.
type connRun struct {
	*Run
	conn  Val
	L     *LoopSum // over the packets
	decs  []*Event // decoding of the packet
	dec   Node     // it is decoded
	src   Term     // the bytes of the connection
	pos   Lin      // where the packet starts
	frame Lin      // its length as its header announces
	obj   *Obj     // the stream read from
}

func (c *Check) connRun() *connRun {
	r := c.serverRun()
	if r == nil {
		return nil
	}
	r.decided()
	q := &connRun{Run: r, conn: r.conn}
	for i, p := range r.fn.Params {
		if types.TypeString(p.Type(), nil) == "net.Conn" {
			q.conn = r.args[i]
		}
	}
	for _, e := range r.I.events {
		if e.ssaFn != nil && e.ssaFn.Name() == "Decode" && isPackage2(recvNamed(e.ssaFn)) && e.pc != False {
			q.decs = append(q.decs, e)
			q.dec = Or(q.dec, e.pc)
		}
	}
	if !c.ob(len(q.decs) > 0 && len(q.decs[0].loops) > 0, "anchor", r.name, r.fn.Pos(), "packets are decoded in a loop over the connection") {
		return nil
	}
	q.L = q.decs[0].loops[0]
	for _, e := range q.decs {
		if !c.ob(len(e.loops) == 1 && e.loops[0] == q.L, "anchor", r.name, e.pos, "a packet is decoded once for each turn of the loop over the connection") {
			return nil
		}
	}
	if !c.ob(q.L.back != nil, "anchor", r.name, r.fn.Pos(), "a connection carries more than one packet") {
		return nil
	}
	own := r.I.streamOf(q.conn)
	m, ok := r.I.baseVal(own).(*Model)
	if !c.ob(ok, "anchor", r.name, r.fn.Pos(), "the connection is a stream") {
		return nil
	}
	q.src = m.s.ps[0].src
	// the stream packets are taken from: the connection or a reader on it
	seen := map[*Obj]bool{}
	for _, o := range r.I.streams {
		if seen[o] {
			continue
		}
		seen[o] = true
		h, ok := q.L.head.heap.m[o.id].(*Model)
		if !ok || h.s.ps[0].src != q.src {
			continue
		}
		b, ok := q.L.back.heap.get(r.I, o).(*Model)
		if !ok || b.pos.eq(h.pos) {
			continue
		}
		if q.obj == nil || o != own {
			q.obj, q.pos = o, h.pos
		}
	}
	if !c.ob(q.obj != nil, "anchor", r.name, r.fn.Pos(), "every turn of the loop reads on from the connection") {
		return nil
	}
	hl := intBits(leBits(q.src, q.pos.addK(3), 1), false).asLin()
	fdl := intBits(leBits(q.src, q.pos.addK(5), 2), false)
	q.frame = hl.add(fdl.asLin()).add(lk(2).gate(Not(intEQ(fdl, intK(0, 16, false)))))
	return q
}

// good: the packet begins with the version of the protocol and has a header
// length that can be right.
func (q *connRun) good() Node {
	v := intBits(leBits(q.src, q.pos, 1), false)
	hl := intBits(leBits(q.src, q.pos.addK(3), 1), false).asLin()
	return And(intEQ(v, intK(1, 8, false)), mkGE(hl.addK(-11)))
}

// readFails: a read of this turn fails.
func (q *connRun) readFails() Node {
	g := False
	for _, e := range q.I.events {
		if e.kind == "read" && q.within(e) {
			g = Or(g, opAtom("ioerr("+e.ctx+")", true))
		}
	}
	return g
}

// within: the event is one of a turn of the loop over the connection.
func (q *connRun) within(e *Event) bool {
	for _, l := range e.loops {
		if l == q.L {
			return true
		}
	}
	return false
}

func checkC14(c *Check) {
	q := c.connRun()
	if q == nil {
		return
	}
	fn, at := q.name, q.fn.Pos()
	// the first packet starts at the start
	m, ok := q.L.entry.heap.get(q.I, q.obj).(*Model)
	c.ob(ok && linEqUnder(m.pos, lk(0), q.L.entry.pc), "frame", fn, at, "the first packet starts with the first byte of the connection")
	want := segSeq(q.src, q.pos, q.frame, true, nil)
	once := False
	for _, e := range q.decs {
		c.ob(And(once, e.pc) == False, "once", fn, e.pos, "a packet is decoded once")
		once = Or(once, e.pc)
		if !c.ob(len(e.args) > 1, "anchor", fn, e.pos, "Decode is given the bytes of the packet") {
			continue
		}
		st := e.state()
		got, _ := q.I.contentAny(st, e.args[1], types.NewSlice(types.Typ[types.Uint8]))
		diff, _ := seqDiff(got.under(e.pc), want, e.pc)
		c.ob(diff == "", "frame", fn, e.pos, "what is decoded are the bytes of the packet, header length + (body length + 2 if there is a body) from its start; first difference: %s", diff)
		pc := e.pc
		c.ob(impliesT(pc, q.good()), "refuse", fn, e.pos, "only a packet that begins with the protocol version 1 and has a header length of at least 11 is decoded; decoded where %s", clip(ddString(And(pc, Not(q.good()))), 300))
	}
	b := q.L.back
	bm, ok := b.heap.get(q.I, q.obj).(*Model)
	c.ob(ok && linEqUnder(bm.pos, q.pos.add(q.frame), b.pc), "frame", fn, at, "the next packet starts right behind this one, at %s; it starts at %s", q.pos.add(q.frame), bm.pos.under(b.pc))
	c.ob(impliesT(b.pc, q.dec), "frame", fn, at, "every packet taken from the connection is decoded; not where %s", clip(ddString(And(b.pc, Not(q.dec))), 300))
	c.ob(And(b.pc, q.readFails()) == False, "frame", fn, at, "after a failed read no further packet is taken")
	for _, x := range q.L.leave {
		pc := x.pc
		g := Or(Not(q.good()), q.readFails())
		c.ob(impliesT(pc, g), "open", fn, at, "the connection is left only for a stream that cannot be cut or a failed read; left where %s", clip(ddString(And(pc, Not(g))), 3000))
	}
	c.ob(len(q.L.leave) > 0, "anchor", fn, at, "the loop over the connection ends")
}

// ---------------------------------------------------------------- records

// appdata: the packet was decoded and carries records.
func (q *connRun) appdata() Node {
	v, ok := q.packet("PacketType").(*Int)
	k, ok2 := q.c.p.pkgConst(libRel, "PtAppdataPacket")
	if !ok || !ok2 {
		return False
	}
	return AndN(q.dec, q.decOK(), intEQ(v, intK(k, 8, false)))
}

// decOK: the packet was decoded without error.
func (q *connRun) decOK() Node {
	tp, ok := q.decs[0].res.(*Tuple)
	if !ok || len(tp.vs) != 2 {
		return False
	}
	return isNil(tp.vs[1])
}

// after is the memory behind the decoding of the packet: the first state seen
// after it.
func (q *connRun) after() *State {
	past := false
	for _, e := range q.I.events {
		if past && e.heap != nil && And(e.pc, q.dec) != False {
			return &State{heap: e.heap, pc: q.dec}
		}
		past = past || e == q.decs[0]
	}
	return &State{heap: q.L.back.heap, pc: q.L.back.pc}
}

// packet is a field of the packet as it was decoded.
func (q *connRun) packet(name string) Val {
	st := q.after()
	s, ok := q.deref(st, q.decs[0].args[0]).(*StructV)
	if !ok {
		return nil
	}
	i, _ := fieldOf(s.typ, name)
	if i < 0 {
		return nil
	}
	return s.f[i]
}

// deref is what a pointer, or an interface holding one, refers to.
func (q *connRun) deref(st *State, v Val) Val {
	for n := 0; n < 8; n++ {
		switch x := v.(type) {
		case *Iface:
			v = x.v
			continue
		case *Ptr:
			return q.I.navLoad(st.heap.get(q.I, x.obj), x.path, x.obj.typ, st.pc)
		case *Opaque:
			if o := q.I.materialise(x); o != nil {
				return q.I.navLoad(st.heap.get(q.I, o), nil, o.typ, st.pc)
			}
		case *IteV:
			y := restrict(x, st.pc)
			if z, ok := y.(*IteV); ok {
				return iteVal(z.g, q.deref(st, z.a), q.deref(st, z.b))
			}
			v = y
			continue
		}
		break
	}
	return v
}

// records are those of the packet, as they were decoded.
func (q *connRun) records() (*Seq, *types.Named) {
	n := q.c.p.named(libRel, "ServiceDataSet")
	if n == nil {
		return nil, nil
	}
	st := q.after()
	st.pc = q.appdata()
	_, v := q.I.assertTo(st, restrict(q.packet("ServicesFrameData"), st.pc), types.NewPointer(n))
	s, _ := q.I.contentAny(st, q.deref(st, v), n)
	el, _ := n.Underlying().(*types.Slice).Elem().(*types.Named)
	return s.under(st.pc), el
}

// A walk is a loop over all elements of a list, from the first to the last.
type walk struct {
	L    *LoopSum
	list *Seq
	item *StructV // the element of this turn
	done Node     // it came to the end of the list
}

// walkOf: the loop is one over that list.
func (q *connRun) walkOf(l *LoopSum, list *Seq, el types.Type) *walk {
	if l == nil || l.back == nil {
		return nil
	}
	w := &walk{L: l, list: list}
	for _, x := range l.leave {
		if x.known && linEqUnder(x.n, list.length(), x.after) {
			w.done = Or(w.done, x.after)
		}
	}
	if w.done == False {
		return nil
	}
	w.item, _ = q.I.seqElem(list, lt(l.k), el, l.back.pc).(*StructV)
	if w.item == nil {
		return nil
	}
	return w
}

// recordWalks are the loops over the records of the packet.
func (q *connRun) recordWalks() []*walk {
	list, el := q.records()
	if list == nil || el == nil {
		return nil
	}
	var out []*walk
	for _, l := range q.I.loops {
		if len(l.outer) == 1 && l.outer[0] == q.L {
			if w := q.walkOf(l, list, el); w != nil {
				out = append(out, w)
			}
		}
	}
	return out
}

// subWalks are the loops over the subrecords of the record of this turn.
func (q *connRun) subWalks(r *walk) []*walk {
	i, t := fieldOf(r.item.typ, "RecordDataSet")
	if i < 0 {
		return nil
	}
	list, _ := q.I.contentAny(r.L.back, r.item.f[i], t)
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	var out []*walk
	for _, l := range q.I.loops {
		if len(l.outer) == 2 && l.outer[1] == r.L {
			if w := q.walkOf(l, list, sl.Elem()); w != nil {
				out = append(out, w)
			}
		}
	}
	return out
}

// is: the subrecord of this turn is of that kind; and what it holds.
func (q *connRun) is(w *walk, typ string) (Node, *StructV) {
	n := q.c.p.named(libRel, typ)
	i, _ := fieldOf(w.item.typ, "SubrecordData")
	if n == nil || i < 0 {
		return False, nil
	}
	g, v := q.I.assertTo(w.L.back, w.item.f[i], types.NewPointer(n))
	s, _ := q.deref(w.L.back, v).(*StructV)
	return g, s
}

func sfield(s *StructV, name string) Val {
	if s == nil {
		return nil
	}
	i, _ := fieldOf(s.typ, name)
	if i < 0 {
		return nil
	}
	return s.f[i]
}

// set: a value that says that something has been seen.
func (q *connRun) isSet(st *State, v Val) (Node, bool) {
	switch x := v.(type) {
	case Bool:
		return x.n, true
	case *Slice:
		return Not(mkEQ(x.n)), true
	case NilV:
		return False, true
	case *Ptr, *Iface:
		return True, true
	case *Opaque:
		return Not(isNil(x)), true
	case *IteV:
		a, ok := q.isSet(st, x.a)
		b, ok2 := q.isSet(st, x.b)
		return Ite(x.g, a, b), ok && ok2
	}
	return False, false
}

// seen finds what tells, behind a walk over the subrecords, whether there was
// one of a kind among them: a variable that is unset before, set by such a
// subrecord and left alone by the others. It gives that variable's condition.
func (q *connRun) seen(b *walk, kind, sure Node) (Node, *Leaf, bool) {
	for _, lf := range b.L.leaves {
		i, ok := q.isSet(b.L.entry, lf.init)
		h, ok2 := q.isSet(b.L.head, lf.head)
		n, ok3 := q.isSet(b.L.back, lf.back)
		if !ok || !ok2 || !ok3 || And(b.L.entry.pc, i) != False {
			continue
		}
		if q.marks(b, h, n, kind, sure) {
			return h, lf, true
		}
	}
	return False, nil, false
}

func (q *connRun) marks(b *walk, h, n, kind, sure Node) bool {
	pc := b.L.back.pc
	return impliesT(AndN(pc, kind, sure), n) && ddEqUnder(n, h, And(pc, Not(kind))) && h != True
}

// seenInPacket is seen for all records of the packet.
func (q *connRun) seenInPacket(r, b *walk, kind, sure Node) (Node, *Leaf, bool) {
	for _, rl := range r.L.leaves {
		i, ok := q.isSet(r.L.entry, rl.init)
		h, ok2 := q.isSet(r.L.head, rl.head)
		n, ok3 := q.isSet(r.L.back, rl.back)
		if !ok || !ok2 || !ok3 || And(r.L.entry.pc, i) != False {
			continue
		}
		for _, bl := range b.L.leaves {
			bi, ok := q.isSet(b.L.entry, bl.init)
			bh, ok2 := q.isSet(b.L.head, bl.head)
			bn, ok3 := q.isSet(b.L.back, bl.back)
			if !ok || !ok2 || !ok3 || !ddEqUnder(bi, h, b.L.entry.pc) || !ddEqUnder(n, bh, r.L.back.pc) {
				continue
			}
			if q.marks(b, bh, bn, kind, sure) {
				return h, rl, true
			}
		}
	}
	return False, nil, false
}

// ---------------------------------------------------------------- storing

func init() {
	checks["C16"] = checkDef{"proof", "The loops over the records of a packet and the subrecords of a record are summarised; the guard of the call of Repository.Save in an arbitrary record is compared with 'one of its subrecords is a position', found as a variable marked by exactly those. Order and the status of the confirmation are read off the events and the memory at the end of the turn. Packets that contain confirmations themselves are excepted.", checkC16, 6}
}

// saves are the calls that store a record.
func (q *connRun) saves() []*Event {
	var out []*Event
	for _, e := range q.I.events {
		if e.kind == "api" && e.ssaFn != nil && e.ssaFn.Name() == "Save" && e.pc != False {
			out = append(out, e)
		}
	}
	return out
}

// storing finds the walk over the records in which they are stored.
func (q *connRun) storing() (*walk, *walk, []*Event) {
	c, fn, at := q.c, q.name, q.fn.Pos()
	sv := q.saves()
	if !c.ob(len(sv) > 0, "stored", fn, at, "records are handed to Repository.Save") {
		return nil, nil, nil
	}
	var r *walk
	for _, w := range q.recordWalks() {
		ok := true
		for _, e := range sv {
			ok = ok && len(e.loops) == 2 && e.loops[1] == w.L
		}
		if ok {
			r = w
		}
	}
	if !c.ob(r != nil, "stored", fn, sv[0].pos, "records are stored in a loop over all records of the packet, outside the loop over their subrecords") {
		return nil, nil, nil
	}
	bs := q.subWalks(r)
	if !c.ob(len(bs) > 0, "stored", fn, at, "a loop goes over all subrecords of a record") {
		return nil, nil, nil
	}
	for _, b := range bs {
		g, _ := q.is(b, "SrPosData")
		if _, _, ok := q.seen(b, g, True); ok {
			return r, b, sv
		}
	}
	return r, bs[0], sv
}

func checkC16(c *Check) {
	q := c.connRun()
	if q == nil {
		return
	}
	fn, at := q.name, q.fn.Pos()
	r, b, sv := q.storing()
	if r == nil {
		return
	}
	g, _ := q.is(b, "SrPosData")
	has, _, ok := q.seen(b, g, True)
	if !c.ob(ok && g != False, "position", fn, b.L.pos, "what decides about storing is set by the positions of this record and by nothing else") {
		return
	}
	once := False
	failed := False
	for _, e := range sv {
		c.ob(And(once, e.pc) == False, "once", fn, e.pos, "a record is stored once")
		once = Or(once, e.pc)
		c.ob(impliesT(e.pc, has), "position", fn, e.pos, "only a record with a position is stored; stored where %s", clip(ddString(And(e.pc, Not(has))), 300))
		res, isErr := errOf(e.res, e.ssaFn.Signature.Results())
		if !c.ob(isErr, "anchor", fn, e.pos, "Save reports failure") {
			continue
		}
		failed = Or(failed, And(e.pc, Not(isNil(res))))
	}
	end := AndN(r.L.back.pc, b.done)
	c.ob(end != False && impliesT(And(end, has), once), "stored", fn, at, "every record with a position is stored; not where %s", clip(ddString(AndN(end, has, Not(once))), 300))
	c.ob(impliesT(r.L.back.pc, b.done), "stored", fn, at, "all subrecords of a record are looked at; not where %s", clip(ddString(And(r.L.back.pc, Not(b.done))), 300))
	// the response follows, and does not confirm what was not stored
	rs := q.responses()
	n := 0
	for _, w := range rs {
		if !w.ok {
			continue
		}
		n++
		c.ob(q.behind(w.ev, r.L), "order", fn, w.ev.pos, "the response is sent after the records of the packet were stored")
		c.ob(q.behind(w.enc, r.L), "order", fn, w.enc.pos, "the response is built after the records of the packet were stored")
	}
	if !c.ob(n > 0, "order", fn, at, "a response is sent") {
		return
	}
	if cf := q.confirm(); cf != nil {
		st := cf.status
		bad := AndN(cf.w.L.back.pc, failed, intEQ(st, intK(0, 8, false)))
		c.ob(failed != False && cf.w.L == r.L && bad == False, "confirmed", fn, at, "a record that could not be stored is not confirmed with OK; confirmed where %s", clip(ddString(bad), 300))
	}
}

// behind: the event comes after the loop has ended.
func (q *connRun) behind(e *Event, l *LoopSum) bool {
	for i, x := range q.I.events {
		if x == e || x.kind == e.kind && x.ctx == e.ctx {
			return i >= l.evHi
		}
	}
	return false
}

// ---------------------------------------------------------------- answering

func init() {
	checks["C15"] = checkDef{"proof", "Every Write to the connection in an arbitrary turn of its loop is traced to the Package.Encode that made its bytes; guard, ids, result and the list of confirmations in the encoded packet are compared with the decoded packet. The list is summarised: what one record appends. The result-code packet's guard is compared with 'an identification or authorization was among the subrecords', found as a variable marked by exactly those.", checkC15, 40}
}

// An answer is a write to the connection and the packet it carries.
type answer struct {
	ev   *Event
	enc  *Event
	encs []*Event // of a packet built in a loop before
	ok   bool     // it may answer a packet that was decoded
	resp bool     // a response
	pkt  *StructV
	st   *State
}

func isEncode(e *Event) bool {
	return e.kind == "api" && e.ssaFn != nil && e.ssaFn.Name() == "Encode" && isPackage2(recvNamed(e.ssaFn)) && e.pc != False
}

func encResult(e *Event) (Val, Node) {
	tp, ok := e.res.(*Tuple)
	if !ok || len(tp.vs) != 2 {
		return nil, False
	}
	return tp.vs[0], isNil(tp.vs[1])
}

// writes are those to the connection.
func (q *connRun) writes() []*Event {
	var out []*Event
	for _, e := range q.I.events {
		if (e.kind == "invoke" || e.kind == "call") && hasName(e.name, "Write") && e.recv != nil && keyOf(e.recv) == keyOf(q.conn) && e.pc != False {
			out = append(out, q.split(e)...)
		}
	}
	return out
}

// split takes a write of several packets, one behind the other, apart.
func (q *connRun) split(w *Event) []*Event {
	if len(w.args) == 0 {
		return []*Event{w}
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	st := w.state()
	got, _ := q.I.contentAny(st, w.args[0], bt)
	got = got.under(w.pc)
	if len(got.ps) < 2 {
		return []*Event{w}
	}
	type made struct {
		v     Val
		st    *State
		empty bool // it may be
	}
	var all []made
	for _, e := range q.I.events {
		if isEncode(e) {
			if x, _ := encResult(e); x != nil {
				all = append(all, made{x, st, false})
			}
		}
	}
	for _, l := range q.I.loops {
		for _, lf := range l.leaves {
			if sl, ok := lf.head.(*Slice); ok && isByteType(sl.elt) {
				all = append(all, made{lf.head, l.head, true})
			}
		}
	}
	var out []*Event
	for _, p := range got.ps {
		var v Val
		there := p.g
		for _, m := range all {
			x := q.I.made(m.st, m.v)
			if x != nil && len(x.ps) == 1 && x.ps[0].v == nil && p.v == nil && x.ps[0].src == p.src && linEqUnder(x.ps[0].off, p.off, And(w.pc, p.g)) && linEqUnder(x.ps[0].n, p.n, And(w.pc, p.g)) {
				v = m.v
				if m.empty {
					there = And(there, mkGE(p.n.addK(-1)))
				}
				break
			}
		}
		if v == nil {
			return []*Event{w}
		}
		e := *w
		e.args = []Val{v}
		e.pc = And(w.pc, there)
		if e.pc != False {
			out = append(out, &e)
		}
	}
	return out
}

func hasName(full, m string) bool {
	return len(full) > len(m) && full[len(full)-len(m)-1:] == "."+m
}

// written gives the packets a write may carry.
func (q *connRun) written(w *Event) []*Event {
	if len(w.args) == 0 {
		return nil
	}
	var out []*Event
	bt := types.NewSlice(types.Typ[types.Uint8])
	same := func(st *State, v Val, care Node) *Event {
		got, _ := q.I.contentAny(st, v, bt)
		got = got.under(care)
		for _, e := range q.I.events {
			if !isEncode(e) {
				continue
			}
			x, good := encResult(e)
			if x == nil || And(care, And(e.pc, good)) == False {
				continue
			}
			if d, _ := seqDiff(got, q.I.made(st, x), And(care, good)); d == "" {
				return e
			}
		}
		return nil
	}
	if e := same(w.state(), w.args[0], w.pc); e != nil {
		return []*Event{e}
	}
	// made in a loop before
	seen := map[*Leaf]bool{}
	ok := true
	var chase func(st *State, v Val, care Node)
	chase = func(st *State, v Val, care Node) {
		if care == False {
			return
		}
		v = restrict(v, care)
		switch x := v.(type) {
		case NilV:
			return
		case *IteV:
			chase(st, x.a, And(care, x.g))
			chase(st, x.b, And(care, Not(x.g)))
			return
		case *Slice:
			if x.obj == nil || linEqUnder(x.n, lk(0), care) {
				return
			}
		}
		if e := same(st, v, care); e != nil {
			out = append(out, e)
			return
		}
		for _, l := range q.I.loops {
			for _, lf := range l.leaves {
				if keyOf(lf.head) == keyOf(v) {
					if !seen[lf] {
						seen[lf] = true
						chase(l.entry, lf.init, l.entry.pc)
						chase(l.back, lf.back, l.back.pc)
					}
					return
				}
			}
		}
		ok = false
	}
	chase(w.state(), w.args[0], w.pc)
	if !ok {
		return nil
	}
	return out
}

// responses classifies what is written to the connection.
func (q *connRun) responses() []*answer {
	var out []*answer
	k, _ := q.c.p.pkgConst(libRel, "PtResponsePacket")
	for _, w := range q.writes() {
		a := &answer{ev: w, encs: q.written(w)}
		out = append(out, a)
		if len(a.encs) == 0 {
			continue
		}
		a.enc = a.encs[0]
		a.st = a.enc.state()
		a.pkt, _ = q.deref(a.st, a.enc.args[0]).(*StructV)
		if t, ok := sfield(a.pkt, "PacketType").(*Int); ok && len(a.encs) == 1 {
			a.resp = sameUnder(t, intK(k, 8, false), a.enc.pc)
		}
		a.ok = a.resp && And(w.pc, q.appdata()) != False
	}
	return out
}

// A confirmation is what a record adds to the response.
type confirmation struct {
	w      *walk
	status *Int
	number *Int
	kind   *Int
	length *Int
	obj    *Obj
	once   bool
	list   *Seq // in the response
}

// confirm finds how the confirmations of the response are collected.
func (q *connRun) confirm() *confirmation {
	c, fn, at := q.c, q.name, q.fn.Pos()
	var a *answer
	for _, x := range q.responses() {
		if x.ok {
			a = x
		}
	}
	if !c.ob(a != nil, "confirmations", fn, at, "a decoded packet is answered with a response") {
		return nil
	}
	care := AndN(a.enc.pc, q.appdata())
	st := &State{heap: a.st.heap, pc: care}
	rec, ok := q.wrapped(a, st)
	if !ok {
		return nil
	}
	i, t := fieldOf(rec.typ, "RecordDataSet")
	if i < 0 {
		return nil
	}
	list, _ := q.I.contentAny(st, restrict(rec.f[i], care), t)
	list = list.under(care)
	for _, w := range q.recordWalks() {
		for _, lf := range w.L.leaves {
			if lf.kind != "acc" || lf.delta == nil {
				continue
			}
			h := q.I.seqOfVal(w.L.head, lf.head)
			if h == nil || len(h.ps) != 1 && !lf.fill || len(list.ps) != 1 || h.ps[0].v != nil || list.ps[0].v != nil || h.ps[0].src != list.ps[0].src || !lf.fill && !isEmptyVal(q.Run, w.L.entry, lf.init) {
				continue
			}
			cf := &confirmation{w: w, list: list}
			g := False
			for _, p := range lf.delta.ps {
				x, ok := p.v.(*StructV)
				if !ok || And(g, And(p.g, w.L.back.pc)) != False {
					c.ob(false, "confirmations", fn, w.L.pos, "each record adds one confirmation to the response")
					return nil
				}
				g = Or(g, p.g)
				n := q.c.p.named(libRel, "SrResponse")
				if n == nil {
					return nil
				}
				d := sfield(x, "SubrecordData")
				is, v := q.I.assertTo(w.L.back, d, types.NewPointer(n))
				c.ob(impliesT(And(w.L.back.pc, p.g), is), "confirmations", fn, w.L.pos, "a record is confirmed by an EGTS_SR_RECORD_RESPONSE")
				if ptr, ok := v.(*Ptr); ok {
					cf.obj = ptr.obj
				}
				s, _ := q.deref(w.L.back, v).(*StructV)
				cf.status, _ = sfield(s, "RecordStatus").(*Int)
				cf.number, _ = sfield(s, "ConfirmedRecordNumber").(*Int)
				cf.kind, _ = sfield(x, "SubrecordType").(*Int)
				cf.length, _ = sfield(x, "SubrecordLength").(*Int)
			}
			cf.once = impliesT(w.L.back.pc, g)
			if cf.status == nil || cf.number == nil || cf.kind == nil || cf.length == nil {
				break
			}
			return cf
		}
	}
	c.ob(false, "confirmations", fn, a.enc.pos, "the response carries what the records of this packet added, one behind the other; it carries %s", clip(list.String(), 200))
	return nil
}

// wrapped is the record around the confirmations or the result code.
func (q *connRun) wrapped(a *answer, st *State) (*StructV, bool) {
	c, fn := q.c, q.name
	n := c.p.named(libRel, "ServiceDataSet")
	if n == nil {
		return nil, false
	}
	body := restrict(sfield(a.pkt, "ServicesFrameData"), st.pc)
	if a.resp {
		s, _ := q.deref(st, body).(*StructV)
		if body = sfield(s, "SDR"); body == nil {
			c.ob(false, "response", fn, a.enc.pos, "the response has records")
			return nil, false
		}
		some := And(st.pc, Not(isNil(restrict(body, st.pc))))
		st = &State{heap: st.heap, pc: some}
		body = restrict(body, some)
	}
	is, v := q.I.assertTo(st, body, types.NewPointer(n))
	if !c.ob(st.pc != False && impliesT(st.pc, is), "records", fn, a.enc.pos, "the packet carries records") {
		return nil, false
	}
	l, _ := q.I.contentAny(st, q.deref(st, v), n)
	l = l.under(st.pc)
	if !c.ob(len(l.ps) == 1 && l.ps[0].v != nil && impliesT(st.pc, l.ps[0].g), "records", fn, a.enc.pos, "the packet carries one record") {
		return nil, false
	}
	rec, ok := l.ps[0].v.(*StructV)
	if !ok {
		return nil, false
	}
	// its header
	q.text(rec, st.pc, a.enc, map[string]int{"SourceServiceOnDevice": 1, "RecipientServiceOnDevice": 1, "Group": 1, "RecordProcessingPriority": 2}, "TimeFieldExists", "EventIDFieldExists", "ObjectIDFieldExists")
	i, _ := fieldOf(rec.typ, "RecordDataSet")
	rl, ok := sfield(rec, "RecordLength").(*Int)
	o := newObj("cell", c.p.named(libRel, "RecordDataSet"), "records")
	s2 := st.fork()
	s2.set(o, rec.f[i])
	seq, err := encTerms(q.I.recvKey(&Ptr{obj: o}, s2))
	good := And(st.pc, isNil(err))
	zero := And(good, Not(intEQ(rl, intK(0, 16, false))))
	c.ob(ok && sameUnder(rl, convInt(intL(seq.length().under(zero), 64, true), 16, false, zero), zero), "records", fn, a.enc.pos, "the length of the record is that of its subrecords, or left to the encoder; it is %s", show(rl))
	return rec, true
}

// text checks flag texts: constants of a width, and those that must be "0".
func (q *connRun) text(s *StructV, care Node, e *Event, width map[string]int, zero ...string) {
	val := func(n string) (string, bool) {
		x, ok := restrict(sfield(s, n), care).(*Str)
		if !ok {
			return "", false
		}
		return x.s.constString()
	}
	var names []string
	for n := range width {
		names = append(names, n)
	}
	for _, n := range names {
		t, ok := val(n)
		for _, r := range t {
			ok = ok && (r == '0' || r == '1')
		}
		q.c.ob(ok && len(t) == width[n], "flags", q.name, e.pos, "%s has %d digits; it is %q", n, width[n], t)
	}
	for _, n := range zero {
		t, ok := val(n)
		q.c.ob(ok && t == "0", "flags", q.name, e.pos, "%s is 0; it is %q", n, t)
	}
}

// header checks the header of a packet that is sent.
func (q *connRun) header(a *answer) {
	care := a.enc.pc
	q.text(a.pkt, care, a.enc, map[string]int{"Prefix": 2, "Compression": 1, "Priority": 2}, "Route")
	x, ok := restrict(sfield(a.pkt, "EncryptionAlg"), care).(*Str)
	alg := ""
	if ok {
		alg, _ = x.s.constString()
	}
	q.c.ob(alg == "00", "flags", q.name, a.enc.pos, "an answer is not encrypted")
	v, ok := sfield(a.pkt, "ProtocolVersion").(*Int)
	q.c.ob(ok && sameUnder(v, intK(1, 8, false), care), "flags", q.name, a.enc.pos, "the protocol version is 1; it is %s", show(v))
	h, ok := sfield(a.pkt, "HeaderLength").(*Int)
	q.c.ob(ok && impliesT(care, Or(intEQ(h, intK(0, 8, false)), intEQ(h, intK(11, 8, false)))), "flags", q.name, a.enc.pos, "the header length is 11 or left to the encoder; it is %s", show(h))
}

// confirms: the packet is left in the middle because it contains a
// confirmation; the condition of it, seen from behind the loops.
func (q *connRun) confirms() Node {
	g := False
	for _, r := range q.recordWalks() {
		in := False
		for _, b := range q.subWalks(r) {
			is, _ := q.is(b, "SrResponse")
			for _, x := range b.L.leave {
				if !x.known && impliesT(x.pc, is) {
					in = Or(in, x.after)
				}
			}
		}
		for _, x := range r.L.leave {
			if !x.known && x.pc != False && impliesT(x.pc, in) {
				g = Or(g, x.after)
			}
		}
	}
	return g
}

func checkC15(c *Check) {
	c.encodedOrNothing()
	q := c.connRun()
	if q == nil {
		return
	}
	fn, at := q.name, q.fn.Pos()
	A := q.appdata()
	F := And(q.dec, Not(q.decOK()))
	pid, ok := q.packet("PacketIdentifier").(*Int)
	code, ok2 := q.decs[0].res.(*Tuple).vs[0].(*Int)
	if !c.ob(ok && ok2 && A != False && F != False, "anchor", fn, at, "packets have an id and decoding has a result") {
		return
	}
	as := q.responses()
	once, results := False, False
	encFails := False
	var result []*answer
	for _, a := range as {
		if !c.ob(len(a.ev.loops) == 1 && a.ev.loops[0] == q.L, "once", fn, a.ev.pos, "a packet is answered once, not once for each of its records") {
			return
		}
		if !c.ob(a.pkt != nil, "answer", fn, a.ev.pos, "what is written to the connection is a packet encoded in this turn") {
			return
		}
		for _, e := range a.encs {
			b := &answer{ev: a.ev, enc: e, encs: a.encs, resp: a.resp, st: e.state()}
			b.pkt, _ = q.deref(b.st, e.args[0]).(*StructV)
			if !c.ob(b.pkt != nil, "answer", fn, e.pos, "a packet is encoded") {
				return
			}
			q.header(b)
		}
		if !a.resp {
			result = append(result, a)
			c.ob(And(results, a.ev.pc) == False, "once", fn, a.ev.pos, "one result code is sent")
			results = Or(results, a.ev.pc)
			continue
		}
		c.ob(And(once, a.ev.pc) == False, "once", fn, a.ev.pos, "a packet is answered by one response")
		once = Or(once, a.ev.pc)
		_, good := encResult(a.enc)
		encFails = Or(encFails, And(a.enc.pc, Not(good)))
		c.ob(impliesT(a.ev.pc, Or(A, F)), "which", fn, a.ev.pos, "only packets with records and packets that fail to decode are answered; answered where %s", clip(ddString(And(a.ev.pc, Not(Or(A, F)))), 300))
		for _, m := range []struct {
			g    Node
			what string
			res  *Int
		}{{F, "a packet that failed to decode", code}, {A, "a packet with records", intK(0, 8, false)}} {
			care := And(a.enc.pc, m.g)
			if care == False || And(a.ev.pc, m.g) == False {
				continue
			}
			st := &State{heap: a.st.heap, pc: care}
			n := c.p.named(libRel, "PtResponse")
			is, v := q.I.assertTo(st, restrict(sfield(a.pkt, "ServicesFrameData"), care), types.NewPointer(n))
			body, _ := q.deref(st, v).(*StructV)
			if !c.ob(body != nil && impliesT(care, is), "response", fn, a.enc.pos, "the response to %s is an EGTS_PT_RESPONSE", m.what) {
				return
			}
			id, _ := sfield(body, "ResponsePacketID").(*Int)
			pr, _ := sfield(body, "ProcessingResult").(*Int)
			c.ob(id != nil && sameUnder(id, pid, care), "response", fn, a.enc.pos, "the response to %s carries its packet id; it carries %s", m.what, show(id))
			c.ob(pr != nil && sameUnder(pr, m.res, care), "response", fn, a.enc.pos, "the response to %s carries the result %s; it carries %s", m.what, show(m.res), show(pr))
			none := isNil(restrict(sfield(body, "SDR"), care))
			if m.g == F {
				c.ob(impliesT(care, none), "response", fn, a.enc.pos, "the response to %s confirms no records", m.what)
				continue
			}
			list, _ := q.records()
			c.ob(list != nil && impliesT(And(care, none), mkEQ(list.length())), "confirmations", fn, a.enc.pos, "the response carries confirmations when the packet has records")
		}
	}
	skip := q.confirms()
	lost := AndN(q.L.back.pc, F, Not(once), Not(encFails))
	c.ob(lost == False, "answered", fn, at, "a packet that fails to decode is answered and the connection stays open; not where %s", clip(ddString(lost), 300))
	c.ob(And(F, q.L.back.pc) != False, "answered", fn, at, "the connection stays open after a packet that fails to decode")
	lost = AndN(q.L.back.pc, A, Not(once), Not(encFails))
	c.ob(impliesT(lost, skip), "answered", fn, at, "every packet with records is answered unless it contains confirmations; not where %s", clip(ddString(And(lost, Not(skip))), 300))
	c.ob(And(once, skip) == False, "which", fn, at, "a packet that contains confirmations is not answered; answered where %s", clip(ddString(And(once, skip)), 300))
	// all of the packet is looked at, and no confirmation passes unseen
	rw := q.recordWalks()
	if !c.ob(len(rw) > 0, "confirmations", fn, at, "a loop goes over all records of the packet") {
		return
	}
	seen := false
	for _, r := range rw {
		for _, b := range q.subWalks(r) {
			is, _ := q.is(b, "SrResponse")
			seen = seen || And(b.L.back.pc, is) == False
		}
	}
	c.ob(seen, "which", fn, at, "a confirmation among the subrecords ends the work on the packet")
	// the confirmations
	cf := q.confirm()
	if cf == nil {
		return
	}
	r := cf.w
	care := r.L.back.pc
	num, _ := sfield(r.item, "RecordNumber").(*Int)
	c.ob(cf.once, "confirmations", fn, r.L.pos, "every record is confirmed")
	c.ob(num != nil && sameUnder(cf.number, num, care), "confirmations", fn, r.L.pos, "a record is confirmed by its number; it is %s", show(cf.number))
	stored := True
	for _, e := range q.saves() {
		if res, isErr := errOf(e.res, e.ssaFn.Signature.Results()); isErr {
			stored = And(stored, Not(And(e.pc, Not(isNil(res)))))
		}
	}
	c.ob(sameUnder(cf.status, intK(0, 8, false), And(care, stored)), "confirmations", fn, r.L.pos, "a record that was stored, or needed not to be, is confirmed with OK; it is %s", show2(cf.status, And(care, stored)))
	rt, _ := c.p.pkgConst(libRel, "SrRecordResponseType")
	c.ob(impliesT(care, Or(intEQ(cf.kind, intK(0, 8, false)), intEQ(cf.kind, intK(rt, 8, false)))), "confirmations", fn, r.L.pos, "a confirmation has the type code of confirmations; it has %s", show(cf.kind))
	c.ob(impliesT(care, Or(intEQ(cf.length, intK(0, 16, false)), intEQ(cf.length, intK(3, 16, false)))), "confirmations", fn, r.L.pos, "a confirmation has 3 bytes; its length says %s", show(cf.length))
	if cf.obj != nil {
		_, before := r.L.entry.heap.m[cf.obj.id]
		c.ob(!before, "confirmations", fn, r.L.pos, "each record has a confirmation of its own, they do not share one")
	}
	for _, l := range []Lin{cf.list.length()} {
		ls, _ := q.records()
		c.ob(linEqUnder(l, ls.length(), And(A, once)), "confirmations", fn, r.L.pos, "there are as many confirmations as records; there are %s", l)
	}
	q.resultCodes(rw, result, results, once)
}

// resultCodes: a packet with an identification or authorization gets one.
func (q *connRun) resultCodes(rw []*walk, result []*answer, results, once Node) {
	c, fn, at := q.c, q.name, q.fn.Pos()
	if !c.ob(len(result) > 0, "result-code", fn, at, "a result code is sent") {
		return
	}
	later := False // encoding a result code fails behind the loops
	for _, a := range result {
		for _, e := range a.encs {
			_, good := encResult(e)
			if len(e.loops) == 1 {
				later = Or(later, And(e.pc, Not(good)))
			}
			care := And(e.pc, q.appdata())
			st := &State{heap: e.state().heap, pc: care}
			b := &answer{enc: e, st: st}
			b.pkt, _ = q.deref(st, e.args[0]).(*StructV)
			k, _ := c.p.pkgConst(libRel, "PtAppdataPacket")
			t, ok := sfield(b.pkt, "PacketType").(*Int)
			c.ob(ok && sameUnder(t, intK(k, 8, false), care), "result-code", fn, e.pos, "a result code is sent as a packet with records; its type is %s", show(t))
			rec, ok := q.wrapped(b, st)
			if !ok {
				continue
			}
			i, rt := fieldOf(rec.typ, "RecordDataSet")
			l, _ := q.I.contentAny(st, rec.f[i], rt)
			l = l.under(care)
			if !c.ob(len(l.ps) == 1 && l.ps[0].v != nil, "result-code", fn, e.pos, "the packet carries one subrecord") {
				continue
			}
			sub, _ := l.ps[0].v.(*StructV)
			n := c.p.named(libRel, "SrResultCode")
			is, v := q.I.assertTo(st, sfield(sub, "SubrecordData"), types.NewPointer(n))
			rc, _ := q.deref(st, v).(*StructV)
			code, ok := sfield(rc, "ResultCode").(*Int)
			c.ob(ok && impliesT(care, is) && sameUnder(code, intK(0, 8, false), care), "result-code", fn, e.pos, "the subrecord is a result code and says OK; it says %s", show(code))
			ty, ok := sfield(sub, "SubrecordType").(*Int)
			k, _ = c.p.pkgConst(libRel, "SrResultCodeType")
			c.ob(ok && impliesT(care, Or(intEQ(ty, intK(0, 8, false)), intEQ(ty, intK(k, 8, false)))), "result-code", fn, e.pos, "the subrecord has the type code of result codes; it has %s", show(ty))
			ln, ok := sfield(sub, "SubrecordLength").(*Int)
			c.ob(ok && impliesT(care, Or(intEQ(ln, intK(0, 16, false)), intEQ(ln, intK(1, 16, false)))), "result-code", fn, e.pos, "a result code has 1 byte; its length says %s", show(ln))
		}
	}
	for _, r := range rw {
		for _, b := range q.subWalks(r) {
			t, _ := q.is(b, "SrTermIdentity")
			u, _ := q.is(b, "SrAuthInfo")
			sure := True
			for _, e := range q.I.events {
				if isEncode(e) && len(e.loops) == 3 && e.loops[2] == b.L {
					_, good := encResult(e)
					sure = And(sure, Not(And(e.pc, Not(good))))
				}
			}
			has, _, ok := q.seenInPacket(r, b, Or(t, u), sure)
			if !ok {
				continue
			}
			c.ob(impliesT(results, has), "result-code", fn, at, "only packets with an identification or authorization get a result code; sent where %s", clip(ddString(And(results, Not(has))), 300))
			lost := AndN(q.L.back.pc, once, q.appdata(), has, Not(results), Not(later))
			c.ob(lost == False, "result-code", fn, at, "every answered packet with an identification or authorization gets a result code; not where %s", clip(ddString(lost), 300))
			c.ob(And(results, q.appdata()) == results, "result-code", fn, at, "a result code answers a packet with records")
			return
		}
	}
	c.ob(false, "result-code", fn, at, "what decides about the result code is set by the identifications and authorizations of this packet and by nothing else")
}

// ---------------------------------------------------------------- content

func init() {
	checks["C17"] = checkDef{"proof", "The record handed to Repository.Save is read field by field: for every field, the variable behind it, its value before the subrecords of the record, and what an arbitrary subrecord of each kind does to it are compared with the table of the fields' sources; for the lists, what a subrecord appends. The JSON keys are read from the types. Floats are taken as exact numbers.", checkC17, 60}
}

var navKeys = map[string][][2]string{
	"NavRecord": {{"client", "Client"}, {"packet_id", "PacketID"}, {"navigation_unix_time", "NavigationTimestamp"}, {"received_unix_time", "ReceivedTimestamp"},
		{"latitude", "Latitude"}, {"longitude", "Longitude"}, {"speed", "Speed"}, {"pdop", "Pdop"}, {"hdop", "Hdop"}, {"vdop", "Vdop"}, {"nsat", "Nsat"}, {"ns", "Ns"},
		{"course", "Course"}, {"an_sensors", "AnSensors"}, {"liquid_sensors", "LiquidSensors"}},
	"LiquidSensor": {{"sensor_number", "SensorNumber"}, {"error_flag", "ErrorFlag"}, {"value_mm", "ValueMm"}, {"value_l", "ValueL"}},
	"AnSensor":     {{"sensor_number", "SensorNumber"}, {"value", "Value"}},
}

// keys: the JSON object has the documented keys, each for its field.
func (c *Check) keys(name string) *types.Struct {
	n := c.p.named(storageRel, name)
	if !c.ob(n != nil, "anchor", name, 0, "type %s exists", name) {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !c.ob(ok, "anchor", name, n.Obj().Pos(), "%s is a struct", name) {
		return nil
	}
	want := map[string]string{}
	for _, k := range navKeys[name] {
		want[k[0]] = k[1]
	}
	got := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		key, opts, _ := strings.Cut(tag, ",")
		if key == "-" && opts == "" || !st.Field(i).Exported() {
			continue
		}
		if key == "" {
			key = st.Field(i).Name()
		}
		got[key]++
		if f, ok := want[key]; ok {
			c.ob(st.Field(i).Name() == f && opts == "" && got[key] == 1, "keys", name, st.Field(i).Pos(), "the key %q holds %s as it is; it holds %s with options %q", key, f, st.Field(i).Name(), opts)
		}
	}
	for k := range want {
		c.ob(got[k] == 1, "keys", name, n.Obj().Pos(), "the JSON object has the key %q", k)
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := types.NewMethodSet(t)
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			c.ob(ms.Lookup(nil, m) == nil, "keys", name, n.Obj().Pos(), "%s is written by its fields", name)
		}
	}
	return st
}

// bytesOf: ToBytes is the JSON encoding of the record.
func (c *Check) bytesOf() {
	n, f := c.anchor(storageRel, "NavRecord", "ToBytes")
	if f == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	r.call(f)
	r.decided()
	var js []*Event
	for _, e := range r.I.events {
		if e.name == "encoding/json.Marshal" && e.pc != False {
			js = append(js, e)
		}
	}
	if !c.ob(len(js) == 1 && js[0].pc == True && len(js[0].args) == 1, "json", r.name, f.Pos(), "the record is given to json.Marshal") {
		return
	}
	e := js[0]
	st := e.state()
	arg := e.args[0]
	if x, ok := arg.(*Iface); ok {
		t := x.typ
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		c.ob(types.Identical(t, n), "json", r.name, e.pos, "what is encoded is the record; it is %s", x.typ)
		arg = x.v
	}
	if p, ok := arg.(*Ptr); ok {
		arg = r.I.navLoad(st.heap.get(r.I, p.obj), p.path, p.obj.typ, st.pc)
	}
	c.ob(keyOf(arg) == keyOf(symVal(n, "v", "v")) || sameUnder(arg, symVal(n, "v", "v"), True), "json", r.name, e.pos, "what is encoded is the record unchanged")
	tp, ok := e.res.(*Tuple)
	c.ob(ok && len(r.res) == 2 && sameUnder(r.res[1], tp.vs[1], True), "json", r.name, e.pos, "an encoding error is passed on")
	if ok && len(r.res) == 2 {
		want, _ := r.I.contentAny(r.out, tp.vs[0], types.NewSlice(types.Typ[types.Uint8]))
		got, _ := r.I.contentAny(r.out, r.res[0], types.NewSlice(types.Typ[types.Uint8]))
		d, _ := seqDiff(got, want, r.succ)
		c.ob(d == "", "json", r.name, e.pos, "the bytes are those of the encoding")
	}
}

// A source is what a kind of subrecord does to a field.
type source struct {
	kind string
	when func(s *StructV) Node
	val  func(s *StructV) Val
}

func flagIs(s *StructV, name, c string) Node {
	x, ok := sfield(s, name).(*Str)
	if !ok {
		return False
	}
	return seqEQ(x.s, strK(c).s)
}

// signed is a coordinate with its hemisphere.
func signed(name, flag string) func(*StructV) Val {
	return func(s *StructV) Val {
		v := sfield(s, name)
		return iteVal(flagIs(s, flag, "1"), negVal(v), v)
	}
}

// negVal is -v of a float.
func negVal(v Val) Val {
	if x, ok := v.(*IteV); ok {
		return iteVal(x.g, negVal(x.a), negVal(x.b))
	}
	f := asFloat(v)
	if f == nil {
		return v
	}
	return mkFloat(new(big.Rat).Neg(f.r), f.base, f.neg)
}

func fieldSrc(kind, name string) source {
	return source{kind: kind, val: func(s *StructV) Val { return sfield(s, name) }}
}

var navSources = map[string][]source{
	"NavigationTimestamp": {{kind: "SrPosData", val: func(s *StructV) Val {
		t, ok := sfield(s, "NavigationTime").(*TimeV)
		if !ok {
			return nil
		}
		sec, _ := divLin(t.ns, 1000000000, True)
		return i64(sec)
	}}},
	"Latitude":  {{kind: "SrPosData", val: signed("Latitude", "LAHS")}},
	"Longitude": {{kind: "SrPosData", val: signed("Longitude", "LOHS")}},
	"Speed":     {fieldSrc("SrPosData", "Speed")},
	"Course":    {fieldSrc("SrPosData", "Direction")},
	"Nsat":      {fieldSrc("SrExtPosData", "Satellites")},
	"Pdop":      {fieldSrc("SrExtPosData", "PositionDilutionOfPrecision")},
	"Hdop":      {fieldSrc("SrExtPosData", "HorizontalDilutionOfPrecision")},
	"Vdop":      {fieldSrc("SrExtPosData", "VerticalDilutionOfPrecision")},
	"Ns":        {fieldSrc("SrExtPosData", "NavigationSystem")},
}

// A variable that goes through the subrecords of a record.
type navVar struct {
	*Leaf
	b *walk
}

// variable finds what is behind a value left by the subrecords of a record.
func (q *connRun) variable(bs []*walk, v Val) *navVar {
	for _, b := range bs {
		for _, lf := range b.L.leaves {
			if lf.head != nil && keyOf(lf.head) == keyOf(v) {
				return &navVar{lf, b}
			}
		}
	}
	return nil
}

func checkC17(c *Check) {
	for _, n := range []string{"NavRecord", "LiquidSensor", "AnSensor"} {
		c.keys(n)
	}
	c.bytesOf()
	q := c.connRun()
	if q == nil {
		return
	}
	r, _, sv := q.storing()
	if r == nil {
		return
	}
	for _, e := range sv {
		q.content(r, e)
	}
}

// content compares the record handed to the stores with its sources.
func (q *connRun) content(r *walk, e *Event) {
	c, fn := q.c, q.name
	n := c.p.named(storageRel, "NavRecord")
	if !c.ob(n != nil && len(e.args) == 2, "anchor", fn, e.pos, "a NavRecord is stored") {
		return
	}
	st := e.state()
	is, p := q.I.assertTo(st, e.args[1], types.NewPointer(n))
	rec, _ := q.deref(st, p).(*StructV)
	if !c.ob(rec != nil && impliesT(e.pc, is), "anchor", fn, e.pos, "a NavRecord is stored") {
		return
	}
	if ptr, ok := p.(*Ptr); ok {
		_, before := r.L.entry.heap.m[ptr.obj.id]
		c.ob(!before, "own", fn, e.pos, "every record is stored in memory of its own")
	}
	bs := q.subWalks(r)
	for _, f := range sortedKeys(navSources) {
		v := restrict(sfield(rec, f), e.pc)
		if v == nil {
			c.ob(false, "anchor", fn, e.pos, "the record has the field %s", f)
			continue
		}
		x := q.variable(bs, v)
		if x == nil && q.ofLast(bs, rec, f, e) {
			c.ob(true, "source", fn, e.pos, "")
			continue
		}
		if !c.ob(x != nil, "source", fn, e.pos, "%s is what the subrecords of the record left; it is %s", f, clip(show(v), 200)) {
			continue
		}
		_, ft := fieldOf(rec.typ, f)
		ent := x.b.L.entry
		c.ob(sameUnder(restrict(x.init, ent.pc), zeroVal(ft), ent.pc), "fresh", fn, x.b.L.pos, "%s starts empty for every record; it starts as %s", f, clip(show(x.init), 200))
		q.steps(x, f, navSources[f])
	}
	q.received(r, bs, rec, e)
	q.client(r, bs, rec, e)
	q.packetID(r, bs, rec, e)
	q.lists(bs, rec, e)
}

// ofLast: the field comes from the last subrecord of its kind, to which the
// handler keeps a pointer while it goes through the record.
func (q *connRun) ofLast(bs []*walk, rec *StructV, f string, e *Event) bool {
	if len(navSources[f]) != 1 {
		return false
	}
	s := navSources[f][0]
	nm := q.c.p.named(libRel, s.kind)
	if nm == nil || s.when != nil {
		return false
	}
	_, ft := fieldOf(rec.typ, f)
	v := sfield(rec, f)
	for _, b := range bs {
		is, sub := q.is(b, s.kind)
		pc := b.L.back.pc
		if sub == nil || And(pc, is) == False {
			continue
		}
		for _, lf := range b.L.leaves {
			if !types.Identical(lf.typ, types.NewPointer(nm)) || lf.head == nil || lf.back == nil {
				continue
			}
			last, ok := q.deref(b.L.head, lf.head).(*StructV)
			now, ok2 := q.deref(b.L.back, restrict(lf.back, And(pc, is))).(*StructV)
			if !ok || !ok2 || isNil(restrict(lf.init, b.L.entry.pc)) != True {
				continue
			}
			want := s.val(last)
			none := isNil(lf.head)
			if want != nil && sameUnder(now, sub, And(pc, is)) && sameUnder(lf.back, lf.head, And(pc, Not(is))) &&
				sameUnder(v, want, And(e.pc, Not(none))) && sameUnder(v, zeroVal(ft), And(e.pc, none)) {
				return true
			}
		}
	}
	return false
}

func sortedKeys(m map[string][]source) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// steps: every kind of subrecord does to the variable what its sources say,
// all others leave it alone.
func (q *connRun) steps(x *navVar, f string, src []source) {
	c, fn := q.c, q.name
	pc := x.b.L.back.pc
	rest := pc
	for _, s := range src {
		is, sub := q.is(x.b, s.kind)
		g := And(pc, is)
		if s.when != nil {
			g = And(g, s.when(sub))
		}
		if !c.ob(sub != nil && g != False, "source", fn, x.b.L.pos, "%s has a source in %s", f, s.kind) {
			continue
		}
		want := s.val(sub)
		c.ob(want != nil && sameUnder(x.back, want, g), "source", fn, x.b.L.pos, "%s is taken from a %s as %s; it becomes %s", f, s.kind, clip(show(want), 150), clip(show(restrict(x.back, g)), 200))
		rest = And(rest, Not(g))
	}
	c.ob(sameUnder(x.back, x.head, rest), "source", fn, x.b.L.pos, "%s is changed by nothing else; otherwise it becomes %s", f, clip(show(restrict(x.back, rest)), 200))
}

// received: the time at which the packet arrived.
func (q *connRun) received(r *walk, bs []*walk, rec *StructV, e *Event) {
	c, fn := q.c, q.name
	v, _ := restrict(sfield(rec, "ReceivedTimestamp"), e.pc).(*Int)
	if !c.ob(v != nil, "anchor", fn, e.pos, "the record has a time of reception") {
		return
	}
	var now []Val
	for _, ev := range q.I.events {
		if t, ok := ev.res.(*TimeV); ok && ev.kind == "now" && len(ev.loops) == 1 && ev.loops[0] == q.L && impliesT(q.dec, ev.pc) && q.afterReads(ev) {
			sec, _ := divLin(t.ns, 1000000000, True)
			now = append(now, i64(sec))
		}
	}
	x := q.variable(bs, v)
	for _, t := range now {
		if sameUnder(v, t, e.pc) {
			c.ob(true, "source", fn, e.pos, "")
			return
		}
		if x == nil {
			continue
		}
		is, _ := q.is(x.b, "SrPosData")
		pc := x.b.L.back.pc
		if sameUnder(x.back, t, And(pc, is)) && sameUnder(x.back, x.head, And(pc, Not(is))) {
			c.ob(true, "source", fn, e.pos, "")
			return
		}
	}
	c.ob(false, "source", fn, e.pos, "the time of reception is the time at which the packet had been read; it is %s", clip(show(v), 200))
}

// afterReads: the event comes behind the last read of the packet.
func (q *connRun) afterReads(ev *Event) bool {
	past := false
	for _, e := range q.I.events {
		if e == ev {
			past = true
		}
		if past && e.kind == "read" && q.within(e) {
			return false
		}
	}
	return past
}

// client: the client last announced on the connection.
func (q *connRun) client(r *walk, bs []*walk, rec *StructV, e *Event) {
	c, fn := q.c, q.name
	v := restrict(sfield(rec, "Client"), e.pc)
	x := q.variable(bs, v)
	if !c.ob(x != nil, "client", fn, e.pos, "the client is what the subrecords of the record left; it is %s", clip(show(v), 200)) {
		return
	}
	q.steps(x, "Client", []source{fieldSrc("SrTermIdentity", "TerminalIdentifier")})
	ent := x.b.L.entry
	obf := flagIs(r.item, "ObjectIDFieldExists", "1")
	oid := sfield(r.item, "ObjectIdentifier")
	c.ob(sameUnder(x.init, oid, And(ent.pc, obf)), "client", fn, x.b.L.pos, "the object id of a record is its client; it is %s", clip(show(restrict(x.init, And(ent.pc, obf))), 200))
	// else what the records before left, in this packet and those before
	prev := restrict(x.init, And(ent.pc, Not(obf)))
	for _, lf := range r.L.leaves {
		if keyOf(lf.head) != keyOf(prev) {
			continue
		}
		c.ob(sameUnder(lf.back, x.head, r.L.back.pc), "client", fn, r.L.pos, "the client is kept for the next record; kept is %s", clip(show(restrict(lf.back, r.L.back.pc)), 200))
		last := restrict(lf.init, r.L.entry.pc)
		for _, ll := range q.L.leaves {
			if keyOf(ll.head) != keyOf(last) {
				continue
			}
			b := q.L.back.pc
			skip := q.confirms()
			done := AndN(b, q.appdata(), Not(skip))
			c.ob(sameUnder(ll.back, lf.head, done), "client", fn, q.L.pos, "the client is kept for the next packet; kept is %s", clip(show(restrict(ll.back, done)), 200))
			none := And(b, Not(q.appdata()))
			c.ob(sameUnder(ll.back, ll.head, none), "client", fn, q.L.pos, "a packet without records leaves the client alone; it becomes %s", clip(show(restrict(ll.back, none)), 200))
			c.ob(sameUnder(ll.init, intK(0, 32, false), q.L.entry.pc), "client", fn, q.L.pos, "a connection starts without client; it starts with %s", clip(show(ll.init), 100))
			return
		}
	}
	c.ob(false, "client", fn, e.pos, "a record without object id has the client last announced on this connection; it has %s", clip(show(prev), 200))
}

// packetID: that of the packet, or what counters 110 and 111 carry.
func (q *connRun) packetID(r *walk, bs []*walk, rec *StructV, e *Event) {
	c, fn := q.c, q.name
	v := restrict(sfield(rec, "PacketID"), e.pc)
	x := q.variable(bs, v)
	if !c.ob(x != nil, "packet-id", fn, e.pos, "the packet id is what the subrecords of the record left; it is %s", clip(show(v), 200)) {
		return
	}
	ent, pc := x.b.L.entry, x.b.L.back.pc
	pid, _ := q.packet("PacketIdentifier").(*Int)
	init, _ := x.init.(*Int)
	c.ob(pid != nil && init != nil && sameUnder(init, convInt(pid, 32, false, ent.pc), ent.pc), "packet-id", fn, x.b.L.pos, "the packet id is that of the packet; it is %s", clip(show(x.init), 200))
	is, sub := q.is(x.b, "SrAbsCntrData")
	num, _ := sfield(sub, "CounterNumber").(*Int)
	val, _ := sfield(sub, "CounterValue").(*Int)
	back, _ := x.back.(*Int)
	head, _ := x.head.(*Int)
	if !c.ob(num != nil && val != nil && back != nil && head != nil, "anchor", fn, x.b.L.pos, "counters have a number and a value") {
		return
	}
	lo := AndN(pc, is, intEQ(num, intK(110, 8, false)))
	hi := AndN(pc, is, intEQ(num, intK(111, 8, false)))
	rest := AndN(pc, Not(lo), Not(hi))
	c.ob(lo != False && sameUnder(back, val, lo), "packet-id", fn, x.b.L.pos, "counter 110 is the number of the record; it becomes %s", clip(show(restrict(back, lo)), 200))
	c.ob(sameUnder(back, head, rest), "packet-id", fn, x.b.L.pos, "nothing else changes the packet id; it becomes %s", clip(show(restrict(back, rest)), 200))
	// counter 111 is its highest byte, on top of what counter 110 said
	bv, vv, hv := back.bitVec(), val.bitVec(), head.bitVec()
	c.ob(hi != False && sameUnder(intBits(bv[24:32], false), intBits(vv[:8], false), hi), "packet-id", fn, x.b.L.pos, "counter 111 is the highest byte of the number; that becomes %s", clip(show(restrict(intBits(bv[24:32], false), hi)), 200))
	for i := 0; i < 3; i++ {
		got := intBits(bv[8*i:8*i+8], false)
		want := intBits(vv[8*i:8*i+8], false)
		ok := sameUnder(got, intBits(hv[8*i:8*i+8], false), hi)
		for _, lf := range x.b.L.leaves {
			h, isI := lf.head.(*Int)
			b, isI2 := lf.back.(*Int)
			if ok || !isI || !isI2 || h.w < 8 || h.w%8 != 0 {
				continue
			}
			for k := 0; k+8 <= h.w && !ok; k += 8 {
				hb, bb := intBits(h.bitVec()[k:k+8], false), intBits(b.bitVec()[k:k+8], false)
				ok = sameUnder(got, hb, hi) && sameUnder(bb, want, lo) && sameUnder(bb, hb, And(pc, Not(lo)))
			}
		}
		c.ob(ok, "packet-id", fn, x.b.L.pos, "counter 111 leaves byte %d of what counter 110 said; it becomes %s", i, clip(show(restrict(got, hi)), 200))
	}
}

// lists: the sensors of the record.
func (q *connRun) lists(bs []*walk, rec *StructV, e *Event) {
	c, fn := q.c, q.name
	add := func(b *walk, f string) *Seq {
		el := c.p.named(storageRel, map[string]string{"AnSensors": "AnSensor", "LiquidSensors": "LiquidSensor"}[f])
		if el == nil {
			return nil
		}
		mk := func(m map[string]Val) Val {
			s := zeroVal(el).(*StructV)
			n := &StructV{typ: s.typ, nam: s.nam, f: append([]Val(nil), s.f...)}
			for k, v := range m {
				if i, _ := fieldOf(s.typ, k); i >= 0 && v != nil {
					n.f[i] = v
				}
			}
			return n
		}
		w := &Seq{}
		if f == "AnSensors" {
			is, s := q.is(b, "SrAdSensorsData")
			for i := 1; i <= 8; i++ {
				k := string(rune('0' + i))
				w.push(Piece{g: And(is, flagIs(s, "AnalogSensorFieldExists"+k, "1")), v: mk(map[string]Val{"SensorNumber": intK(int64(i), 8, false), "Value": sfield(s, "AnalogSensor"+k)})})
			}
			is, s = q.is(b, "SrAbsAnSensData")
			w.push(Piece{g: is, v: mk(map[string]Val{"SensorNumber": sfield(s, "SensorNumber"), "Value": sfield(s, "Value")})})
			return w
		}
		is, s := q.is(b, "SrLiquidLevelSensor")
		d, _ := sfield(s, "LiquidLevelSensorData").(*Int)
		if d == nil {
			return nil
		}
		mm := Or(flagIs(s, "LiquidLevelSensorValueUnit", "00"), flagIs(s, "LiquidLevelSensorValueUnit", "01"))
		l := flagIs(s, "LiquidLevelSensorValueUnit", "10")
		z := intK(0, 32, false)
		w.push(Piece{g: is, v: mk(map[string]Val{"SensorNumber": sfield(s, "LiquidLevelSensorNumber"), "ErrorFlag": sfield(s, "LiquidLevelSensorErrorFlag"),
			"ValueMm": iteVal(mm, d, z), "ValueL": iteVal(l, mkInt(d.asLin().scale(10), 32, false, b.L.back.pc), z)})})
		return w
	}
	for _, f := range []string{"AnSensors", "LiquidSensors"} {
		v := restrict(sfield(rec, f), e.pc)
		_, ft := fieldOf(rec.typ, f)
		if v == nil {
			c.ob(false, "anchor", fn, e.pos, "the record has the field %s", f)
			continue
		}
		list, _ := q.I.contentAny(e.state(), v, ft)
		list = list.under(e.pc)
		found := false
		for _, b := range bs {
			for _, lf := range b.L.leaves {
				if lf.kind != "acc" || lf.delta == nil || found {
					continue
				}
				h := q.I.seqOfVal(b.L.head, lf.head)
				if h == nil || len(h.ps) != 1 || len(list.ps) != 1 || h.ps[0].v != nil || list.ps[0].v != nil || h.ps[0].src != list.ps[0].src {
					continue
				}
				found = true
				c.ob(isEmptyVal(q.Run, b.L.entry, lf.init), "fresh", fn, b.L.pos, "%s start empty for every record", f)
				w := add(b, f)
				diff := "no such subrecord"
				if w != nil {
					diff, _ = seqDiff(lf.delta, w, b.L.back.pc)
				}
				c.ob(diff == "", "source", fn, b.L.pos, "%s are those of the subrecords of this record, in order; first difference: %s", f, clip(diff, 300))
			}
		}
		c.ob(found, "source", fn, e.pos, "%s is what the subrecords of the record added; it is %s", f, clip(list.String(), 200))
	}
}
