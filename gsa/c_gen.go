package main

// The packet generator.

import (
	"go/types"
	"strings"
)

func init() {
	checks["C23"] = checkDef{"proof", "main of the packet generator on any command line, server behaviour and answer: the packet handed to the encoder, what is sent, how long is waited, and the exit status against the answer's content, record statuses in an arbitrary turn", checkC23, 40}
}

type genRun struct {
	*connRun
	msg    *Event // encoding of the packet
	dec    *Event // decoding of the answer
	good   Node   // exit status 0
	within Node   // the command line is complete and in range
	pid    *Int
}

func checkC23(c *Check) {
	_, f := c.anchor("cli/packet-gen", "", "main")
	if f == nil {
		return
	}
	r := c.begin()
	r.I.separate(c.p)
	r.serverContracts()
	ct := r.I.contract
	r.I.contract = func(ev *Event, st *State) bool {
		if ev.ssaFn == nil || !isPackage2(recvNamed(ev.ssaFn)) || ev.ssaFn.Name() != "Encode" {
			return ct(ev, st)
		}
		// encoding leaves the packet id alone (checked by keepsID)
		p, ok := ev.args[0].(*Ptr)
		var was *StructV
		if ok {
			was, _ = r.I.navLoad(st.heap.get(r.I, p.obj), p.path, p.obj.typ, st.pc).(*StructV)
		}
		done := ct(ev, st)
		if was != nil {
			if now, ok := r.I.navLoad(st.heap.get(r.I, p.obj), p.path, p.obj.typ, st.pc).(*StructV); ok {
				if i, _ := fieldOf(was.typ, "PacketIdentifier"); i >= 0 {
					n := &StructV{typ: now.typ, nam: now.nam, f: append([]Val(nil), now.f...)}
					n.f[i] = was.f[i]
					if v, ok := r.I.navStore(st.heap.get(r.I, p.obj), p.path, n, p.obj.typ, st.pc); ok {
						st.set(p.obj, v)
					}
				}
			}
		}
		return done
	}
	r.call(f)
	r.decided()
	g := &genRun{connRun: &connRun{Run: r}}
	g.exits()
	if !g.sent() || !g.answered() {
		return
	}
	g.outcome()
	c.keepsID()
}

// keepsID: encoding a packet does not change its id.
func (c *Check) keepsID() {
	n, f := c.anchor(libRel, "Package", "Encode")
	if f == nil {
		return
	}
	r := c.begin()
	r.I.separate(c.p, n)
	r.setRecv(n, symVal(n, "v", "v"))
	r.args = append(r.args, c.optArg(r, f.Params[1].Type(), false))
	was, ok1 := r.st.heap.get(r.I, r.recv).(*StructV)
	r.call(f)
	now, ok2 := r.out.heap.get(r.I, r.recv).(*StructV)
	if !c.ob(ok1 && ok2, "id", r.name, f.Pos(), "the packet is a structure") {
		return
	}
	c.ob(sameUnder(sfield(was, "PacketIdentifier"), sfield(now, "PacketIdentifier"), r.out.pc), "id", r.name, f.Pos(), "encoding leaves the packet id alone")
}

// exits: where the process ends with success.
func (g *genRun) exits() {
	g.good = g.out.pc
	for _, e := range g.I.events {
		if e.kind != "exit" || e.pc == False || g.failing(e) {
			continue
		}
		ok := strings.HasSuffix(e.name, ".Exit") && len(e.args) == 1
		if ok {
			n, is := e.args[0].(*Int)
			ok = is
			if is {
				z := And(e.pc, intEQ(n, intK(0, n.w, n.sgn)))
				if len(e.loops) > 0 && z != False {
					g.c.ob(false, "exit", e.fn, e.pos, "success is not reported from within a loop")
				}
				g.good = Or(g.good, z)
			}
		}
		g.c.ob(ok, "exit", e.fn, e.pos, "the exit status of %s is known", e.name)
	}
	g.succ = g.good
	g.c.ob(g.good != False, "exit", g.name, g.fn.Pos(), "success can be reported")
}

// option is the value of a command line option.
func (g *genRun) option(name string) Val {
	for _, e := range g.I.events {
		if e.kind != "flag" || e.pc == False || len(e.args) < 3 {
			continue
		}
		if s, ok := e.args[1].(*Str); ok {
			if n, ok := s.s.constString(); ok && n == name {
				if p, ok := e.args[0].(*Ptr); ok {
					return symVal(typeAtPath(p.obj.typ, p.path), "flag:"+name, "flag "+name)
				}
			}
		}
	}
	g.c.ob(false, "options", g.name, g.fn.Pos(), "there is an option %s", name)
	return nil
}

// one finds the only call of a kind.
func (g *genRun) one(rule, what string, is func(e *Event) bool) *Event {
	var out *Event
	for _, e := range g.I.events {
		if e.pc == False || !is(e) {
			continue
		}
		if !g.c.ob(out == nil && len(e.loops) == 0, rule, e.fn, e.pos, "%s happens at one place", what) {
			return nil
		}
		out = e
	}
	if !g.c.ob(out != nil, rule, g.name, g.fn.Pos(), "%s", what) {
		return nil
	}
	bad := And(g.good, Not(out.pc))
	g.c.ob(none(bad), rule, out.fn, out.pos, "success without: %s", what)
	return out
}

func isConnCall(e *Event, m string) bool {
	return (e.kind == "call" || e.kind == "invoke" || e.kind == "read") && hasName(e.name, m) && strings.Contains(e.name, "net.")
}

func (g *genRun) sent() bool {
	c := g.c
	g.msg = g.one("packet", "the packet is encoded", func(e *Event) bool {
		return e.kind == "api" && isPackage2(recvNamed(e.ssaFn)) && e.ssaFn.Name() == "Encode"
	})
	if g.msg == nil {
		return false
	}
	e := g.msg
	st := e.state()
	pk, _ := g.deref(st, e.args[0]).(*StructV)
	if !c.ob(pk != nil, "packet", e.fn, e.pos, "the packet is known") {
		return false
	}
	pid, _ := g.option("pid").(*Int)
	oid, _ := g.option("oid").(*Int)
	liq, _ := g.option("liquid").(*Int)
	ts, _ := g.option("time").(*Str)
	lat, _ := g.option("lat").(*Float)
	lon, _ := g.option("lon").(*Float)
	srv, _ := g.option("server").(*Str)
	if !c.ob(pid != nil && oid != nil && liq != nil && ts != nil && lat != nil && lon != nil && srv != nil, "options", g.name, g.fn.Pos(), "the options have their types") {
		return false
	}
	in := func(n *Int, lo, hi int64) Node {
		return And(mkGE(n.asLin().addK(-lo)), mkGE(lk(hi).sub(n.asLin())))
	}
	g.pid = pid
	g.within = AndN(in(pid, 1, 65535), in(oid, 1, 1<<32-1), in(liq, 0, 1<<32-1), mkGE(ts.s.length().addK(-1)))
	care := And(e.pc, g.within)
	num := func(rule, what string, s *StructV, field string, want *Int) {
		n, ok := sfield(s, field).(*Int)
		same := ok && (sameUnder(n, convInt(want, n.w, n.sgn, True), care) || linEqUnder(n.asLin(), want.asLin(), care))
		if ok && !same {
			same = And(care, Not(intEQ(n, convInt(want, n.w, n.sgn, care)))) == False
		}
		c.ob(same, rule, e.fn, e.pos, "%s is that of the command line; it is %s", what, clip(show(restrict(sfield(s, field), care)), 120))
	}
	text := func(what string, s *StructV, field, want string, care Node) {
		c.ob(sameUnder(sfield(s, field), strK(want), care), "packet", e.fn, e.pos, "%s: %s is %q, not %s", what, field, want, clip(show(restrict(sfield(s, field), care)), 60))
	}
	num("packet", "the packet id", pk, "PacketIdentifier", pid)
	k, _ := c.p.pkgConst(libRel, "PtAppdataPacket")
	c.ob(sameUnder(sfield(pk, "PacketType"), intK(k, 8, false), care), "packet", e.fn, e.pos, "it carries application data")
	text("nothing is routed", pk, "Route", "0", care)
	text("nothing is encrypted", pk, "EncryptionAlg", "00", care)
	text("nothing is compressed", pk, "Compression", "0", care)
	n := c.p.named(libRel, "ServiceDataSet")
	is, v := g.I.assertTo(st, sfield(pk, "ServicesFrameData"), types.NewPointer(n))
	if !c.ob(impliesT(care, is), "packet", e.fn, e.pos, "the packet carries records") {
		return false
	}
	recs, _ := g.I.contentAny(st, g.deref(st, v), n)
	recs = recs.under(care)
	if !c.ob(len(recs.ps) == 1 && recs.ps[0].v != nil, "packet", e.fn, e.pos, "the packet carries one record; it carries %s", clip(recs.String(), 100)) {
		return false
	}
	rec, _ := recs.ps[0].v.(*StructV)
	num("packet", "the object id", rec, "ObjectIdentifier", oid)
	text("the object id is sent", rec, "ObjectIDFieldExists", "1", care)
	rn := c.p.named(libRel, "RecordDataSet")
	subs, _ := g.I.contentAny(st, sfield(rec, "RecordDataSet"), rn)
	subs = subs.under(care)
	kinds := map[string]int{}
	for _, p := range subs.ps {
		sub, ok := p.v.(*StructV)
		if !c.ob(ok && impliesT(care, p.g), "packet", e.fn, e.pos, "the subrecords are known") {
			return false
		}
		for _, x := range [][2]string{{"SrPosData", "SrPosDataType"}, {"SrLiquidLevelSensor", "SrLiquidLevelSensorType"}} {
			nt := c.p.named(libRel, x[0])
			if nt == nil {
				continue
			}
			is, v := g.I.assertTo(st, sfield(sub, "SubrecordData"), types.NewPointer(nt))
			if !impliesT(care, is) {
				continue
			}
			kinds[x[0]]++
			b, _ := g.deref(st, v).(*StructV)
			if !c.ob(b != nil, "packet", e.fn, e.pos, "the %s is known", x[0]) {
				continue
			}
			code := map[string]int64{"SrPosData": 16, "SrLiquidLevelSensor": 27}[x[0]]
			c.ob(sameUnder(sfield(sub, "SubrecordType"), intK(code, 8, false), care), "packet", e.fn, e.pos, "%s is sent as type %d", x[0], code)
			if x[0] == "SrLiquidLevelSensor" {
				num("packet", "the liquid level", b, "LiquidLevelSensorData", liq)
				text("the level is a number", b, "RawDataFlag", "0", care)
				continue
			}
			g.position(b, care, ts, lat, lon)
		}
	}
	c.ob(kinds["SrPosData"] == 1 && kinds["SrLiquidLevelSensor"] == 1, "packet", e.fn, e.pos, "the record carries a position and a liquid level")
	// on the wire
	conn := g.dialled(srv)
	w := g.one("send", "the packet is sent", func(e *Event) bool { return isConnCall(e, "Write") })
	if w == nil || conn == nil {
		return false
	}
	g.ofConn(w, conn)
	args := w.args
	if w.kind == "call" {
		args = args[1:]
	}
	tp, ok := e.res.(*Tuple)
	if !c.ob(ok && len(args) == 1, "send", w.fn, w.pos, "bytes are sent") {
		return false
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	want, _ := g.I.contentAny(w.state(), tp.vs[0], bt)
	got, _ := g.I.contentAny(w.state(), args[0], bt)
	d, _ := seqDiff(got, want, And(w.pc, isNil(tp.vs[1])))
	c.ob(d == "" && len(want.ps) > 0, "send", w.fn, w.pos, "what is sent is the encoded packet: %s", d)
	bad := AndN(w.pc, Not(isNil(tp.vs[1])))
	c.ob(none(bad), "send", w.fn, w.pos, "a packet that cannot be encoded is not sent")
	return true
}

func (g *genRun) position(b *StructV, care Node, ts *Str, lat, lon *Float) {
	c, e := g.c, g.msg
	// the time
	p := g.one("packet", "the time is parsed", func(e *Event) bool { return e.kind == "parse" && e.name == "time.Parse" })
	if p != nil {
		c.ob(sameUnder(p.args[0], strK("2006-01-02T15:04:05Z07:00"), p.pc) && sameUnder(p.args[1], ts, p.pc), "packet", p.fn, p.pos, "the time is read from the command line as RFC 3339; %s", clip(show(p.args[1]), 100))
		c.ob(sameUnder(sfield(b, "NavigationTime"), result(p), care), "packet", e.fn, e.pos, "the position has the time of the command line; it has %s", clip(show(restrict(sfield(b, "NavigationTime"), care)), 200))
	}
	for _, x := range []struct {
		what, field, sign string
		v                 *Float
	}{{"latitude", "Latitude", "LAHS", lat}, {"longitude", "Longitude", "LOHS", lon}} {
		neg := And(opAtom("neg("+keyOf(x.v.base)+")", false), Not(opAtom("zero("+keyOf(x.v.base)+")", false)))
		pos := And(Not(opAtom("neg("+keyOf(x.v.base)+")", false)), Not(opAtom("zero("+keyOf(x.v.base)+")", false)))
		got, ok := restrict(sfield(b, x.field), care).(*Float)
		abs := &Float{r: x.v.r, base: x.v.base, neg: neg}
		c.ob(ok && sameFloat(got, abs, care), "packet", e.fn, e.pos, "the %s is that of the command line, without its sign; it is %s", x.what, clip(show(sfield(b, x.field)), 100))
		c.ob(sameUnder(sfield(b, x.sign), strK("1"), And(care, neg)), "packet", e.fn, e.pos, "a negative %s is sent with its hemisphere; %s is %s", x.what, x.sign, clip(show(restrict(sfield(b, x.sign), And(care, neg))), 100))
		c.ob(sameUnder(sfield(b, x.sign), strK("0"), And(care, pos)), "packet", e.fn, e.pos, "a positive %s is sent with its hemisphere; %s is %s", x.what, x.sign, clip(show(restrict(sfield(b, x.sign), And(care, pos))), 100))
	}
}

func sameFloat(a, b *Float, care Node) bool {
	if sameUnder(a, b, care) {
		return true
	}
	if a.base == nil || b.base == nil || keyOf(a.base) != keyOf(b.base) || a.r.Cmp(b.r) != 0 {
		return false
	}
	return And(care, Xor(a.neg, b.neg)) == False
}

// dialled: the server of the command line is connected.
func (g *genRun) dialled(srv *Str) Val {
	c := g.c
	e := g.one("connect", "the server is connected", func(e *Event) bool {
		return e.kind == "call" && (e.name == "net.Dial" || e.name == "net.DialTimeout" || e.name == "net.DialTCP")
	})
	if e == nil {
		return nil
	}
	c.ob(sameUnder(e.args[0], strK("tcp"), e.pc), "connect", e.fn, e.pos, "by tcp")
	if e.name == "net.DialTCP" {
		r := g.one("connect", "the server's address is resolved", func(e *Event) bool { return e.kind == "call" && e.name == "net.ResolveTCPAddr" })
		if r == nil {
			return nil
		}
		c.ob(from(e.args[2], result(r), e.pc), "connect", e.fn, e.pos, "the resolved address is connected")
		c.ob(sameUnder(r.args[1], srv, r.pc), "connect", r.fn, r.pos, "it is the server of the command line")
	} else {
		c.ob(sameUnder(e.args[1], srv, e.pc), "connect", e.fn, e.pos, "it is the server of the command line")
	}
	return result(e)
}

func (g *genRun) ofConn(e *Event, conn Val) {
	on := e.recv
	if e.kind == "call" {
		on = e.args[0]
	}
	if on == nil {
		return
	}
	g.c.ob(from(on, conn, e.pc), "connect", e.fn, e.pos, "%s is on the connection to the server; on %s", e.name, clip(show(on), 100))
}

// answered: what was read is decoded.
func (g *genRun) answered() bool {
	c := g.c
	rd := g.one("answer", "the answer is read", func(e *Event) bool { return e.kind == "read" })
	g.dec = g.one("answer", "the answer is decoded", func(e *Event) bool {
		return e.kind == "api" && isPackage2(recvNamed(e.ssaFn)) && e.ssaFn.Name() == "Decode"
	})
	if rd == nil || g.dec == nil {
		return false
	}
	// waiting is limited
	lim := False
	to, _ := g.option("timeout").(*Int)
	for _, e := range g.I.events {
		if (e.kind == "call" || e.kind == "invoke") && (hasName(e.name, "SetReadDeadline") || hasName(e.name, "SetDeadline")) && e.pc != False && e.before(rd, g.I) {
			a, _ := e.args[len(e.args)-1].(*TimeV)
			ok := false
			if a != nil && to != nil {
				for _, n := range g.I.events {
					if n.kind != "now" || !n.before(e, g.I) {
						continue
					}
					if t, is := n.res.(*TimeV); is && linEqUnder(a.ns.sub(t.ns), to.asLin().scale(1000000000), e.pc) {
						ok = true
					}
				}
			}
			c.ob(ok, "wait", e.fn, e.pos, "the answer is waited for the timeout of the command line, in seconds; until %s", clip(show(e.args[len(e.args)-1]), 100))
			lim = Or(lim, e.pc)
		}
	}
	bad := And(rd.pc, Not(lim))
	c.ob(none(bad), "wait", rd.fn, rd.pos, "the wait for the answer is limited")
	buf, ok1 := rd.args[0].(*Slice)
	n, ok2 := rd.args[len(rd.args)-1].(*Int)
	got, ok3 := g.dec.args[1].(*Slice)
	ok := ok1 && ok2 && ok3 && buf.obj == got.obj && linEqUnder(buf.off, got.off, g.dec.pc) && linEqUnder(got.n, n.asLin(), g.dec.pc)
	c.ob(ok, "answer", g.dec.fn, g.dec.pos, "what was read is decoded; %s", clip(show(g.dec.args[1]), 100))
	return true
}

// before: e comes earlier.
func (e *Event) before(o *Event, I *Interp) bool {
	for _, x := range I.events {
		if x == e {
			return true
		}
		if x == o {
			return false
		}
	}
	return false
}

// outcome: success exactly for the right answer.
func (g *genRun) outcome() {
	c, fn, at := g.c, g.name, g.fn.Pos()
	for _, f := range g.I.falls {
		if strings.Contains(f.what, "Deadline") || hasName(f.what, "Close") || strings.Contains(f.what, "fmt.") {
			continue
		}
		if bad := And(f.pc, f.fail); bad != False {
			g.reported("step", f, bad, f.loop)
		}
	}
	// the answer, as it is when success is reported
	var st *State
	for _, e := range g.I.events {
		if e.kind == "exit" && And(e.pc, g.good) != False {
			st = &State{heap: e.heap, pc: And(e.pc, g.good)}
		}
	}
	if st == nil {
		st = &State{heap: g.out.heap, pc: g.out.pc}
	}
	tp, ok := g.dec.res.(*Tuple)
	if !c.ob(ok && len(tp.vs) == 2, "answer", g.dec.fn, g.dec.pos, "decoding reports its error") {
		return
	}
	decoded := And(g.dec.pc, isNil(tp.vs[1]))
	st.pc = decoded
	pk, _ := g.deref(st, g.dec.args[0]).(*StructV)
	pr := c.p.named(libRel, "PtResponse")
	sd := c.p.named(libRel, "ServiceDataSet")
	if !c.ob(pk != nil && pr != nil && sd != nil, "answer", g.dec.fn, g.dec.pos, "the answer is known") {
		return
	}
	isResp, v := g.I.assertTo(st, sfield(pk, "ServicesFrameData"), types.NewPointer(pr))
	right := And(decoded, isResp)
	st.pc = right
	ack, _ := g.deref(st, v).(*StructV)
	id, ok1 := restrict(sfield(ack, "ResponsePacketID"), right).(*Int)
	res, ok2 := restrict(sfield(ack, "ProcessingResult"), right).(*Int)
	if !c.ob(ack != nil && ok1 && ok2, "answer", g.dec.fn, g.dec.pos, "the acknowledgement is known") {
		return
	}
	need := func(what string, g1 Node) {
		bad := And(g.good, Not(g1))
		c.ob(none(bad), "success", fn, at, "success requires %s; reported where %s", what, tail(ddString(bad), 300))
		right = And(right, g1)
	}
	need("an acknowledgement", right)
	sent, _ := g.deref(g.msg.state(), g.msg.args[0]).(*StructV)
	mine, _ := sfield(sent, "PacketIdentifier").(*Int)
	need("the packet's id", Or(Not(g.within), intEQ(id, mine)))
	need("result OK", intEQ(res, intK(0, res.w, res.sgn)))
	isRecs, v := g.I.assertTo(st, restrict(sfield(ack, "SDR"), right), types.NewPointer(sd))
	need("record statuses", isRecs)
	st.pc = AndN(decoded, isResp, isRecs)
	early := g.statuses(st, v, sd)
	// failure only for a reason
	why := Or(Not(right), Not(g.within))
	for _, f := range g.I.falls {
		if len(f.loop) == 0 {
			why = Or(why, And(f.pc, f.fail))
		}
	}
	why = Or(why, early)
	before := Not(AndN(g.within, g.dec.pc))
	for _, f := range g.I.falls {
		if len(f.loop) == 0 {
			before = And(before, Not(And(f.pc, f.fail)))
		}
	}
	before = And(before, g.within)
	for _, e := range g.I.events {
		if e.kind != "exit" || len(e.loops) > 0 {
			continue
		}
		c.ob(And(e.pc, before) == False, "failure", e.fn, e.pos, "with a complete command line and every step succeeding the packet is sent; failure where %s", tail(ddString(And(e.pc, before)), 300))
		bad := AndN(e.pc, Not(g.good), Not(why))
		c.ob(none(bad), "failure", e.fn, e.pos, "with the right answer success is reported; failure where %s", tail(ddString(bad), 300))
	}
	for _, o := range g.I.obls {
		if o.ok || o.pc == False || len(o.loops) > 0 {
			continue
		}
		bad := And(o.pc, Not(why))
		c.ob(none(bad), "failure", o.fn, o.pos, "with the right answer nothing panics; %s where %s", o.what, clip(ddString(bad), 300))
	}
}

// statuses looks at the loops over the records' statuses: v holds the records.
// It gives the guard of having left them for a bad status.
func (g *genRun) statuses(st *State, v Val, sd *types.Named) Node {
	c, fn, at := g.c, g.name, g.fn.Pos()
	recs, _ := g.I.contentAny(st, restrict(g.deref(st, v), st.pc), sd)
	recs = recs.under(st.pc)
	recT := sd.Underlying().(*types.Slice).Elem()
	rds := c.p.named(libRel, "RecordDataSet")
	rsp := c.p.named(libRel, "SrResponse")
	if rds == nil || rsp == nil {
		return False
	}
	subT := rds.Underlying().(*types.Slice).Elem()
	early := False
	found := 0
	for _, in := range g.I.loops {
		if len(in.outer) == 0 {
			continue
		}
		out := in.outer[len(in.outer)-1]
		rec, ok := g.I.seqElem(recs, lt(out.k), recT, in.head.pc).(*StructV)
		if !ok {
			continue
		}
		subs, _ := g.I.contentAny(in.head, sfield(rec, "RecordDataSet"), rds)
		elem, ok := g.I.seqElem(subs, lt(in.k), subT, in.head.pc).(*StructV)
		if !ok || subs.length().under(in.head.pc).eq(lk(0)) {
			continue
		}
		there := And(mkGE(recs.length().sub(lt(out.k)).addK(-1)), mkGE(subs.length().sub(lt(in.k)).addK(-1)))
		is, sv := g.I.assertTo(in.head, sfield(elem, "SubrecordData"), types.NewPointer(rsp))
		s2 := &State{heap: in.head.heap, pc: AndN(in.head.pc, there, is)}
		sr, _ := g.deref(s2, sv).(*StructV)
		status, ok := sfield(sr, "RecordStatus").(*Int)
		if !ok {
			continue
		}
		k, _ := c.p.pkgConst(libRel, "SrRecordResponseType")
		kind, ok := sfield(elem, "SubrecordType").(*Int)
		if !ok {
			continue
		}
		found++
		isK := intEQ(kind, intK(k, 8, false))
		wrong := AndN(is, isK, Not(intEQ(status, intK(0, status.w, status.sgn))))
		bad := AndN(in.head.pc, there, wrong)
		c.ob(bad != False, "statuses", shortFn(in.fn), in.pos, "statuses are looked at")
		g.reported("statuses", &Fall{what: "record status", fn: in.fn.String(), pos: in.pos}, bad, []*LoopSum{out, in})
		for _, l := range []*LoopSum{in, out} {
			n := recs.length()
			if l == in {
				n = subs.length()
			}
			nat := False
			for _, x := range l.leave {
				if x.pc == False {
					continue
				}
				if x.known && linEqUnder(x.n, n, x.after) {
					nat = Or(nat, x.after)
					continue
				}
				if l == in {
					b := AndN(x.pc, there, Not(wrong))
					c.ob(b == False, "statuses", shortFn(l.fn), l.pos, "other statuses do not end the search; left where %s", tail(ddString(b), 300))
				}
				early = Or(early, x.after)
			}
			c.ob(nat != False, "statuses", shortFn(l.fn), l.pos, "all are looked at")
			if l.back == nil {
				c.ob(false, "statuses", shortFn(l.fn), l.pos, "all are looked at")
			}
		}
		// a bad status may be noted for later
		both := []*LoopSum{out, in}
		fine := func(l *LoopSum) Node {
			if l == in {
				return Not(And(there, wrong))
			}
			return True
		}
		if s := g.sticky(both[:1]); g.startsOK(both[:1]) && g.stays(both[:1], Not(s), false, fine) {
			early = Or(early, s)
		}
		// leaving a record's loop means going on with the next, unless left early
		for _, e := range g.I.events {
			if e.kind != "exit" || len(e.loops) == 0 || e.pc == False {
				continue
			}
			inner := e.loops[len(e.loops)-1]
			switch inner {
			case in:
				b := AndN(e.pc, there, Not(wrong))
				c.ob(b == False, "failure", e.fn, e.pos, "OK statuses are no failure; failure where %s", tail(ddString(b), 300))
			case out:
				b := And(e.pc, Not(early))
				c.ob(b == False, "failure", e.fn, e.pos, "OK statuses are no failure; failure where %s", tail(ddString(b), 300))
			default:
				c.ob(false, "failure", e.fn, e.pos, "the process ends in a loop that does not look at statuses")
			}
		}
	}
	c.ob(found > 0, "statuses", fn, at, "the statuses of all records are looked at")
	return early
}

// tail is the end of a long description.
func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
