package main

// Encoding and decoding are inverse, whatever the layout.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C08"] = checkDef{"proof", provedNote + "The bytes an encoder writes for an arbitrary well-formed value are handed, as symbolic text, to the decoder in the same analysis; every field comes back under its presence flag.", checkC08, 400}
}

func checkC08(c *Check) {
	for i := range specSections {
		c.inverse(&specSections[i])
	}
	for _, x := range []func(route, auto Node) Node{
		func(r, a Node) Node { return And(r, a) }, func(r, a Node) Node { return And(r, Not(a)) },
		func(r, a Node) Node { return And(Not(r), a) }, func(r, a Node) Node { return And(Not(r), Not(a)) },
	} {
		c.inversePacket(false, false, x)
		c.inversePacket(true, false, x)
		c.inversePacket(true, true, x)
	}
	// Lists: both directions are shown to be those of one layout, in which
	// every element says where it ends.
	c.lists()
}

// inverse: decoding what encoding a well-formed value of s gave.
func (c *Check) inverse(s *section) {
	r, w := c.encodeRun(s, "Encode")
	if r == nil || len(r.res) == 0 {
		return
	}
	d := c.p.method(r.nam, "Decode")
	if !c.ob(d != nil, "anchor", s.typ, r.fn.Pos(), "%s has a Decode method", s.typ) {
		return
	}
	q := r.decodes(d, r.res[0], zeroVal(r.nam))
	care := And(r.succ, s.proper(w))
	c.ob(impliesT(care, q.succ), "accepted", q.name, d.Pos(), "%s decodes what it encoded; not where %s", s.typ, clip(ddString(And(care, Not(q.succ))), 300))
	g := And(care, q.succ)
	for _, name := range s.names() {
		want, ok1 := w.fields[name]
		got, ok2 := q.field(name)
		g := And(g, s.present(name, w))
		c.ob(ok1 && ok2 && sameUnder(got, want, g), "inverse", q.name, d.Pos(), "%s.%s = %s comes back; it is %s", s.typ, name, show2(want, g), show2(got, g))
	}
}

// decodes runs d on a fresh value and the bytes x, after r.
func (r *Run) decodes(d *ssa.Function, x, fresh Val) *Run {
	q := &Run{c: r.c, I: r.I, nam: r.nam}
	q.st = r.out.fork()
	q.st.pc = And(q.st.pc, r.succ)
	q.setRecv(r.nam, fresh)
	r.I.opaqueFn, r.I.contract = func(*ssa.Function) bool { return false }, nil
	opaqueIfaceMethods = map[string]bool{}
	q.call(d, x)
	q.decided()
	return q
}

// present: the field is written.
func (s *section) present(name string, w *wf) Node {
	for _, f := range s.f {
		if f.name == name && f.gate != "" {
			return flagIsSet(w.fields[f.gate])
		}
	}
	return True
}

func flagIsSet(v Val) Node {
	t, ok := v.(*Str)
	if !ok {
		return False
	}
	return seqEQ(t.s, strK("1").s)
}

// proper: what well-formed values of s have in common besides.
func (s *section) proper(w *wf) Node {
	g := True
	for _, f := range s.f {
		if f.kind == "dir" {
			// the highest bit of the direction is that of the direction
			dh, dir := w.fields["DirectionHighestBit"].(*Int), w.fields[f.name].(*Int)
			g = And(g, Or(Not(dh.bitVec()[0]), dir.bitVec()[7]))
		}
	}
	return g
}

// inversePacket: decoding what encoding a well-formed packet gave.
func (c *Check) inversePacket(with, enc bool, in func(route, auto Node) Node) {
	e := c.wfPacketIn(with, enc, in)
	if e == nil || len(e.res) == 0 {
		return
	}
	f := c.p.method(e.nam, "Decode")
	if !c.ob(f != nil, "anchor", "Package", e.fn.Pos(), "a packet has a Decode method") {
		return
	}
	body := e.bodyEnc(c, enc, "anchor")
	if body == nil {
		return
	}
	pt, _ := e.w.fields["PacketType"].(*Int)
	k0, _ := c.p.pkgConst(libRel, "PtResponsePacket")
	k1, _ := c.p.pkgConst(libRel, "PtAppdataPacket")
	fdl := intL(body.length(), 16, false)
	care := AndN(e.succ, mkGE(body.length().addK(-1)), Not(bitsEQ(fdl.bitVec(), intK(0, 16, false).bitVec())), Or(intEQ(pt, intK(k0, 8, false)), intEQ(pt, intK(k1, 8, false))))
	q := &Run{c: c, I: e.I, nam: e.nam}
	q.st = e.Run.out.fork()
	q.st.pc = And(q.st.pc, care)
	q.setRecv(e.nam, zeroVal(e.nam))
	at := len(q.I.events)
	content, _ := q.I.contentAny(q.st, e.res[0], types.NewSlice(types.Typ[types.Uint8]))
	args := []Val{q.I.newArr(q.st, types.Typ[types.Uint8], content.under(care), "packet")}
	for _, a := range e.args[1:] {
		args = append(args, a)
	}
	q.call(f, args...)
	q.decided()
	care = And(care, q.nestedOK())
	if enc {
		// the same key is given
		with := False
		for _, ev := range q.I.events[at:] {
			if strings.Contains(ev.name, "SecretKey") {
				with = Or(with, ev.pc)
			}
		}
		care = And(care, with)
	}
	c.ob(impliesT(care, q.succ), "accepted", q.name, f.Pos(), "a packet decodes as it was encoded; not where %s", tail(ddString(And(care, Not(q.succ))), 800))
	g := And(care, q.succ)
	for _, name := range packetSpec.names() {
		want, ok1 := e.w.fields[name]
		got, ok2 := q.field(name)
		g := And(g, packetSpec.present(name, e.w))
		n, isN := got.(*Int)
		switch name {
		case "HeaderLength":
			c.ob(isN && linEqUnder(n.asLin(), e.hdr, g), "inverse", q.name, f.Pos(), "the decoded header length is that of the header, %s; it is %s", e.hdr, show2(got, g))
		case "FrameDataLength":
			c.ob(isN && linEqUnder(n.asLin(), body.length(), g), "inverse", q.name, f.Pos(), "the decoded frame length is that of the body, %s; it is %s", body.length(), show2(got, g))
		case "HeaderCheckSum":
		default:
			c.ob(ok1 && ok2 && sameUnder(got, want, g), "inverse", q.name, f.Pos(), "Package.%s = %s comes back; it is %s", name, show2(want, g), show2(got, g))
		}
	}
	c.ob(g != False, "accepted", q.name, f.Pos(), "some packets come back")
	// the body's decoder gets what the body's encoder gave
	bt := types.NewSlice(types.Typ[types.Uint8])
	given := func(ev *Event, n int) *Seq {
		x, _ := q.I.contentAny(ev.state(), ev.args[len(ev.args)-1], bt)
		return x.under(And(ev.pc, g))
	}
	same := func(what string, ev *Event, want *Seq) {
		d, _ := seqDiff(given(ev, 0), want.under(And(ev.pc, g)), And(ev.pc, g))
		c.ob(d == "", "inverse", q.name, ev.pos, "%s; %s", what, d)
	}
	plain, _, _ := e.nestedEnc()
	seen, opened := False, False
	for i, ev := range q.I.events {
		if ev.kind != "api" || And(ev.pc, g) == False {
			continue
		}
		tp, isT := ev.res.(*Tuple)
		key := strings.Contains(ev.name, "SecretKey")
		switch {
		case i < at && key && strings.HasSuffix(ev.name, ".Encode"):
			same("the key encodes what the body's encoder gave", ev, plain)
		case i >= at && key && isT:
			same("the key decodes what the key encoded", ev, body)
			plain = q.I.made(q.out, tp.vs[0])
			opened = Or(opened, ev.pc)
		case i >= at && strings.HasSuffix(ev.name, ".Decode"):
			same("the body is decoded from what its encoder gave", ev, plain)
			seen = Or(seen, ev.pc)
			body, ok := q.field("ServicesFrameData")
			c.ob(ok && q.isTarget(body, ev.args[0], And(g, ev.pc)), "inverse", q.name, ev.pos, "the packet carries the decoded body; it has %s", show2(body, And(g, ev.pc)))
		}
	}
	c.ob(Implies(g, seen), "inverse", q.name, f.Pos(), "the body is decoded")
	c.ob(Implies(g, opened) == enc, "inverse", q.name, f.Pos(), "an encrypted body, and only that, is decoded by the key")
}
