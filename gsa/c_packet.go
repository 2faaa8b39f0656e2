package main

// The transport layer: packets.

import (
	"fmt"
	"go/types"
	"strings"
)

// The transport header of the standard, up to and with its checksum.
var packetSpec = section{"Package", "C04", []fld{
	u(1, "ProtocolVersion"), u(1, "SecurityKeyID"),
	flags(bitf{"Prefix", 2, false}, bitf{"Route", 1, false}, bitf{"EncryptionAlg", 2, false}, bitf{"Compression", 1, false}, bitf{"Priority", 2, false}),
	u(1, "HeaderLength"), u(1, "HeaderEncoding"), u(2, "FrameDataLength"), u(2, "PacketIdentifier"), u(1, "PacketType"),
	opt("Route", u(2, "PeerAddress")), opt("Route", u(2, "RecipientAddress")), opt("Route", u(1, "TimeToLive")),
	u(1, "HeaderCheckSum"),
}}

func init() {
	checks["C04"] = checkDef{"proof", provedNote + "Fields of a decoded packet, and the bytes of an encoded well-formed packet, are compared with the standard's transport header table, for every input.", checkC04, 60}
	checks["C09"] = checkDef{"proof", provedNote + "The checksum loops are recognised as folds whose step is compared bit by bit with the CRC polynomials of the standard; the folded ranges, and that success implies equality, are compared with the standard.", checkC09, 10}
	checks["C12"] = checkDef{"proof", provedNote + "Where the encryption flag is set, the body that is decoded or emitted is the result of the key's call on the frame's body; without the flag no call of the key is reachable.", checkC12, 14}
}

// crcStep is the standard's CRC step over one byte, most significant bit
// first, as canonical bits.
func crcStep(w int, poly uint64) string {
	h, b := foldCanon(w)
	cur := make([]Node, w)
	for i := 0; i < w; i++ {
		cur[i] = bitAtom(h, i)
		if i >= w-8 {
			cur[i] = Xor(cur[i], bitAtom(b, i-(w-8)))
		}
	}
	for n := 0; n < 8; n++ {
		top := cur[w-1]
		nx := make([]Node, w)
		for i := 0; i < w; i++ {
			v := False
			if i > 0 {
				v = cur[i-1]
			}
			if poly>>uint(i)&1 == 1 {
				v = Xor(v, top)
			}
			nx[i] = v
		}
		cur = nx
	}
	return bitsKey(cur)
}

func crc8Of(s *Seq) Term  { return mkFold(intK(255, 8, false), crcStep(8, 0x31), 8, s) }
func crc16Of(s *Seq) Term { return mkFold(intK(65535, 16, false), crcStep(16, 0x1021), 16, s) }

// sameFolds finds the checksum terms that, under care, are the checksum want.
func sameFolds(want Term, care Node) map[Term]Lin {
	wd := termTab[want].data.(foldData)
	m := map[Term]Lin{}
	for i := range termTab {
		t := Term(i)
		if termTab[i].kind != "fold" || t == want {
			continue
		}
		d := termTab[i].data.(foldData)
		if d.step != wd.step || d.w != wd.w || !sameUnder(d.init, wd.init, care) {
			continue
		}
		if seqSame(d.s, wd.s, care) {
			m[t] = lt(want)
		}
	}
	return m
}

// A packetRun is the decoding of a packet with what the standard says of it.
type packetRun struct {
	*Run
	d       *decoded
	hdr     Lin // header length, with its checksum
	fdl     Lin
	body    *Seq
	hcs, bc Term
	hl      Term
	succ    Node // with the header length byte replaced by the header's size
	s       *subst
	crcs    Node // both checksums are right
}

func (c *Check) packetDecode(with bool) *packetRun {
	n, f := c.anchor(libRel, "Package", "Decode")
	if f == nil {
		return nil
	}
	r := c.begin()
	r.setRecv(n, zeroVal(n))
	r.I.separate(c.p, n)
	sl := symSlice(f.Params[1].Type(), "content", "content")
	r.call(f, sl, c.optArg(r, f.Params[2].Type(), with))
	r.name = shortFn(f) + map[bool]string{false: " without key", true: " with options"}[with]
	r.decided()
	st, ok := n.Underlying().(*types.Struct)
	if !c.ob(ok && r.hasSrc, "anchor", r.name, f.Pos(), "decodes bytes into a structure") {
		return nil
	}
	d, err := packetSpec.decode(st, r.src)
	if !c.ob(err == nil, "anchor", r.name, f.Pos(), "the fields of the standard exist: %v", err) {
		return nil
	}
	p := &packetRun{Run: r, d: d, hdr: d.total}
	p.fdl = intBits(leBits(r.src, lk(5), 2), false).asLin()
	p.body = segSeq(r.src, p.hdr, p.fdl, true, nil)
	p.hcs = crc8Of(segSeq(r.src, lk(0), p.hdr.addK(-1), true, nil))
	p.bc = crc16Of(p.body)
	p.hl = inByte(r.src, lk(3))
	// what was computed from the header length byte is the same computed from
	// the header's size, where the two are equal
	p.s = newSubst(map[Term]Lin{p.hl: p.hdr})
	p.succ = p.s.node(r.succ)
	p.crcs = And(mkEQ(lt(inByte(r.src, p.hdr.addK(-1))).sub(lt(p.hcs))),
		mkEQ(intBits(leBits(r.src, p.hdr.add(p.fdl), 2), false).asLin().sub(lt(p.bc))))
	return p
}

// hlRight: success requires the header length byte to be the header's size.
func (p *packetRun) hlRight() bool {
	return entails(p.Run.succ, lt(p.hl).sub(p.hdr)) && entails(p.Run.succ, p.hdr.sub(lt(p.hl)))
}

// nested is where every nested section was decoded without error.
func (r *Run) nestedOK() Node {
	g := True
	for _, e := range r.I.events {
		if e.kind == "api" && strings.HasSuffix(e.name, ".Decode") {
			x := e.res
			if tp, ok := x.(*Tuple); ok {
				x = tp.vs[len(tp.vs)-1]
			}
			g = And(g, Or(Not(e.pc), isNil(x)))
		}
	}
	return g
}

func checkC04(c *Check) {
	for _, with := range []bool{false, true} {
		p := c.packetDecode(with)
		if p == nil {
			return
		}
		c.ob(p.hlRight(), "header-length", p.name, p.fn.Pos(), "success requires the header length byte to be the size of the header")
		for _, name := range packetSpec.names() {
			got, ok := p.field(name)
			want := p.d.fields[name]
			c.ob(ok && sameUnder(got, want, p.Run.succ), "decode", p.name, p.fn.Pos(), "Package.%s = %s; the standard says %s", name, show2(got, p.Run.succ), show2(want, p.Run.succ))
		}
		got, ok := p.field("ServicesFrameDataCheckSum")
		want := intBits(leBits(p.src, p.hdr.add(p.fdl), 2), false)
		c.ob(ok && sameUnder(p.s.val(got), want, p.succ), "decode", p.name, p.fn.Pos(), "the body checksum is taken from the two bytes behind the body; it is %s", show2(got, p.Run.succ))
		p.bodyDecoded()
		c.accepted(p)
	}
	c.packetEncode()
}

// bodyDecoded: an unencrypted body is decoded from exactly the frame's bytes,
// as what its packet type says.
func (p *packetRun) bodyDecoded() {
	c := p.c
	plain := And(Not(ena(p.d)), p.Run.succ)
	seen := False
	kinds := map[string]string{"PtResponse": "PtResponsePacket", "ServiceDataSet": "PtAppdataPacket"}
	pt := intBits(leBits(p.src, lk(9), 1), false)
	for _, e := range p.I.events {
		if e.kind != "api" || !strings.HasSuffix(e.name, ".Decode") || e.pc == False || strings.Contains(e.name, "SecretKey") {
			continue
		}
		for _, x := range alternatives(e.args[0], e.pc) {
			g := And(x.g, plain)
			if g == False {
				continue
			}
			seen = Or(seen, g)
			q, n := p.I.contentAny(e.state(), e.args[len(e.args)-1], types.NewSlice(types.Typ[types.Uint8]))
			diff, _ := seqDiff(p.s.seq(q), p.body, p.s.node(g))
			_ = n
			c.ob(diff == "", "body", p.name, e.pos, "the body is the %s bytes behind the header; %s", "announced", diff)
			to, _ := sectionOf(x.v)
			k, ok := c.p.pkgConst(libRel, kinds[to])
			c.ob(ok && Implies(g, intEQ(pt, intK(k, 8, false))), "type", p.name, e.pos, "a body is decoded as %s only in a packet of that type", to)
			// and that is what the packet carries
			got, okf := p.field("ServicesFrameData")
			c.ob(okf && p.isTarget(got, x.v, g), "body", p.name, e.pos, "the packet carries the decoded body; it has %s", show2(got, g))
		}
	}
	c.ob(Implies(plain, seen), "body", p.name, p.fn.Pos(), "the body is decoded whenever a packet is accepted; not where %s", clip(ddString(And(plain, Not(seen))), 300))
	for n, want := range map[string]int64{"PtResponsePacket": 0, "PtAppdataPacket": 1} {
		k, ok := c.p.pkgConst(libRel, n)
		c.ob(ok && k == want, "type", p.name, p.fn.Pos(), "packet type %s is %d", n, want)
	}
}

// isTarget: under g, got refers to the same object as want.
func (r *Run) isTarget(got, want Val, g Node) bool {
	for _, a := range alternatives(got, g) {
		if targetObj(a.v) == nil || targetObj(a.v) != targetObj(want) {
			return false
		}
	}
	return true
}

func targetObj(v Val) *Obj {
	switch x := v.(type) {
	case *Ptr:
		return x.obj
	case *Iface:
		return targetObj(x.v)
	}
	return nil
}

// ena: the encryption algorithm is not 00.
func ena(d *decoded) Node {
	s := d.fields["EncryptionAlg"].(*Str)
	g := False
	for _, p := range s.s.ps {
		g = Or(g, p.v.(*Int).bitVec()[0])
	}
	return g
}

// accepted: every correct plain packet is decoded.
func (c *Check) accepted(p *packetRun) {
	end := p.hdr.add(p.fdl).addK(2)
	pt := intBits(leBits(p.src, lk(9), 1), false)
	want := AndN(p.crcs, Not(ena(p.d)), Or(intEQ(pt, intK(0, 8, false)), intEQ(pt, intK(1, 8, false))), p.s.node(p.nestedOK()))
	s2 := p.s.node(p.Run.succ)
	for _, h := range []map[Term]Lin{sameFolds(p.hcs, True), sameFolds(p.bc, True)} {
		if len(h) > 0 {
			s2 = newSubst(h).node(s2)
			want = newSubst(h).node(want)
		}
	}
	for _, pc := range posCases(end, want) {
		g := AndN(want, pc.g, mkEQ(lenTerm(p.src).sub(pc.pos)))
		c.ob(impliesT(g, s2), "accept", p.name, p.fn.Pos(), "a packet with right header length and checksums and a good body is decoded; refused where %s", clip(ddString(AndN(g, Not(s2))), 400))
	}
}

// ---------------------------------------------------------------- encoding

type packetEnc struct {
	*Run
	w      *wf
	route  Node
	hdr    Lin
	rope   *Seq
	body   *Seq
	bodyOK Node
	ena    Node
}

// wfPacket analyses Package.Encode on a well-formed packet.
func (c *Check) wfPacket(with bool, enc bool) *packetEnc {
	return c.wfPacketIn(with, enc, nil)
}

// wfPacketIn: with the header length given or not and the packet routed or not.
func (c *Check) wfPacketIn(with, enc bool, in func(route, auto Node) Node) *packetEnc {
	n, f := c.anchor(libRel, "Package", "Encode")
	if f == nil {
		return nil
	}
	r := c.begin()
	w, err := packetSpec.wellFormed(n, "v", r.I, r.st)
	if !c.ob(err == nil, "anchor", "Package", f.Pos(), "the fields of the standard exist: %v", err) {
		return nil
	}
	e := &packetEnc{Run: r, w: w}
	str := n.Underlying().(*types.Struct)
	e.route = bitAtom(intern("flag", "v.Route", 1, 0, 1, nil, nil), 0)
	e.ena = Or(bitAtom(intern("flag", "v.EncryptionAlg", 2, 0, 3, nil, nil), 0), bitAtom(intern("flag", "v.EncryptionAlg", 2, 0, 3, nil, nil), 1))
	e.hdr = lk(11).add(lk(5).gate(e.route))
	auto := bitAtom(intern("flag", "v.HeaderLength#auto", 1, 0, 1, nil, nil), 0)
	set := func(name string, x Val) {
		i, _ := fieldOf(str, name)
		w.val.f[i] = x
		w.fields[name] = x
	}
	set("HeaderLength", intL(linIte(auto, lk(0), e.hdr), 8, false))
	bi, bt := fieldOf(str, "ServicesFrameData")
	if !c.ob(bi >= 0, "anchor", "Package", f.Pos(), "a packet has a body") {
		return nil
	}
	set("ServicesFrameData", &Opaque{nn(intern("obj", "v.body", 0, 0, 0, bt, nil)), bt})
	// a packet that is encrypted or not, as asked for
	r.st.pc = Not(e.ena)
	if enc {
		r.st.pc = e.ena
	}
	if in != nil {
		g := And(r.st.pc, in(e.route, auto))
		for i := range w.val.f {
			w.val.f[i] = restrict(w.val.f[i], g)
		}
		for k := range w.fields {
			w.fields[k] = restrict(w.fields[k], g)
		}
		e.hdr = e.hdr.under(g)
		r.st.pc = g
		shortParts = true
	}
	r.setRecv(n, w.val)
	r.I.separate(c.p, n)
	r.call(f, c.optArg(r, f.Params[1].Type(), with))
	r.name = shortFn(f) + map[bool]string{false: " without key", true: " with options"}[with]
	r.decided()
	return e
}

// How much of a packet is compared with the standard.
const (
	wholePacket = iota
	checksums   // the checksums of what is sent
	bodyBytes   // the body
)

// plan builds the bytes the standard wants around the given body.
func (e *packetEnc) plan(body *Seq) { e.planOf(body, wholePacket) }

// planOf takes what is not compared from the bytes that are sent.
func (e *packetEnc) planOf(body *Seq, what int) {
	n := body.length()
	var sent []Piece
	if what != wholePacket {
		e.rope = nil
		sent = e.out().ps
	}
	asSent := func(p Piece, i int) Piece {
		if i < 0 || i >= len(sent) || sent[i].src != p.src || sent[i].v == nil || p.v == nil || !ddEqUnder(sent[i].g, p.g, e.succ) {
			return p
		}
		return Piece{g: p.g, v: sent[i].v}
	}
	nb := intL(n, 16, false).bitVec()
	ps := append([]Piece(nil), e.w.rope.ps...)
	ps[3] = Piece{g: True, v: intL(e.hdr, 8, false)}
	ps[5] = Piece{g: True, v: intBits(nb[:8], false)}
	ps[6] = Piece{g: True, v: intBits(nb[8:16], false)}
	ps = ps[:len(ps)-1]
	for i := range ps {
		ps[i] = asSent(ps[i], i)
	}
	h := &Seq{byts: true, ps: ps}
	h8 := crc8Of(h)
	hp := Piece{g: True, v: intTerm(h8, 8, false)}
	if what == bodyBytes {
		hp = asSent(hp, len(ps))
	}
	q := h.concat(&Seq{byts: true, ps: []Piece{hp}})
	b16 := intTerm(crc16Of(body), 16, false).bitVec()
	has := mkGE(n.addK(-1))
	for _, p := range body.ps {
		p.g = And(p.g, has)
		q.push(p)
	}
	for i, bs := range [][]Node{b16[:8], b16[8:]} {
		p := Piece{g: has, v: intBits(bs, false)}
		if what == bodyBytes {
			p = asSent(p, len(sent)-2+i)
		}
		q.push(p)
	}
	e.rope, e.body = q, body
}

// out is what was encoded, with its checksums in the standard's terms.
func (e *packetEnc) out() *Seq {
	if len(e.res) == 0 {
		return &Seq{byts: true}
	}
	st := e.Run.out.fork()
	st.pc = And(st.pc, e.succ)
	q, _ := e.I.contentAny(st, e.res[0], types.NewSlice(types.Typ[types.Uint8]))
	q = q.under(e.succ)
	if e.rope == nil {
		return q
	}
	for _, p := range e.rope.ps {
		x, ok := p.v.(*Int)
		if !ok {
			continue
		}
		for _, t := range foldsIn(x) {
			if m := sameFolds(t, And(e.succ, p.g)); len(m) > 0 {
				q = newSubst(m).seq(q)
			}
		}
	}
	return q
}

// foldsIn lists the checksum terms a number is made of.
func foldsIn(x *Int) []Term {
	seen := map[Term]bool{}
	var ts []Term
	add := func(t Term) {
		if s, ok := subOf[t]; ok {
			t = s.t
		}
		if termTab[t].kind == "fold" && !seen[t] {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	for _, b := range x.bitVec() {
		for _, v := range support(b) {
			if atoms[v].kind == aBit {
				add(atoms[v].t)
			}
		}
	}
	return ts
}

// nestedEnc is the result of encoding the packet's body.
func (e *packetEnc) nestedEnc() (*Seq, Node, bool) {
	for _, ev := range e.I.events {
		if ev.kind == "api" && strings.HasSuffix(ev.name, ".Encode") && !strings.Contains(ev.name, "SecretKey") && ev.pc != False {
			tp, ok := ev.res.(*Tuple)
			if !ok {
				continue
			}
			return e.I.made(e.Run.out, tp.vs[0]), isNil(tp.vs[1]), true
		}
	}
	return nil, False, false
}

// bodyEnc is what goes into the packet as its body: what its kind encodes or,
// in an encrypted packet, what the key made of it.
func (e *packetEnc) bodyEnc(c *Check, enc bool, rule string) *Seq {
	body, _, found := e.nestedEnc()
	if !c.ob(found, rule, e.name, e.fn.Pos(), "the body of a packet is encoded") {
		return nil
	}
	if enc {
		keys := e.keyCalls("Encode")
		if !c.ob(len(keys) == 1, rule, e.name, e.fn.Pos(), "the body of an encrypted packet is what the key made of it") {
			return nil
		}
		body = e.I.made(e.Run.out, keys[0].res.(*Tuple).vs[0])
	}
	return body
}

func (c *Check) packetEncode() {
	e := c.wfPacket(false, false)
	if e == nil {
		return
	}
	body, ok, found := e.nestedEnc()
	if !c.ob(found, "encode", e.name, e.fn.Pos(), "the body of a packet is encoded") {
		return
	}
	e.plan(body)
	fits := mkGE(body.length().neg().addK(65535))
	g := AndN(Not(e.ena), ok, fits)
	c.ob(impliesT(g, e.succ), "encode-ok", e.name, e.fn.Pos(), "every well-formed packet is encoded; refused where %s", clip(ddString(And(g, Not(e.succ))), 400))
	diff, _ := seqDiff(e.out(), e.rope, e.succ)
	c.obls += len(e.rope.ps) - 1
	c.rules["encode"] += len(e.rope.ps) - 1
	c.ob(diff == "", "encode", e.name, e.fn.Pos(), "the bytes written are those of the standard's layout; first difference: %s", diff)
}

func checkC09(c *Check) {
	for _, with := range []bool{false, true} {
		p := c.packetDecode(with)
		if p == nil {
			return
		}
		c.ob(p.hlRight(), "range", p.name, p.fn.Pos(), "success requires the header length byte to be the size of the header, so the checksums cover header and body")
		succ := p.succ
		for _, h := range []map[Term]Lin{sameFolds(p.hcs, succ), sameFolds(p.bc, succ)} {
			if len(h) > 0 {
				succ = newSubst(h).node(succ)
			}
		}
		he := mkEQ(lt(inByte(p.src, p.hdr.addK(-1))).sub(lt(p.hcs)))
		be := mkEQ(intBits(leBits(p.src, p.hdr.add(p.fdl), 2), false).asLin().sub(lt(p.bc)))
		c.ob(impliesT(succ, he), "header-crc", p.name, p.fn.Pos(), "success implies that the header checksum is the CRC-8 of the header bytes before it; not shown where %s", clip(ddString(And(succ, Not(he))), 300))
		c.ob(impliesT(succ, be), "body-crc", p.name, p.fn.Pos(), "success implies that the body checksum is the CRC-16 of exactly the body; not shown where %s", clip(ddString(And(succ, Not(be))), 300))
	}
	// without key, with key a plain packet, with key an encrypted one
	for _, m := range [][2]bool{{false, false}, {true, false}, {true, true}} {
		with, enc := m[0], m[1]
		e := c.wfPacket(with, enc)
		if e == nil {
			return
		}
		body := e.bodyEnc(c, enc, "produced")
		if body == nil {
			continue
		}
		e.planOf(body, checksums)
		diff, _ := seqDiff(e.out(), e.rope, e.succ)
		c.ob(diff == "", "produced", e.name, e.fn.Pos(), "a packet is sent with the checksums of the bytes sent; first difference: %s", diff)
		c.ob(e.succ != False, "produced", e.name, e.fn.Pos(), "a packet can be encoded")
	}
}

// keyCalls are the calls of the secret key.
func (r *Run) keyCalls(m string) []*Event {
	var out []*Event
	for _, e := range r.I.events {
		if (e.kind == "api" || e.kind == "invoke") && strings.HasSuffix(e.name, "SecretKey)."+m) && e.pc != False {
			out = append(out, e)
		}
	}
	return out
}

func checkC12(c *Check) {
	for _, with := range []bool{false, true} {
		p := c.packetDecode(with)
		if p == nil {
			return
		}
		enc := ena(p.d)
		keys := p.keyCalls("Decode")
		if !with {
			c.ob(And(p.Run.succ, enc) == False, "no-key", p.name, p.fn.Pos(), "an encrypted packet is refused without a key; accepted where %s", clip(ddString(And(p.Run.succ, enc)), 300))
			continue
		}
		for _, k := range append(keys, p.keyCalls("Encode")...) {
			c.ob(Implies(k.pc, enc), "plain", p.name, k.pos, "the key is used only for encrypted packets; used where %s", clip(ddString(And(k.pc, Not(enc))), 300))
		}
		if !c.ob(len(keys) == 1, "key", p.name, p.fn.Pos(), "the key's decoder is called once; found %d calls", len(keys)) {
			continue
		}
		k := keys[0]
		q, _ := p.I.contentAny(k.state(), k.args[len(k.args)-1], types.NewSlice(types.Typ[types.Uint8]))
		diff, _ := seqDiff(p.s.seq(q), p.body, p.s.node(k.pc))
		c.ob(diff == "", "key", p.name, k.pos, "the key gets exactly the body of the frame; %s", diff)
		c.ob(p.fromOptions(k), "key", p.name, k.pos, "the key is the one of the options; it is %s", show(k.recv))
		tp, ok := k.res.(*Tuple)
		if !c.ob(ok && len(tp.vs) == 2, "key", p.name, k.pos, "the key returns bytes and an error") {
			continue
		}
		c.ob(AndN(p.Run.succ, k.pc, Not(isNil(tp.vs[1]))) == False, "key-error", p.name, k.pos, "an error of the key makes decoding fail")
		c.ob(Implies(And(p.Run.succ, enc), k.pc), "key", p.name, k.pos, "an encrypted packet is accepted only through the key; not where %s", clip(ddString(AndN(p.Run.succ, enc, Not(k.pc))), 300))
		plain := p.I.made(p.Run.out, tp.vs[0])
		n := 0
		for _, e := range p.I.events {
			if e.kind != "api" || !strings.HasSuffix(e.name, ".Decode") || e == k || And(e.pc, enc) == False {
				continue
			}
			n++
			q, _ := p.I.contentAny(e.state(), e.args[len(e.args)-1], types.NewSlice(types.Typ[types.Uint8]))
			diff, _ := seqDiff(q, plain, And(e.pc, enc))
			c.ob(diff == "", "decrypted", p.name, e.pos, "the body of an encrypted packet is decoded from what the key returned; %s", diff)
		}
		c.ob(n > 0, "decrypted", p.name, p.fn.Pos(), "encrypted bodies are decoded")
	}
	for _, m := range [][2]bool{{false, true}, {true, false}, {true, true}} {
		with, enc := m[0], m[1]
		e := c.wfPacket(with, enc)
		if e == nil {
			return
		}
		keys := e.keyCalls("Encode")
		all := append(append([]*Event(nil), keys...), e.keyCalls("Decode")...)
		if !enc {
			for _, k := range all {
				c.ob(false, "plain", e.name, k.pos, "the key is used only for packets to encrypt; used where %s", clip(ddString(k.pc), 300))
			}
			c.ob(e.succ != False, "plain", e.name, e.fn.Pos(), "a packet not to be encrypted is encoded")
			continue
		}
		if !with {
			c.ob(e.succ == False, "no-key", e.name, e.fn.Pos(), "a packet to encrypt is refused without a key; encoded where %s", clip(ddString(e.succ), 300))
			continue
		}
		body, _, found := e.nestedEnc()
		if !c.ob(len(keys) == 1 && found, "key", e.name, e.fn.Pos(), "the key's encoder is called once; found %d calls", len(keys)) {
			continue
		}
		k := keys[0]
		q, _ := e.I.contentAny(k.state(), k.args[len(k.args)-1], types.NewSlice(types.Typ[types.Uint8]))
		diff, _ := seqDiff(q, body, k.pc)
		c.ob(diff == "", "key", e.name, k.pos, "the key gets exactly the encoded body; %s", diff)
		c.ob(e.fromOptions(k), "key", e.name, k.pos, "the key is the one of the options; it is %s", show(k.recv))
		tp, ok := k.res.(*Tuple)
		if !c.ob(ok && len(tp.vs) == 2, "key", e.name, k.pos, "the key returns bytes and an error") {
			continue
		}
		c.ob(AndN(e.succ, k.pc, Not(isNil(tp.vs[1]))) == False, "key-error", e.name, k.pos, "an error of the key makes encoding fail")
		c.ob(Implies(e.succ, k.pc), "key", e.name, k.pos, "a packet to encrypt is encoded only through the key; not where %s", clip(ddString(And(e.succ, Not(k.pc))), 300))
		e.planOf(e.I.made(e.Run.out, tp.vs[0]), bodyBytes)
		diff, _ = seqDiff(e.out(), e.rope, e.succ)
		c.ob(diff == "", "encrypted", e.name, e.fn.Pos(), "an encrypted packet emits what the key returned; first difference: %s", diff)
		c.ob(e.succ != False, "encrypted", e.name, e.fn.Pos(), "a packet to encrypt is encoded with a key")
	}
}

// fromOptions: the key of the call is what the option functions left.
func (r *Run) fromOptions(k *Event) bool {
	for _, e := range r.I.events {
		if e.kind != "dyncall" || len(e.args) == 0 {
			continue
		}
		p, ok := e.args[0].(*Ptr)
		if !ok {
			continue
		}
		v, ok := r.I.navLoad(r.out.heap.get(r.I, p.obj), p.path, p.obj.typ, r.out.pc).(*StructV)
		if !ok {
			continue
		}
		for _, f := range v.f {
			if sameUnder(f, k.recv, k.pc) {
				return true
			}
		}
	}
	return false
}

var _ = fmt.Sprint
