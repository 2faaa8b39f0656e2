package main

import (
	"go/types"
	"strings"
)

// A decodeRoot is one way into the decoder.
type decodeRoot struct {
	name string
	typ  string
	run  func() *Run
}

// optVariants of Package.Decode/Encode: without options and with one option
// that may do anything to the options.
func (c *Check) optArg(r *Run, t types.Type, with bool) Val {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return symVal(t, "opt", "opt")
	}
	if !with {
		return zeroVal(t)
	}
	f := &Opaque{nn(intern("obj", "option", 0, 0, 0, sl.Elem(), nil)), sl.Elem()}
	return r.I.newArr(r.st, sl.Elem(), seqOf(f), "opt")
}

func isPackage(n *types.Named) bool { return n.Obj().Name() == "Package" }

// decodeRoots are all exported decoders of the library.
func (c *Check) decodeRoots() []decodeRoot {
	var rs []decodeRoot
	for _, n := range c.p.sections() {
		n := n
		f := c.p.method(n, "Decode")
		if isPackage(n) {
			for _, with := range []bool{false, true} {
				with := with
				name := shortFn(f) + map[bool]string{false: " without key", true: " with options"}[with]
				rs = append(rs, decodeRoot{name, n.Obj().Name(), func() *Run {
					r := c.begin()
					r.setRecv(n, zeroVal(n))
					r.I.separate(c.p, n)
					sl := symSlice(f.Params[1].Type(), "content", "content")
					if c.spareArgs {
						r.spare(sl)
					}
					r.call(f, sl, c.optArg(r, f.Params[2].Type(), with))
					r.name = name
					return r
				}})
			}
			continue
		}
		rs = append(rs, decodeRoot{shortFn(f), n.Obj().Name(), func() *Run {
			r := c.begin()
			r.setRecv(n, zeroVal(n))
			r.I.separate(c.p, n)
			r.call(f)
			return r
		}})
	}
	return rs
}

// expected number of section types; fewer means the anchors no longer resolve.
const minSections = 19

func init() {
	checks["C01"] = checkDef{"proof", provedNote + "Every operation that can panic (index, slice, nil dereference, type assertion, division, allocation size, call of a nil function) is an obligation on its path condition; nested decoders are roots of their own.", checkC01, 250}
	checks["C02"] = checkDef{"proof", provedNote + "Every loop of a decoder has a variant: it ranges over a finite value or each iteration consumes input; nested decoders get strictly fewer bytes; allocation sizes are bounded by 65535.", checkC02, 30}
	checks["C03"] = checkDef{"proof", provedNote + "Wherever a decoder succeeds its input has every byte of its layout, and every read that can fall short leads to an error.", checkC03, 60}
	checks["C10"] = checkDef{"proof", provedNote + "For every step that can fail, success and failure of the step exclude each other; result codes of packet decoding are OK exactly on success.", checkC10, 150}
	checks["C13"] = checkDef{"proof", provedNote + "No write reaches an argument's memory, results share no memory with the input, encoders write nothing of their receiver, no package-level state is written.", checkC13, 100}
}

func (r *Run) panics(rule string) {
	for _, o := range r.I.obls {
		r.c.ob(o.ok, rule+"-"+o.kind, o.fn, o.pos, "%s cannot panic: %s; not shown where %s", o.kind, o.what, clip(ddString(o.pc), 300))
	}
	for _, e := range r.I.events {
		if e.kind == "exit" && And(e.pc, True) != False {
			r.c.ob(false, rule+"-exit", e.fn, e.pos, "%s ends the process", e.name)
		}
	}
}

func checkC01(c *Check) {
	n := 0
	for _, d := range c.decodeRoots() {
		r := d.run()
		r.decided()
		r.panics("panic")
		n++
	}
	c.ob(n >= minSections, "coverage", "", 0, "%d decoders analysed", n)
	r := c.serverRun()
	if r == nil {
		return
	}
	r.decided()
	r.panics("panic")
}

// sizes: no allocation exceeds what a 16-bit length field can announce.
func (c *Check) sizes(r *Run) {
	for _, e := range r.I.events {
		if e.kind != "make" || e.pc == False {
			continue
		}
		for i, a := range e.args {
			x, ok := a.(*Int)
			if !ok {
				c.ob(false, "alloc", e.fn, e.pos, "size %s is not a number", show(a))
				continue
			}
			l := x.asLin()
			ok = r.I.entails(e.pc, l.neg().addK(65535))
			if !ok && r.hasSrc {
				ok = r.I.entails(e.pc, lenTerm(r.src).sub(l))
			}
			c.ob(ok, "alloc", e.fn, e.pos, "%s %s of an allocation is at most 65535 or the length of the input", []string{"length", "capacity"}[i&1], show(a))
		}
	}
}

// sectionOf names the section type a value of a section method call has.
func sectionOf(v Val) (string, bool) {
	switch x := v.(type) {
	case *Iface:
		t := x.typ
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name(), true
		}
	case *Ptr:
		t := typeAtPath(x.obj.typ, x.path)
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name(), true
		}
	}
	return "?", false
}

// nestedCall is a call of a section's decoder inside another one.
type nestedCall struct {
	to     string
	strict bool
	ev     *Event
}

func (c *Check) nestedCalls(r *Run) []nestedCall {
	var out []nestedCall
	for _, e := range r.I.events {
		if e.kind != "api" || !strings.HasSuffix(e.name, ".Decode") || e.pc == False {
			continue
		}
		for _, x := range alternatives(e.args[0], e.pc) {
			to, _ := sectionOf(x.v)
			strict := false
			if sl, ok := e.args[len(e.args)-1].(*Slice); ok && r.hasSrc {
				strict = r.I.entails(x.g, lenTerm(r.src).sub(sl.n).addK(-1))
			}
			out = append(out, nestedCall{to, strict, e})
		}
	}
	return out
}

type altVal struct {
	g Node
	v Val
}

// alternatives of a value with the guards under which they are taken.
func alternatives(v Val, g Node) []altVal {
	if it, ok := v.(*IteV); ok {
		var out []altVal
		if a := And(g, it.g); a != False {
			out = append(out, alternatives(it.a, a)...)
		}
		if b := And(g, Not(it.g)); b != False {
			out = append(out, alternatives(it.b, b)...)
		}
		return out
	}
	return []altVal{{g, v}}
}

func checkC02(c *Check) {
	edges := map[string][]nestedCall{}
	n := 0
	for _, d := range c.decodeRoots() {
		r := d.run()
		n++
		r.decided()
		for _, l := range r.I.loops {
			c.ob(l.bounded, "loop", shortFn(l.fn), l.pos, "the loop ends for every input (%s)", l.variant)
		}
		c.sizes(r)
		edges[d.typ] = append(edges[d.typ], c.nestedCalls(r)...)
	}
	c.ob(n >= minSections, "coverage", "", 0, "%d decoders analysed", n)
	// a decoder may reach itself only through calls on strictly less input
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var walk func(x string) bool
		walk = func(x string) bool {
			if x == to || x == "?" {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, e := range edges[x] {
				if walk(e.to) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	for from, es := range edges {
		for _, e := range es {
			if e.to != "?" && !reach(e.to, from) {
				c.ob(true, "nesting", e.ev.fn, e.ev.pos, "decoding a %s inside a %s cannot lead back to it", e.to, from)
				continue
			}
			c.ob(e.strict, "nesting", e.ev.fn, e.ev.pos, "decoding a %s inside a %s gets fewer bytes than the %s was given", e.to, from, from)
		}
	}
}

// fallsReported: wherever a step failed the function does not report success.
func (r *Run) fallsReported(rule string, reads bool) {
	for _, f := range r.I.falls {
		bad := And(f.pc, f.fail)
		if bad == False {
			continue
		}
		if reads && !isRead(f.what) {
			continue
		}
		r.reported(rule, f, bad, f.loop)
	}
}

// reported: nothing that follows the failure f under bad is a success; loops
// are those around it.
func (r *Run) reported(rule string, f *Fall, bad Node, loops []*LoopSum) {
	if len(loops) == 0 {
		r.c.ob(And(bad, r.succ) == False, rule, f.fn, f.pos, "a failing %s makes %s fail; it succeeds where %s", f.what, r.name, clip(ddString(And(bad, r.succ)), 300))
		return
	}
	l := loops[len(loops)-1]
	after := func(bad Node) {
		for _, e := range l.leave {
			b := And(bad, e.pc)
			if b == False {
				continue
			}
			if e.known {
				b = newSubst(map[Term]Lin{l.k: e.n}).node(b)
			}
			b = And(b, e.after)
			if b != False {
				r.reported(rule, f, b, loops[:len(loops)-1])
			}
		}
	}
	after(bad)
	if l.back == nil {
		return
	}
	on := And(bad, l.back.pc)
	if on == False {
		r.c.ob(true, rule, f.fn, f.pos, "a failing %s ends the loop of %s", f.what, shortFn(l.fn))
		return
	}
	// the loop goes on, having noted the failure
	s := r.sticky(loops)
	_, sub := l.headAtoms(atBack)
	noted := s != False && And(on, Not(sub(s))) == False && r.stays(loops, s, true, func(*LoopSum) Node { return True })
	r.c.ob(noted, rule, f.fn, f.pos, "a failing %s ends the loop of %s; it goes on where %s", f.what, shortFn(l.fn), clip(ddString(on), 300))
	if noted && s != True {
		after(s)
	}
}

func isRead(what string) bool {
	i := strings.LastIndex(what, ".")
	n := what[i+1:]
	return strings.HasPrefix(n, "Read") || n == "Next" || n == "Cut" || strings.Contains(n, "Decode")
}

func checkC03(c *Check) {
	for i := range specSections {
		s := &specSections[i]
		r := c.decodeRun(s.typ)
		if r == nil {
			continue
		}
		st, ok := r.nam.Underlying().(*types.Struct)
		if !ok {
			c.ob(false, "anchor", s.typ, 0, "not a struct")
			continue
		}
		d, err := s.decode(st, r.src)
		if !c.ob(err == nil, "anchor", r.name, r.fn.Pos(), "the fields of the standard exist: %v", err) {
			continue
		}
		for _, pc := range posCases(d.total, r.succ) {
			g := And(r.succ, pc.g)
			c.ob(entails(g, lenTerm(r.src).sub(pc.pos)), "length", r.name, r.fn.Pos(), "success requires the %s bytes the layout takes where %s", pc.pos, clip(ddString(pc.g), 200))
		}
	}
	c.listsComplete()
	n := 0
	for _, d := range c.decodeRoots() {
		r := d.run()
		n++
		r.decided()
		r.fallsReported("read", true)
		if isPackageRun(r) {
			c.packetComplete(r)
		}
	}
	c.ob(n >= minSections, "coverage", "", 0, "%d decoders analysed", n)
}

// listsComplete: a turn of a list loop that goes well had the header and the
// announced body in front of it.
func (c *Check) listsComplete() {
	if l := c.listDecode("ServiceDataSet", &recordSpec); l != nil {
		end := lenTerm(l.src)
		for _, pc := range posCases(l.d.total, l.care) {
			l.present(pc.pos, pc.g, "the header of every record")
			more := mkGE(end.sub(pc.pos).addK(-1))
			l.present(pc.pos.add(intBits(leBits(l.src, l.pos, 2), false).asLin()), And(pc.g, more), "the body of every record")
		}
	}
	if l := c.listDecode("RecordDataSet", &subrecordSpec); l != nil {
		l.present(l.pos.addK(3).add(intBits(leBits(l.src, l.pos.addK(1), 2), false).asLin()), True, "every subrecord")
	}
	if r := c.decodeRun("PtResponse"); r != nil {
		c.ob(entails(r.succ, lenTerm(r.src).addK(-3)), "length", r.name, r.fn.Pos(), "success requires the three bytes of a response's header")
	}
}

func (l *listRun) present(end Lin, g Node, what string) {
	g = And(g, l.care)
	if g != False {
		l.c.ob(entails(g, lenTerm(l.src).sub(end)), "length", l.name, l.fn.Pos(), "%s is there in full, up to %s, before the next is read", what, end)
	}
}

// packetComplete: success requires header, body and body checksum.
func (c *Check) packetComplete(r *Run) {
	hl := intBits(leBits(r.src, lk(3), 1), false).asLin()
	fdl := intBits(leBits(r.src, lk(5), 2), false).asLin()
	c.ob(entails(r.succ, lenTerm(r.src).sub(hl.add(fdl).addK(2))), "length", r.name, r.fn.Pos(), "success requires header, body and body checksum; possible where %s", clip(ddString(r.succ), 200))
}

// encodeRoots are all exported encoders, on any value.
func (c *Check) encodeRoots() []decodeRoot {
	var rs []decodeRoot
	for _, n := range c.p.sections() {
		n := n
		f := c.p.method(n, "Encode")
		if f == nil {
			continue
		}
		for _, with := range []bool{false, true} {
			with := with
			if with && len(f.Params) < 2 {
				continue
			}
			name := shortFn(f)
			if len(f.Params) > 1 {
				name += map[bool]string{false: " without key", true: " with options"}[with]
			}
			rs = append(rs, decodeRoot{name, n.Obj().Name(), func() *Run {
				r := c.begin()
				r.setRecv(n, symVal(n, "v", "v"))
				r.I.separate(c.p, n)
				if len(f.Params) > 1 {
					r.call(f, c.optArg(r, f.Params[1].Type(), with))
				} else {
					r.call(f)
				}
				r.name = name
				return r
			}})
		}
	}
	return rs
}

func checkC10(c *Check) {
	n := 0
	for _, d := range append(c.decodeRoots(), c.encodeRoots()...) {
		r := d.run()
		n++
		r.decided()
		r.fallsReported("failure", false)
		if isPackageRun(r) && r.fn.Name() == "Decode" {
			c.codes(r)
		}
	}
	c.ob(n >= 2*minSections, "coverage", "", 0, "%d decoders and encoders analysed", n)
}

func isPackageRun(r *Run) bool { return r.nam != nil && isPackage(r.nam) }

// codes: the result code is OK exactly on success, and a standard one.
func (c *Check) codes(r *Run) {
	if len(r.res) != 2 {
		c.ob(false, "code", r.name, r.fn.Pos(), "returns a result code and an error")
		return
	}
	x, ok := r.res[0].(*Int)
	if !ok {
		c.ob(false, "code", r.name, r.fn.Pos(), "the result code %s is not decided", show(r.res[0]))
		return
	}
	zero := intEQ(x, intK(0, x.w, x.sgn))
	c.ob(And(r.succ, Not(zero)) == False, "code", r.name, r.fn.Pos(), "success comes with code OK")
	fail := And(r.out.pc, Not(r.succ))
	c.ob(And(fail, zero) == False, "code", r.name, r.fn.Pos(), "failure comes with a code other than OK; code OK where %s", clip(ddString(And(fail, zero)), 300))
	std := intEQ(x, intK(1, x.w, x.sgn))
	for k := int64(128); k <= 164; k++ {
		std = Or(std, intEQ(x, intK(k, x.w, x.sgn)))
	}
	c.ob(And(fail, Not(std)) == False, "code", r.name, r.fn.Pos(), "every failure code is one of the standard's; not where %s", clip(ddString(And(fail, Not(std))), 300))
}

func writtenObj(e *Event) *Obj {
	switch x := e.recv.(type) {
	case *Ptr:
		return x.obj
	case *Slice:
		return x.obj
	}
	return nil
}

func isGlobalObj(o *Obj) bool {
	return o.kind == "global" || strings.HasPrefix(o.root, "global:") || strings.HasPrefix(o.name, "global:")
}

// untouched: no write to memory the function did not allocate itself.
func (r *Run) untouched() {
	n := 0
	for _, e := range r.I.events {
		if e.kind != "write" || e.pc == False {
			continue
		}
		n++
		o := writtenObj(e)
		switch {
		case o == nil:
			r.c.ob(false, "write", e.fn, e.pos, "%s writes to %s", r.name, show(e.recv))
		case isGlobalObj(o):
			r.c.ob(false, "state", e.fn, e.pos, "%s writes package-level state %s", r.name, o.name)
		case o.sym:
			r.c.ob(false, "write", e.fn, e.pos, "%s writes to %s, which it was given", r.name, o.name)
		}
	}
	r.c.ob(true, "write", r.name, r.fn.Pos(), "%s writes only memory it allocated (%d writes to others' memory)", r.name, n)
}

// keeps finds memory of the argument in a value.
func (r *Run) keeps(v Val, st *State, arg *Obj, path string, seen map[int]bool, out *[]string) {
	switch x := v.(type) {
	case *StructV:
		for i, f := range x.f {
			r.keeps(f, st, arg, path+"."+x.typ.Field(i).Name(), seen, out)
		}
	case *Slice:
		if x.obj == nil {
			return
		}
		if x.obj == arg {
			*out = append(*out, path)
			return
		}
		if !seen[x.obj.id] {
			seen[x.obj.id] = true
			r.keeps(st.heap.get(r.I, x.obj), st, arg, path+"[]", seen, out)
		}
	case *Seq:
		if x.byts {
			return
		}
		for _, p := range x.ps {
			if p.v != nil {
				r.keeps(p.v, st, arg, path, seen, out)
			}
		}
	case *Ptr:
		if x.obj == arg {
			*out = append(*out, path)
			return
		}
		if !seen[x.obj.id] {
			seen[x.obj.id] = true
			r.keeps(st.heap.get(r.I, x.obj), st, arg, path, seen, out)
		}
	case *Iface:
		r.keeps(x.v, st, arg, path, seen, out)
	case *IteV:
		r.keeps(x.a, st, arg, path, seen, out)
		r.keeps(x.b, st, arg, path, seen, out)
	case *Tuple:
		for _, y := range x.vs {
			r.keeps(y, st, arg, path, seen, out)
		}
	case *Model:
		if x.obj == arg && arg != nil {
			*out = append(*out, path)
		}
	}
}

func checkC13(c *Check) {
	n := 0
	for _, d := range c.decodeRoots() {
		c.spareArgs = true
		r := d.run()
		c.spareArgs = false
		n++
		r.decided()
		r.untouched()
		var arg *Obj
		for _, a := range r.args[1:] {
			if sl, ok := a.(*Slice); ok && isByteType(sl.elt) {
				arg = sl.obj
			}
		}
		if !c.ob(arg != nil, "anchor", r.name, r.fn.Pos(), "takes the bytes to decode") {
			continue
		}
		var kept []string
		r.keeps(r.out.heap.get(r.I, r.recv), r.out, arg, d.typ, map[int]bool{r.recv.id: true}, &kept)
		for _, x := range r.res {
			r.keeps(x, r.out, arg, "result", map[int]bool{r.recv.id: true}, &kept)
		}
		// in loops: what was appended in an arbitrary iteration
		for _, l := range r.I.loops {
			if l.back == nil {
				continue
			}
			for _, lf := range l.leaves {
				if lf.obj == r.recv || lf.kind == "acc" {
					r.keeps(lf.back, l.back, arg, d.typ+"("+lf.name+")", map[int]bool{r.recv.id: true}, &kept)
					if lf.delta != nil {
						r.keeps(lf.delta, l.back, arg, d.typ+"("+lf.name+")", map[int]bool{r.recv.id: true}, &kept)
					}
				}
			}
		}
		c.ob(len(kept) == 0, "alias", r.name, r.fn.Pos(), "the decoded value keeps no reference to the bytes it was decoded from; kept in %s", strings.Join(kept, ", "))
	}
	for _, d := range append(c.encodeRoots(), c.methodRoots("Length")...) {
		r := d.run()
		n++
		r.decided()
		r.untouched()
		was, now := r.st.heap.get(r.I, r.recv), r.out.heap.get(r.I, r.recv)
		ws, ok1 := was.(*StructV)
		ns, ok2 := now.(*StructV)
		if !ok1 || !ok2 {
			c.ob(sameUnder(was, now, r.out.pc), "receiver", r.name, r.fn.Pos(), "%s leaves its receiver as it was", r.name)
			continue
		}
		for i := range ws.f {
			f := ws.typ.Field(i).Name()
			if isPackage(r.nam) && (f == "HeaderLength" || f == "FrameDataLength") {
				continue
			}
			c.ob(sameUnder(ws.f[i], ns.f[i], r.out.pc), "receiver", r.name, r.fn.Pos(), "%s leaves %s.%s as it was; becomes %s", r.name, d.typ, f, clip(show(ns.f[i]), 200))
		}
	}
	c.ob(n >= 3*minSections-1, "coverage", "", 0, "%d decoders, encoders and lengths analysed", n)
}

// methodRoots are the methods of that name of all sections, on any value.
func (c *Check) methodRoots(name string) []decodeRoot {
	var rs []decodeRoot
	for _, n := range c.p.sections() {
		n := n
		f := c.p.method(n, name)
		if f == nil {
			continue
		}
		rs = append(rs, decodeRoot{shortFn(f), n.Obj().Name(), func() *Run {
			r := c.begin()
			r.setRecv(n, symVal(n, "v", "v"))
			r.I.separate(c.p, n)
			r.call(f)
			return r
		}})
	}
	return rs
}
