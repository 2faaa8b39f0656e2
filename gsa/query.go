package main

// Helpers shared by the checks: running a root, restricting results to a guard.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// restrict simplifies v to what it is where care holds.
func restrict(v Val, care Node) Val {
	switch x := v.(type) {
	case *Int:
		n := &Int{w: x.w, sgn: x.sgn}
		if x.bits != nil {
			for _, b := range x.bits {
				n.bits = append(n.bits, simplifyUnder(b, care))
			}
		}
		if x.l != nil {
			l := x.l.under(care)
			n.l = &l
		}
		return n
	case Bool:
		return Bool{simplifyUnder(x.n, care)}
	case *Str:
		return &Str{x.s.under(care)}
	case *Seq:
		return x.under(care)
	case *TimeV:
		return &TimeV{x.ns.under(care)}
	case *IteV:
		g := simplifyUnder(x.g, care)
		if g == True {
			return restrict(x.a, care)
		}
		if g == False {
			return restrict(x.b, care)
		}
		return iteVal(g, restrict(x.a, And(care, g)), restrict(x.b, And(care, Not(g))))
	case *StructV:
		n := &StructV{typ: x.typ, nam: x.nam}
		for _, f := range x.f {
			n.f = append(n.f, restrict(f, care))
		}
		return n
	case *Float:
		if i, ok := x.base.(*Int); ok {
			return mkFloat(x.r, restrict(i, care), simplifyUnder(x.neg, care))
		}
		return x
	case *Slice:
		return &Slice{obj: x.obj, off: x.off.under(care), n: x.n.under(care), cap: x.cap, elt: x.elt, nilG: simplifyUnder(x.nilG, care)}
	case *Tuple:
		n := &Tuple{}
		for _, f := range x.vs {
			n.vs = append(n.vs, restrict(f, care))
		}
		return n
	}
	return v
}

var _ = types.Typ

const libRel = "libs/egts"

// sections are the types of the library that decode and encode themselves.
func (p *Program) sections() []*types.Named {
	var out []*types.Named
	s := p.pkg(libRel)
	if s == nil {
		return nil
	}
	for _, name := range s.Pkg.Scope().Names() {
		tn, ok := s.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(n) {
			continue
		}
		if p.method(n, "Decode") != nil && p.method(n, "Encode") != nil {
			out = append(out, n)
		}
	}
	return out
}

func recvNamed(fn *ssa.Function) *types.Named {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func isSectionMethod(p *Program, fn *ssa.Function) bool {
	switch fn.Name() {
	case "Decode", "Encode", "Length":
	default:
		return false
	}
	n := recvNamed(fn)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modulePath+"/"+libRel && p.method(n, "Decode") != nil && p.method(n, "Encode") != nil
}

// separate makes the section methods of all types except keep opaque: they are
// analysed as roots of their own and used here through their contract.
func (I *Interp) separate(p *Program, keep ...*types.Named) {
	I.opaqueFn = func(fn *ssa.Function) bool {
		if !isSectionMethod(p, fn) {
			return false
		}
		for _, k := range keep {
			if recvNamed(fn) == k {
				return false
			}
		}
		return true
	}
	opaqueIfaceMethods = map[string]bool{}
	if s := p.pkg(libRel); s != nil {
		for _, name := range s.Pkg.Scope().Names() {
			if tn, ok := s.Pkg.Scope().Lookup(name).(*types.TypeName); ok && types.IsInterface(tn.Type()) {
				for _, m := range []string{"Decode", "Encode", "Length"} {
					opaqueIfaceMethods[name+"."+m] = true
				}
			}
		}
	}
	I.contract = func(ev *Event, st *State) bool { return I.sectionContract(ev, st) }
}

// recvKey identifies a receiver with its present content.
func (I *Interp) recvKey(v Val, st *State) string {
	switch x := v.(type) {
	case *Iface:
		return I.recvKey(x.v, st)
	case *Ptr:
		c := I.navLoad(st.heap.get(I, x.obj), x.path, x.obj.typ, st.pc)
		return "@" + I.deepKey(c, st, 0)
	}
	return keyOf(v)
}

// deepKey is keyOf with the contents of slices and pointers followed.
func (I *Interp) deepKey(v Val, st *State, d int) string {
	if d > 6 {
		return keyOf(v)
	}
	switch x := v.(type) {
	case *StructV:
		k := "{"
		for _, f := range x.f {
			k += I.deepKey(f, st, d+1) + ";"
		}
		return k + "}"
	case *Slice:
		if x.obj == nil {
			return "nilslice"
		}
		return "sl" + I.deepKey(I.content(st, x), st, d+1)
	case *Seq:
		k := "<"
		for _, q := range x.ps {
			if q.v != nil {
				k += keyOfNode(q.g) + ":" + I.deepKey(q.v, st, d+1) + ","
			} else {
				k += q.key() + ","
			}
		}
		return k + ">"
	case *Ptr:
		return I.recvKey(x, st)
	case *Iface:
		return x.typ.String() + I.deepKey(x.v, st, d+1)
	}
	return keyOf(v)
}

func keyOfNode(n Node) string { return fmt.Sprint(int(n)) }

// sectionContract: what is assumed of a section method analysed elsewhere.
// Decode changes its receiver only; Encode and Length change nothing and are
// functions of the receiver's value; Length is the length of the encoding.
func (I *Interp) sectionContract(ev *Event, st *State) bool {
	i := strings.LastIndex(ev.name, ".")
	m := ev.name[i+1:]
	switch m {
	case "Decode":
		if len(ev.args) == 0 {
			return false
		}
		if ev.ssaFn != nil && ev.ssaFn.Signature.Results().Len() != 1 {
			return false
		}
		I.havocReach(nil, st, ev.args[0], ev.ctx+"/recv", ev.pos)
		return true
	case "Encode":
		if len(ev.args) != 1 {
			return false
		}
		k := I.recvKey(ev.args[0], st)
		seq, err := encTerms(k)
		ev.res = &Tuple{[]Val{I.newArr(st, types.Typ[types.Uint8], seq, "encoding of "+show(ev.args[0])), err}}
		return true
	case "Length":
		k := I.recvKey(ev.args[0], st)
		seq, err := encTerms(k)
		ev.res = iteVal(isNil(err), convInt(intL(seq.length(), 64, true), 16, false, st.pc), intTerm(intern("fld", "encfail:"+k, 16, 0, 65535, nil, nil), 16, false))
		return true
	}
	return false
}

// shortParts: only parts of at most 65535 bytes are looked at.
var shortParts bool

func encTerms(k string) (*Seq, Val) {
	src := intern("list", "enc:"+k, 0, 0, 0, types.NewSlice(types.Typ[types.Uint8]), nil)
	et := types.Universe.Lookup("error").Type()
	if shortParts {
		termTab[lenTerm(src).ts[0].t].hi = 65535
	}
	e := intern("obj", "encerr:"+k, 0, 0, 0, et, nil)
	errTerms[e] = true
	return &Seq{byts: true, ps: []Piece{{g: True, src: src, off: lk(0), n: lenTerm(src)}}}, &Opaque{e, et}
}

// state is the memory at the time of the event.
func (e *Event) state() *State { return &State{heap: e.heap, pc: e.pc} }
