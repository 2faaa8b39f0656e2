package main

// Models of the library functions the code uses.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func errGlobal(name string) *ErrV {
	t := intern("obj", "global:"+name, 0, 0, 0, types.Universe.Lookup("error").Type(), nil)
	nonNilTerms[t] = true
	return &ErrV{t}
}

func newErr(id string) *ErrV {
	t := intern("err", id, 0, 0, 0, nil, nil)
	nonNilTerms[t] = true
	return &ErrV{t}
}

var nilErr Val = NilV{types.Universe.Lookup("error").Type()}

// noDelim: assumption that an opaque string does not contain a byte.
var noDelim func(src Term, b byte) bool

func errIf(ok Node, e Val) Val { return iteVal(ok, nilErr, e) }

type mctx struct {
	I    *Interp
	fr   *Frame
	st   *State
	name string
	fn   *ssa.Function
	args []Val
	pos  token.Pos
	id   string
	rt   *types.Tuple
}

func (I *Interp) model(fr *Frame, st *State, name string, fn *ssa.Function, args []Val, pos token.Pos, id string, rt *types.Tuple) (Val, bool) {
	c := &mctx{I, fr, st, name, fn, args, pos, id, rt}
	return c.run()
}

// modelAt finds the library object a pointer refers to.
func (c *mctx) modelAt(p Val) (*Model, bool) {
	ts := c.I.targets(p, True)
	if len(ts) != 1 {
		return nil, false
	}
	v := c.I.navLoad(c.st.heap.get(c.I, ts[0].obj), ts[0].path, ts[0].obj.typ, c.st.pc)
	if iv, ok := v.(*IteV); ok {
		if Implies(c.st.pc, iv.g) {
			v = iv.a
		} else if Implies(c.st.pc, Not(iv.g)) {
			v = iv.b
		}
	}
	m, ok := v.(*Model)
	if !ok {
		return nil, false
	}
	n := *m
	n.pos = settle(n.pos, c.st.pc)
	n.s = n.s.under(c.st.pc)
	return &n, true
}

func (c *mctx) setModel(p Val, m *Model) {
	ts := c.I.targets(p, True)
	nv, ok := c.I.navStore(c.st.heap.get(c.I, ts[0].obj), ts[0].path, m, ts[0].obj.typ, c.st.pc)
	if ok {
		if o := ts[0].obj; o.shared() {
			c.I.event(c.fr, c.st, "write", o.name, c.pos, &Ptr{obj: o, path: ts[0].path}, nil, nil)
		}
		c.st.set(ts[0].obj, nv)
	}
}

func (c *mctx) take(s *Seq, off, n Lin) *Seq {
	return takeSeq(s, off, n, c.st.pc)
}

// takeSeq is [off, off+n) of s; out of range parts of an opaque sequence are unknown bytes.
func takeSeq(s *Seq, off, n Lin, pc Node) *Seq {
	if len(s.ps) == 1 && s.ps[0].v == nil && s.ps[0].g == True {
		return segSeq(s.ps[0].src, s.ps[0].off.add(off), n, s.byts, nil)
	}
	if r, ok := s.slice(off, n, pc); ok {
		return r
	}
	// within the pieces up to a constant number of elements
	if k, ok := n.isConst(); ok && k <= 64 {
		r := &Seq{byts: s.byts}
		good := true
		for i := int64(0); i < k; i++ {
			v, ok := s.at(off.addK(i), pc)
			if !ok {
				good = false
				break
			}
			r.push(Piece{g: True, v: v})
		}
		if good {
			return r
		}
	}
	et := types.Type(types.Typ[types.Uint8])
	t := intern("list", "sub:"+s.key()+"@"+off.key(), 0, 0, 0, types.NewSlice(et), subSeq{s, off})
	return segSeq(t, lk(0), n, true, nil)
}

func (c *mctx) bytesOf(v Val) (*Seq, Lin) {
	s, n := c.I.contentAny(c.st, v, types.NewSlice(types.Typ[types.Uint8]))
	if c.st.pc != True && c.st.pc != False {
		s, n = s.under(c.st.pc), n.under(c.st.pc)
	}
	return s, n
}

func (c *mctx) slice(s *Seq, name string) *Slice {
	r := c.I.newArr(c.st, types.Typ[types.Uint8], s, name)
	r.obj.site = c.id
	return r
}

func (c *mctx) tuple(vs ...Val) Val { return &Tuple{vs} }

func (c *mctx) fall(ok Node) {
	c.I.fall(c.fr, c.st, c.pos, c.name, Not(ok))
}

func (c *mctx) opaque(pure bool) (Val, bool) {
	if pure {
		k := c.name
		for _, a := range c.args {
			if s := c.I.seqOfVal(c.st, a); s != nil {
				k += "," + s.key()
			} else {
				k += "," + keyOf(a)
			}
		}
		r := symRes(c.rt, "fn:"+k)
		if e, ok := errOf(r, c.rt); ok {
			c.I.fall(c.fr, c.st, c.pos, c.name, Not(isNil(e)))
		}
		return r, true
	}
	return nil, false
}

func i64(l Lin) *Int { return intL(l, 64, true) }

func (c *mctx) run() (Val, bool) {
	name := c.name
	// conditional receiver
	if len(c.args) > 0 {
		if iv, ok := c.args[0].(*IteV); ok && strings.HasPrefix(name, "(*") {
			f := func(v Val) func(*State) Val {
				return func(s *State) Val {
					n := *c
					n.st = s
					n.args = append([]Val{v}, c.args[1:]...)
					r, ok := n.run()
					if !ok {
						r = c.I.unknownCall(c.fr, s, "call", name, nil, n.args, c.pos, c.id, c.rt)
					}
					return r
				}
			}
			return c.I.split(c.st, iv.g, f(iv.a), f(iv.b)), true
		}
	}
	if strings.HasPrefix(name, "(*bytes.Reader).") || strings.HasPrefix(name, "(*bytes.Buffer).") ||
		strings.HasPrefix(name, "(*strings.Reader).") || strings.HasPrefix(name, "(*strings.Builder).") {
		if n := isNil(c.args[0]); n != False {
			c.I.require(c.fr, c.st, c.pos, "nil", Not(n), "method of nil "+show(c.args[0]))
		}
		m, ok := c.modelAt(c.args[0])
		if !ok {
			return nil, false
		}
		return c.rw(m, name[strings.LastIndexByte(name, '.')+1:])
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		return c.binaryOrder(strings.Contains(name, "bigEndian"), name[strings.LastIndexByte(name, '.')+1:])
	}
	if strings.HasPrefix(name, "(encoding/binary.ByteOrder)") || strings.HasPrefix(name, "(encoding/binary.AppendByteOrder)") {
		return nil, false
	}
	if strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "(time.Duration).") || strings.HasPrefix(name, "time.") {
		if r, ok := c.time(name); ok {
			return r, true
		}
	}
	if strings.Contains(name, "github.com/sirupsen/logrus") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger).") {
		return c.logging(name)
	}
	switch name {
	case "bytes.NewReader", "bytes.NewBuffer", "bytes.NewBufferString", "strings.NewReader":
		kind := "buffer"
		tn := "Buffer"
		if strings.HasSuffix(name, "NewReader") {
			kind, tn = "reader", "Reader"
		}
		_ = tn
		s, _ := c.bytesOf(c.args[0])
		pt := c.rt.At(0).Type().(*types.Pointer).Elem()
		o := newObj("cell", pt, kind)
		o.site = c.id
		m := &Model{kind: kind, typ: pt, s: s, pos: lk(0)}
		if sl, ok := c.args[0].(*Slice); ok && sl.obj != nil {
			m.obj, m.off = sl.obj, sl.off
			if kind == "buffer" && !isZeroUnder(sl.cap.sub(sl.n), c.st.pc) {
				m.spare = true
			}
		}
		c.st.set(o, m)
		return &Ptr{obj: o}, true
	case "io.ReadAtLeast":
		if d := asSlice(c.args[1], types.NewSlice(types.Typ[types.Uint8])); d != nil {
			if n, ok := c.args[2].(*Int); ok && linEqUnder(d.n, n.asLin(), c.st.pc) {
				c.args = c.args[:2]
				return c.readFull()
			}
		}
	case "io.ReadFull":
		return c.readFull()
	case "io.ReadAll":
		if m, p, ok := c.readerOf(c.args[0]); ok {
			rest := m.s.length().sub(m.pos)
			s := c.take(m.s, m.pos, rest)
			m.pos = m.s.length()
			c.setModel(p, m)
			return c.tuple(c.slice(s, "ReadAll"), nilErr), true
		}
	case "encoding/binary.Write":
		return c.binWrite()
	case "encoding/binary.Read":
		return c.binRead()
	case "encoding/binary.Size":
		return c.opaque(true)
	case "fmt.Sprintf":
		return c.sprintf(), true
	case "fmt.Sprint", "fmt.Sprintln":
		return c.opaque(true)
	case "fmt.Errorf", "errors.New":
		e := newErr(c.id)
		return e, true
	case "errors.Is":
		if keyOf(c.args[0]) == keyOf(c.args[1]) {
			return Bool{True}, true
		}
		g := mapIte(c.args[0], func(v Val) Val {
			if isNil(v) == True {
				return Bool{isNil(c.args[1])}
			}
			if keyOf(v) == keyOf(c.args[1]) {
				return Bool{True}
			}
			return Bool{And(Not(isNil(v)), opAtom("is("+keyOf(v)+","+keyOf(c.args[1])+")", false))}
		})
		return g, true
	case "errors.As", "errors.Unwrap", "errors.Join":
		return c.opaque(false)
	case "(error).Error":
		return symStr("errtext:"+keyOf(c.args[0]), "error text"), true
	case "strconv.ParseUint":
		return c.parseUint(), true
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "strconv.ParseBool":
		k := ""
		for i, a := range c.args {
			if i == 0 {
				s := asStr(a).s
				k = s.key()
				if cs, ok := s.constString(); ok && name == "strconv.Atoi" {
					var n int64
					if _, err := fmt.Sscanf(cs, "%d", &n); err == nil && fmt.Sprint(n) == cs {
						return c.tuple(intK(n, 64, true), nilErr), true
					}
				}
			} else {
				k += "," + keyOf(a)
			}
		}
		ok := Not(opAtom("parseerr("+name+","+k+")", true))
		c.fall(ok)
		v := symVal(c.rt.At(0).Type(), "parse:"+name+","+k, name+"("+show(c.args[0])+")")
		if n, ok := v.(*Int); ok && len(n.asLin().ts) == 1 {
			parseArgs[n.asLin().ts[0].t] = asStr(c.args[0]).s
		}
		return c.tuple(v, errIf(ok, newErr("parse:"+c.id))), true
	case "strings.TrimSuffix", "bytes.TrimSuffix":
		s, n := c.bytesOf(c.args[0])
		suf, _ := c.bytesOf(c.args[1])
		if cs, ok := suf.constString(); ok {
			m := int64(len(cs))
			g := mkGE(n.addK(-m))
			g = c.I.simplify(c.st.pc, g)
			for i := int64(0); i < m; i++ {
				v, ok := s.at(n.addK(i-m), c.st.pc)
				if !ok {
					return c.opaque(true)
				}
				g = And(g, intEQ(v.(*Int), intK(int64(cs[i]), 8, false)))
			}
			r := s
			if And(c.st.pc, g) != False {
				cut := takeSeq(s, lk(0), n.addK(-m), And(c.st.pc, g))
				if Implies(c.st.pc, g) {
					r = cut
				} else {
					r = seqIte(g, cut, s)
				}
			}
			if name[0] == 'b' {
				return c.slice(r, "TrimSuffix"), true
			}
			return &Str{r}, true
		}
		return c.opaque(true)
	case "bytes.IndexByte", "strings.IndexByte":
		s, n := c.bytesOf(c.args[0])
		if d, ok := asInt(c.args[1], types.Typ[types.Uint8]).constant(); ok {
			ix, found := c.index(s, lk(0), n, byte(d))
			return i64(linIte(found, ix, lk(-1))), true
		}
		return c.opaque(true)
	case "strings.Index", "bytes.Index":
		s, n := c.bytesOf(c.args[0])
		suf, _ := c.bytesOf(c.args[1])
		if cs, ok := suf.constString(); ok && len(cs) == 1 {
			ix, found := c.index(s, lk(0), n, cs[0])
			return i64(linIte(found, ix, lk(-1))), true
		}
		return c.opaque(true)
	case "bytes.Equal":
		a, _ := c.bytesOf(c.args[0])
		b, _ := c.bytesOf(c.args[1])
		return Bool{seqEQ(a, b)}, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold", "strings.ToLower", "strings.ToUpper",
		"strings.TrimSpace", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimPrefix", "strings.Repeat", "strings.Replace", "strings.ReplaceAll",
		"strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.Quote", "strconv.FormatFloat",
		"math.Round", "math.Floor", "math.Trunc", "math.Ceil", "math.Max", "math.Min", "math.Mod", "math.Pow", "math.Sqrt", "math.IsNaN", "math.IsInf", "math.Float32bits", "math.Float64bits",
		"math/bits.Reverse8", "math/bits.OnesCount8":
		if name == "strings.Repeat" {
			if s, ok := asStr(c.args[0]).s.constString(); ok {
				if n, ok := asInt(c.args[1], types.Typ[types.Int]).constant(); ok && n >= 0 && n < 4096 {
					return strK(strings.Repeat(s, int(n))), true
				}
			}
		}
		if strings.HasPrefix(name, "strconv.") {
			if x, ok := c.args[0].(*Int); ok {
				base := int64(10)
				if len(c.args) > 1 {
					base, ok = asInt(c.args[1], types.Typ[types.Int]).constant()
				}
				if ok {
					return c.numStr(x, base), true
				}
			}
		}
		return c.opaque(true)
	case "strings.Join":
		s, _ := c.bytesOf(c.args[1])
		el, n := c.I.contentAny(c.st, c.args[0], types.NewSlice(types.Typ[types.String]))
		_ = n
		r := &Seq{byts: true}
		for i, p := range el.ps {
			if p.v == nil || p.g != True {
				return c.opaque(true)
			}
			if i > 0 {
				r = r.concat(s)
			}
			r = r.concat(asStr(p.v).s)
		}
		return &Str{r}, true
	case "math.Abs":
		if f := asFloat(c.args[0]); f != nil {
			if f.base == nil {
				return &Float{r: new(big.Rat).Abs(f.r)}, true
			}
			neg := And(opAtom("neg("+keyOf(f.base)+")", false), Not(opAtom("zero("+keyOf(f.base)+")", false)))
			return &Float{r: new(big.Rat).Abs(f.r), base: f.base, neg: neg}, true
		}
		return c.opaque(true)
	case "os.Exit", "runtime.Goexit", "syscall.Exit":
		c.I.event(c.fr, c.st, "exit", name, c.pos, nil, c.args, nil)
		c.st.pc = False
		return nil, true
	case "encoding/json.Marshal", "encoding/json.MarshalIndent", "github.com/golang/protobuf/proto.Marshal", "google.golang.org/protobuf/proto.Marshal":
		res := symRes(c.rt, "call:"+c.id)
		ev := c.I.event(c.fr, c.st, "call", name, c.pos, nil, c.args, res)
		ev.ctx = c.id
		if t, ok := res.(*Tuple); ok {
			c.fall(isNil(t.vs[1]))
		}
		return res, true
	case "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		if strings.HasPrefix(name, "fmt.F") {
			if m, p, ok := c.readerOf(c.args[0]); ok && m.kind == "buffer" {
				s, _ := c.opaque(true)
				_ = s
				src := symStr("fprint:"+c.id, "fprint")
				m.s = m.s.concat(src.s)
				c.setModel(p, m)
				return c.tuple(i64(src.s.length()), nilErr), true
			}
		}
		c.I.event(c.fr, c.st, "print", name, c.pos, nil, c.args, nil)
		return symTuple(c.rt, "print:"+c.id), true
	case "flag.StringVar", "flag.IntVar", "flag.Float64Var", "flag.BoolVar", "flag.UintVar", "flag.Int64Var", "flag.Uint64Var", "flag.DurationVar":
		c.I.event(c.fr, c.st, "flag", name, c.pos, nil, c.args, nil)
		fnm, _ := asStr(c.args[1]).s.constString()
		if p, ok := c.args[0].(*Ptr); ok {
			t := typeAtPath(p.obj.typ, p.path)
			c.I.storeQuiet(c.st, p, symVal(t, "flag:"+fnm, "flag "+fnm))
		}
		return nil, true
	case "flag.String", "flag.Int", "flag.Float64", "flag.Bool", "flag.Uint", "flag.Int64", "flag.Uint64", "flag.Duration":
		fnm, _ := asStr(c.args[0]).s.constString()
		el := c.rt.At(0).Type().(*types.Pointer).Elem()
		o := newObj("cell", el, "flag "+fnm)
		c.st.set(o, symVal(el, "flag:"+fnm, "flag "+fnm))
		c.I.event(c.fr, c.st, "flag", name, c.pos, nil, append([]Val{&Ptr{obj: o}}, c.args...), nil)
		return &Ptr{obj: o}, true
	case "flag.Parse":
		c.I.event(c.fr, c.st, "flagparse", name, c.pos, nil, nil, nil)
		return nil, true
	case "context.Background", "context.TODO":
		return &Opaque{nn(intern("obj", name, 0, 0, 0, c.rt.At(0).Type(), nil)), c.rt.At(0).Type()}, true
	case "bufio.NewReader", "bufio.NewReaderSize":
		if o := c.I.streamOf(c.args[0]); o != nil {
			// the new reader goes on where the stream is; how far it reads
			// ahead, and so where the stream is now, is unknown
			m, ok := c.st.heap.get(c.I, o).(*Model)
			if !ok {
				break
			}
			t := nn(intern("obj", "bufio:"+c.id, 0, 0, 0, c.rt.At(0).Type(), nil))
			b := newObj("stream", types.Typ[types.Int], "stream "+termString(t))
			b.root = o.root
			c.I.streams[t] = b
			own, ahead := *m, *m
			c.st.set(b, &own)
			ahead.pos = m.pos.add(lt(intern("mono", "ahead:"+c.id, 64, 0, 1<<41, nil, nil)))
			c.st.set(o, &ahead)
			return &Opaque{t, c.rt.At(0).Type()}, true
		}
	case "(net.Conn).Read", "(io.Reader).Read", "(*bufio.Reader).Read", "(*net.conn).Read", "(*net.TCPConn).Read":
		if m, p, ok := c.readerOf(c.args[0]); ok && m.kind != "buffer" {
			c.args = []Val{p, c.args[1]}
			return c.rw(m, "Read")
		}
		return c.streamRead(false)
	case "github.com/golang/protobuf/proto.Unmarshal", "google.golang.org/protobuf/proto.Unmarshal":
		res := symRes(c.rt, "call:"+c.id)
		ev := c.I.event(c.fr, c.st, "call", name, c.pos, nil, c.args, res)
		ev.ctx = c.id
		c.I.havocReach(c.fr, c.st, c.args[1], c.id+"/arg1", c.pos)
		c.fall(isNil(res))
		return res, true
	}
	return nil, false
}

func (I *Interp) storeQuiet(st *State, p *Ptr, v Val) {
	nv, ok := I.navStore(st.heap.get(I, p.obj), p.path, v, p.obj.typ, st.pc)
	if ok {
		st.set(p.obj, nv)
	}
}

func (c *mctx) readerOf(v Val) (*Model, Val, bool) {
	for {
		if x, ok := v.(*Iface); ok {
			v = x.v
			continue
		}
		break
	}
	if p, ok := v.(*Ptr); ok {
		if m, ok := c.modelAt(p); ok {
			return m, p, true
		}
	}
	if o, ok := v.(*Opaque); ok && o.typ != nil {
		if p, ok := o.typ.Underlying().(*types.Pointer); ok && modelType(p.Elem()) != "" {
			if m, ok := c.modelAt(o); ok {
				return m, o, true
			}
		}
	}
	return nil, nil, false
}

// index of the first delim in [pos, end) of s, as distance from pos.
func (c *mctx) index(s *Seq, pos, end Lin, delim byte) (Lin, Node) {
	rest := takeSeq(s, pos, end.sub(pos), c.st.pc)
	off := lk(0)
	for _, p := range rest.ps {
		if p.g != True {
			break
		}
		if p.v != nil {
			e := intEQ(p.v.(*Int), intK(int64(delim), 8, false))
			if e == True {
				return off, True
			}
			if e != False {
				break
			}
			off = off.addK(1)
			continue
		}
		if noDelim != nil && noDelim(p.src, delim) {
			off = off.add(p.n)
			continue
		}
		if len(rest.ps) == 1 && p.v == nil {
			t := idxTerm(p.src, p.off, delim)
			return lt(t), c.I.simplify(c.st.pc, mkGE(p.n.sub(lt(t)).addK(-1)))
		}
		break
	}
	if len(rest.ps) == 0 {
		return lk(0), False
	}
	if c.st.pc != False {
		all := true
		for _, p := range rest.ps {
			if p.v == nil && !(noDelim != nil && noDelim(p.src, delim)) {
				all = false
			}
			if p.v != nil && intEQ(p.v.(*Int), intK(int64(delim), 8, false)) != False {
				all = false
			}
		}
		if all {
			return lk(0), False
		}
	}
	src := intern("list", "seq:"+rest.key(), 0, 0, 0, types.NewSlice(types.Typ[types.Uint8]), subSeq{rest, lk(0)})
	t := idxTerm(src, lk(0), delim)
	return lt(t), mkGE(end.sub(pos).sub(lt(t)).addK(-1))
}

// rw: methods of readers and buffers.
func (c *mctx) rw(m *Model, method string) (Val, bool) {
	I, st := c.I, c.st
	p := c.args[0]
	ln := m.s.length()
	rem := ln.sub(m.pos)
	u8 := types.Typ[types.Uint8]
	switch method {
	case "Len":
		if m.kind == "buffer" || m.kind == "reader" {
			return i64(rem), true
		}
	case "Size":
		return i64(ln), true
	case "ReadByte":
		ok := I.simplify(st.pc, mkGE(rem.addK(-1)))
		v := I.seqElemQuiet(m.s, m.pos, st.pc)
		c.fall(ok)
		m.pos = linIte(ok, m.pos.addK(1), m.pos)
		c.setModel(p, m)
		return c.tuple(v, errIf(ok, errGlobal("io.EOF"))), true
	case "Seek":
		wh, known := asInt(c.args[2], types.Typ[types.Int]).constant()
		if m.kind != "reader" || !known {
			break
		}
		to := asInt(c.args[1], types.Typ[types.Int64]).asLin()
		switch wh {
		case 1:
			to = to.add(m.pos)
		case 2:
			to = to.add(ln)
		}
		ok := I.simplify(st.pc, mkGE(to))
		c.fall(ok)
		m.pos = linIte(ok, to, m.pos)
		c.setModel(p, m)
		return c.tuple(intL(to, 64, true), errIf(ok, newErr(c.id))), true
	case "UnreadByte":
		ok := I.simplify(st.pc, mkGE(m.pos.addK(-1)))
		m.pos = linIte(ok, m.pos.addK(-1), m.pos)
		c.setModel(p, m)
		return errIf(ok, newErr(c.id)), true
	case "Read":
		d := asSlice(c.args[1], types.NewSlice(u8))
		if d == nil {
			return nil, false
		}
		ge := I.simplify(st.pc, mkGE(rem.sub(d.n)))
		n := linIte(ge, d.n, rem).under(st.pc)
		empty := I.simplify(st.pc, AndN(Not(mkGE(rem.addK(-1))), mkGE(d.n.addK(-1))))
		src := c.take(m.s, m.pos, n)
		I.writeSeq(c.fr, st, d, lk(0), src, n, c.pos, c.id)
		// a short read is not an error but leaves the rest of the buffer as it was
		c.I.fall(c.fr, st, c.pos, c.name, Not(ge))
		m.pos = m.pos.add(n)
		c.setModel(p, m)
		return c.tuple(i64(n), errIf(Not(empty), errGlobal("io.EOF"))), true
	case "Next":
		n := asInt(c.args[1], types.Typ[types.Int]).asLin()
		I.requireGE(c.fr, st, c.pos, "slice", n, "Next count >= 0: "+n.String())
		ge := I.simplify(st.pc, mkGE(rem.sub(n)))
		k := linIte(ge, n, rem).under(st.pc)
		var r *Slice
		if m.obj != nil {
			r = &Slice{obj: m.obj, off: m.off.add(m.pos), n: k, cap: k, elt: u8, nilG: False}
		} else {
			r = c.slice(c.take(m.s, m.pos, k), "Next")
		}
		m.pos = m.pos.add(k)
		c.setModel(p, m)
		return r, true
	case "Bytes", "String":
		s := c.take(m.s, m.pos, rem)
		if zp, ok := m.pos.isConst(); ok && zp == 0 {
			s = m.s
		}
		if method == "String" {
			return &Str{s}, true
		}
		if m.obj != nil {
			return &Slice{obj: m.obj, off: m.off.add(m.pos), n: rem, cap: rem, elt: u8, nilG: False}, true
		}
		r := c.slice(s, "Bytes")
		if isZeroUnder(rem, st.pc) {
			r.nilG = True
		} else {
			ct := intern("cap", "cap:"+c.id, 64, 0, 1<<40, nil, nil)
			r.cap = r.n.add(lt(ct))
			r.nilG = mkEQ(rem)
		}
		return r, true
	case "Write", "WriteString":
		if m.kind != "buffer" {
			break
		}
		s, n := c.bytesOf(c.args[1])
		m.s = m.s.concat(s)
		m.grown(c)
		c.setModel(p, m)
		return c.tuple(i64(n), nilErr), true
	case "WriteByte":
		if m.kind != "buffer" {
			break
		}
		m.s = m.s.concat(seqOf(asInt(c.args[1], u8)))
		m.grown(c)
		c.setModel(p, m)
		return nilErr, true
	case "WriteRune":
		if r, ok := asInt(c.args[1], types.Typ[types.Rune]).constant(); ok {
			s := string(rune(r))
			m.s = m.s.concat(strK(s).s)
			m.grown(c)
			c.setModel(p, m)
			return c.tuple(intK(int64(len(s)), 64, true), nilErr), true
		}
	case "Reset":
		if m.kind == "buffer" && len(c.args) == 1 {
			c.setModel(p, &Model{kind: "buffer", typ: m.typ, s: &Seq{byts: true}, pos: lk(0)})
			return nil, true
		}
	case "Grow":
		return nil, true
	case "Cap", "Available":
		return i64(lt(intern("cap", "cap:"+c.id, 64, 0, 1<<40, nil, nil))), true
	case "Truncate":
		n := asInt(c.args[1], types.Typ[types.Int]).asLin()
		I.requireGE(c.fr, st, c.pos, "slice", n, "Truncate >= 0")
		I.requireGE(c.fr, st, c.pos, "slice", rem.sub(n), "Truncate <= length")
		m.s = c.take(m.s, lk(0), m.pos.add(n))
		c.setModel(p, m)
		return nil, true
	case "ReadString", "ReadBytes":
		d, ok := asInt(c.args[1], u8).constant()
		if !ok {
			break
		}
		ix, found := c.index(m.s, m.pos, ln, byte(d))
		c.fall(found)
		n := linIte(found, ix.addK(1), rem).under(st.pc)
		s := &Seq{byts: true}
		if And(st.pc, found) != False {
			a := takeSeq(m.s, m.pos, ix.addK(1), And(st.pc, found))
			if And(st.pc, Not(found)) == False {
				s = a
			} else {
				b := takeSeq(m.s, m.pos, rem, And(st.pc, Not(found)))
				s = seqIte(found, a, b)
			}
		} else {
			s = takeSeq(m.s, m.pos, rem, st.pc)
		}
		m.pos = m.pos.add(n)
		c.setModel(p, m)
		e := errIf(found, errGlobal("io.EOF"))
		if method == "ReadString" {
			return c.tuple(&Str{s}, e), true
		}
		return c.tuple(c.slice(s, "ReadBytes"), e), true
	case "WriteTo":
		return nil, false
	}
	// unknown method
	c.I.unsupported(c.fr, c.pos, "library method %s", c.name)
	return nil, false
}

// grown: writing to a buffer over a caller's slice can overwrite its spare capacity.
func (m *Model) grown(c *mctx) {
	if m.obj != nil {
		if m.spare && m.obj.shared() {
			c.I.event(c.fr, c.st, "write", m.obj.name, c.pos, &Ptr{obj: m.obj}, nil, nil)
		}
		m.obj = nil
	}
}

func (I *Interp) seqElemQuiet(s *Seq, pos Lin, pc Node) Val {
	if len(s.ps) == 1 && s.ps[0].v == nil && s.ps[0].g == True {
		return segElem(s.ps[0], pos, true)
	}
	return I.seqElem(s, pos, types.Typ[types.Uint8], pc)
}

func (c *mctx) readFull() (Val, bool) {
	I, st := c.I, c.st
	m, p, ok := c.readerOf(c.args[0])
	if !ok {
		return c.streamRead(true)
	}
	d := asSlice(c.args[1], types.NewSlice(types.Typ[types.Uint8]))
	if d == nil {
		return nil, false
	}
	ln := m.s.length()
	rem := ln.sub(m.pos)
	good := I.simplify(st.pc, mkGE(rem.sub(d.n)))
	c.fall(good)
	src := takeSeq(m.s, m.pos, d.n, And(st.pc, good))
	I.writeSeq(c.fr, st, d, lk(0), src, d.n, c.pos, c.id)
	m.pos = linIte(good, m.pos.add(d.n), ln).under(st.pc)
	c.setModel(p, m)
	empty := I.simplify(st.pc, Not(mkGE(rem.addK(-1))))
	e := iteVal(good, nilErr, iteVal(empty, errGlobal("io.EOF"), errGlobal("io.ErrUnexpectedEOF")))
	return c.tuple(i64(linIte(good, d.n, rem)), e), true
}

// ---------------------------------------------------------------- streams

// streamOf gives the object holding the read position of a connection.
func (I *Interp) streamOf(v Val) *Obj {
	for {
		if x, ok := v.(*Iface); ok {
			v = x.v
			continue
		}
		break
	}
	var t Term
	switch x := v.(type) {
	case *Opaque:
		t = x.t
	case *Ptr:
		t = intern("obj", "ptrstream:"+fmt.Sprint(x.obj.id), 0, 0, 0, nil, nil)
	default:
		return nil
	}
	if o := I.streams[t]; o != nil {
		return o
	}
	o := newObj("stream", types.Typ[types.Int], "stream "+termString(t))
	o.root = termTab[t].key
	I.streams[t] = o
	src := intern("list", "stream:"+termTab[t].key, 0, 0, 0, types.NewSlice(types.Typ[types.Uint8]), nil)
	I.base[o.id] = &Model{kind: "stream", s: &Seq{byts: true, ps: []Piece{{g: True, src: src, off: lk(0), n: lenTerm(src)}}}, pos: lk(0)}
	return o
}

// wrappedRead is the Read of a type of the repository around a stream. Reading
// in full through it is to have it read until all is there: when what it returns
// is what the stream underneath returned, that stream is read in full, and what
// else it does is done before each read.
func (c *mctx) wrappedRead(full bool) (Val, bool) {
	x, ok := c.args[0].(*Iface)
	if !ok {
		return nil, false
	}
	t := x.typ
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
		return nil, false
	}
	fn := c.I.prog.LookupMethod(x.typ, n.Obj().Pkg(), "Read")
	if fn == nil {
		return nil, false
	}
	was := c.I.whole
	c.I.whole = was || full
	c.I.lastRead = nil
	v := c.I.callStatic(c.fr, c.st, fn, []Val{x.v, c.args[1]}, c.pos, c.id, fn.Signature.Results())
	c.I.whole = was
	if c.I.lastRead == nil || keyOf(v) != keyOf(c.I.lastRead) {
		c.I.unsupported(c.fr, c.pos, "the Read of %s does not pass on what one read gives", n.Obj().Name())
	}
	return v, true
}

func (c *mctx) streamRead(full bool) (Val, bool) {
	if v, ok := c.wrappedRead(full); ok {
		return v, true
	}
	v, ok := c.readStream(full || c.I.whole)
	c.I.lastRead = v
	return v, ok
}

func (c *mctx) readStream(full bool) (Val, bool) {
	I, st := c.I, c.st
	o := I.streamOf(c.args[0])
	d := asSlice(c.args[1], types.NewSlice(types.Typ[types.Uint8]))
	if o == nil || d == nil {
		return nil, false
	}
	m0, ok := st.heap.get(I, o).(*Model)
	if !ok {
		return nil, false
	}
	m := *m0
	src := m.s.ps[0].src
	errT := intern("obj", "call:"+c.id+"#err", 0, 0, 0, types.Universe.Lookup("error").Type(), nil)
	nonNilTerms[errT] = true
	errTerms[errT] = true
	good := Not(opAtom("ioerr("+c.id+")", true))
	var n Lin
	if full {
		n = d.n
	} else {
		nt := intern("readn", c.id, 64, 0, 1<<40, nil, nil)
		addFact(d.n.sub(lt(nt)))
		n = lt(nt)
	}
	seg := segSeq(src, m.pos, n, true, nil)
	ev := I.event(c.fr, st, "read", c.name, c.pos, c.args[0], []Val{c.args[1], i64(m.pos), i64(n)}, nil)
	ev.ctx = c.id
	I.writeSeq(c.fr, st, d, lk(0), seg, n, c.pos, c.id)
	c.fall(good)
	ft := intern("mono", "broken:"+c.id, 64, 0, 1<<41, nil, nil)
	if full {
		m.pos = linIte(good, m.pos.add(n), m.pos.add(lt(ft)))
	} else {
		m.pos = m.pos.add(n)
	}
	st.set(o, &m)
	e := iteVal(good, nilErr, Val(&Opaque{errT, types.Universe.Lookup("error").Type()}))
	if full {
		// io.ReadFull returns an error exactly if fewer bytes were read
		pt := intern("readn", c.id, 64, 0, 1<<40, nil, nil)
		return c.tuple(i64(linIte(good, d.n, lt(pt))), e), true
	}
	return c.tuple(i64(n), e), true
}

// ---------------------------------------------------------------- binary

func byteOf(v *Int, i int) *Int {
	bs := v.bitVec()
	return intBits(append([]Node(nil), bs[8*i:8*i+8]...), false)
}

func intBytes(v *Int, big bool) *Seq {
	s := &Seq{byts: true}
	n := v.w / 8
	for i := 0; i < n; i++ {
		j := i
		if big {
			j = n - 1 - i
		}
		b := byteOf(v, j)
		b.asLin()
		s.push(Piece{g: True, v: b})
	}
	return s
}

func intFromBytes(vs []Val, big bool, sgn bool) *Int {
	var bs []Node
	for i := range vs {
		j := i
		if big {
			j = len(vs) - 1 - i
		}
		bs = append(bs, asInt(vs[j], types.Typ[types.Uint8]).bitVec()...)
	}
	return intBits(bs, sgn)
}

func orderOf(v Val) (bool, bool) {
	x, ok := v.(*Iface)
	if !ok {
		return false, false
	}
	s := x.typ.String()
	switch s {
	case "encoding/binary.littleEndian":
		return false, true
	case "encoding/binary.bigEndian":
		return true, true
	}
	return false, false
}

func (c *mctx) binaryOrder(big bool, method string) (Val, bool) {
	I, st := c.I, c.st
	w := 0
	switch {
	case strings.HasSuffix(method, "Uint16"):
		w = 2
	case strings.HasSuffix(method, "Uint32"):
		w = 4
	case strings.HasSuffix(method, "Uint64"):
		w = 8
	default:
		return nil, false
	}
	u8s := types.NewSlice(types.Typ[types.Uint8])
	switch {
	case strings.HasPrefix(method, "Put"):
		d := asSlice(c.args[1], u8s)
		if d == nil {
			return nil, false
		}
		I.requireGE(c.fr, st, c.pos, "index", d.n.addK(int64(-w)), method+" buffer long enough")
		v := asInt(c.args[2], []types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[w])
		I.writeSeq(c.fr, st, d, lk(0), intBytes(v, big), lk(int64(w)), c.pos, c.id)
		return nil, true
	case strings.HasPrefix(method, "Append"):
		v := asInt(c.args[2], []types.Type{2: types.Typ[types.Uint16], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[w])
		add := c.slice(intBytes(v, big), "bytes")
		return I.appendOp(c.fr, st, c.args[1], add, u8s, u8s, c.pos, c.id), true
	}
	s, n := c.bytesOf(c.args[1])
	I.requireGE(c.fr, st, c.pos, "index", n.addK(int64(-w)), method+" buffer long enough")
	var vs []Val
	for i := 0; i < w; i++ {
		vs = append(vs, I.seqElemQuiet(s, lk(int64(i)), st.pc))
	}
	return intFromBytes(vs, big, false), true
}

func (c *mctx) binWrite() (Val, bool) {
	big, ok := orderOf(c.args[1])
	if !ok {
		return nil, false
	}
	m, p, ok := c.readerOf(c.args[0])
	if !ok || m.kind != "buffer" {
		return nil, false
	}
	s, ok := c.binBytes(c.args[2], big)
	if !ok {
		c.I.unsupported(c.fr, c.pos, "binary.Write of %s", show(c.args[2]))
		return nil, false
	}
	m.s = m.s.concat(s)
	m.grown(c)
	c.setModel(p, m)
	return nilErr, true
}

func (c *mctx) binBytes(v Val, big bool) (*Seq, bool) {
	switch x := v.(type) {
	case *Iface:
		return c.binBytes(x.v, big)
	case *Int:
		return intBytes(x, big), true
	case Bool:
		return seqOf(intBits([]Node{x.n, False, False, False, False, False, False, False}, false)), true
	case *IteV:
		a, ok1 := c.binBytes(x.a, big)
		b, ok2 := c.binBytes(x.b, big)
		if ok1 && ok2 {
			return seqIte(x.g, a, b), true
		}
	case *Slice:
		if isByteType(x.elt) {
			s, _ := c.bytesOf(x)
			return s, true
		}
	case *Ptr:
		return c.binBytes(c.I.load(c.fr, c.st, x, typeAtPath(x.obj.typ, x.path), c.pos), big)
	case *StructV:
		r := &Seq{byts: true}
		for _, f := range x.f {
			s, ok := c.binBytes(f, big)
			if !ok {
				return nil, false
			}
			r = r.concat(s)
		}
		return r, true
	case *Seq:
		if x.byts {
			return x, true
		}
	}
	return nil, false
}

func (c *mctx) binRead() (Val, bool) {
	I, st := c.I, c.st
	big, ok := orderOf(c.args[1])
	if !ok {
		return nil, false
	}
	m, p, ok := c.readerOf(c.args[0])
	if !ok {
		return nil, false
	}
	dst := c.args[2]
	if x, ok := dst.(*Iface); ok {
		dst = x.v
	}
	d, ok := dst.(*Ptr)
	if !ok {
		return nil, false
	}
	var size func(t types.Type) int
	size = func(t types.Type) int {
		if w, _ := intType(t); w > 0 {
			return w / 8
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			n := 0
			for i := 0; i < s.NumFields(); i++ {
				k := size(s.Field(i).Type())
				if k < 0 {
					return -1
				}
				n += k
			}
			return n
		}
		if a, ok := t.Underlying().(*types.Array); ok {
			k := size(a.Elem())
			if k < 0 {
				return -1
			}
			return k * int(a.Len())
		}
		return -1
	}
	t := typeAtPath(d.obj.typ, d.path)
	n := size(t)
	if n < 0 {
		I.unsupported(c.fr, c.pos, "binary.Read into %s", t)
		return nil, false
	}
	ln := m.s.length()
	rem := ln.sub(m.pos)
	good := I.simplify(st.pc, mkGE(rem.addK(int64(-n))))
	c.fall(good)
	var build func(t types.Type, at int) Val
	build = func(t types.Type, at int) Val {
		if w, sgn := intType(t); w > 0 {
			var vs []Val
			for i := 0; i < w/8; i++ {
				vs = append(vs, I.seqElemQuiet(m.s, m.pos.addK(int64(at+i)), And(st.pc, good)))
			}
			return intFromBytes(vs, big, sgn)
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			r := &StructV{typ: u, nam: t}
			for i := 0; i < u.NumFields(); i++ {
				r.f = append(r.f, build(u.Field(i).Type(), at))
				at += size(u.Field(i).Type())
			}
			return r
		case *types.Array:
			r := &Seq{byts: isByteType(u.Elem())}
			for i := int64(0); i < u.Len(); i++ {
				r.push(Piece{g: True, v: build(u.Elem(), at)})
				at += size(u.Elem())
			}
			return r
		}
		return nil
	}
	I.store(c.fr, st, d, build(t, 0), c.pos)
	m.pos = linIte(good, m.pos.addK(int64(n)), ln).under(st.pc)
	c.setModel(p, m)
	empty := I.simplify(st.pc, Not(mkGE(rem.addK(-1))))
	return iteVal(good, nilErr, iteVal(empty, errGlobal("io.EOF"), errGlobal("io.ErrUnexpectedEOF"))), true
}

// ---------------------------------------------------------------- text

func (c *mctx) sprintf() Val {
	f, ok := asStr(c.args[0]).s.constString()
	opq := func() Val { r, _ := c.opaque(true); return r }
	if !ok {
		return opq()
	}
	va, _ := c.I.contentAny(c.st, c.args[1], types.NewSlice(types.NewInterfaceType(nil, nil)))
	var args []Val
	for _, p := range va.ps {
		if p.v == nil || p.g != True {
			return opq()
		}
		args = append(args, p.v)
	}
	r := &Seq{byts: true}
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r.push(Piece{g: True, v: intK(int64(f[i]), 8, false)})
			continue
		}
		i++
		if i < len(f) && f[i] == '%' {
			r.push(Piece{g: True, v: intK('%', 8, false)})
			continue
		}
		zero, width := false, 0
		plus := false
		for i < len(f) && (f[i] == '0' || f[i] == '+' || f[i] == '#') {
			if f[i] == '0' {
				zero = true
			} else {
				plus = true
			}
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i >= len(f) || ai >= len(args) || f[i] == '.' {
			return opq()
		}
		a := args[ai]
		ai++
		if x, ok := a.(*Iface); ok {
			a = x.v
		}
		switch f[i] {
		case 'b':
			x, ok := a.(*Int)
			if !ok || x.sgn && x.w < 64 && false || plus {
				return opq()
			}
			if x.sgn {
				if !entails(c.st.pc, x.asLin()) {
					return opq()
				}
			}
			if !zero && width > 1 {
				return opq()
			}
			r = r.concat(binaryDigits(x, width))
		case 's', 'v', 'd':
			switch x := a.(type) {
			case *Str:
				if f[i] == 'd' || width > 0 {
					return opq()
				}
				r = r.concat(x.s)
			case *Int:
				if width == 0 && !plus {
					r = r.concat(c.numStr(x, 10).s)
				} else {
					r = r.concat(symStr(fmt.Sprintf("fmt%%%d%s:%s", width, string(f[i]), keyOf(x)), "fmt").s)
				}
			default:
				r = r.concat(symStr(fmt.Sprintf("fmt%%%s:%s", string(f[i]), keyOf(a)), "fmt").s)
			}
		default:
			return opq()
		}
	}
	return &Str{r}
}

// binaryDigits is the binary form of a number that is not negative, at least
// width digits long.
func binaryDigits(x *Int, width int) *Seq {
	r := &Seq{byts: true}
	bs := x.bitVec()
	above := False
	for j := len(bs) - 1; j >= 0; j-- {
		above = Or(above, bs[j])
		g := above
		if j < width || j == 0 {
			g = True
		}
		if g == False {
			continue
		}
		r.push(Piece{g: g, v: intBits([]Node{bs[j], False, False, False, True, True, False, False}, false)})
	}
	return r
}

// numStr is a number written in a base.
func (c *mctx) numStr(x *Int, base int64) *Str {
	if k, ok := x.constant(); ok && base >= 2 && base <= 36 {
		if x.sgn {
			return strK(strconv.FormatInt(k, int(base)))
		}
		return strK(strconv.FormatUint(uint64(k), int(base)))
	}
	pos := !x.sgn || entails(c.st.pc, x.asLin())
	if pos && base == 2 {
		return &Str{binaryDigits(x, 1)}
	}
	if pos && entails(c.st.pc, x.asLin().neg().addK(min(base-1, 9))) {
		bs := x.bitVec()
		return &Str{&Seq{byts: true, ps: []Piece{{g: True, v: intBits([]Node{bs[0], bs[1], bs[2], bs[3], True, True, False, False}, false)}}}}
	}
	return symStr(fmt.Sprintf("num%d:%s", base, keyOf(x)), "number")
}

func (c *mctx) parseUint() Val {
	s := asStr(c.args[0]).s
	base, ok1 := asInt(c.args[1], types.Typ[types.Int]).constant()
	size, ok2 := asInt(c.args[2], types.Typ[types.Int]).constant()
	if ok2 && size == 0 {
		size = 64
	}
	flat := ok1 && ok2 && base == 2 && len(s.ps) <= 64
	for _, p := range s.ps {
		if p.v == nil || p.g != True {
			flat = false
			break
		}
	}
	if !flat {
		k := fmt.Sprintf("%s,%s,%s", s.key(), keyOf(c.args[1]), keyOf(c.args[2]))
		ok := Not(opAtom("parseerr("+k+")", true))
		c.fall(ok)
		var hi int64 = posInf
		if ok2 && size < 63 {
			hi = 1<<uint(size) - 1
		}
		t := intern("parse", k, 64, 0, hi, nil, nil)
		if b, ok := asInt(c.args[1], types.Typ[types.Int]).constant(); ok && (b == 10 || b == 0) {
			parseArgs[t] = s
		}
		return c.tuple(intTerm(t, 64, false), errIf(ok, newErr("parse:"+c.id)))
	}
	ok := True
	if len(s.ps) == 0 {
		ok = False
	}
	bs := make([]Node, 64)
	for i := range bs {
		bs[i] = False
	}
	n := len(s.ps)
	for i, p := range s.ps {
		b := p.v.(*Int)
		ok = And(ok, Or(intEQ(b, intK('0', 8, false)), intEQ(b, intK('1', 8, false))))
		j := n - 1 - i
		bit := b.bitVec()[0]
		if int64(j) < size {
			bs[j] = bit
		} else {
			ok = And(ok, Not(bit))
		}
	}
	c.fall(ok)
	return c.tuple(intBits(bs, false), errIf(ok, newErr("parse:"+c.id)))
}

// ---------------------------------------------------------------- time

func durLin(v Val) Lin { return asInt(v, types.Typ[types.Int64]).asLin() }

func asTime(v Val) *TimeV {
	switch x := v.(type) {
	case *TimeV:
		return x
	case *IteV:
		a, b := asTime(x.a), asTime(x.b)
		if a != nil && b != nil {
			return &TimeV{linIte(x.g, a.ns, b.ns)}
		}
	}
	return nil
}

func (c *mctx) time(name string) (Val, bool) {
	I, st := c.I, c.st
	switch name {
	case "time.Date":
		var k [7]int
		for i := 0; i < 7; i++ {
			v, ok := asInt(c.args[i], types.Typ[types.Int]).constant()
			if !ok {
				return c.opaque(true)
			}
			k[i] = int(v)
		}
		loc := "?"
		if o, ok := c.args[7].(*Opaque); ok {
			loc = termTab[o.t].key
		}
		if !strings.HasSuffix(loc, "time.UTC") {
			return &TimeV{lt(intern("date", fmt.Sprintf("%v,%s", k, keyOf(c.args[7])), 64, negInf, posInf, nil, nil))}, true
		}
		return &TimeV{lk(time.Date(k[0], time.Month(k[1]), k[2], k[3], k[4], k[5], k[6], time.UTC).UnixNano())}, true
	case "time.Now":
		sec := intern("sec", "now:"+c.id, 64, 0, 1<<34, nil, nil)
		ns := intern("nsec", "now:"+c.id, 32, 0, 999999999, nil, nil)
		now := &TimeV{lt(sec).scale(1000000000).add(lt(ns))}
		I.event(c.fr, st, "now", name, c.pos, nil, nil, now)
		return now, true
	case "time.Unix":
		s, n := durLin(c.args[0]), durLin(c.args[1])
		return &TimeV{s.scale(1000000000).add(n)}, true
	case "time.Parse", "time.ParseInLocation":
		v, ok := c.opaque(true)
		I.event(c.fr, st, "parse", name, c.pos, nil, c.args, v)
		return v, ok
	case "time.Since":
		if t := asTime(c.args[0]); t != nil {
			return symVal(types.Typ[types.Int64], "since:"+c.id, "since"), true
		}
	case "time.Sleep":
		I.event(c.fr, st, "sleep", name, c.pos, nil, c.args, nil)
		return nil, true
	}
	if strings.HasPrefix(name, "(time.Duration).") {
		d := durLin(c.args[0])
		switch name[len("(time.Duration)."):] {
		case "Seconds":
			return &Float{r: big.NewRat(1, 1000000000), base: i64(d)}, true
		case "Milliseconds", "Microseconds", "Nanoseconds":
			k := map[string]int64{"Milliseconds": 1000000, "Microseconds": 1000, "Nanoseconds": 1}[name[len("(time.Duration)."):]]
			if entails(st.pc, d) {
				q, _ := divLin(d, k, st.pc)
				return i64(q), true
			}
		}
		return c.opaque(true)
	}
	if !strings.HasPrefix(name, "(time.Time).") {
		return nil, false
	}
	t := asTime(c.args[0])
	if t == nil {
		return c.opaque(true)
	}
	switch name[len("(time.Time)."):] {
	case "Add":
		return &TimeV{t.ns.add(durLin(c.args[1]))}, true
	case "Sub":
		u := asTime(c.args[1])
		if u != nil {
			return i64(t.ns.sub(u.ns)), true
		}
	case "Unix":
		q, _ := divLin(t.ns, 1000000000, st.pc)
		return i64(q), true
	case "UnixMilli":
		q, _ := divLin(t.ns, 1000000, st.pc)
		return i64(q), true
	case "UnixNano":
		return i64(t.ns), true
	case "UTC", "Local", "In", "Round":
		if name == "(time.Time).Round" {
			break
		}
		return t, true
	case "Truncate":
		if d, ok := durLin(c.args[1]).isConst(); ok && d == 1000000000 {
			q, _ := divLin(t.ns, d, st.pc)
			return &TimeV{q.scale(d)}, true
		}
	case "After":
		if u := asTime(c.args[1]); u != nil {
			return Bool{mkGE(t.ns.sub(u.ns).addK(-1))}, true
		}
	case "Before":
		if u := asTime(c.args[1]); u != nil {
			return Bool{mkGE(u.ns.sub(t.ns).addK(-1))}, true
		}
	case "Equal":
		if u := asTime(c.args[1]); u != nil {
			return Bool{mkEQ(u.ns.sub(t.ns))}, true
		}
	}
	return c.opaque(true)
}

// ---------------------------------------------------------------- logging

func (c *mctx) logging(name string) (Val, bool) {
	base := name[strings.LastIndexByte(name, '.')+1:]
	if strings.HasPrefix(base, "Fatal") || strings.HasPrefix(base, "Panic") || base == "Exit" {
		kind := "exit"
		if strings.HasPrefix(base, "Panic") {
			c.I.obls = append(c.I.obls, &Obl{"panic", c.fr.fn.String(), "call of " + name, c.pos, false, c.st.pc, c.I.loopStkCopy()})
		}
		c.I.event(c.fr, c.st, kind, name, c.pos, nil, c.args, nil)
		c.st.pc = False
		return nil, true
	}
	ev := c.I.event(c.fr, c.st, "log", name, c.pos, nil, c.args, nil)
	_ = ev
	r := symRes(c.rt, "log:"+c.id)
	if o, ok := r.(*Opaque); ok {
		nonNilTerms[o.t] = true
	}
	return r, true
}

// parseArgs: the texts parsed numbers stand for.
var parseArgs map[Term]*Seq
