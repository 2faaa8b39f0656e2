package main

// Settings and the start of the receiver.

import (
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = checkDef{"proof", "main of the receiver on any command line, configuration file and outcome of loading it: what is listened on, the limit and store every connection handler gets, the log level, and how the process ends", checkC22, 40}
}

type startRun struct {
	*Run
	parsed  *Event // the configuration's Unmarshal
	set     *Obj   // what it fills
	st      *types.Struct
	okRead  Node
	parse   Node // the command line was read
	fields  map[string]Val // by configuration key
	listens *Event
}

func checkC22(c *Check) {
	_, f := c.anchor("cli/receiver", "", "main")
	h := c.connHandler()
	if f == nil || h == nil {
		return
	}
	r := c.begin()
	op := r.I.opaqueFn
	r.I.opaqueFn = func(fn *ssa.Function) bool {
		n := recvNamed(fn)
		return op != nil && op(fn) || fn == h || n != nil && n.Obj().Name() == "Repository" && fn.Name() == "LoadStorages"
	}
	r.call(f)
	r.decided()
	s := &startRun{Run: r, parse: False, fields: map[string]Val{}}
	if !s.file() {
		return
	}
	s.settings()
	s.stops()
	s.listening()
	s.level()
	s.stores(h)
}

func (s *startRun) events(kind string, names ...string) []*Event {
	var out []*Event
	for _, e := range s.I.events {
		if (kind == "" || e.kind == kind) && e.pc != False {
			for _, n := range names {
				if e.name == n || strings.HasPrefix(n, ".") && strings.HasSuffix(e.name, n) {
					out = append(out, e)
					break
				}
			}
		}
	}
	return out
}

// file: the file named on the command line is read and parsed.
func (s *startRun) file() bool {
	c, fn, at := s.c, s.name, s.fn.Pos()
	rs := s.events("call", "os.ReadFile", "io/ioutil.ReadFile")
	if !c.ob(len(rs) == 1 && len(rs[0].loops) == 0, "file", fn, at, "one file is read (found %d)", len(rs)) {
		return false
	}
	path := symVal(types.Typ[types.String], "flag:c", "flag c")
	c.ob(sameUnder(rs[0].args[0], path, rs[0].pc), "file", rs[0].fn, rs[0].pos, "it is the file given by the option -c; it is %s", clip(show(rs[0].args[0]), 100))
	// the option is read, and a file that it names is
	for _, e := range s.I.events {
		if e.kind == "flagparse" {
			s.parse = Or(s.parse, e.pc)
		}
		if e == rs[0] {
			break
		}
	}
	given := And(mkGE(asStr(path).s.length().addK(-1)), s.parse)
	c.ob(impliesT(rs[0].pc, s.parse), "file", rs[0].fn, rs[0].pos, "the command line is read first")
	c.ob(impliesT(given, rs[0].pc), "file", rs[0].fn, rs[0].pos, "a file that is named is read; not where %s", clip(ddString(And(given, Not(rs[0].pc))), 200))
	ps := s.events("call", "gopkg.in/yaml.v2.Unmarshal", "gopkg.in/yaml.v2.UnmarshalStrict")
	if !c.ob(len(ps) == 1 && len(ps[0].loops) == 0, "file", fn, at, "it is parsed (found %d)", len(ps)) {
		return false
	}
	p := ps[0]
	s.parsed = p
	want, ok1 := result(rs[0]).(*Slice)
	got, ok2 := restrict(p.args[0], p.pc).(*Slice)
	same := false
	if ok1 && ok2 {
		d, _ := seqDiff(s.I.content(p.state(), got), s.I.content(rs[0].state(), want), p.pc)
		same = d == ""
	}
	c.ob(same, "file", p.fn, p.pos, "what is parsed is the file's content")
	v := restrict(p.args[1], p.pc)
	if x, ok := v.(*Iface); ok {
		v = x.v
	}
	q, ok := v.(*Ptr)
	if !c.ob(ok && len(q.path) == 0, "file", p.fn, p.pos, "the settings are filled") {
		return false
	}
	s.set = q.obj
	s.st, ok = q.obj.typ.Underlying().(*types.Struct)
	if !c.ob(ok, "file", p.fn, p.pos, "the settings are a structure") {
		return false
	}
	for _, e := range []*Event{rs[0], p} {
		c.ob(lastErr(e) != nil, "file", e.fn, e.pos, "%s reports its error", e.name)
	}
	if lastErr(p) == nil || lastErr(rs[0]) == nil {
		return false
	}
	s.okRead = AndN(p.pc, isNil(lastErr(p)), isNil(lastErr(rs[0])))
	// started with the empty structure: an absent key is the zero value
	was := p.heap.get(s.I, s.set)
	c.ob(sameUnder(was, zeroVal(q.obj.typ), p.pc), "file", p.fn, p.pos, "what the file leaves out stays empty")
	if n, ok := q.obj.typ.(*types.Named); ok {
		for _, m := range []string{"UnmarshalYAML"} {
			o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m)
			c.ob(o == nil, "keys", p.fn, p.pos, "the settings are parsed key by key; %s decides otherwise", m)
		}
	}
	return true
}

// settings finds the settings by the documented keys.
func (s *startRun) settings() {
	c := s.c
	seen := map[string]bool{}
	for i := 0; i < s.st.NumFields(); i++ {
		f := s.st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.st.Tag(i))
		y := tag.Get("yaml")
		if y == "" && !strings.Contains(string(tag), ":") {
			y = string(tag)
		}
		parts := strings.Split(y, ",")
		k := parts[0]
		if k == "" {
			k = strings.ToLower(f.Name())
		}
		if k == "-" {
			continue
		}
		c.ob(!seen[k], "keys", s.parsed.fn, f.Pos(), "the key %q is used once", k)
		seen[k] = true
		h := fieldHavoc(s, f, i)
		s.fields[k] = h
	}
	kinds := map[string]func(t types.Type) bool{
		"host": isText, "port": isText, "log_level": isText,
		"conn_ttl": func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		},
		"storage": func(t types.Type) bool {
			m, ok := t.Underlying().(*types.Map)
			if !ok || !isText(m.Key()) {
				return false
			}
			n, ok := m.Elem().Underlying().(*types.Map)
			return ok && isText(n.Key()) && isText(n.Elem())
		},
	}
	for _, k := range []string{"host", "port", "conn_ttl", "log_level", "storage"} {
		t := s.typeOf(k)
		c.ob(s.fields[k] != nil && t != nil && kinds[k](t), "keys", s.parsed.fn, s.parsed.pos, "the key %q is read", k)
	}
}

func isText(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (s *startRun) typeOf(k string) types.Type {
	for i := 0; i < s.st.NumFields(); i++ {
		f := s.st.Field(i)
		if s.fields[k] != nil && fieldHavoc(s, f, i) != nil && keyOf(fieldHavoc(s, f, i)) == keyOf(s.fields[k]) {
			return f.Type()
		}
	}
	return nil
}

// fieldHavoc is the value of a field after parsing: taken from the state right
// behind the call.
func fieldHavoc(s *startRun, f *types.Var, i int) Val {
	key, ok := s.I.havocked[s.set]
	if !ok {
		return nil
	}
	x, ok := symVal(s.set.typ, "havoc:"+key, "after("+key+")").(*StructV)
	if !ok || i >= len(x.f) {
		return nil
	}
	return x.f[i]
}

// stops: without settings the process ends with an error.
func (s *startRun) stops() {
	c, fn, at := s.c, s.name, s.fn.Pos()
	no := Not(s.okRead)
	bad := And(no, s.out.pc)
	c.ob(none(bad), "stop", fn, at, "without settings the process does not end as if all were well; it does where %s", clip(ddString(bad), 200))
	some := False
	for _, e := range s.I.events {
		if e.kind == "exit" && And(e.pc, no) != False {
			some = Or(some, And(e.pc, no))
			c.ob(s.failing(e), "stop", e.fn, e.pos, "the process ends with an error; %s", e.name)
		}
	}
	c.ob(some != False, "stop", fn, at, "without settings the process ends")
}

// failing: an exit with a failure status.
func (r *Run) failing(e *Event) bool {
	if strings.Contains(e.name, "Fatal") || strings.Contains(e.name, "Panic") || e.name == "panic" {
		return true
	}
	if strings.HasSuffix(e.name, ".Exit") && len(e.args) == 1 {
		n, ok := restrict(e.args[0], e.pc).(*Int)
		return ok && And(e.pc, intEQ(n, intK(0, n.w, n.sgn))) == False
	}
	return false
}

func (s *startRun) listening() {
	c, fn, at := s.c, s.name, s.fn.Pos()
	ls := s.events("", "net.Listen", ".Listen", ".ListenTCP")
	if !c.ob(len(ls) == 1 && ls[0].name == "net.Listen", "address", fn, at, "the receiver listens at one place (found %d)", len(ls)) {
		return
	}
	l := ls[0]
	s.listens = l
	bad := And(l.pc, Not(s.okRead))
	c.ob(none(bad), "stop", l.fn, l.pos, "it listens only with settings read; also where %s", clip(ddString(bad), 200))
	bad = And(s.okRead, Not(l.pc))
	c.ob(none(bad), "address", l.fn, l.pos, "with settings read it listens; not where %s", clip(ddString(bad), 200))
	if err := lastErr(l); c.ob(err != nil, "address", l.fn, l.pos, "listening reports its error") {
		acc := False
		for _, e := range s.events("invoke", ".Accept") {
			for _, o := range e.loops {
				acc = Or(acc, o.entry.pc)
			}
		}
		bad = AndN(l.pc, isNil(err), Not(acc))
		c.ob(none(bad), "address", l.fn, l.pos, "where it listens it accepts connections; not where %s", clip(ddString(bad), 200))
	}
	c.ob(sameUnder(l.args[0], strK("tcp"), l.pc), "address", l.fn, l.pos, "it listens on tcp")
	if s.fields["host"] == nil || s.fields["port"] == nil {
		return
	}
	host, port := asStr(s.fields["host"]), asStr(s.fields["port"])
	want := &Str{host.s.concat(strK(":").s).concat(port.s)}
	ok := sameUnder(l.args[1], want, l.pc)
	for _, j := range s.events("call", "net.JoinHostPort") {
		if And(j.pc, l.pc) == l.pc && keyOf(restrict(l.args[1], l.pc)) == keyOf(restrict(j.res, l.pc)) {
			ok = ok || sameUnder(j.args[0], host, l.pc) && sameUnder(j.args[1], port, l.pc)
		}
	}
	c.ob(ok, "address", l.fn, l.pos, "it listens on host:port of the settings; on %s", clip(show(restrict(l.args[1], l.pc)), 200))
}

// level: the log level is set before listening.
func (s *startRun) level() {
	c, fn, at := s.c, s.name, s.fn.Pos()
	if s.listens == nil || s.fields["log_level"] == nil {
		return
	}
	es := s.events("log", "github.com/sirupsen/logrus.SetLevel", ".SetLevel")
	some := False
	txt := asStr(s.fields["log_level"])
	for _, e := range es {
		c.ob(len(e.loops) == 0 && And(some, e.pc) == False, "level", e.fn, e.pos, "the level is set once")
		some = Or(some, e.pc)
		n, ok := e.args[len(e.args)-1].(*Int)
		if !c.ob(ok, "level", e.fn, e.pos, "a level is set") {
			continue
		}
		rest := And(e.pc, s.listens.pc)
		is := func(name, level string, g Node) {
			k, ok := c.levelConst(level)
			if !c.ob(ok, "level", e.fn, e.pos, "the level %s is known", level) {
				return
			}
			g = And(g, s.listens.pc)
			bad := And(g, Not(intEQ(n, intK(k, n.w, n.sgn))))
			c.ob(g != False && bad == False, "level", e.fn, e.pos, "%s means %s; it means %s", name, level, clip(show(restrict(n, bad)), 100))
		}
		for _, x := range [][2]string{{"DEBUG", "DebugLevel"}, {"INFO", "InfoLevel"}, {"WARN", "WarnLevel"}, {"ERROR", "ErrorLevel"}} {
			g := seqEQ(txt.s, strK(x[0]).s)
			is(x[0], x[1], And(e.pc, g))
			rest = And(rest, Not(g))
		}
		is("anything else", "InfoLevel", rest)
	}
	bad := And(s.listens.pc, Not(some))
	c.ob(none(bad), "level", fn, at, "the level is set before listening; not where %s", clip(ddString(bad), 200))
}

// levelConst is the value of a level of the logging library.
func (c *Check) levelConst(name string) (int64, bool) {
	for _, p := range c.p.prog.AllPackages() {
		if p.Pkg.Path() == "github.com/sirupsen/logrus" {
			if k := p.Const(name); k != nil {
				return constant.Int64Val(k.Value.Value)
			}
		}
	}
	return 0, false
}

// stores: what the handler of a connection is started with.
// serverIn is the server that p points to, or that a structure it points to has.
func (s *startRun) serverIn(e *Event, p *Ptr, deep int) *StructV {
	v, _ := e.heap.get(s.I, p.obj).(*StructV)
	if v == nil || deep > 2 {
		return nil
	}
	for _, f := range v.f {
		if q, ok := f.(*Ptr); ok && q.obj != nil && len(q.path) == 0 {
			if n, ok := q.obj.typ.(*types.Named); ok && n.Obj().Name() == "Server" {
				return s.serverIn(e, q, deep+1)
			}
		}
	}
	return v
}

func (s *startRun) stores(h *ssa.Function) {
	c, fn, at := s.c, s.name, s.fn.Pos()
	if s.listens == nil {
		return
	}
	var loads []*Event
	for _, e := range s.I.events {
		if e.ssaFn != nil && e.ssaFn.Name() == "LoadStorages" && e.pc != False {
			loads = append(loads, e)
		}
	}
	if !c.ob(len(loads) == 1 && len(loads[0].loops) == 0, "storage", fn, at, "the storages are loaded at one place (found %d)", len(loads)) {
		return
	}
	ld := loads[0]
	if s.fields["storage"] != nil {
		c.ob(sameUnder(ld.args[1], s.fields["storage"], And(ld.pc, s.okRead)), "storage", ld.fn, ld.pos, "they are those of the settings; %s", clip(show(ld.args[1]), 200))
	}
	bad := AndN(s.listens.pc, Not(ld.pc))
	c.ob(none(bad), "storage", ld.fn, ld.pos, "they are loaded before listening")
	failed := Not(isNil(ld.res))
	repo, _ := restrict(ld.args[0], ld.pc).(*Ptr)
	if !c.ob(repo != nil, "storage", ld.fn, ld.pos, "they are loaded into a repository") {
		return
	}
	n := 0
	for _, e := range s.I.events {
		if e.kind != "go" || e.pc == False {
			continue
		}
		if e = s.I.started(e, h); e == nil {
			continue
		}
		n++
		srv, _ := restrict(e.args[0], e.pc).(*Ptr)
		var sv *StructV
		if srv != nil && len(srv.path) == 0 {
			sv = s.serverIn(e, srv, 0)
		}
		if !c.ob(sv != nil, "storage", e.fn, e.pos, "a connection is handled by a server made here") {
			continue
		}
		st := sv.typ.Underlying().(*types.Struct)
		ttl, store := false, false
		for i := 0; i < st.NumFields(); i++ {
			t := st.Field(i).Type()
			v := restrict(sv.f[i], e.pc)
			switch {
			case t.String() == "time.Duration":
				ttl = true
				want, ok := s.fields["conn_ttl"].(*Int)
				got, ok2 := v.(*Int)
				same := false
				if ok && ok2 {
					l := convInt(want, 64, true, e.pc).asLin().scale(1000000000)
					same = linEqUnder(got.asLin(), l, e.pc)
				}
				c.ob(same, "limit", e.fn, e.pos, "a connection may be idle for conn_ttl seconds; for %s", clip(show(v), 200))
			case c.savesThings(t):
				store = true
				if x, ok := v.(*Iface); ok {
					v = x.v
				}
				p, ok := v.(*Ptr)
				c.ob(ok && p.obj == repo.obj, "storage", e.fn, e.pos, "records go to the repository that was loaded; to %s", clip(show(v), 100))
			}
		}
		c.ob(ttl, "limit", e.fn, e.pos, "a connection has an idle limit")
		c.ob(store, "storage", e.fn, e.pos, "a connection has a store")
		// loading failed: a store that prints
		g := And(e.pc, failed)
		c.ob(g != False, "storage", e.fn, e.pos, "without usable storage connections are still handled")
		ok := false
		if rv, is := e.heap.get(s.I, repo.obj).(*StructV); is {
			rst := rv.typ.Underlying().(*types.Struct)
			for i := 0; i < rst.NumFields(); i++ {
				sl, is := rst.Field(i).Type().Underlying().(*types.Slice)
				if !is {
					continue
				}
				q, _ := s.I.contentAny(e.state(), restrict(rv.f[i], g), sl)
				covered := False
				for _, p := range q.under(g).ps {
					if p.v == nil {
						continue
					}
					x, is := restrict(p.v, And(g, p.g)).(*Iface)
					if is && x.typ != nil && strings.HasSuffix(strings.TrimPrefix(x.typ.String(), "*"), storageRel+".LogConnector") {
						covered = Or(covered, p.g)
					}
				}
				ok = ok || And(g, Not(covered)) == False
			}
		}
		c.ob(ok, "storage", e.fn, e.pos, "without usable storage records are printed")
	}
	c.ob(n > 0, "storage", fn, at, "connections are handled")
}

// savesThings: the type has a Save method.
func (c *Check) savesThings(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "Save")
	return o != nil
}
