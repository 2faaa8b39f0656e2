package main

// The backends: what they connect to when initialised and what they pass on
// when saving.

import (
	"go/types"
	"sort"
	"strings"
)

func init() {
	checks["C21"] = checkDef{"proof", "Init of every backend on any configuration, followed by Save of any record on what Init left: every connection step, its parameters, the delivery operation, its payload and destination, and what success implies", checkC21, 80}
}

type backendRun struct {
	*Run
	n    *types.Named
	cfg  Val
	keys []string
	msg  Val
	conn Val // what delivers
}

// backendSpec: what a backend needs and does.
type backendSpec struct {
	pkg     string
	keys    []string // documented keys
	connect func(b *backendRun) Val
	deliver func(b *backendRun, conn Val)
}

var backendSpecs = []backendSpec{
	{"mysql", []string{"uri", "database", "table"}, func(b *backendRun) Val { return b.sqlOpen("mysql", "{uri}") }, func(b *backendRun, c Val) { b.sqlInsert(c, "?") }},
	{"postgresql", []string{"host", "port", "user", "password", "database", "table", "sslmode"}, func(b *backendRun) Val {
		return b.sqlOpen("postgres", "dbname={database} host={host} port={port} user={user} password={password} sslmode={sslmode}")
	}, func(b *backendRun, c Val) { b.sqlInsert(c, "$1") }},
	{"rabbitmq", []string{"host", "port", "user", "password", "exchange", "key"}, (*backendRun).amqpOpen, (*backendRun).amqpPublish},
	{"nats", []string{"servers", "topic", "user", "password"}, (*backendRun).natsOpen, (*backendRun).natsPublish},
	{"redis", []string{"server", "queue", "password", "db"}, (*backendRun).redisOpen, (*backendRun).redisPublish},
	{"tarantool_queue", []string{"host", "port", "user", "password", "max_recons", "timeout", "reconnect", "queue"}, (*backendRun).tarantoolOpen, (*backendRun).tarantoolPut},
}

func checkC21(c *Check) {
	for i := range backendSpecs {
		c.backend(&backendSpecs[i])
	}
	c.logBackend()
}

func (c *Check) backend(s *backendSpec) {
	rel := storageRel + "/store/" + s.pkg
	n, ini := c.anchor(rel, "Connector", "Init")
	if n == nil || ini == nil {
		return
	}
	_, save := c.anchor(rel, "Connector", "Save")
	if save == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, zeroVal(n))
	r.call(ini)
	r.decided()
	b := &backendRun{Run: r, n: n, keys: s.keys, cfg: r.args[1]}
	none := And(isNil(b.cfg), r.succ)
	c.ob(isNil(b.cfg) != False && none == False, "config", r.name, ini.Pos(), "no configuration is an error")
	r.stepsReported()
	b.conn = s.connect(b)
	if b.conn == nil || r.succ == False {
		c.ob(r.succ != False, "connect", r.name, ini.Pos(), "initialisation can succeed")
		return
	}
	// saving, after a successful initialisation
	q := &Run{c: c, I: r.I, nam: n, recv: r.recv, args: []Val{r.args[0]}}
	q.st = &State{heap: r.out.heap, pc: r.succ}
	r.I.events, r.I.falls = nil, nil
	q.call(save)
	q.decided()
	b.Run = q
	b.msg = q.args[1]
	none = And(isNil(b.msg), q.succ)
	c.ob(isNil(b.msg) != False && none == False, "record", q.name, save.Pos(), "no record is an error")
	q.stepsReported()
	s.deliver(b, b.conn)
}

// stepsReported: no failure is passed over, except that of letting go of
// something.
func (r *Run) stepsReported() {
	all := r.I.falls
	r.I.falls = nil
	for _, f := range all {
		if !hasName(f.what, "Close") {
			r.I.falls = append(r.I.falls, f)
		}
	}
	r.fallsReported("report", false)
}

// text gives the pattern of a text: configured values as {key}; ok is false if
// it is made of something else.
func (b *backendRun) text(v Val, g Node) (string, bool) {
	if x, ok := v.(*Iface); ok {
		v = x.v
	}
	return b.textOf(asStr(restrict(v, g)).s, And(g, b.given(b.keys...)))
}

func (b *backendRun) textOf(s *Seq, g Node) (string, bool) {
	src := map[Term]string{}
	for _, k := range b.keys {
		x := asStr(b.setting(k))
		if len(x.s.ps) == 1 {
			src[x.s.ps[0].src] = k
		}
	}
	var out strings.Builder
	for _, p := range s.under(g).ps {
		if p.v != nil {
			x, ok := p.v.(*Int)
			if !ok {
				return out.String(), false
			}
			n, ok := x.asLin().under(g).isConst()
			if !ok {
				return out.String(), false
			}
			out.WriteByte(byte(n))
			continue
		}
		k, ok := src[p.src]
		if n, z := p.off.isConst(); !ok || !z || n != 0 || !p.n.eq(lenTerm(p.src)) {
			return out.String() + "{" + clip(show(&Str{&Seq{ps: []Piece{p}, byts: true}}), 60) + "}", false
		}
		out.WriteString("{" + k + "}")
	}
	return out.String(), true
}

func (b *backendRun) settingKey(k string) string {
	return "lookup(" + keyOf(b.cfg) + "," + keyOf(strK(k)) + ")"
}

func (b *backendRun) setting(k string) Val {
	return symVal(types.Typ[types.String], b.settingKey(k), "["+k+"]")
}

// given: the configuration has these keys.
func (b *backendRun) given(ks ...string) Node {
	g := True
	for _, k := range ks {
		g = And(g, opAtom("has("+b.settingKey(k)+")", false))
	}
	return g
}

func (b *backendRun) isText(e *Event, what string, v Val, want string, norm func(string) string) {
	if v == nil {
		b.c.ob(false, "destination", e.fn, e.pos, "%s is missing", what)
		return
	}
	got, ok := b.text(v, e.pc)
	w := want
	if norm != nil {
		got, w = norm(got), norm(want)
	}
	b.c.ob(ok && got == w, "destination", e.fn, e.pos, "%s is %q, expected %q", what, got, w)
}

func oneSpace(s string) string {
	s = strings.ToLower(s)
	for _, p := range []string{"(", ")", ","} {
		s = strings.ReplaceAll(s, p, " "+p+" ")
	}
	return strings.TrimSuffix(strings.TrimSpace(strings.TrimSuffix(strings.Join(strings.Fields(s), " "), ";")), " ")
}

func anyOrder(s string) string {
	f := strings.Fields(s)
	sort.Strings(f)
	return strings.Join(f, " ")
}

// calls to one of the functions pkg.name (pkg the end of a package path, or a
// type of it).
func (b *backendRun) extCalls(pkg string, names ...string) []*Event {
	var out []*Event
	for _, e := range b.I.events {
		if e.kind != "call" && e.kind != "invoke" || e.pc == False || !strings.Contains(e.name, pkg) {
			continue
		}
		for _, n := range names {
			if hasName(e.name, n) {
				out = append(out, e)
				break
			}
		}
	}
	return out
}

// step: exactly one of the calls happened and reported no error whenever the
// function succeeds.
func (b *backendRun) step(rule, what string, es []*Event) bool {
	c, fn, at := b.c, b.name, b.fn.Pos()
	if !c.ob(len(es) > 0, rule, fn, at, "%s", what) {
		return false
	}
	some := False
	for _, e := range es {
		c.ob(len(e.loops) == 0, rule, e.fn, e.pos, "%s, once: %s is in a loop", what, e.name)
		c.ob(And(some, e.pc) == False, rule, e.fn, e.pos, "%s, once: %s follows another", what, e.name)
		some = Or(some, e.pc)
		if err := lastErr(e); err != nil {
			bad := AndN(b.succ, e.pc, Not(isNil(err)))
			c.ob(none(bad), rule, e.fn, e.pos, "success means %s succeeded; not where %s", e.name, clip(ddString(bad), 300))
		}
	}
	bad := And(b.succ, Not(some))
	return c.ob(none(bad), rule, fn, at, "%s, whenever it succeeds; not where %s", what, clip(ddString(bad), 300))
}

// lastErr is the error among a call's results.
func lastErr(e *Event) Val {
	if t, ok := e.res.(*Tuple); ok {
		if len(t.vs) == 0 {
			return nil
		}
		v := t.vs[len(t.vs)-1]
		if x, ok := v.(*Opaque); ok && isErrorType(x.typ) {
			return v
		}
		return nil
	}
	if x, ok := e.res.(*Opaque); ok && x.typ != nil && isErrorType(x.typ) {
		return x
	}
	return nil
}

// result is a call's first result.
func result(e *Event) Val {
	if t, ok := e.res.(*Tuple); ok {
		return t.vs[0]
	}
	return e.res
}

// from: v is (or was reached through) the result w.
func from(v, w Val, g Node) bool {
	if x, ok := v.(*Iface); ok {
		v = x.v
	}
	if x, ok := w.(*Iface); ok {
		w = x.v
	}
	if v == nil || w == nil {
		return false
	}
	v, w = restrict(v, g), restrict(w, g)
	if keyOf(v) == keyOf(w) {
		return true
	}
	if p, ok := v.(*Ptr); ok {
		if q, ok := w.(*Ptr); ok {
			return p.obj == q.obj
		}
	}
	return within(show(v), show(w))
}

// within: the name of v starts from w.
func within(v, w string) bool {
	for i := 0; i+len(w) <= len(v); i++ {
		if v[i:i+len(w)] == w && len(w) > 0 && (i+len(w) == len(v) || v[i+len(w)] < '0' || v[i+len(w)] > '9') {
			return true
		}
	}
	return false
}

// kept: the receiver holds on to a result after initialisation: looked at by
// the delivery, which runs on what initialisation left.
func (b *backendRun) onConn(e *Event, got, conn Val) {
	b.c.ob(from(got, conn, e.pc), "destination", e.fn, e.pos, "%s is called on the connection made in Init; on %s", e.name, clip(show(restrict(got, e.pc)), 120))
}

// isPayload: v is what ToBytes gave.
func (b *backendRun) isPayload(e *Event, v Val) {
	c := b.c
	var ts []*Event
	for _, t := range b.I.events {
		if t.kind == "invoke" && hasName(t.name, "ToBytes") && t.pc != False {
			ts = append(ts, t)
		}
	}
	if !b.step("record", "the record is serialised", ts) {
		return
	}
	bt := types.NewSlice(types.Typ[types.Uint8])
	some := False
	for _, t := range ts {
		g := And(e.pc, t.pc)
		some = Or(some, g)
		c.ob(from(t.recv, b.msg, g), "payload", t.fn, t.pos, "it is the record given that is serialised")
		x, ok := result(t).(*Slice)
		if !ok {
			c.ob(false, "payload", t.fn, t.pos, "the serialised record is a byte slice")
			continue
		}
		want := b.I.content(t.state(), x)
		got := payloadOf(b, e, v, bt)
		if !c.ob(got != nil, "payload", e.fn, e.pos, "%s is passed data; it gets %s", e.name, clip(show(v), 120)) {
			continue
		}
		d, _ := seqDiff(got, want, g)
		c.ob(d == "", "payload", e.fn, e.pos, "%s is passed exactly the serialised record: %s", e.name, d)
	}
	bad := And(e.pc, Not(some))
	c.ob(none(bad), "payload", e.fn, e.pos, "the record is serialised before it is passed on")
}

func payloadOf(b *backendRun, e *Event, v Val, bt types.Type) *Seq {
	for {
		x, ok := v.(*Iface)
		if !ok {
			break
		}
		v = x.v
	}
	switch x := v.(type) {
	case *Str:
		return x.s
	case *Slice:
		if !isByteType(x.elt) {
			// the values of a variadic call: one value
			q := b.I.content(e.state(), x).under(e.pc)
			if len(q.ps) != 1 || q.ps[0].v == nil {
				return nil
			}
			return payloadOf(b, e, q.ps[0].v, bt)
		}
		return b.I.content(e.state(), x)
	case *IteV:
		return payloadOf(b, e, restrict(x, e.pc), bt)
	}
	return nil
}

// fieldAt is a field of a struct argument, given directly or by a pointer.
func (b *backendRun) fieldAt(e *Event, v Val, name string) Val {
	return b.fieldUnder(e, restrict(v, e.pc), name, e.pc)
}

func (b *backendRun) fieldUnder(e *Event, v Val, name string, g Node) Val {
	if x, ok := v.(*IteV); ok {
		p, q := b.fieldUnder(e, x.a, name, And(g, x.g)), b.fieldUnder(e, x.b, name, And(g, Not(x.g)))
		if p == nil || q == nil {
			return nil
		}
		return iteVal(x.g, p, q)
	}
	if p, ok := v.(*Ptr); ok {
		t := p.obj.typ
		if _, ok := t.Underlying().(*types.Struct); ok && len(p.path) == 0 {
			return b.fieldUnder(e, restrict(e.heap.get(b.I, p.obj), g), name, g)
		}
		return nil
	}
	if x, ok := v.(*StructV); ok {
		if st, ok := x.typ.Underlying().(*types.Struct); ok {
			return fieldNamed(st, x, name)
		}
	}
	return nil
}

func fieldNamed(st *types.Struct, x *StructV, name string) Val {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.f[i]
		}
	}
	return nil
}

// SQL databases

func (b *backendRun) sqlOpen(driver, dsn string) Val {
	es := b.extCalls("database/sql", "Open")
	if !b.step("connect", "the database is opened", es) {
		return nil
	}
	var conn Val
	for _, e := range es {
		d, ok := b.text(e.args[0], e.pc)
		b.c.ob(ok && d == driver, "connect", e.fn, e.pos, "the driver is %q, not %q", driver, d)
		norm := anyOrder
		if !strings.Contains(dsn, " ") {
			norm = nil
		}
		b.isText(e, "the data source", e.args[1], dsn, norm)
		conn = result(e)
	}
	ps := b.extCalls("database/sql", "Ping", "PingContext")
	if b.step("connect", "the database is reached", ps) {
		for _, p := range ps {
			b.onConn(p, p.args[0], conn)
		}
	}
	return conn
}

func (b *backendRun) sqlInsert(conn Val, mark string) {
	es := b.extCalls("database/sql", "Exec", "ExecContext")
	if !b.step("deliver", "the record is inserted", es) {
		return
	}
	for _, e := range es {
		i := 1
		if hasName(e.name, "ExecContext") {
			i = 2
		}
		query := e
		qi := i
		on := e.args[0]
		if strings.Contains(e.name, "Stmt") {
			// a prepared statement
			query = nil
			for _, p := range b.extCalls("database/sql", "Prepare", "PrepareContext") {
				if from(e.args[0], result(p), e.pc) {
					query, qi, on = p, len(p.args)-1, p.args[0]
				}
			}
			i--
		}
		b.c.ob(strings.Contains(e.name, "sql.DB)") || strings.Contains(e.name, "sql.Stmt)"), "deliver", e.fn, e.pos, "the insertion is done when Exec returns; %s waits for more", e.name)
		if !b.c.ob(query != nil && qi < len(query.args) && i+1 < len(e.args), "deliver", e.fn, e.pos, "the statement of %s is known", e.name) {
			continue
		}
		b.isText(query, "the statement", query.args[qi], "INSERT INTO {table} (point) VALUES ("+mark+")", oneSpace)
		b.onConn(query, on, conn)
		b.isPayload(e, e.args[i+1])
	}
}

// RabbitMQ

func (b *backendRun) amqpOpen() Val {
	es := b.extCalls("amqp", "Dial", "DialConfig")
	if !b.step("connect", "the broker is connected", es) {
		return nil
	}
	var conn, ch Val
	for _, e := range es {
		b.isText(e, "the broker's address", e.args[0], "amqp://{user}:{password}@{host}:{port}/", nil)
		conn = result(e)
	}
	cs := b.extCalls("amqp", "Channel")
	if !b.step("connect", "a channel is opened", cs) {
		return nil
	}
	for _, e := range cs {
		b.onConn(e, e.args[0], conn)
		ch = result(e)
	}
	return ch
}

func (b *backendRun) amqpPublish(ch Val) {
	es := b.extCalls("amqp", "Publish", "PublishWithContext")
	if !b.step("deliver", "the record is published", es) {
		return
	}
	for _, e := range es {
		i := len(e.args) - 5
		if !b.c.ob(i >= 1, "deliver", e.fn, e.pos, "%s is a publication", e.name) {
			continue
		}
		b.onConn(e, e.args[0], ch)
		b.isText(e, "the exchange", e.args[i], "{exchange}", nil)
		b.isText(e, "the routing key", e.args[i+1], "{key}", nil)
		body := b.fieldAt(e, restrict(e.args[i+4], e.pc), "Body")
		if b.c.ob(body != nil, "payload", e.fn, e.pos, "the message has a body") {
			b.isPayload(e, body)
		}
	}
}

// NATS

func (b *backendRun) natsOpen() Val {
	es := b.extCalls("nats.go", "Connect")
	if !b.step("connect", "the bus is connected", es) {
		return nil
	}
	var conn Val
	auth := b.extCalls("nats.go", "UserInfo")
	for _, e := range es {
		b.isText(e, "the bus address", e.args[0], "{servers}", nil)
		conn = result(e)
		both := And(e.pc, b.given("user", "password"))
		some := False
		for _, a := range auth {
			g := And(a.pc, both)
			some = Or(some, g)
			b.isText(a, "the user", a.args[0], "{user}", nil)
			b.isText(a, "the password", a.args[1], "{password}", nil)
			has := false
			if sl, ok := restrict(e.args[len(e.args)-1], g).(*Slice); ok {
				for _, p := range b.I.content(e.state(), sl).under(g).ps {
					has = has || p.v != nil && keyOf(p.v) == keyOf(result(a))
				}
			}
			b.c.ob(has, "connect", a.fn, a.pos, "the configured user is one of the connection's options")
		}
		b.c.ob(And(both, Not(some)) == False, "connect", e.fn, e.pos, "a configured user and password are used")
	}
	return conn
}

func (b *backendRun) natsPublish(conn Val) {
	es := b.extCalls("nats.go", "Publish", "Request", "PublishMsg")
	if !b.step("deliver", "the record is published", es) {
		return
	}
	for _, e := range es {
		if !b.c.ob(hasName(e.name, "Publish") && len(e.args) == 3, "deliver", e.fn, e.pos, "%s is a publication", e.name) {
			continue
		}
		b.onConn(e, e.args[0], conn)
		b.isText(e, "the topic", e.args[1], "{topic}", nil)
		b.isPayload(e, e.args[2])
	}
}

// Redis

func (b *backendRun) redisOpen() Val {
	es := b.extCalls("go-redis", "NewClient")
	if !b.step("connect", "a client is made", es) {
		return nil
	}
	c := b.c
	var conn Val
	for _, e := range es {
		conn = result(e)
		b.isText(e, "the server's address", b.fieldAt(e, e.args[0], "Addr"), "{server}", nil)
		b.isText(e, "the password", b.fieldAt(e, e.args[0], "Password"), "{password}", nil)
		db := b.fieldAt(e, e.args[0], "DB")
		if !c.ob(db != nil, "connect", e.fn, e.pos, "the database is chosen") {
			continue
		}
		n, ok := db.(*Int)
		if !c.ob(ok, "connect", e.fn, e.pos, "the database is a number") {
			continue
		}
		c.ob(b.isParsed(n, "{db}", 1, And(e.pc, b.given("db"))), "connect", e.fn, e.pos, "the database is the configured one; it is %s", clip(show(db), 200))
		without := AndN(b.succ, e.pc, Not(b.given("db")))
		c.ob(b.isParsed(n, "0", 1, without), "connect", e.fn, e.pos, "without a configured database it is 0; it is %s", clip(show(restrict(db, without)), 200))
	}
	bad := And(b.succ, Not(b.given("server", "queue")))
	c.ob(none(bad), "config", b.name, b.fn.Pos(), "server and queue must be configured; success where %s", clip(ddString(bad), 200))
	return conn
}

// isParsed: n is the number a setting's text stands for, scaled.
func (b *backendRun) isParsed(n *Int, want string, unit int64, g Node) bool {
	if g == False {
		return false
	}
	n, ok := restrict(n, g).(*Int)
	if !ok {
		return false
	}
	if c, ok := n.asLin().under(g).isConst(); ok {
		return c == 0 && want == "0"
	}
	for t, s := range parseArgs {
		got, ok := b.textOf(s, g)
		if !ok || got != want {
			continue
		}
		x := lt(t).scale(unit)
		l := n.asLin().under(g)
		if len(l.ts) == 1 && termTab[l.ts[0].t].kind == "wrap" && l.eq(lt(l.ts[0].t)) {
			// a change of sign
			if w, ok := termTab[l.ts[0].t].data.(Lin); ok {
				l = w.under(g)
			}
		}
		if l.eq(x) {
			return true
		}
		if unit == 1 && And(g, Not(intEQ(n, convInt(intTerm(t, 64, true), n.w, n.sgn, g)))) == False {
			return true
		}
	}
	return false
}

func (b *backendRun) redisPublish(conn Val) {
	es := b.extCalls("go-redis", "Publish")
	if !b.step("deliver", "the record is published", es) {
		return
	}
	c := b.c
	for _, e := range es {
		if !c.ob(len(e.args) == 4, "deliver", e.fn, e.pos, "%s is a publication", e.name) {
			continue
		}
		b.onConn(e, e.args[0], conn)
		b.isText(e, "the channel", e.args[2], "{queue}", nil)
		b.isPayload(e, e.args[3])
		asked := False
		for _, q := range b.extCalls("go-redis", "Err", "Result") {
			if !from(q.args[0], result(e), q.pc) {
				continue
			}
			asked = Or(asked, q.pc)
			err := lastErr(q)
			bad := True
			if err != nil {
				bad = AndN(b.succ, q.pc, Not(isNil(err)))
			}
			c.ob(none(bad), "deliver", q.fn, q.pos, "success means the publication succeeded; not where %s", clip(ddString(bad), 200))
		}
		bad := AndN(b.succ, e.pc, Not(asked))
		c.ob(none(bad), "deliver", e.fn, e.pos, "the outcome of the publication is looked at")
	}
}

// Tarantool

func (b *backendRun) tarantoolOpen() Val {
	es := b.extCalls("go-tarantool.", "Connect")
	if !b.step("connect", "the server is connected", es) {
		return nil
	}
	c := b.c
	var conn, qu Val
	for _, e := range es {
		conn = result(e)
		b.isText(e, "the server's address", e.args[0], "{host}:{port}", nil)
		o := restrict(e.args[1], e.pc)
		b.isText(e, "the user", b.fieldAt(e, o, "User"), "{user}", nil)
		b.isText(e, "the password", b.fieldAt(e, o, "Pass"), "{password}", nil)
		for _, x := range []struct {
			field, key string
			unit       int64
		}{{"Timeout", "timeout", 1000000000}, {"Reconnect", "reconnect", 1000000000}, {"MaxReconnects", "max_recons", 1}} {
			n, ok := b.fieldAt(e, o, x.field).(*Int)
			c.ob(ok && b.isParsed(n, "{"+x.key+"}", x.unit, And(e.pc, b.given(x.key))), "connect", e.fn, e.pos, "%s is the configured %s; it is %s", x.field, x.key, clip(show(n), 200))
		}
	}
	qs := b.extCalls("go-tarantool/queue", "New")
	if !b.step("connect", "the queue is opened", qs) {
		return nil
	}
	for _, e := range qs {
		b.onConn(e, e.args[0], conn)
		b.isText(e, "the queue", e.args[1], "{queue}", nil)
		qu = result(e)
	}
	return qu
}

func (b *backendRun) tarantoolPut(qu Val) {
	es := b.extCalls("go-tarantool/queue", "Put", "PutWithOpts")
	if !b.step("deliver", "the record is put into the queue", es) {
		return
	}
	for _, e := range es {
		args, on := e.args, e.recv
		if e.kind == "call" {
			args, on = e.args[1:], e.args[0]
		}
		if !b.c.ob(len(args) >= 1, "deliver", e.fn, e.pos, "%s is passed data", e.name) {
			continue
		}
		b.onConn(e, on, qu)
		b.isPayload(e, args[0])
	}
}

// the store that is used when no other can be

func (c *Check) logBackend() {
	n, save := c.anchor(storageRel, "LogConnector", "Save")
	if save == nil {
		return
	}
	r := c.begin()
	r.setRecv(n, symVal(n, "v", "v"))
	r.call(save)
	r.decided()
	r.fallsReported("report", false)
	b := &backendRun{Run: r, n: n, msg: r.args[1]}
	ms := b.extCalls("encoding/json", "Marshal", "MarshalIndent")
	if !b.step("record", "the record is rendered", ms) {
		return
	}
	for _, m := range ms {
		c.ob(from(m.args[0], b.msg, m.pc), "payload", m.fn, m.pos, "it is the record given that is rendered")
		x, ok := result(m).(*Slice)
		if !ok {
			continue
		}
		want := r.I.content(m.state(), x)
		some := False
		for _, e := range r.I.events {
			if e.kind != "log" || e.pc == False {
				continue
			}
			for _, a := range e.args {
				if got := payloadOf(b, e, a, nil); got != nil {
					if d, _ := seqDiff(got, want, And(e.pc, m.pc)); d == "" {
						some = Or(some, e.pc)
					}
				}
			}
		}
		bad := AndN(r.succ, m.pc, Not(some))
		c.ob(none(bad), "payload", m.fn, m.pos, "the rendered record is logged; not where %s", clip(ddString(bad), 200))
	}
	out := False
	for _, e := range r.I.events {
		if e.kind == "log" {
			for _, m := range []string{"Info", "Infof", "Infoln", "Print", "Printf", "Println", "Warn", "Warnf", "Error", "Errorf"} {
				if hasName(e.name, m) {
					out = Or(out, e.pc)
				}
			}
		}
	}
	bad := And(r.succ, Not(out))
	c.ob(none(bad), "deliver", r.name, save.Pos(), "the record is logged; not where %s", clip(ddString(bad), 200))
}
