package main

// The frame of the checks: obligations, findings, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	rule, fn, what string
	pos            token.Pos
}

type Check struct {
	id, tier  string
	p         *Program
	rules     map[string]int // obligations per rule
	obls      int
	findings  []Finding
	samples   []string
	fns       map[string]bool
	loops     int
	sites     int
	spareArgs bool // slices passed to roots have spare capacity
	min       int  // obligations counted by hand on the checked tree; fewer is a finding
}

type checkDef struct {
	level string
	note  string
	run   func(c *Check)
	min   int
}

var checks = map[string]checkDef{}

func (c *Check) ob(ok bool, rule, fn string, pos token.Pos, format string, a ...interface{}) bool {
	c.obls++
	c.rules[rule]++
	if ok {
		if c.rules[rule] <= 3 {
			w := format
			if len(a) > 0 {
				w = fmt.Sprintf(format, a...)
			}
			c.samples = append(c.samples, fmt.Sprintf("%s: %s%s", rule, at(c.p, fn, pos), clip(w, 200)))
		}
		return true
	}
	c.findings = append(c.findings, Finding{rule, fn, clip(fmt.Sprintf(format, a...), 9000), pos})
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func at(p *Program, fn string, pos token.Pos) string {
	r := ""
	if fn != "" {
		r = "in " + fn + " "
	}
	if pos != token.NoPos {
		q := p.fset.Position(pos)
		r += fmt.Sprintf("(%s:%d) ", strings.TrimPrefix(q.Filename, repoRoot()+"/"), q.Line)
	}
	return r
}

func repoRoot() string {
	if r := os.Getenv("GSA_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func verifRoot() string {
	if r := os.Getenv("GSA_VERIF"); r != "" {
		return r
	}
	return "/verif"
}

// ---------------------------------------------------------------- runs

// Run is one analysed root.
type Run struct {
	c      *Check
	I      *Interp
	fn     *ssa.Function
	st     *State
	out    *State
	recv   *Obj
	nam    *types.Named
	args   []Val
	res    []Val
	succ   Node // returned without error
	hasSrc bool
	src    Term // first argument, if a byte slice
	name   string
	conn   Val // the connection, where the function is not given it as such
}

// begin starts a new root: all terms of earlier roots are gone.
func (c *Check) begin() *Run {
	resetAll()
	noDelim = nil
	shortParts = false
	r := &Run{c: c, I: newInterp(c.p)}
	r.st = &State{heap: &Heap{m: map[int]Val{}}, pc: True}
	return r
}

// method of a type of the library, nil (and a finding) if there is none.
func (c *Check) anchor(rel, typ, method string) (*types.Named, *ssa.Function) {
	if typ == "" {
		f := c.p.fn(rel, method)
		c.ob(f != nil, "anchor", method, token.NoPos, "function %s.%s exists", rel, method)
		return nil, f
	}
	n := c.p.named(rel, typ)
	if n == nil {
		c.ob(false, "anchor", typ, token.NoPos, "type %s.%s does not exist", rel, typ)
		return nil, nil
	}
	f := c.p.method(n, method)
	if f == nil {
		c.ob(false, "anchor", typ, token.NoPos, "%s.%s has no method %s", rel, typ, method)
	}
	return n, f
}

func (r *Run) setRecv(n *types.Named, v Val) {
	r.nam = n
	r.recv = newObj("cell", n, "recv")
	r.st.set(r.recv, v)
	r.args = []Val{&Ptr{obj: r.recv}}
}

// call runs fn with the receiver set before and symbolic remaining arguments.
func (r *Run) call(fn *ssa.Function, more ...Val) *Run {
	r.fn = fn
	r.name = shortFn(fn)
	r.args = append(r.args, more...)
	for _, q := range fn.Params[len(r.args):] {
		v := symVal(q.Type(), q.Name(), q.Name())
		if sl, ok := v.(*Slice); ok && r.c.spareArgs {
			// the caller's array may go on behind the slice
			r.spare(sl)
		}
		r.args = append(r.args, v)
	}
	for _, a := range r.args {
		if sl, ok := a.(*Slice); ok && !r.hasSrc && isByteType(sl.elt) {
			if q, ok := symSeqs[sl.obj.id]; ok && len(q.ps) == 1 {
				r.src, r.hasSrc = q.ps[0].src, true
			}
		}
	}
	r.res, r.out = r.I.callFn(fn, r.args, nil, r.st, "")
	r.succ = r.out.pc
	for i, x := range r.res {
		if isErrorType(fn.Signature.Results().At(i).Type()) {
			r.succ = And(r.succ, isNil(x))
		}
	}
	r.note()
	return r
}

// spare gives a symbolic argument slice spare capacity.
func (r *Run) spare(sl *Slice) {
	q := symSeqs[sl.obj.id]
	if q == nil {
		return
	}
	t := intern("cap", "argcap:"+sl.obj.name, 64, 0, 1<<40, nil, nil)
	rest := intern("list", "behind:"+sl.obj.name, 0, 0, 0, types.NewSlice(sl.elt), nil)
	symSeqs[sl.obj.id] = &Seq{byts: q.byts, ps: append(append([]Piece(nil), q.ps...), Piece{g: True, src: rest, off: lk(0), n: lt(t)})}
	sl.cap = sl.n.add(lt(t))
}

// note counts what was analysed.
func (r *Run) note() {
	for f := range r.I.analysed {
		r.c.fns[shortFn(f)] = true
	}
	r.c.loops += len(r.I.loops)
}

// decided makes anything the analysis could not follow a finding.
func (r *Run) decided() bool {
	ok := true
	for _, u := range r.I.unsup {
		r.c.ob(false, "undecided", u.fn, u.pos, "the analysis does not follow: %s", u.what)
		ok = false
	}
	return ok
}

// field of the receiver after the call, slices by content.
func (r *Run) field(name string) (Val, bool) {
	return r.fieldOf(r.out.heap.get(r.I, r.recv), name)
}

func (r *Run) fieldOf(v Val, name string) (Val, bool) {
	s, ok := v.(*StructV)
	if !ok {
		return nil, false
	}
	i, _ := fieldOf(s.typ, name)
	if i < 0 {
		return nil, false
	}
	x := s.f[i]
	return r.byContent(x), true
}

func (r *Run) byContent(x Val) Val {
	if sl, ok := x.(*Slice); ok {
		return r.I.content(r.out, sl)
	}
	if it, ok := x.(*IteV); ok {
		if _, ok := firstOf(it).(*Slice); ok {
			q, _ := r.I.contentAny(r.out, x, types.NewSlice(types.Typ[types.Uint8]))
			return q
		}
	}
	return x
}

func firstOf(v Val) Val {
	for {
		it, ok := v.(*IteV)
		if !ok {
			return v
		}
		if _, isn := it.a.(NilV); isn {
			v = it.b
			continue
		}
		v = it.a
	}
}

// ---------------------------------------------------------------- driver

type known struct {
	prop, what string
}

// knownFindings reads the committed list: "finding: property=<id> <what>".
func knownFindings() []known {
	var r []known
	b, _ := os.ReadFile(filepath.Join(verifRoot(), "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "finding: property="); ok {
			id, what, _ := strings.Cut(rest, " ")
			r = append(r, known{id, what})
		}
	}
	return r
}

func runCheck(id, tier string, p *Program, loadErr error, t0 time.Time) bool {
	def, ok := checks[id]
	if !ok {
		fmt.Println("no check", id)
		os.Exit(2)
	}
	c := &Check{id: id, tier: tier, p: p, rules: map[string]int{}, fns: map[string]bool{}, min: def.min}
	if loadErr != nil {
		c.findings = append(c.findings, Finding{rule: "load", what: "the repository cannot be analysed: " + loadErr.Error()})
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					st := string(debug.Stack())
					if os.Getenv("GSA_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, st)
					}
					c.findings = append(c.findings, Finding{rule: "undecided", what: fmt.Sprintf("the analysis stopped: %v", e)})
				}
			}()
			def.run(c)
		}()
		if c.obls < c.min && len(c.findings) == 0 {
			c.findings = append(c.findings, Finding{rule: "coverage", what: fmt.Sprintf("only %d obligations found, at least %d expected", c.obls, c.min)})
		}
	}
	bad := c.report(def, t0)
	return bad
}

func (c *Check) report(def checkDef, t0 time.Time) bool {
	var out []string
	seen := map[string]bool{}
	kn := knownFindings()
	nKnown := 0
	for _, f := range c.findings {
		pos := ""
		if c.p != nil {
			pos = at(c.p, f.fn, f.pos)
		}
		line := fmt.Sprintf("%s: %s%s", f.rule, pos, f.what)
		if seen[line] {
			continue
		}
		seen[line] = true
		isKnown := false
		for _, k := range kn {
			if k.prop == c.id && strings.HasPrefix(f.rule+": in "+f.fn+" "+f.what, k.what) {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k.what)
				isKnown = true
				nKnown++
				break
			}
		}
		if !isKnown {
			out = append(out, line)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": seedOf(), "level": def.level,
		"coverage": map[string]interface{}{
			"obligations": c.obls, "discharged": c.obls - len(c.findings),
			"checker_cmd":        "gsa check " + c.id + " (abstract interpretation of the SSA form of /repo's current source)",
			"trusted_base":       trusted,
			"rules":              c.rules,
			"functions_analysed": fns, "functions": len(fns), "loops_summarised": c.loops,
			"samples":     c.samples,
			"explanation": def.note,
			"findings":    out,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(out),
	}
	dir := filepath.Join(verifRoot(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0o644)
	rp := filepath.Join(dir, c.id+".violation")
	os.Remove(rp)
	fmt.Printf("%s: %d obligations, %d functions, %d loops, %d findings (%d known), %.1fs\n", c.id, c.obls, len(fns), c.loops, len(out)+nKnown, nKnown, time.Since(t0).Seconds())
	if len(out) == 0 {
		return false
	}
	for i, l := range out {
		if i >= 12 {
			fmt.Printf("  ... and %d more in %s\n", len(out)-i, rp)
			break
		}
		fmt.Println("  " + clip(l, 600))
	}
	os.WriteFile(rp, []byte(strings.Join(out, "\n")+"\n"), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return true
}

func seedOf() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

var trusted = []string{
	"go/types and golang.org/x/tools/go/ssa of this toolchain",
	"the abstract interpreter and decision diagrams in /verif/gsa",
	"the models of the standard library calls in /verif/gsa/models.go",
}

var assumptions = []string{
	"memory is never exhausted; the Go runtime and standard library behave as documented",
	"floating point arithmetic is treated as exact rational arithmetic",
}
