package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	t0 := time.Now()
	if f := os.Getenv("GSA_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(30 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
		}()
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		p, err := loadRepo(repoRoot())
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, a := range os.Args[2:] {
			dump(p, a)
		}
		return
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Println("usage: gsa check ID...")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ids := os.Args[2:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	p, err := loadRepo(repoRoot())
	bad := false
	for _, id := range ids {
		if runCheck(id, tier, p, err, t0) {
			bad = true
		}
		t0 = time.Now()
	}
	if bad {
		os.Exit(1)
	}
}

func dump(p *Program, what string) {
	resetAll()
	if what == "server" {
		dumpRun((&Check{id: "server", p: p, rules: map[string]int{}, fns: map[string]bool{}}).serverRun())
		return
	}
	rel, name := "libs/egts", what
	if i := strings.Index(what, ":"); i >= 0 {
		rel, name = what[:i], what[i+1:]
	}
	I := newInterp(p)
	st := &State{heap: &Heap{m: map[int]Val{}}, pc: True}
	var args []Val
	f := p.fn(rel, name)
	var recv *Obj
	if i := strings.Index(name, "."); i >= 0 {
		n := p.named(rel, name[:i])
		f = p.method(n, name[i+1:])
		recv = newObj("cell", n, "recv")
		if name[i+1:] == "Decode" {
			st.set(recv, zeroVal(n))
		} else {
			st.set(recv, symVal(n, "v", "v"))
		}
		args = append(args, &Ptr{obj: recv})
	}
	I.separate(p, recvNamed(f))
	if f == nil {
		fmt.Println("no function", what)
		return
	}
	for _, q := range f.Params[len(args):] {
		args = append(args, symVal(q.Type(), q.Name(), q.Name()))
	}
	res, out := I.callFn(f, args, nil, st, "")
	fmt.Println("=====", f, "pc:", ddString(out.pc))
	care := True
	for i, r := range res {
		fmt.Printf("  res%d = %s\n", i, show(r))
		if isErrorType(f.Signature.Results().At(i).Type()) {
			care = And(out.pc, isNil(r))
		}
	}
	fmt.Println("  SUCCESS:", ddString(care))
	if recv != nil {
		if s, ok := out.heap.get(I, recv).(*StructV); ok {
			for i, v := range s.f {
				if sl, ok := v.(*Slice); ok {
					v = I.content(out, sl)
				}
				fmt.Printf("  .%s = %s\n", s.typ.Field(i).Name(), show(restrict(v, care)))
			}
		} else {
			fmt.Printf("  recv = %s\n", show(restrict(out.heap.get(I, recv), care)))
		}
	}
	for i, r := range res {
		if sl, ok := r.(*Slice); ok {
			fmt.Printf("  content(res%d) = %s\n", i, I.content(out, sl).under(care))
		}
	}
	for _, o := range I.obls {
		if !o.ok {
			fmt.Printf("  OBL %s %s %s @%s pc=%s\n", o.kind, o.fn, o.what, I.fset.Position(o.pos), ddString(o.pc))
		}
	}
	fmt.Println("  obligations:", len(I.obls), "falls:", len(I.falls), "events", len(I.events))
	for _, a := range I.unsup {
		fmt.Printf("  UNSUP %s %s @%s\n", a.fn, a.what, I.fset.Position(a.pos))
	}
	for _, l := range I.loops {
		fmt.Printf("  LOOP %s @%s bounded=%v\n", l.fn, I.fset.Position(l.pos), l.bounded)
		for _, lf := range l.leaves {
			fmt.Printf("     leaf %s %s init=%s head=%s back=%s\n", lf.kind, lf.name, show(lf.init), show(lf.head), show(lf.back))
		}
	}
	for _, e := range I.events {
		var as []string
		for _, a := range e.args {
			as = append(as, show(a))
		}
		fmt.Printf("  EV %s %s recv=%s (%s) -> %s pc=%s\n", e.kind, e.name, show(e.recv), strings.Join(as, ", "), show(e.res), ddString(e.pc))
	}
	_ = types.Typ
}
