package main

import "fmt"

// dumpRun prints what the analysis of a root saw.
func dumpRun(r *Run) {
	for _, u := range r.I.unsup {
		fmt.Println("unsup", u.what, u.fn)
	}
	for _, l := range r.I.loops {
		fmt.Printf("loop %s %s ev %d-%d unroll %v outer %d back %v\n", l.fn.Name(), r.I.fset.Position(l.pos), l.evLo, l.evHi, l.unroll, len(l.outer), l.back != nil)
		for _, lf := range l.leaves {
			fmt.Printf("   leaf %s %s init %s head %s back %s delta %v\n", lf.name, lf.kind, clip(show(lf.init), 60), clip(show(lf.head), 60), clip(show(lf.back), 200), lf.delta != nil)
		}
	}
	for i, e := range r.I.events {
		fmt.Printf("ev %d %s %s in %s loops %d line %d pc %s args %d\n", i, e.kind, e.name, e.fn, len(e.loops), r.I.fset.Position(e.pos).Line, clip(ddString(e.pc), 120), len(e.args))
	}
}
