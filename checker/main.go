package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

func dump(w *World, spec string, opaque []string) {
	parts := strings.Split(spec, ".")
	if i := strings.LastIndex(spec, "/"); i >= 0 {
		parts = strings.Split(spec[i+1:], ".")
		parts[0] = spec[:i+1] + parts[0]
	}
	a := newAnalysis(w, opaque...)
	fn := w.Func(parts[0], parts[1])
	if len(parts) == 3 {
		fn = w.Method(parts[0], parts[1], parts[2])
	}
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	if os.Getenv("SSA") != "" {
		fn.WriteTo(os.Stdout)
		for _, af := range fn.AnonFuncs {
			af.WriteTo(os.Stdout)
		}
	}
	outs, err := a.Run(fn)
	fmt.Println("err:", err, "outcomes:", len(outs), "steps:", a.steps)
	for i, o := range outs {
		fmt.Printf("--- %d kind=%d at %s\n", i, o.kind, w.Pos(o.pos))
		for _, l := range o.facts.lits {
			fmt.Println("   fact", l)
		}
		for _, e := range o.evs {
			if e.kind == EvEnter || e.kind == EvLeave || e.kind == EvDefer {
				continue
			}
			fmt.Println("   ev", e, w.Pos(e.pos))
		}
		for _, r := range o.rets {
			fmt.Println("   ret", r)
		}
		if o.kind == OutPanic {
			fmt.Println("   panic", o.pval)
		}
		for lv, n := range o.next {
			fmt.Println("   next", lv, "=", n, " init", o.loop.init[lv])
		}
	}
}

func main() {
	debug.SetGCPercent(600)
	dir := "/repo"
	if d := os.Getenv("JLIB_REPO"); d != "" {
		dir = d
	}
	if len(os.Args) > 2 && os.Args[1] == "-dump" {
		w, err := load(dir, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		dump(w, os.Args[2], os.Args[3:])
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: jlibcheck PROPERTY | -all | -list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "-list":
		for _, id := range checkIds() {
			fmt.Printf("%s\t%s\n", id, checks[id].rule)
		}
	case "-all":
		bad := 0
		for _, id := range checkIds() {
			if runCheck(id, dir, tier, len(os.Args) > 2) != 0 {
				bad = 1
			}
		}
		os.Exit(bad)
	default:
		os.Exit(runCheck(os.Args[1], dir, tier, false))
	}
}

func checkIds() []string {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
