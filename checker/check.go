package main

// Rule framework: obligations, violations, known findings, evidence.

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Key string `json:"key"`
	Pos string `json:"pos"`
	Msg string `json:"msg"`
}

type Ctx struct {
	w        *World
	id       string
	tier     string
	viols    []Violation
	seen     map[string]bool
	funcs    map[string]bool
	counts   map[string]int
	rules    []string
	assume   []string
	sites    []string
	oblig    int
	discharg int
	obs      map[string]int // obligations per key
}

// Check is one property's rule.
type Check struct {
	id   string
	rule string // what is decided, for the evidence file
	run  func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, rule string, run func(c *Ctx)) { checks[id] = &Check{id, rule, run} }

func (c *Ctx) viol(key string, pos token.Pos, f string, args ...interface{}) {
	c.violS(key, c.w.Pos(pos), fmt.Sprintf(f, args...))
}

func (c *Ctx) violS(key, pos, msg string) {
	k := key + "|" + pos + "|" + msg
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viols = append(c.viols, Violation{key, pos, msg})
}

// ob records one obligation; a failed one is a violation.
func (c *Ctx) ob(ok bool, key string, pos token.Pos, f string, args ...interface{}) bool {
	c.oblig++
	if c.obs == nil {
		c.obs = map[string]int{}
	}
	c.obs[key]++
	if ok {
		c.discharg++
		return true
	}
	c.viol(key, pos, f, args...)
	return false
}

func (c *Ctx) count(name string, n int) { c.counts[name] += n }

func (c *Ctx) site(pos token.Pos, what string) {
	s := c.w.Pos(pos) + " " + what
	for _, x := range c.sites {
		if x == s {
			return
		}
	}
	c.sites = append(c.sites, s)
}

// abort ends the check with a violation (something needed cannot be resolved).
type abort struct{}

func (c *Ctx) fatal(key string, f string, args ...interface{}) {
	c.violS(key, "-", fmt.Sprintf(f, args...))
	panic(abort{})
}

func (c *Ctx) fn(pkg, name string) *ssa.Function {
	f := c.w.Func(pkg, name)
	if f == nil {
		c.fatal("anchor:"+pkg+"."+name, "function %s.%s not found", pkg, name)
	}
	return f
}

func (c *Ctx) method(pkg, typ, name string) *ssa.Function {
	f := c.w.Method(pkg, typ, name)
	if f == nil || f.Blocks == nil {
		c.fatal("anchor:"+pkg+"."+typ+"."+name, "method %s.%s.%s not found", pkg, typ, name)
	}
	return f
}

// run analyses fn; an analysis failure is a violation (undecided).
func (c *Ctx) run(a *Analysis, fn *ssa.Function, params ...*Term) []*Outcome {
	outs, err := a.Run(fn, params...)
	if err != nil {
		c.fatal("undecided:"+shortFn(fn), "analysis of %s did not finish: %s", shortFn(fn), err)
	}
	c.note(a, outs)
	return outs
}

func (c *Ctx) note(a *Analysis, outs []*Outcome) {
	for f := range a.nfuncs {
		c.funcs[shortFn(f)] = true
	}
	c.counts["paths"] += len(outs)
	for _, o := range outs {
		c.counts["events"] += len(o.evs)
	}
}

func (c *Ctx) rule(f string, args ...interface{}) { c.rules = append(c.rules, fmt.Sprintf(f, args...)) }

// ---- running

func verifDir() string {
	if d := os.Getenv("JLIB_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ prop, key, text string }

func readKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		k := known{}
		for _, f := range strings.Fields(l) {
			if strings.HasPrefix(f, "property=") {
				k.prop = f[9:]
			}
			if strings.HasPrefix(f, "key=") {
				k.key = f[4:]
			}
		}
		if i := strings.Index(l, "key="); i >= 0 {
			if j := strings.Index(l[i:], " "); j >= 0 {
				k.text = strings.TrimSpace(l[i+j:])
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func runCheck(id, dir, tier string, quiet bool) int {
	start := time.Now()
	ck := checks[id]
	if ck == nil {
		fmt.Printf("no check for property %s\n", id)
		return 2
	}
	c := &Ctx{id: id, tier: tier, seen: map[string]bool{}, funcs: map[string]bool{}, counts: map[string]int{}}
	w, err := load(dir, nil)
	if err != nil {
		c.w = &World{fset: token.NewFileSet(), root: dir}
		c.violS("load", "-", err.Error())
	} else {
		c.w = w
		c.count("module_functions", len(w.funcs))
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abort); ok {
						return
					}
					c.violS("undecided:panic", "-", fmt.Sprintf("the checker could not decide: %v\n%s", r, debug.Stack()))
				}
			}()
			ck.run(c)
			c.shared()
		}()
		if len(c.viols) == 0 && c.oblig == 0 {
			c.violS("vacuous", "-", "no obligation was found to decide")
		}
	}
	return c.report(ck, start, quiet)
}

func (c *Ctx) report(ck *Check, start time.Time, quiet bool) int {
	sort.SliceStable(c.viols, func(i, j int) bool { return c.viols[i].Pos < c.viols[j].Pos })
	ks := readKnown()
	var live, listed []Violation
	for _, v := range c.viols {
		hit := false
		for _, k := range ks {
			if k.prop == c.id && k.key == v.Key {
				hit = true
			}
		}
		if hit {
			listed = append(listed, v)
		} else {
			live = append(live, v)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fs []string
	for f := range c.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	cov := map[string]interface{}{
		"explanation":            ck.rule,
		"functions_analysed":     len(fs),
		"functions":              fs,
		"obligations":            c.oblig,
		"obligations_discharged": c.discharg,
		"rules_applied":          append([]string{}, c.rules...),
		"sites":                  append([]string{}, c.sites...),
	}
	for k, v := range c.counts {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property":    c.id,
		"tier":        c.tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(live),
		"assumptions": append([]string{"go/ssa of golang.org/x/tools represents the program; library functions behave as modelled in checker/calls.go"}, c.assume...),
	}
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, c.id+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, v := range listed {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, v.Msg, v.Pos)
	}
	rp := filepath.Join(edir, c.id+".violations.txt")
	os.Remove(rp)
	if len(live) == 0 {
		if !quiet {
			fmt.Printf("OK property=%s obligations=%d functions=%d paths=%d\n", c.id, c.oblig, len(fs), c.counts["paths"])
		}
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n", c.id, ck.rule)
	for _, v := range live {
		fmt.Fprintf(&sb, "%s: %s [key=%s]\n", v.Pos, v.Msg, v.Key)
		fmt.Printf("%s: %s [key=%s]\n", v.Pos, v.Msg, v.Key)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}
