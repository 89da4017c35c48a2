package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx is one run of the check of one property.
type Ctx struct {
	p          *Program
	id         string
	tier       string
	viol       []violation
	obl        int
	disch      int
	oblText    []string
	fns        map[*ssa.Function]bool
	instrs     int
	callsSeen  int
	assume     []string
	ruleCounts map[string]int
}

type violation struct {
	where, rule, detail string
}

// rule is a part of a check that is not written as a harness.
type rule struct {
	name string
	run  func(c *Ctx)
}

var rules = map[string][]rule{}

func addRule(ids string, name string, run func(c *Ctx)) {
	for _, id := range strings.Split(ids, ",") {
		rules[id] = append(rules[id], rule{name, run})
	}
}

func (c *Ctx) pos(in interface{}) string {
	switch x := in.(type) {
	case ssa.Instruction:
		if x == nil {
			return "?"
		}
		for q := x; ; {
			if q.Pos().IsValid() {
				return c.p.posStr(q.Pos()) + " in " + short(x.Parent().String())
			}
			break
		}
		return short(x.Parent().String())
	case *ssa.Function:
		return c.p.posStr(x.Pos()) + " " + short(x.String())
	}
	return "?"
}

func short(s string) string {
	return strings.ReplaceAll(s, modulePath+"/", "")
}

func (c *Ctx) violate(where, rule, detail string) {
	if len(detail) > 1500 {
		detail = detail[:1500] + " …"
	}
	c.viol = append(c.viol, violation{where, rule, detail})
}

// oblige records an obligation and whether it is discharged.
func (c *Ctx) oblige(ok bool, where, rule, detail string) bool {
	c.obl++
	if ok {
		c.disch++
		if len(c.oblText) < 400 {
			c.oblText = append(c.oblText, rule+" @ "+where)
		}
		return true
	}
	c.violate(where, rule, detail)
	return false
}

func (c *Ctx) count(k string, n int) { c.ruleCounts[k] += n }

// atLeast guards against a rule that matches nothing.
func (c *Ctx) atLeast(n int, k string) {
	if c.ruleCounts[k] < n {
		c.violate("-", "instances", fmt.Sprintf("%s: found %d, expected at least %d", k, c.ruleCounts[k], n))
	}
}

func (p *Program) harnessFuncs() []*ssa.Function {
	var out []*ssa.Function
	sp := p.pkg(harnessPkg)
	var names []string
	for n, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		out = append(out, sp.Func(n))
	}
	return out
}

// proveSites lists the obligations written in a harness, its closures and the
// harness helpers it calls.
func (p *Program) proveSites(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && g.Pkg == f.Pkg {
						walk(g)
					}
				}
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil || g.Pkg != f.Pkg {
					continue
				}
				switch g.Name() {
				case "prove", "reach", "noPanic", "noLeak":
					if k, ok := call.Common().Args[0].(*ssa.Const); ok {
						out[constStr(k)] = true
					}
				}
			}
		}
	}
	walk(f)
	return out
}

// ids splits "C01,C02 text" into its properties.
func oblIDs(s string) []string {
	w := strings.SplitN(s, " ", 2)
	return strings.Split(w[0], ",")
}
func hasID(s, id string) bool {
	for _, x := range oblIDs(s) {
		if x == id {
			return true
		}
	}
	return false
}

// runHarness analyses one harness function and judges its obligations for the
// property.
func (c *Ctx) runHarness(f *ssa.Function) {
	want := map[string]bool{}
	for s := range c.p.proveSites(f) {
		if hasID(s, c.id) {
			want[s] = true
		}
	}
	if len(want) == 0 {
		return
	}
	where := "harness " + f.Name()
	ex, err := c.p.analyse(f)
	if ex != nil {
		for g := range ex.fns {
			c.fns[g] = true
		}
		c.callsSeen += ex.calls
	}
	if err != "" {
		c.violate(where, "the analysis has to decide every construct", err)
		return
	}
	for _, s := range ex.initChanged {
		c.violate(where, "package data is constant", s)
	}
	np, nl := "", ""
	for _, e := range ex.events {
		switch e.kind {
		case "noPanic":
			if want[e.what] {
				np = e.what
				c.oblige(true, where, e.what, "")
				delete(want, e.what)
			}
		case "noLeak":
			if want[e.what] {
				nl = e.what
				c.oblige(true, where, e.what, "")
				delete(want, e.what)
			}
		case "sink":
			if nl != "" {
				ok := neverHolds(e.args[0])
				det := ""
				if !ok {
					det = "when " + e.args[0].String()
				}
				c.oblige(ok, where+" at "+c.p.posStr(e.pos), nl+": "+e.what, det)
			}
		case "prove", "reach":
			if !hasID(e.what, c.id) {
				continue
			}
			w := where
			if e.instr != nil {
				w = where + " line " + fmt.Sprint(c.p.prog.Fset.Position(e.pos).Line)
			}
			if e.pc == ddF {
				continue
			}
			if _, first := want[e.what]; first {
				if unsat(e.pc) {
					continue
				}
				delete(want, e.what)
			}
			if e.kind == "reach" {
				c.oblige(true, w, e.what, "")
				continue
			}
			bad := and(e.pc, not(e.args[0]))
			ok := neverHolds(bad)
			det := ""
			if !ok {
				det = "can fail when " + restrict(bad, e.pc).String()
				if os.Getenv("FDEBUG") == "2" {
					n := 0
					fmt.Println("BAD", e.what)
					dnf(bad, "", &n)
				}
			}
			c.oblige(ok, w, e.what, det)
		case "bounds", "nilderef", "panic":
			if np == "" || e.fn != nil && e.fn.Pkg == f.Pkg {
				continue
			}
			bad := e.pc
			if x, ok := e.extra.(*DD); ok {
				bad = x
			}
			ok := neverHolds(bad)
			det := ""
			if !ok {
				det = e.kind + " " + e.what + " when " + bad.String()
				if os.Getenv("FDEBUG") == "2" {
					n := 0
					fmt.Println("BAD", e.what)
					dnf(bad, "", &n)
				}
			}
			c.oblige(ok, where+" at "+c.p.posStr(e.pos), np, det)
		}
	}
	for _, s := range sortedBoolKeys(want) {
		c.oblige(false, where, s, "the obligation is not reached")
	}
}

func sortedBoolKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// analyse interprets a function over symbolic arguments.
func (p *Program) analyse(f *ssa.Function) (ex *Exec, err string) {
	if r, ok := p.cache[f]; ok {
		return r.ex, r.err
	}
	ex = newExec(p)
	ex.harnessOverrides()
	allow()
	func() {
		defer func() {
			if e := recover(); e != nil {
				deadline = time.Time{}
				if u, ok := e.(undecidedErr); ok {
					err = "undecided: " + u.msg
				} else {
					err = fmt.Sprintf("internal error: %v", e)
					if os.Getenv("FDEBUG") != "" {
						debug.PrintStack()
					}
				}
				if len(ex.fnStack) > 0 {
					err += " (" + short(strings.Join(ex.fnStack, " > ")) + ")"
				}
			}
		}()
		st := p.initState()
		ex.ghostInit(st)
		var args []*DD
		for _, a := range f.Params {
			args = append(args, symVal("p:"+a.Name(), nil, a.Type()))
		}
		ex.result, ex.final = ex.callFn(f, args, nil, st, "top", nil)
		for k, l := range ex.final.mem.logs {
			if b, ok := p.initLogs[k]; ok && b != l {
				ex.initChanged = append(ex.initChanged, "the initial value of "+short(k)+" is overwritten")
			}
		}
		sort.Strings(ex.initChanged)
	}()
	p.cache[f] = cached{ex, err}
	return ex, err
}

type cached struct {
	ex  *Exec
	err string
}

// judging runs f; what it cannot decide is not shown.
func (c *Ctx) judging(where string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			deadline = time.Time{}
			if u, ok := e.(undecidedErr); ok {
				c.violate(where, "the analysis has to decide every construct", u.msg)
			} else {
				c.violate(where, "internal error", fmt.Sprint(e))
				if os.Getenv("FDEBUG") != "" {
					debug.PrintStack()
				}
			}
		}
		deadline = time.Time{}
	}()
	allow()
	f()
}

func runCheck(p *Program, id, tier, verif string, t0 time.Time) int {
	c := &Ctx{p: p, id: id, tier: tier, fns: map[*ssa.Function]bool{}, ruleCounts: map[string]int{}}
	n := 0
	for _, f := range p.harnessFuncs() {
		s := p.proveSites(f)
		for o := range s {
			if hasID(o, id) {
				n++
			}
		}
		c.judging(f.Name(), func() { c.runHarness(f) })
	}
	for _, name := range sortedLost(p.lost) {
		for _, s := range p.lostTexts(p.lost[name]) {
			if hasID(s, id) {
				n++
				c.oblige(false, "harness "+name, s, "not shown: the harness does not fit the source: "+p.lost[name].err)
			}
		}
	}
	for _, r := range rules[id] {
		n++
		c.judging(r.name, func() { r.run(c) })
	}
	if n == 0 {
		fmt.Println("no obligations for", id)
		return 2
	}
	c.count("functions", 0)
	for f := range c.fns {
		for _, b := range f.Blocks {
			c.instrs += len(b.Instrs)
		}
	}
	known := knownFindings(filepath.Join(verif, "known-findings.txt"), id)
	var open []violation
	for _, v := range c.viol {
		key := v.where + " | " + v.rule
		if k := known[key]; k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, key)
			continue
		}
		open = append(open, v)
	}
	c.writeEvidence(verif, len(open), t0)
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d\n", id, c.obl, len(c.fns))
		return 0
	}
	rp := filepath.Join(verif, "evidence", id+".violations.txt")
	var sb strings.Builder
	for _, v := range open {
		fmt.Fprintf(&sb, "%s\n  rule: %s\n  %s\n", v.where, v.rule, v.detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, v := range open {
		if i == 12 {
			break
		}
		d := v.detail
		if len(d) > 400 {
			d = d[:400] + " …"
		}
		fmt.Printf("%s: %s: %s\n", v.where, v.rule, d)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func knownFindings(path, id string) map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if k, ok := strings.CutPrefix(l, "open: property="+id+" "); ok {
			m[strings.TrimSpace(k)] = true
		}
	}
	return m
}

func (c *Ctx) writeEvidence(verif string, open int, t0 time.Time) {
	var fns []string
	for f := range c.fns {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modulePath+"/"+harnessPkg {
			continue
		}
		fns = append(fns, short(f.String()))
	}
	sort.Strings(fns)
	if len(fns) > 250 {
		fns = fns[:250]
	}
	if len(c.oblText) > 150 {
		c.oblText = c.oblText[:150]
	}
	cov := map[string]interface{}{
		"explanation": "Abstract interpretation (value-numbering dataflow over go/ssa with algebraic normal forms and joins at merge points) of the current source; each obligation below was decided for all symbolic arguments of its harness or rule, nothing was executed.",
		"obligations": c.obl, "discharged": c.disch, "violations": open,
		"functions_analysed": len(c.fns), "instructions_in_them": c.instrs, "calls_interpreted": c.callsSeen,
		"functions": fns, "obligation_list": c.oblText, "rule_instances": c.ruleCounts,
	}
	ev := map[string]interface{}{"property": c.id, "tier": c.tier, "seed": seed(), "level": "other", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), b, 0o644)
}

func seed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func constStr(k *ssa.Const) string {
	if k.Value == nil || !types.Identical(k.Type().Underlying(), types.Typ[types.String]) {
		return ""
	}
	var s string
	json.Unmarshal([]byte(k.Value.ExactString()), &s)
	return s
}

// loadFailed reports that the program or a contract could not be loaded.
func loadFailed(id, tier, verif string, err error) int {
	c := &Ctx{id: id, tier: tier}
	c.violate("load", "the program and the contracts have to type-check", err.Error())
	c.writeEvidence(verif, 1, time.Now())
	rp := filepath.Join(verif, "evidence", id+".violations.txt")
	os.WriteFile(rp, []byte("the program or a contract does not load: "+err.Error()+"\n"), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// dnf lists the cases of a condition, for diagnosis.
func dnf(d *DD, pre string, n *int) {
	if *n > 12 || d == ddF {
		return
	}
	if d == ddT {
		*n++
		fmt.Println("  CASE", pre)
		return
	}
	if d.leaf != nil {
		return
	}
	dnf(d.hi, pre+"\n     "+d.atom.String(), n)
	dnf(d.lo, pre+"\n    ¬"+d.atom.String(), n)
}

func sortedLost(m map[string]*lostHarness) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
