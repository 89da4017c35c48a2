package main

// Where secrets go: what is printed or put into an error, what decides a
// branch, and what a variable-time operation sees.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaks is the state of a run whose secrets are followed.
type leaks struct {
	published []*Term // scalars that were sent; they hide what they are made of
	seen      map[string]bool
}

// leaky tells whether t reveals a secret, given what has been published.
func (l *leaks) leaky(t *Term) bool {
	if !secretTerm(t) {
		return false
	}
	if t.op == OPoly && t.poly.mod == modQ {
		return secretTerm(l.reduce(t))
	}
	if t.op == OEq0 {
		return l.leaky(t.args[0])
	}
	if t.op == OSeq || t.op == OApp || t.op == OAgg || t.op == OIface || t.op == OSlice {
		for _, a := range t.args {
			if l.leaky(a) {
				return true
			}
		}
		for _, d := range t.dds {
			for _, x := range d.leaves() {
				if l.leaky(x.t) {
					return true
				}
			}
		}
		return t.op == OApp && (strings.HasPrefix(t.s, "rand:") || strings.HasPrefix(t.s, "partial:"))
	}
	return true
}

// reduce removes multiples of published scalars.
func (l *leaks) reduce(t *Term) *Term {
	for i := len(l.published) - 1; i >= 0; i-- {
		p := l.published[i]
		// the monomial that decides: one with randomness only this has
		for _, m := range p.poly.ms {
			if len(m.fs) == 1 && m.fs[0].e == one() && randAtom(m.fs[0].a) != nil {
				for _, n := range t.poly.ms {
					if n.key == m.key && n.c.Cmp(m.c) == 0 {
						t = pSub(t, p)
						break
					}
				}
				break
			}
		}
	}
	return t
}

func (ex *Exec) inHarness(fr *Frame) bool {
	return fr == nil || fr.fn.Pkg != nil && fr.fn.Pkg.Pkg.Path() == modulePath+"/"+harnessPkg
}

func leakPos(in ssa.Instruction) token.Pos {
	if i, ok := in.(*ssa.If); ok {
		return i.Cond.Pos()
	}
	return in.Pos()
}

func (ex *Exec) leakAt(fr *Frame, st *State, in ssa.Instruction, what string, bad *DD) {
	site := fr.fn.String() + what
	if in != nil {
		site += ex.prog.posStr(leakPos(in))
	}
	if bad == ddF && ex.leaks.seen[site] {
		return
	}
	ex.leaks.seen[site] = true
	e := ex.event(fr, st, in, "sink", what, bad)
	if in != nil {
		e.pos = leakPos(in)
	}
}

// leak notes that v, with what is reachable from it, is seen outside.
func (ex *Exec) leak(fr *Frame, st *State, in ssa.Instruction, what string, v *DD, t types.Type) {
	if ex.inHarness(fr) || st.pc == ddF {
		return
	}
	bad := ddF
	add := func(v *DD, pc *DD) {
		for _, l := range v.leaves() {
			if ex.leaks.leaky(l.t) {
				bad = or(bad, and(pc, l.g))
			}
		}
	}
	v = restrict(v, st.pc)
	if t == nil {
		add(v, st.pc)
	} else {
		w := &walker{ex: ex, st: st, whole: true}
		w.visit = func(path string, p *Term, t types.Type, v *DD, pc *DD) {
			if v != nil && primKind(t) != "point" {
				add(v, pc)
			}
		}
		w.val("x", v, t, st.pc, 0)
	}
	ex.leakAt(fr, st, in, what, bad)
}

// leakBranch notes that c decides a branch.
func (ex *Exec) leakBranch(fr *Frame, st *State, in ssa.Instruction, c *DD) {
	if ex.inHarness(fr) {
		return
	}
	bad := ddF
	for _, a := range c.atoms() {
		if ex.leaks.leaky(a) {
			bad = st.pc
		}
	}
	ex.leakAt(fr, st, in, "no secret decides a branch", bad)
}

// quiet packages do not show what they are given, and take the same time for
// all secrets.
func quietPkg(path string) bool {
	return strings.HasPrefix(path, "filippo.io/") || strings.HasPrefix(path, "crypto/") || path == "sync" || path == "sync/atomic" ||
		path == "time" || path == "sort" || path == "slices" || path == "encoding/binary" || isModulePath(path)
}

func isModulePath(path string) bool {
	return path == modulePath || strings.HasPrefix(path, modulePath+"/")
}

// sink notes secrets given to a function outside that shows them or that takes
// variable time.
func (ex *Exec) sink(fr *Frame, st *State, ci *callInfo) {
	if ex.leaks == nil || ex.inHarness(fr) {
		return
	}
	vt := strings.HasPrefix(ci.fn.Name(), "VarTime")
	pkg := ""
	if ci.fn.Pkg != nil {
		pkg = ci.fn.Pkg.Pkg.Path()
	} else if o := ci.fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if !vt && (pkg == "" || quietPkg(pkg)) {
		return
	}
	what := "no secret is passed to " + ci.name
	if vt {
		what = "no secret is used by the variable-time " + ci.name
	}
	k := 0
	if r := ci.sig.Recv(); r != nil {
		k = 1
		if !vt {
			ex.leak(fr, st, ci.in, what, ci.args[0], r.Type())
		}
	}
	for i := 0; i < ci.sig.Params().Len() && i+k < len(ci.args); i++ {
		ex.leak(fr, st, ci.in, what, ci.args[i+k], ci.sig.Params().At(i).Type())
	}
}

func (ex *Exec) leakOverrides(mod string) {
	ex.override[mod+"noLeak"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ex.leaks = &leaks{seen: map[string]bool{}}
		ex.event(fr, st, c.in, "noLeak", litString(c.args[0]))
		return nil, nil, true
	}
	ex.override[mod+"keptNowhere"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		return []*DD{not(ex.inPackageData(st, ex.leaks.leaky))}, nil, true
	}
	// published: the scalar was sent in the clear
	ex.override[mod+"published"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		t := c.sig.Params().At(0).Type()
		v := restrict(ex.loadDD(fr, st, c.in, c.args[0], ptrElem(t)), st.pc)
		for _, l := range v.leaves() {
			if l.t.op == OPoly {
				ex.leaks.published = append(ex.leaks.published, l.t)
			}
		}
		return nil, nil, true
	}
}
