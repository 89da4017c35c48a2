package main

// What is reachable from a value in memory, by the types of its parts.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type walker struct {
	ex    *Exec
	st    *State
	visit func(path string, p *Term, t types.Type, v *DD, pc *DD)
	whole bool // visit values that are not in memory too
	n     int
}

func (w *walker) loc(path string, p *Term, t types.Type, pc *DD, depth int) {
	if pc == ddF || depth > 24 {
		return
	}
	w.n++
	if w.n > 20000 {
		panic(undecided("too many reachable locations"))
	}
	if primKind(t) != "" {
		w.visit(path, p, t, restrict(w.ex.load(w.st, p, t), pc), pc)
		return
	}
	if u, ok := openStruct(t); ok {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			w.loc(path+"."+f.Name(), fldPtr(p, f.Name()), f.Type(), pc, depth+1)
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		if isByte(at.Elem()) {
			w.visit(path, p, t, restrict(w.ex.bytesOf(w.st, p), pc), pc)
			return
		}
		k := pAtom(modZ, loopVar("at@"+path, big0, bi(at.Len()-1)))
		w.loc(path+"[]", idxPtr(p, k, false), at.Elem(), pc, depth+1)
		return
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Signature, *types.Chan:
		return
	}
	w.visit(path, p, t, nil, pc)
	w.val(path, restrict(w.ex.load(w.st, p, t), pc), t, pc, depth+1)
}

func (w *walker) val(path string, v *DD, t types.Type, pc *DD, depth int) {
	if pc == ddF || depth > 24 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		for _, l := range v.leaves() {
			if l.t.op != ONil {
				w.loc(path, l.t, u.Elem(), and(pc, l.g), depth+1)
			}
		}
	case *types.Slice:
		for _, l := range v.leaves() {
			if l.t.op == ONil || l.t.args[0].op == ONil {
				continue
			}
			g := and(pc, l.g)
			if isByte(u.Elem()) {
				s := w.st.clone()
				s.pc = g
				if g != ddF {
					w.visit(path, l.t.args[0], t, w.ex.sliceBytes(s, leaf(l.t)), g)
				}
				continue
			}
			k := pAtom(modZ, loopVar("at@"+path, big0, bi(1<<32)))
			g = and(g, lt(k, l.t.args[2]))
			w.loc(path+"[]", idxPtr(l.t.args[0], pAdd(l.t.args[1], k), false), u.Elem(), g, depth+1)
		}
	case *types.Map:
		var k *Term
		if w.kept(v) {
			return
		}
		if lo, hi, ok := intRange(u.Key()); ok {
			k = pAtom(modZ, loopVar("key@"+path, lo, hi))
		} else {
			panic(undecided("map keys of " + path))
		}
		for _, l := range v.leaves() {
			if l.t.op == ONil {
				continue
			}
			g := and(pc, l.g)
			if g == ddF {
				continue
			}
			val, ok := w.ex.mapRead(w.st, l.t, k, u.Elem())
			g = and(g, restrict(ok, g))
			w.visit(path, l.t, t, nil, g)
			w.val(path+"{}", restrict(val, g), u.Elem(), g, depth+1)
		}
	case *types.Interface:
		for _, l := range v.leaves() {
			if l.t.op == OIface && l.t.typ != nil {
				w.val(path, restrict(l.t.dds[0], and(pc, l.g)), l.t.typ, and(pc, l.g), depth+1)
			}
		}
	case *types.Struct, *types.Array, *types.Basic:
		if w.whole {
			w.visit(path, nil, t, v, pc)
		}
	}
}

// kept tells that all maps v are as they were after initialisation.
func (w *walker) kept(v *DD) bool {
	for _, l := range v.leaves() {
		if l.t.op == ONil {
			continue
		}
		sig, _ := locOf(l.t)
		init := w.ex.prog.initLogs[sig+"{}?"]
		if init == nil || init != w.st.mem.logs[sig+"{}?"] {
			return false
		}
	}
	return true
}

// secretTerm tells whether t reveals a secret: randomness, a key share of the
// caller, or a share received.
func secretTerm(t *Term) bool {
	switch t.op {
	case OPoly:
		for _, m := range t.poly.ms {
			sec, point := false, false
			for _, f := range m.fs {
				point = point || f.a.point || pointSum(f.a)
				sec = sec || secretTerm(f.a)
			}
			if sec && !point {
				return true
			}
		}
		return false
	case OIsNil:
		return false
	case OBase:
		if strings.HasPrefix(t.s, "(p:secret)") && t.lo == nil || strings.HasPrefix(t.s, "(any:s)") {
			return true
		}
	case OApp:
		if t.s == "h512" || t.s == "h256" {
			return false
		}
		if strings.HasPrefix(t.s, "rand:") || strings.HasPrefix(t.s, "partial:") {
			return true
		}
	}
	for _, a := range t.args {
		if secretTerm(a) {
			return true
		}
	}
	for _, d := range t.dds {
		for _, l := range d.leaves() {
			if secretTerm(l.t) {
				return true
			}
		}
	}
	return false
}

func pointSum(t *Term) bool { return false }

// inPackageData tells when a package variable, or what it refers to, holds
// something secret that was put there in this run.
func (ex *Exec) inPackageData(st *State, secret func(*Term) bool) *DD {
	bad := ddF
	w := &walker{ex: ex, st: st}
	w.visit = func(path string, p *Term, t types.Type, v *DD, pc *DD) {
		if v == nil || primKind(t) == "point" {
			return
		}
		for _, l := range v.leaves() {
			if secret(l.t) {
				bad = or(bad, and(pc, l.g))
			}
		}
	}
	for _, sp := range ex.prog.spkgs {
		if sp == nil {
			continue
		}
		for _, name := range sortedKeys(sp.Members) {
			g, ok := sp.Members[name].(*ssa.Global)
			if !ok {
				continue
			}
			w.loc(name, intern(&Term{op: OApp, s: "g:" + g.String()}), ptrElem(g.Type()), st.pc, 0)
		}
	}
	return bad
}

func (ex *Exec) walkOverrides(mod string) {
	// forgotten: no secret can be reached from the argument
	// noRandom: no random scalar itself can be reached from it
	for _, name := range []string{"forgotten", "noRandom"} {
		secret := secretTerm
		if name == "noRandom" {
			secret = func(t *Term) bool {
				return t.op == OPoly && len(t.poly.ms) == 1 && len(t.poly.ms[0].fs) == 1 && randAtom(t.poly.ms[0].fs[0].a) != nil
			}
		}
		ex.override[mod+name] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
			bad := ddF
			w := &walker{ex: ex, st: st}
			w.visit = func(path string, p *Term, t types.Type, v *DD, pc *DD) {
				if v == nil || primKind(t) == "point" {
					return
				}
				for _, l := range v.leaves() {
					if secret(l.t) {
						if g := and(pc, l.g); g != ddF {
							bad = or(bad, g)
							if debugOn {
								println("secret at", path, l.t.String())
							}
						}
					}
				}
			}
			w.val("x", restrict(c.args[0], st.pc), c.sig.Params().At(0).Type(), st.pc, 0)
			return []*DD{not(or(bad, ex.inPackageData(st, secret)))}, nil, true
		}
	}
	// untouched: everything reachable from the argument is as it was
	ex.override[mod+"untouched"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ok := ddT
		w := &walker{ex: ex, st: st}
		w.visit = func(path string, p *Term, t types.Type, v *DD, pc *DD) {
			sig, idx := locOf(p)
			for _, sfx := range []string{"", "{}", "{}?", "#bytes"} {
				l := st.mem.logs[sig+sfx]
				if l == nil {
					continue
				}
				if init := ex.prog.initLogs[sig+sfx]; init == l {
					continue
				}
				if debugOn {
					println("touched", path, sig+sfx)
				}
				switch {
				case sfx == "" && v != nil && primKind(t) != "":
					was := baseVal(sig, idx, t)
					ok = and(ok, or(not(pc), map2(v, was, eqPoly)))
				default:
					ok = and(ok, not(pc))
				}
			}
		}
		w.val("x", restrict(c.args[0], st.pc), c.sig.Params().At(0).Type(), st.pc, 0)
		return []*DD{ok}, nil, true
	}
	// disjoint: no memory that can change is reachable from both arguments
	ex.override[mod+"disjoint"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		type at struct {
			path string
			sig  string
			idx  []*Term
			pc   *DD
		}
		var sets [2][]at
		for i := range sets {
			w := &walker{ex: ex, st: st}
			seen := map[string]bool{}
			w.visit = func(path string, p *Term, t types.Type, v *DD, pc *DD) {
				sig, idx := locOf(p)
				sets[i] = append(sets[i], at{path, sig, idx, pc})
				_ = seen
			}
			w.val(string(rune('x'+i)), restrict(c.args[i], st.pc), c.sig.Params().At(i).Type(), st.pc, 0)
		}
		bad := ddF
		for _, a := range sets[0] {
			for _, b := range sets[1] {
				if a.sig != b.sig || len(a.idx) != len(b.idx) {
					continue
				}
				g := andN(a.pc, b.pc, eqIdx(a.idx, b.idx))
				if g != ddF && debugOn {
					println("shared", a.path, b.path, a.sig)
				}
				bad = or(bad, g)
			}
		}
		return []*DD{not(bad)}, nil, true
	}
}
