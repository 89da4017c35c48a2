package main

// Atomic variables and functions that run once.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func atomicIntrinsics(in map[string]intrinsic) {
	kinds := map[string]*types.Basic{"Bool": types.Typ[types.Bool], "Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]}
	for _, name := range sortedKeys(kinds) {
		t := kinds[name]
		get := func(ex *Exec, fr *Frame, st *State, ci *callInfo) *DD {
			ex.nilCheck(fr, st, ci.in, ci.args[0])
			s := st.clone()
			return map1(restrict(ci.args[0], st.pc), func(p *Term) *DD {
				if p.op == ONil {
					return zeroVal(t)
				}
				return ex.load(s, fldPtr(p, "v"), t)
			})
		}
		set := func(ex *Exec, st *State, ci *callInfo, v *DD) {
			ex.eachPtr(st, ci.args[0], func(p *Term, s *State) { ex.store(s, fldPtr(p, "v"), t, restrict(v, s.pc)) })
		}
		m := "(*sync/atomic." + name + ")."
		in[m+"Load"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			return []*DD{get(ex, fr, st, ci)}, true
		}
		in[m+"Store"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			ex.nilCheck(fr, st, ci.in, ci.args[0])
			set(ex, st, ci, ci.args[1])
			return []*DD{}, true
		}
		in[m+"Swap"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			v := get(ex, fr, st, ci)
			set(ex, st, ci, ci.args[1])
			return []*DD{v}, true
		}
		in[m+"CompareAndSwap"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			v := get(ex, fr, st, ci)
			same := eqDD(v, ci.args[1])
			if isBoolDD(v) {
				same = xnor(v, ci.args[1])
			}
			set(ex, st, ci, ite(same, ci.args[2], v))
			return []*DD{restrict(same, st.pc)}, true
		}
		if name != "Bool" {
			in[m+"Add"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
				v := ex.fit(st, dAdd(get(ex, fr, st, ci), ci.args[1]), t)
				set(ex, st, ci, v)
				return []*DD{v}, true
			}
		}
	}
	// a function that always gives the same may as well not have run before
	in["(*sync.Once).Do"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		ex.nilCheck(fr, st, ci.in, ci.args[0])
		f := restrict(ci.args[1], st.pc)
		if f.leaf == nil || f.leaf.op != OFunc {
			return nil, false
		}
		ex.eachPtr(st, ci.args[0], func(p *Term, s *State) {
			sig, idx := locOf(p)
			if strings.Contains(sig, "g:") && len(f.leaf.dds) > 0 {
				panic(undecided("a function that runs once for the package depends on " + ci.ctx))
			}
			done := eqDD(ex.ghost(s, sig+"#once", idx), dInt(1))
			first := s.clone()
			first.pc = and(s.pc, not(done))
			if first.pc == ddF {
				return
			}
			ex.setGhost(first, sig+"#once", idx, dInt(1))
			ex.dispatch(fr, first, ci.in, f.leaf.fn.(*ssa.Function), nil, f.leaf.dds)
			again := s.clone()
			again.pc = and(s.pc, done)
			if again.pc == ddF {
				*s = *first
			} else {
				*s = *mergeStates(again, first)
			}
		})
		return []*DD{}, true
	}
}
