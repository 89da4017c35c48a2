package main

// Ghost state of locks, timers and channels: what the standard library keeps
// for them, as memory of the abstract machine.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (ex *Exec) ghost(st *State, sig string, idx []*Term) *DD {
	return ex.readBase(st, sig, idx, func() *DD { return dInt(0) })
}

func (ex *Exec) setGhost(st *State, sig string, idx []*Term, v *DD) {
	st.mem.writeLoc(sig, idx, v, types.Typ[types.Int])
}

func (ex *Exec) bumpGhost(st *State, sig string) {
	ex.setGhost(st, sig, nil, dAdd(ex.ghost(st, sig, nil), dInt(1)))
}

// eachPtr runs f for each object p may be, with the state split accordingly.
func (ex *Exec) eachPtr(st *State, p *DD, f func(t *Term, s *State)) {
	p = restrict(p, st.pc)
	if p.leaf != nil {
		if p.leaf.op != ONil {
			f(p.leaf, st)
		}
		return
	}
	var out *State
	for _, l := range p.leaves() {
		g := and(st.pc, l.g)
		if g == ddF {
			continue
		}
		s := st.clone()
		s.pc = g
		if l.t.op != ONil {
			f(l.t, s)
		}
		if out == nil {
			out = s
		} else {
			out = mergeStates(out, s)
		}
	}
	if out != nil {
		*st = *out
	}
}

func ghostIntrinsics(in map[string]intrinsic) {
	lock := func(name, what string, from, to int64) {
		in["(*sync."+name] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			ex.event(fr, st, ci.in, what, "", ci.args...)
			ex.eachPtr(st, ci.args[0], func(t *Term, s *State) {
				sig, idx := locOf(t)
				is := ex.ghost(s, sig+"#locked", idx)
				bad := not(eqDD(is, dInt(from)))
				why := "unlock of an unlocked lock"
				if to != 0 {
					why = "deadlock: the lock is already held"
					if to == 2 { // readers
						bad = eqDD(is, dInt(1))
					}
				}
				if and(s.pc, bad) != ddF {
					ex.event(fr, s, ci.in, "panic", why).extra = and(s.pc, bad)
				}
				ex.setGhost(s, sig+"#locked", idx, dInt(to))
			})
			n := int64(1)
			if to == 0 {
				n = -1
			}
			ex.setGhost(st, "@locks", nil, dAdd(ex.ghost(st, "@locks", nil), dInt(n)))
			return []*DD{}, true
		}
	}
	lock("Mutex).Lock", "lock", 0, 1)
	lock("Mutex).Unlock", "unlock", 1, 0)
	lock("RWMutex).Lock", "lock", 0, 1)
	lock("RWMutex).Unlock", "unlock", 1, 0)
	lock("RWMutex).RLock", "lock", 0, 2)
	lock("RWMutex).RUnlock", "unlock", 2, 0)
	in["time.AfterFunc"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		ex.event(fr, st, ci.in, "afterfunc", "", ci.args...)
		ex.bumpGhost(st, "@timers")
		ex.setGhost(st, "@timer.armed", nil, dInt(1))
		ex.setGhost(st, "@timer.d", nil, ci.args[0])
		st.mem.writeLoc("@timer.f", nil, ci.args[1], ci.sig.Params().At(1).Type())
		return []*DD{leaf(intern(&Term{op: OApp, s: "@timer:" + ci.ctx, args: ex.loopIdx()}))}, true
	}
	in["(*time.Timer).Stop"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		ex.nilCheck(fr, st, ci.in, ci.args[0])
		ex.event(fr, st, ci.in, "timerstop", "", ci.args...)
		ex.setGhost(st, "@timer.armed", nil, dInt(0))
		return []*DD{mkAtom("timerstop:"+ci.ctx, ex.loopIdx())}, true
	}
	in["(*time.Timer).Reset"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		ex.nilCheck(fr, st, ci.in, ci.args[0])
		ex.event(fr, st, ci.in, "timerreset", "", ci.args...)
		ex.setGhost(st, "@timer.armed", nil, dInt(1))
		ex.setGhost(st, "@timer.d", nil, ci.args[1])
		ex.setGhost(st, "@timer.resets", nil, dInt(1))
		return []*DD{mkAtom("timerreset:"+ci.ctx, ex.loopIdx())}, true
	}
}

func (ex *Exec) closeChan(fr *Frame, st *State, in ssa.Instruction, c *DD) {
	ex.eachPtr(st, c, func(t *Term, s *State) {
		if t.op != OAlloc {
			return
		}
		sig, idx := locOf(t)
		was := eqDD(ex.ghost(s, sig+"#closed", idx), dInt(1))
		if and(s.pc, was) != ddF {
			ex.event(fr, s, in, "panic", "close of a closed channel").extra = and(s.pc, was)
		}
		ex.setGhost(s, sig+"#closed", idx, dInt(1))
	})
}

func (ex *Exec) chanClosed(st *State, c *DD) *DD {
	return map1(restrict(c, st.pc), func(t *Term) *DD {
		if t.op != OAlloc {
			return ddF
		}
		sig, idx := locOf(t)
		return eqDD(ex.ghost(st, sig+"#closed", idx), dInt(1))
	})
}

func (ex *Exec) ghostOverrides(mod string) {
	get := func(name, sig string, f func(*DD) *DD) {
		ex.override[mod+name] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
			d := ex.ghost(st, sig, nil)
			if f != nil {
				d = f(d)
			}
			return []*DD{d}, nil, true
		}
	}
	ex.override[mod+"randomnessWorks"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ex.randOK = true
		return nil, nil, true
	}
	isOne := func(d *DD) *DD { return eqDD(d, dInt(1)) }
	get("locksHeld", "@locks", nil)
	get("timers", "@timers", nil)
	get("timerArmed", "@timer.armed", isOne)
	get("timerDuration", "@timer.d", nil)
	get("timerRestarted", "@timer.resets", isOne)
	ex.override[mod+"watchTimer"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ex.setGhost(st, "@timer.resets", nil, dInt(0))
		return nil, nil, true
	}
	ex.override[mod+"closed"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		return []*DD{ex.chanClosed(st, c.args[0])}, nil, true
	}
	ex.override[mod+"meanwhile"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		f := c.args[0]
		if f.leaf == nil || f.leaf.op != OFunc {
			panic(undecided("nothing to do meanwhile"))
		}
		ex.meanwhile = f.leaf
		return nil, nil, true
	}
	// the timer expires
	ex.override[mod+"fireTimer"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		f := restrict(ex.readBase(st, "@timer.f", nil, func() *DD { return leaf(tNil) }), st.pc)
		if f.leaf == nil || f.leaf.op != OFunc {
			panic(undecided("no timer to expire"))
		}
		_, s := ex.callFn(f.leaf.fn.(*ssa.Function), nil, f.leaf.dds, st, c.ctx, fr)
		return nil, s, true
	}
}

// waiting runs what happens meanwhile, where the channel is not closed yet.
func (ex *Exec) waiting(fr *Frame, st *State, c *DD) {
	f := ex.meanwhile
	open := and(st.pc, not(ex.chanClosed(st, c)))
	if f == nil || open == ddF {
		return
	}
	ex.meanwhile = nil
	a, b := st.clone(), st.clone()
	a.pc, b.pc = open, and(st.pc, not(open))
	_, a = ex.callFn(f.fn.(*ssa.Function), nil, f.dds, a, fr.ctx+"/meanwhile", fr)
	if b.pc == ddF {
		*st = *a
	} else {
		*st = *mergeStates(a, b)
	}
}

// ghostInit is what the ghost state holds before anything ran.
func (ex *Exec) ghostInit(st *State) {
	for _, g := range []string{"@locks", "@timers", "@timer.armed", "@timer.d", "@timer.resets"} {
		ex.setGhost(st, g, nil, dInt(0))
	}
}

// lockedType is the mutex field of a struct that has one.
func lockedType(t types.Type) (string, bool) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for i := 0; i < st.NumFields(); i++ {
		if n, ok := st.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && strings.HasSuffix(n.Obj().Name(), "Mutex") {
			return st.Field(i).Name(), true
		}
	}
	return "", false
}

// access records a use of a field of an object that has a mutex: whether the
// mutex is held, and whether the object is still being made.
func (ex *Exec) access(fr *Frame, st *State, in ssa.Instruction, p *DD, write bool) {
	if fr == nil || len(ex.allocType) == 0 {
		return
	}
	for _, l := range p.leaves() {
		root, fld := l.t, ""
		for root.op == OFld {
			root, fld = root.args[0], root.s
		}
		t := ex.allocType[root]
		if t == nil || root.op != OAlloc {
			continue
		}
		m, ok := lockedType(t)
		if !ok || fld == m {
			continue
		}
		making := false
		if i := strings.LastIndex(root.s, "/"); i >= 0 && (fr.ctx == root.s[:i] || strings.HasPrefix(fr.ctx, root.s[:i]+"/")) {
			// inside the function that makes the object, nobody else knows it
			// unless a timer was started
			making = true
		}
		g := restrict(l.g, st.pc)
		if making {
			g = and(g, not(eqDD(ex.ghost(st, "@timers", nil), dInt(0))))
		}
		if and(st.pc, g) == ddF {
			continue
		}
		sig, idx := locOf(root)
		is := ex.ghost(st, sig+"."+m+"#locked", idx)
		held := not(eqDD(is, dInt(0)))
		kind := "read"
		if write {
			held = eqDD(is, dInt(1))
			kind = "write"
		}
		free := andN(st.pc, g, not(held))
		ex.event(fr, st, in, kind+"field", fmt.Sprint(short(types.TypeString(t, nil)), ".", fld)).extra = free
	}
}

func init() {
	addRule("C13", "data that operations change is used under the lock", func(c *Ctx) {
		written := map[string]*Event{}
		uses := map[string][]*Event{}
		for _, f := range c.p.harnessFuncs() {
			if !strings.HasPrefix(f.Name(), "State") {
				continue
			}
			ex, err := c.p.analyse(f)
			if err != "" {
				c.violate("harness "+f.Name(), "the analysis has to decide every construct", err)
				continue
			}
			for _, e := range ex.events {
				switch e.kind {
				case "writefield":
					written[e.what] = e
					uses[e.what] = append(uses[e.what], e)
				case "readfield":
					uses[e.what] = append(uses[e.what], e)
				}
			}
		}
		n := 0
		for _, fld := range sortedKeys(uses) {
			if written[fld] == nil {
				continue
			}
			seen := map[string]bool{}
			for _, e := range uses[fld] {
				pos := c.p.posStr(e.pos)
				free, _ := e.extra.(*DD)
				ok := free == nil || free == ddF || unsat(free)
				if ok && seen[pos] {
					continue
				}
				seen[pos] = true
				n++
				c.oblige(ok, pos+" in "+short(e.fn.String()), "data that operations change is used under the lock", fld+" is used without the lock")
			}
		}
		if n == 0 {
			c.violate("pkg/state", "data that operations change is used under the lock", "no use of such data found")
		}
	})
}

func hasMutex(t types.Type) bool { _, ok := lockedType(t); return ok }
