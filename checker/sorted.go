package main

// Sorted lists and lists read through copies.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listOf recognises the contents of a slice of integers: every element i is
// the i-th element of a set, or of those elements of a set that satisfy a
// condition.
func (ex *Exec) listOf(st *State, s *Term, et types.Type) (dom, v *Term, g *DD, ok bool) {
	j := loopVar("lo@", big0, maxLen)
	jt := pAtom(modZ, j)
	sub := st.clone()
	sub.pc = and(sub.pc, and(le(pInt(0), jt), lt(jt, s.args[2])))
	if sub.pc == ddF {
		return nil, nil, nil, false
	}
	d := ex.load(sub, idxPtr(s.args[0], pAdd(s.args[1], jt), false), et)
	d = restrict(d, sub.pc)
	if debugLoop {
		println("list", s.String(), d.String())
	}
	if d.leaf == nil || d.leaf.op != OPoly {
		return nil, nil, nil, false
	}
	a := d.leaf.singleAtom()
	if a == nil || d.leaf != pAtom(modZ, a) {
		return nil, nil, nil, false
	}
	x := loopVar("lx@", big0, bi(65535))
	if l, h, okr := intRange(et); okr {
		x = loopVar("lx@", l, h)
	}
	if a.op == OApp && a.s == "nth" && a.args[1] == jt {
		lam := a.args[0]
		return lam.args[0], x, openBinder(lam, lam.dds[0], pAtom(modZ, x)), true
	}
	if a.op == OBase && len(a.args) > 0 && a.args[len(a.args)-1] == jt {
		if r := listRoot(a.s, a.args); r != nil && s.args[2] == rootLen(r) {
			return intern(&Term{op: DSet, args: []*Term{r}}), x, ddT, true
		}
	}
	return nil, nil, nil, false
}

// sortedRoot is the list of the elements of dom that satisfy g, ascending.
func sortedRoot(dom, v *Term, g *DD, slT types.Type) *Term {
	if dom.op == DSet && g == ddT && isSorted(dom.args[0]) {
		return dom.args[0]
	}
	return intern(&Term{op: OBase, s: "@sorted", args: []*Term{flatLam(dom, v, g)}, typ: slT})
}

func isSorted(r *Term) bool { return r.op == OBase && r.s == "@sorted" }

// isDerived: a list made of the elements of another one.
func isDerived(r *Term) bool { return r.op == OBase && (r.s == "@sorted" || r.s == "@list") }

// listTerm is the list described by lam (the elements of its domain that
// satisfy its condition, in order).
func listTerm(lam *Term) *Term { return intern(&Term{op: OBase, s: "@list", args: []*Term{lam}}) }

// flatLam describes a list over a derived list by the underlying one.
func flatLam(dom, v *Term, g *DD) *Term {
	for dom.op == DSet && dom.args[0].op == OBase && dom.args[0].s == "@list" {
		lam := dom.args[0].args[0]
		g = and(openBinder(lam, lam.dds[0], pAtom(modZ, v)), g)
		dom = lam.args[0]
	}
	return mkLam(dom, v, g)
}

// underlying replaces the set of a sorted list by what was sorted.
func underlying(dom *Term) (d *Term, pres func(x *Term) *DD) {
	if dom.op == DSet && isDerived(dom.args[0]) {
		lam := dom.args[0].args[0]
		d, p := underlying(lam.args[0])
		return d, func(x *Term) *DD {
			g := openBinder(lam, lam.dds[0], x)
			if p != nil {
				g = and(g, p(x))
			}
			return g
		}
	}
	return dom, nil
}

// rootLen is the number of elements of a list.
func rootLen(r *Term) *Term {
	if d := rootLenDD(r); d.leaf != nil {
		return d.leaf
	}
	return pAtom(modZ, lenAtom(r))
}

func rootLenDD(r *Term) *DD {
	if isDerived(r) {
		lam := r.args[0]
		v := loopVar("rl@", nil, nil)
		return mkSum(lam.args[0], v, ite(openBinder(lam, lam.dds[0], pAtom(modZ, v)), dInt(1), dInt(0)))
	}
	return leaf(pAtom(modZ, lenAtom(r)))
}

// isRootLen: n is the length of the list r wherever pc holds.
func isRootLen(r, n *Term, pc *DD) bool {
	return restrict(rootLenDD(r), pc).leaf == n
}

// sortSlice models sort.Slice(s, less) for an ascending order of integers.
func sortSlice(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
	f := restrict(ci.args[1], st.pc)
	if f.leaf == nil || f.leaf.op != OFunc {
		return nil, false
	}
	return nil, ex.sortList(fr, st, ci, func(s *Term, el func(*Term) *DD) bool {
		return ex.ordersBy(fr, st, ci, f.leaf.fn.(*ssa.Function), nil, f.leaf.dds, s.args[2], el)
	})
}

// sortSort models sort.Sort of a slice type of this module in ascending order.
func sortSort(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
	sl := restrict(ci.args[0], st.pc)
	if sl.leaf == nil || sl.leaf.op != OIface {
		return nil, false
	}
	if _, ok := sl.leaf.typ.(*types.Named); !ok {
		return nil, false
	}
	ms := ex.prog.prog.MethodSets.MethodSet(sl.leaf.typ)
	method := func(name string) *ssa.Function {
		if sel := ms.Lookup(nil, name); sel != nil {
			return ex.prog.prog.MethodValue(sel)
		}
		return nil
	}
	length, less, swap := method("Len"), method("Less"), method("Swap")
	if length == nil || less == nil || swap == nil || length.Blocks == nil || less.Blocks == nil || swap.Blocks == nil {
		return nil, false
	}
	recv := sl.leaf.dds[0]
	return nil, ex.sortList(fr, st, ci, func(s *Term, el func(*Term) *DD) bool {
		r, _ := ex.callFn(length, []*DD{recv}, nil, st.clone(), ci.ctx+"n", fr)
		return restrict(r[0], st.pc).leaf == s.args[2] &&
			ex.swaps(fr, st, ci, swap, recv, s) &&
			ex.ordersBy(fr, st, ci, less, []*DD{recv}, nil, s.args[2], el)
	})
}

// sortList sorts the list of integers that is the first argument, if ok.
func (ex *Exec) sortList(fr *Frame, st *State, ci *callInfo, ok func(s *Term, el func(*Term) *DD) bool) bool {
	sl := restrict(ci.args[0], st.pc)
	if sl.leaf == nil || sl.leaf.op != OIface {
		return false
	}
	slT := sl.leaf.typ
	u, isSlice := slT.Underlying().(*types.Slice)
	if !isSlice {
		return false
	}
	sd := restrict(sl.leaf.dds[0], st.pc)
	if sd.leaf == nil || sd.leaf.op != OSlice {
		return false
	}
	s := sd.leaf
	if _, _, isInt := intRange(u.Elem()); !isInt {
		return false
	}
	if i := pAtom(modZ, loopVar("si@"+ci.ctx, big0, maxLen)); ascending(ex, st, s, u.Elem(), i) {
		return ok(s, func(i *Term) *DD { return ex.load(st, idxPtr(s.args[0], pAdd(s.args[1], i), false), u.Elem()) })
	}
	dom, x, g, isList := ex.listOf(st, s, u.Elem())
	if !isList {
		return false
	}
	R := sortedRoot(dom, x, g, slT)
	rs, ri := locOf(R)
	listType[rs+"[]"] = slT
	j := loopVar("sj@"+ci.ctx, big0, maxLen)
	jt := pAtom(modZ, j)
	val := baseVal(rs+"[]", append(append([]*Term{}, ri...), jt), u.Elem())
	as, ai := locOf(s.args[0])
	st.mem.push(as+"[]", &Layer{idx: append(append([]*Term{}, ai...), pAdd(s.args[1], jt)), val: val, guard: ddT, vars: []*Term{j},
		doms: []*Term{intern(&Term{op: DRange, args: []*Term{s.args[2]}})}, typ: u.Elem()})
	return ok(s, func(i *Term) *DD { return baseVal(rs+"[]", append(append([]*Term{}, ri...), i), u.Elem()) })
}

// swaps: the method exchanges the elements at two indices of s, and does
// nothing else.
func (ex *Exec) swaps(fr *Frame, st *State, ci *callInfo, swap *ssa.Function, recv *DD, s *Term) bool {
	et := restrict(ci.args[0], st.pc).leaf.typ.Underlying().(*types.Slice).Elem()
	a, b, c := loopVar("sa@"+ci.ctx, big0, maxLen), loopVar("sb@"+ci.ctx, big0, maxLen), loopVar("sc@"+ci.ctx, big0, maxLen)
	at, bt, ct := pAtom(modZ, a), pAtom(modZ, b), pAtom(modZ, c)
	sub := st.clone()
	for _, x := range []*Term{at, bt, ct} {
		sub.pc = andN(sub.pc, le(pInt(0), x), lt(x, s.args[2]))
	}
	if sub.pc == ddF {
		return true
	}
	_, after := ex.callFn(swap, []*DD{recv, leaf(at), leaf(bt)}, nil, sub, ci.ctx+"s", fr)
	if after == nil || after.pc != sub.pc {
		return false
	}
	as, _ := locOf(s.args[0])
	for k, l := range after.mem.logs {
		if k != as+"[]" && sub.mem.logs[k] != l {
			return false
		}
	}
	n := len(ex.reads)
	defer func() { ex.reads = ex.reads[:n] }()
	el := func(st *State, i *Term) *DD { return ex.load(st, idxPtr(s.args[0], pAdd(s.args[1], i), false), et) }
	want := ite(eqPoly(ct, at), el(sub, bt), ite(eqPoly(ct, bt), el(sub, at), el(sub, ct)))
	return unsat(and(sub.pc, not(map2(el(after, ct), want, func(x, y *Term) *DD { return eqPoly(x, y) }))))
}

// ascending: the elements of s are in ascending order already.
func ascending(ex *Exec, st *State, s *Term, et types.Type, i *Term) bool {
	sub := st.clone()
	sub.pc = andN(sub.pc, le(pInt(0), i), lt(pAdd(i, one()), s.args[2]))
	if sub.pc == ddF {
		return true
	}
	n := len(ex.reads)
	defer func() { ex.reads = ex.reads[:n] }()
	a := ex.load(sub, idxPtr(s.args[0], pAdd(s.args[1], i), false), et)
	b := ex.load(sub, idxPtr(s.args[0], pAdd(pAdd(s.args[1], i), one()), false), et)
	return unsat(and(sub.pc, dLt(b, a)))
}

// ordersBy: the function compares the elements of a list at two indices.
func (ex *Exec) ordersBy(fr *Frame, st *State, ci *callInfo, f *ssa.Function, recv, binds []*DD, n *Term, el func(*Term) *DD) bool {
	a, b := loopVar("sa@"+ci.ctx, big0, maxLen), loopVar("sb@"+ci.ctx, big0, maxLen)
	at, bt := pAtom(modZ, a), pAtom(modZ, b)
	sub := st.clone()
	sub.pc = and(sub.pc, andN(le(pInt(0), at), lt(at, n), le(pInt(0), bt), lt(bt, n)))
	if sub.pc == ddF {
		return true
	}
	res, _ := ex.callFn(f, append(append([]*DD{}, recv...), leaf(at), leaf(bt)), binds, sub, ci.ctx, fr)
	return restrict(res[0], sub.pc) == restrict(dLt(el(at), el(bt)), sub.pc)
}

// noteElems records that the value read is an element of a list at the
// current iteration, and replaces it in element mode.
func (ex *Exec) noteElems(d *DD) *DD {
	for _, lc := range ex.loops {
		if !d.has(lc.iv) {
			continue
		}
		iv := pAtom(modZ, lc.iv)
		found := elemTerms(d, lc.iv, lc.rev)
		m := map[*Term]*DD{}
		for _, t := range found {
			if t.op == OApp {
				ex.reads = append(ex.reads, readRec{"nth", t.args})
				if lc.root == listTerm(t.args[0]) {
					r := newRepl(map[*Term]*DD{lc.iv: leaf(iv)})
					r.rt = map[*Term]*DD{t: dAtom(modZ, lc.ev)}
					d = r.dd(d)
				}
				continue
			}
			ex.reads = append(ex.reads, readRec{t.s, t.args})
			if lc.root != nil {
				s, ri := locOf(lc.root)
				if t.s == s+"[]" && sameIdxT(t.args[:len(t.args)-1], ri) && t.args[len(t.args)-1] == lc.elemIdx() {
					m[t] = dAtom(modZ, lc.ev)
				}
			}
		}
		if len(m) > 0 {
			d = map1(d, func(t *Term) *DD {
				if t.op == OPoly {
					if a := t.singleAtom(); a != nil && m[a] != nil && t == pAtom(modZ, a) {
						return m[a]
					}
				}
				return leaf(t)
			})
		}
	}
	return d
}

// noteOrder records how the elements of an ascending list that are read
// compare with the element of the current iteration.
func (ex *Exec) noteOrder(st *State, d *DD) {
	for _, lc := range ex.loops {
		if lc.root == nil || lc.rev != nil || !isSorted(lc.root) || !d.has(lc.iv) {
			continue
		}
		s, ri := locOf(lc.root)
		iv, ev := pAtom(modZ, lc.iv), pAtom(modZ, lc.ev)
		map1(d, func(t *Term) *DD {
			if t.op != OPoly {
				return leaf(t)
			}
			linAtoms(t, func(a *Term) {
				if a.op != OBase || a.s != s+"[]" || len(a.args) != len(ri)+1 || !sameIdxT(a.args[:len(ri)], ri) {
					return
				}
				i, x := a.args[len(ri)], pAtom(modZ, a)
				st.pc = andN(st.pc, implD(and(le(pInt(0), i), lt(i, iv)), lt(x, ev)), implD(lt(iv, i), lt(ev, x)))
			})
			return leaf(t)
		})
	}
}

// elemTerms finds the list elements at index v that occur in d.
func elemTerms(d *DD, v, rev *Term) []*Term {
	iv := pAtom(modZ, v)
	at := iv
	if rev != nil {
		at = pSub(rev, iv)
	}
	seen := map[*Term]bool{}
	seenD := map[*DD]bool{}
	var found []*Term
	var visit func(t *Term)
	var visitD func(x *DD)
	visitD = func(x *DD) {
		if seenD[x] || !x.has(v) {
			return
		}
		seenD[x] = true
		if x.leaf != nil {
			visit(x.leaf)
			return
		}
		visit(x.atom)
		visitD(x.hi)
		visitD(x.lo)
	}
	visit = func(t *Term) {
		if t == nil || seen[t] || !t.has(v) {
			return
		}
		seen[t] = true
		if t.op == OBase && strings.HasSuffix(t.s, "[]") && len(t.args) > 0 && (t.args[len(t.args)-1] == iv || t.args[len(t.args)-1] == at) && !t.point {
			found = append(found, t)
		}
		if t.op == OApp && t.s == "nth" && t.args[1] == iv {
			found = append(found, t)
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, x := range t.dds {
			visitD(x)
		}
		if t.poly != nil {
			for _, m := range t.poly.ms {
				for _, f := range m.fs {
					visit(f.a)
					visit(f.e)
				}
			}
		}
	}
	visitD(d)
	sort.Slice(found, func(i, j int) bool { return found[i].id < found[j].id })
	return found
}

// overElements rewrites a binder body over the indices of a list as one over
// its elements, if it depends on the index through the element only.
func overElements(dom, v *Term, body *DD) (*Term, *Term, *DD, bool) {
	if dom.op != DRange || !body.has(v) {
		return nil, nil, nil, false
	}
	for _, t := range elemTerms(body, v, nil) {
		var root *Term
		if t.op == OApp {
			root = listTerm(t.args[0])
		} else if root = listRoot(t.s, t.args); root == nil || !intElems(root) {
			continue
		}
		if root.has(v) || rootLen(root) != dom.args[0] {
			continue
		}
		nd := intern(&Term{op: DSet, args: []*Term{root}})
		lo, hi := domRange(nd)
		w := loopVar("oe~", lo, hi)
		r := newRepl(map[*Term]*DD{v: dAtom(modZ, v)})
		r.rt = map[*Term]*DD{t: dAtom(modZ, w)}
		b := r.dd(body)
		if !b.has(v) {
			return nd, w, b, true
		}
	}
	return nil, nil, nil, false
}
