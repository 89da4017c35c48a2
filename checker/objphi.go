package main

// Loop variables that refer to a new object in every iteration, as in
// sum = new(Scalar).Add(sum, x). While no other reference to these objects
// exists, they are one object whose content is carried.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type objPhi struct {
	p     *Term // stands for all of the objects
	typ   types.Type
	ptr   *DD // the reference at the end of an iteration
	cells []*objCell
}

type objCell struct {
	path []string
	typ  types.Type
	c    *cvar
}

func (c *objCell) at(p *Term) *Term {
	for _, f := range c.path {
		p = fldPtr(p, f)
	}
	return p
}

// numericCells lists the locations of a value of type t, when all are numbers
// or group elements.
func numericCells(t types.Type, path []string) ([]*objCell, bool) {
	switch primKind(t) {
	case "scalar", "point":
		return []*objCell{{path: path, typ: t}}, true
	case "field":
		return nil, false
	}
	if _, _, ok := intRange(t); ok {
		return []*objCell{{path: path, typ: t}}, true
	}
	st, ok := openStruct(t)
	if !ok {
		return nil, false
	}
	var out []*objCell
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		cs, ok := numericCells(f.Type(), append(append([]string{}, path...), f.Name()))
		if !ok {
			return nil, false
		}
		out = append(out, cs...)
	}
	return out, len(out) > 0
}

// changeObj makes a loop variable whose reference changes with every iteration
// one that refers to a single object.
func (lr *loopRun) changeObj(c *cvar) bool {
	sp := lr.sp
	if sp.fr == nil || c.phi < 0 || c.init.leaf == nil || c.init.leaf.op != OAlloc || c.typ == nil {
		return false
	}
	pt, ok := c.typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s0 := c.init.leaf
	if !strings.HasPrefix(s0.s, sp.fr.ctx+"/") {
		return false
	}
	cells, ok := numericCells(pt.Elem(), nil)
	if !ok || len(cells) > 4 {
		return false
	}
	o := &objPhi{p: intern(&Term{op: OAlloc, s: "phi:" + sp.ctx + c.name, args: lr.outerIdx()}), typ: pt.Elem(), cells: cells}
	if !lr.freshRefs(o, c.beta, s0) || !lr.onlyRef(s0, c) {
		return false
	}
	st0 := lr.st0.clone()
	for _, k := range cells {
		lr.ex.store(st0, k.at(o.p), k.typ, lr.ex.load(st0, k.at(s0), k.typ))
	}
	lr.st0 = st0
	for i, k := range cells {
		sig, idx := locOf(k.at(o.p))
		k.c = &cvar{name: fmt.Sprintf("o%s.%d", c.name, i), phi: -1, sig: sig, idx: idx, typ: k.typ, guard: ddT}
		k.c.init = lr.initRead(k.c)
		lr.initKind(k.c)
		if k.c.kind != kSym {
			return false
		}
		lr.cv = append(lr.cv, k.c)
		lr.mem[memKey(sig, idx)] = k.c
	}
	c.obj = o
	c.kind = kInv
	c.init = leaf(o.p)
	return true
}

// freshRefs: every reference is to the object itself (first before it has a
// name of its own) or to one made in this iteration.
func (lr *loopRun) freshRefs(o *objPhi, b *DD, first *Term) bool {
	id := pAtom(modZ, lr.lc.id)
	for _, l := range b.leaves() {
		t := l.t
		if t == o.p || t == first {
			continue
		}
		if t.op != OAlloc || len(t.args) == 0 || t.args[len(t.args)-1] != id || !strings.HasPrefix(t.s, lr.sp.fr.ctx+"/") {
			return false
		}
	}
	return true
}

// onlyRef: nothing but the loop variable refers to the first object from here on.
func (lr *loopRun) onlyRef(s0 *Term, c *cvar) bool {
	fr := lr.sp.fr
	rs := refSearch{targets: map[*Term]bool{s0: true}}
	for _, l := range lr.st0.mem.logs {
		for ; l != nil; l = l.prev {
			if rs.in(l.val) {
				return false
			}
		}
	}
	var header *ssa.BasicBlock
	for v, d := range fr.env {
		if d == nil || !rs.in(d) {
			continue
		}
		if header == nil {
			if header = lr.sp.header; header == nil {
				return false
			}
		}
		if in, ok := v.(ssa.Instruction); ok && header.Dominates(in.Block()) {
			continue // computed in the loop
		}
		rf := v.Referrers()
		if rf == nil {
			return false
		}
		for _, in := range *rf {
			if p, ok := in.(*ssa.Phi); ok && p.Block() == header && blockPhis(header)[c.phi] == p {
				continue
			}
			if b := in.Block(); b == header || !b.Dominates(header) {
				return false
			}
		}
	}
	for i, d := range lr.sp.init {
		if i != c.phi && rs.in(d) {
			return false
		}
	}
	for _, d := range fr.defers {
		for _, a := range d.args {
			if rs.in(a) {
				return false
			}
		}
	}
	return true
}

// checkObj determines the content carried to the next iteration.
func (lr *loopRun) checkObj(c *cvar, b *DD) {
	if !lr.freshRefs(c.obj, b, nil) {
		lr.fail("reference %s changes to %s", c.name, b)
	}
	c.obj.ptr = b
	c.beta = c.init
}

// objContents reads what the objects hold at the end of an iteration, and
// requires that no other reference to them was kept.
func (lr *loopRun) objContents(bst *State, bph []*DD) {
	targets := map[*Term]bool{}
	var objs []*objPhi
	for _, c := range lr.cv {
		if c.obj == nil || c.obj.ptr == nil {
			continue
		}
		objs = append(objs, c.obj)
		targets[c.obj.p] = true
		for _, l := range c.obj.ptr.leaves() {
			targets[l.t] = true
		}
	}
	if len(objs) == 0 {
		return
	}
	rs := refSearch{targets: targets}
	for sig, lb := range bst.mem.logs {
		for _, l := range layersAbove(lb, commonBase(lr.hm.logs[sig], lb)) {
			if rs.in(l.val) {
				lr.fail("a reference to the object of an iteration is kept")
			}
		}
	}
	for i, b := range bph {
		if c := lr.byPhi[i]; (c == nil || c.obj == nil) && rs.in(b) {
			lr.fail("two references to the object of an iteration")
		}
	}
	fresh := refSearch{targets: map[*Term]bool{}}
	for t := range targets {
		fresh.targets[t] = true
	}
	for _, o := range objs {
		delete(fresh.targets, o.p)
	}
	for _, o := range lr.outs {
		for _, r := range o.regs {
			if r != nil && fresh.in(r) {
				lr.fail("the object of an iteration is used after the loop")
			}
		}
	}
	for _, o := range objs {
		for _, k := range o.cells {
			k := k
			k.c.objBeta = map1(o.ptr, func(t *Term) *DD { return lr.ex.load(bst, k.at(t), k.typ) })
		}
	}
}

type refSearch struct {
	targets map[*Term]bool
	terms   map[*Term]bool
	dds     map[*DD]bool
}

// in says whether a value of d is or contains one of the targets.
func (r *refSearch) in(d *DD) bool {
	if d == nil {
		return false
	}
	if r.dds == nil {
		r.terms, r.dds = map[*Term]bool{}, map[*DD]bool{}
	}
	if v, ok := r.dds[d]; ok {
		return v
	}
	var v bool
	if d.leaf != nil {
		v = r.term(d.leaf)
	} else {
		v = r.in(d.hi) || r.in(d.lo)
	}
	r.dds[d] = v
	return v
}

func (r *refSearch) term(t *Term) bool {
	if t == nil {
		return false
	}
	if r.targets[t] {
		return true
	}
	if v, ok := r.terms[t]; ok {
		return v
	}
	v := false
	for _, a := range t.args {
		v = v || r.term(a)
	}
	for _, d := range t.dds {
		v = v || r.in(d)
	}
	r.terms[t] = v
	return v
}
