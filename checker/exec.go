package main

// Abstract interpreter over go/ssa.  Control flow is joined at every merge
// point (values become decision diagrams), calls into the module are
// summarised by interpreting the callee in the caller's context, loops are
// summarised by loop.go.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	pc  *DD
	mem *Mem
}

func (s *State) clone() *State { return &State{pc: s.pc, mem: s.mem.clone()} }

type Event struct {
	kind  string
	what  string
	pos   token.Pos
	fn    *ssa.Function
	ctx   string
	pc    *DD
	args  []*DD
	res   []*DD
	loops []*loopCtx
	seq   int
	depth int
	instr ssa.Instruction
	extra interface{}
}

type loopCtx struct {
	ctx     string
	iv      *Term // iteration index
	ev      *Term // element variable
	root    *Term // slice whose elements are enumerated (element mode)
	rev     *Term // the last index when the elements are enumerated backwards
	more    *Term // "has next" atom of a map range
	mapDom  *Term
	mapPres *DD
	id      *Term // identity variable used for allocations
	aux     []*Term
}

// elemIdx is the index of the element of the current iteration.
func (lc *loopCtx) elemIdx() *Term {
	if lc.rev != nil {
		return pSub(lc.rev, pAtom(modZ, lc.iv))
	}
	return pAtom(modZ, lc.iv)
}

type deferRec struct {
	call  *ssa.CallCommon
	instr ssa.Instruction
	args  []*DD
	fnv   *DD
	guard *DD
	n     int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*DD
	ctx    string
	defers []deferRec
	depth  int
	binds  []*DD
	pos    token.Pos
	parent *Frame
}

type readRec struct {
	sig string
	idx []*Term
}

type Exec struct {
	prints      []printRec
	meanwhile   *Term // what happens while the next receive waits
	prog        *Program
	events      []*Event
	reads       []readRec
	loops       []*loopCtx
	calls       int
	fns         map[*ssa.Function]bool // functions analysed
	instrs      int
	globals     map[string]bool
	randOK      bool // reading randomness does not fail
	lastPoly    *DD
	leaks       *leaks
	abs         bool // treat ristretto.Element operations as group operations
	hook        func(e *Event, st *State)
	override    map[string]func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool)
	curFrame    *Frame
	axioms      *DD
	prevReads   []*prevRead
	unknown     []string
	strict      bool
	result      []*DD
	final       *State
	initChanged []string
	fnStack     []string
	allocType   map[*Term]types.Type // objects with a mutex
}

func newExec(p *Program) *Exec {
	return &Exec{prog: p, fns: map[*ssa.Function]bool{}, globals: map[string]bool{}, abs: true, strict: true, axioms: ddT, allocType: map[*Term]types.Type{},
		override: map[string]func(*Exec, *Frame, *State, *callInfo) ([]*DD, *State, bool){}}
}

func (ex *Exec) event(fr *Frame, st *State, in ssa.Instruction, kind, what string, args ...*DD) *Event {
	e := &Event{kind: kind, what: what, pc: st.pc, args: args, seq: len(ex.events), loops: append([]*loopCtx{}, ex.loops...), instr: in}
	if fr != nil {
		e.fn, e.ctx, e.depth = fr.fn, fr.ctx, fr.depth
	}
	if in != nil {
		e.pos = in.Pos()
	}
	ex.events = append(ex.events, e)
	if ex.hook != nil {
		ex.hook(e, st)
	}
	return e
}

// ---------------------------------------------------------------- memory access

func (ex *Exec) readAt(st *State, sig string, idx []*Term, t types.Type) *DD {
	return ex.readBase(st, sig, idx, func() *DD { return baseVal(sig, idx, t) })
}

func (ex *Exec) readBase(st *State, sig string, idx []*Term, base func() *DD) *DD {
	// element mode: S[i] is the element variable
	for _, lc := range ex.loops {
		if lc.root != nil && len(idx) > 0 {
			s, ri := locOf(lc.root)
			if sig == s+"[]" && sameIdxT(idx[:len(idx)-1], ri) && idx[len(idx)-1] == lc.elemIdx() {
				if st.mem.logs[sig] == nil {
					return dAtom(modZ, lc.ev)
				}
			}
		}
	}
	for _, p := range ex.prevReads {
		if p.sig == sig && sameIdxT(p.idx, idx) {
			return p.val
		}
	}
	ex.reads = append(ex.reads, readRec{sig, idx})
	d := restrict(st.mem.readLoc(sig, idx, base), st.pc)
	if len(ex.loops) > 0 {
		d = ex.noteElems(d)
		ex.noteOrder(st, d)
	}
	return d
}

func sameIdxT(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	return sameIdx(a, b)
}

// load reads a value of type t through pointer term p.
func (ex *Exec) load(st *State, p *Term, t types.Type) *DD {
	if p.op == OIdx && p.s == "byte" {
		c := ex.bytesOf(st, p.args[0])
		return map1(c, func(s *Term) *DD {
			if s.op != OSeq {
				panic(undecided("byte access to " + s.String()))
			}
			return leaf(byteAt(s, p.args[1]))
		})
	}
	if stt, ok := openStruct(t); ok {
		ds := make([]*DD, stt.NumFields())
		for i := range ds {
			ds[i] = ex.load(st, fldPtr(p, stt.Field(i).Name()), stt.Field(i).Type())
		}
		return leaf(intern(&Term{op: OAgg, dds: ds, typ: t}))
	}
	if at, ok := t.Underlying().(*types.Array); ok && !isByte(at.Elem()) && at.Len() <= 256 {
		ds := make([]*DD, at.Len())
		for i := range ds {
			ds[i] = ex.load(st, idxPtr(p, pInt(int64(i)), false), at.Elem())
		}
		return leaf(intern(&Term{op: OAgg, dds: ds, typ: t}))
	}
	sig, idx := locOf(p)
	return ex.readAt(st, sig, idx, t)
}

// bytesOf is the content of a byte array location.
func (ex *Exec) bytesOf(st *State, arr *Term) *DD {
	if arr.op == ONil {
		return leaf(mkSeq(nil))
	}
	sig, idx := locOf(arr)
	return ex.readBase(st, sig, idx, func() *DD {
		if isAllocSig(sig) {
			return leaf(mkSeq(nil))
		}
		if arr.op == OBase && arr.typ != nil {
			if _, ok := arr.typ.Underlying().(*types.Slice); ok {
				return leaf(symBytesOf(arr))
			}
		}
		return leaf(symBytes(sig, idx))
	})
}

func (ex *Exec) store(st *State, p *Term, t types.Type, v *DD) {
	if p.op == OIdx && p.s == "byte" {
		c := ex.bytesOf(st, p.args[0])
		n := map2(c, v, func(s, x *Term) *DD { return leaf(splice(s, p.args[1], mkSeq([]*Term{byteSeg(x)}))) })
		sig, idx := locOf(p.args[0])
		st.mem.writeLoc(sig, idx, n, nil)
		return
	}
	if stt, ok := openStruct(t); ok {
		for i := 0; i < stt.NumFields(); i++ {
			ex.store(st, fldPtr(p, stt.Field(i).Name()), stt.Field(i).Type(), fieldOf(v, i))
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok && !isByte(at.Elem()) && at.Len() <= 256 {
		for i := 0; i < int(at.Len()); i++ {
			ex.store(st, idxPtr(p, pInt(int64(i)), false), at.Elem(), fieldOf(v, i))
		}
		return
	}
	sig, idx := locOf(p)
	st.mem.writeLoc(sig, idx, v, t)
}

// fieldOf projects component i of an aggregate.
func fieldOf(v *DD, i int) *DD {
	return map1(v, func(t *Term) *DD {
		if t.op != OAgg {
			panic(undecided("projection from " + t.String()))
		}
		return t.dds[i]
	})
}

// derefs runs f for each non-nil target of a pointer value and records possible nil dereferences.
func (ex *Exec) ptrLeaves(fr *Frame, st *State, in ssa.Instruction, p *DD) []guarded {
	p = restrict(p, st.pc)
	var out []guarded
	nilc := ddF
	for _, l := range p.leaves() {
		n := isNil(l.t)
		if n != ddF {
			nilc = or(nilc, and(l.g, n))
		}
		if n != ddT {
			out = append(out, l)
		}
	}
	if nc := and(nilc, st.pc); nc != ddF {
		e := ex.event(fr, st, in, "nilderef", p.String(), p)
		e.extra = nc
		st.pc = and(st.pc, not(nilc))
	}
	return out
}

func (ex *Exec) loadDD(fr *Frame, st *State, in ssa.Instruction, p *DD, t types.Type) *DD {
	ls := ex.ptrLeaves(fr, st, in, p)
	if len(ls) == 0 {
		st.pc = ddF
		return zeroVal(t)
	}
	ex.access(fr, st, in, p, false)
	res := ex.load(st, ls[len(ls)-1].t, t)
	for i := len(ls) - 2; i >= 0; i-- {
		res = ite(ls[i].g, ex.load(st, ls[i].t, t), res)
	}
	return restrict(res, st.pc)
}

func (ex *Exec) storeDD(fr *Frame, st *State, in ssa.Instruction, p *DD, t types.Type, v *DD) {
	ls := ex.ptrLeaves(fr, st, in, p)
	if len(ls) == 0 {
		st.pc = ddF
		return
	}
	ex.access(fr, st, in, p, true)
	if len(ls) == 1 {
		ex.store(st, ls[0].t, t, v)
		return
	}
	for _, l := range ls {
		g := restrict(l.g, st.pc)
		if g == ddT {
			ex.store(st, l.t, t, v)
		} else if g != ddF {
			ex.store(st, l.t, t, ite(g, v, ex.load(st, l.t, t)))
		}
	}
}

// ---------------------------------------------------------------- joins

func mergeStates(a, b *State) *State {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	pc := or(a.pc, b.pc)
	out := &State{pc: pc, mem: newMem()}
	ca := restrict(a.pc, pc)
	for sig, la := range a.mem.logs {
		lb, ok := b.mem.logs[sig]
		if ok && la == lb {
			out.mem.logs[sig] = la
			continue
		}
		out.mem.logs[sig] = mergeLogs(sig, la, lb, ca)
	}
	for sig, lb := range b.mem.logs {
		if _, ok := a.mem.logs[sig]; !ok {
			out.mem.logs[sig] = mergeLogs(sig, nil, lb, ca)
		}
	}
	return out
}

func layersAbove(l, base *Layer) []*Layer {
	var out []*Layer
	for ; l != base && l != nil; l = l.prev {
		out = append(out, l)
	}
	return out
}

func mergeLogs(sig string, la, lb *Layer, ca *DD) *Layer {
	x, y := la, lb
	for x != y {
		dx, dy := 0, 0
		if x != nil {
			dx = x.depth
		}
		if y != nil {
			dy = y.depth
		}
		if dx >= dy {
			x = x.prev
		}
		if dy >= dx && y != nil {
			y = y.prev
		}
	}
	base := x
	na, nb := layersAbove(la, base), layersAbove(lb, base)
	exact := true
	for _, l := range append(append([]*Layer{}, na...), nb...) {
		if len(l.vars) > 0 || l.cnt != nil || l.guard != ddT {
			exact = false
		}
	}
	m := &Mem{logs: map[string]*Layer{}}
	if base != nil {
		m.logs[sig] = base
	}
	if exact {
		var idxs []*Layer
		add := func(l *Layer) {
			for _, o := range idxs {
				if sameIdx(o.idx, l.idx) {
					return
				}
			}
			idxs = append(idxs, l)
		}
		for i := len(na) - 1; i >= 0; i-- {
			add(na[i])
		}
		for i := len(nb) - 1; i >= 0; i-- {
			add(nb[i])
		}
		for _, l := range idxs {
			var t types.Type = l.typ
			base := func() *DD {
				if t == nil {
					return byteBase(sig, l.idx)
				}
				return baseVal(sig, l.idx, t)
			}
			va := readLog(la, l.idx, base)
			vb := readLog(lb, l.idx, base)
			m.push(sig, &Layer{idx: l.idx, val: ite(ca, va, vb), guard: ddT, typ: l.typ})
		}
		return m.logs[sig]
	}
	for i := len(na) - 1; i >= 0; i-- {
		l := *na[i]
		l.guard = and(l.guard, ca)
		m.push(sig, &l)
	}
	for i := len(nb) - 1; i >= 0; i-- {
		l := *nb[i]
		l.guard = and(l.guard, not(ca))
		m.push(sig, &l)
	}
	return m.logs[sig]
}

func byteBase(sig string, idx []*Term) *DD {
	if isAllocSig(sig) {
		return leaf(mkSeq(nil))
	}
	return leaf(symBytes(sig, idx))
}

type Edge struct {
	from, to *ssa.BasicBlock
	st       *State
	phis     []*DD
	regs     []*DD
}

func blockPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func mergeEdges(es []Edge) (*State, []*DD) {
	var st *State
	var phis []*DD
	for _, e := range es {
		if e.st == nil || e.st.pc == ddF {
			continue
		}
		if st == nil {
			st = e.st
			phis = e.phis
			continue
		}
		pc := or(st.pc, e.st.pc)
		c := restrict(st.pc, pc)
		np := make([]*DD, len(phis))
		for i := range phis {
			np[i] = restrict(ite(c, phis[i], e.phis[i]), pc)
		}
		st = mergeStates(st, e.st)
		phis = np
	}
	return st, phis
}

// ---------------------------------------------------------------- functions

type retRec struct {
	st  *State
	res []*DD
}

// callFn interprets fn.
func (ex *Exec) callFn(fn *ssa.Function, args []*DD, binds []*DD, st *State, ctx string, parent *Frame) ([]*DD, *State) {
	if fn.Blocks == nil {
		panic(undecided("no body for " + fn.String()))
	}
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 60 {
		panic(undecided("call depth exceeded (recursion) at " + fn.String()))
	}
	ex.fns[fn] = true
	ex.calls++
	if len(ex.fnStack) > depth {
		ex.fnStack = ex.fnStack[:depth]
	}
	ex.fnStack = append(ex.fnStack, fn.String())
	fr := &Frame{fn: fn, env: map[ssa.Value]*DD{}, ctx: ctx, depth: depth, binds: binds, parent: parent}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = binds[i]
	}
	prev := ex.curFrame
	ex.curFrame = fr
	defer func() { ex.curFrame = prev }()
	out, rets := ex.runBlocks(fr, nil, fn.Blocks[0], []Edge{{to: fn.Blocks[0], st: st.clone()}})
	_ = out
	var es []Edge
	for _, r := range rets {
		es = append(es, Edge{st: r.st, phis: r.res})
	}
	s, res := mergeEdges(es)
	if s == nil {
		n := fn.Signature.Results().Len()
		res = make([]*DD, n)
		for i := range res {
			res[i] = zeroVal(fn.Signature.Results().At(i).Type())
		}
		d := st.clone()
		d.pc = ddF
		s = d
	}
	if len(ex.fnStack) > depth {
		ex.fnStack = ex.fnStack[:depth]
	}
	return res, s
}

func (ex *Exec) runBlocks(fr *Frame, lp *Loop, start *ssa.BasicBlock, in []Edge) (out []Edge, rets []retRec) {
	info := ex.prog.loopInfo(fr.fn)
	pending := map[*ssa.BasicBlock][]Edge{start: in}
	route := func(e Edge) {
		if lp != nil && (e.to == lp.header || !lp.blocks[e.to]) {
			out = append(out, e)
		} else {
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range info.rpo {
		if lp != nil && !lp.blocks[b] {
			continue
		}
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		st, phis := mergeEdges(es)
		if st == nil || st.pc == ddF {
			continue
		}
		if inner := info.byHeader[b]; inner != nil && inner != lp {
			for _, e := range ex.runLoopSSA(fr, inner, st, phis) {
				route(e)
			}
			continue
		}
		st = st.clone()
		for i, p := range blockPhis(b) {
			fr.env[p] = restrict(phis[i], st.pc)
		}
		es, r := ex.runBlock(fr, b, st)
		for _, e := range es {
			route(e)
		}
		if r != nil {
			rets = append(rets, *r)
		}
	}
	return out, rets
}

func (ex *Exec) edge(fr *Frame, from *ssa.BasicBlock, succ int, st *State) Edge {
	to := from.Succs[succ]
	e := Edge{from: from, to: to, st: st}
	// predecessor index: the n-th occurrence
	occ := 0
	for i := 0; i < succ; i++ {
		if from.Succs[i] == to {
			occ++
		}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			if occ == 0 {
				pi = i
				break
			}
			occ--
		}
	}
	for _, p := range blockPhis(to) {
		e.phis = append(e.phis, ex.val(fr, p.Edges[pi]))
	}
	return e
}

func (ex *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) ([]Edge, *retRec) {
	for _, in := range b.Instrs {
		if st.pc == ddF {
			return nil, nil
		}
		ex.instrs++
		switch i := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.Jump:
			return []Edge{ex.edge(fr, b, 0, st)}, nil
		case *ssa.If:
			c := restrict(ex.val(fr, i.Cond), st.pc)
			if !isBoolDD(c) {
				panic(undecided("branch on non boolean " + c.String()))
			}
			if ex.leaks != nil {
				ex.leakBranch(fr, st, in, c)
			}
			var es []Edge
			pt := and(st.pc, c)
			pf := and(st.pc, not(c))
			if pt != ddF {
				s := st
				if pf != ddF {
					s = st.clone()
				}
				s.pc = pt
				es = append(es, ex.edge(fr, b, 0, s))
			}
			if pf != ddF {
				s := st
				s.pc = pf
				if pt != ddF {
					s = &State{pc: pf, mem: st.mem}
				}
				es = append(es, ex.edge(fr, b, 1, s))
			}
			return es, nil
		case *ssa.Return:
			r := &retRec{st: st}
			for _, v := range i.Results {
				r.res = append(r.res, restrict(ex.val(fr, v), st.pc))
			}
			return nil, r
		case *ssa.Panic:
			if ex.leaks != nil {
				ex.leak(fr, st, in, "no secret is part of a panic", ex.val(fr, i.X), i.X.Type())
			}
			ex.event(fr, st, in, "panic", "explicit panic", ex.val(fr, i.X))
			return nil, nil
		default:
			ex.instr(fr, st, in)
		}
	}
	return nil, nil
}

func (ex *Exec) ctxOf(fr *Frame, in ssa.Instruction) string {
	return fr.ctx + "/" + ex.prog.instrID(in)
}

func (ex *Exec) loopIdx() []*Term {
	var out []*Term
	for _, l := range ex.loops {
		out = append(out, pAtom(modZ, l.id))
	}
	return out
}

func (ex *Exec) allocAt(ctx string) *Term {
	return intern(&Term{op: OAlloc, s: ctx, args: ex.loopIdx()})
}

// val evaluates an operand.
func (ex *Exec) val(fr *Frame, v ssa.Value) *DD {
	switch x := v.(type) {
	case *ssa.Const:
		return ex.constVal(x)
	case *ssa.Function:
		return leaf(intern(&Term{op: OFunc, s: x.String(), fn: x}))
	case *ssa.Global:
		n := "g:" + x.String()
		return leaf(intern(&Term{op: OApp, s: n}))
	case *ssa.Builtin:
		return leaf(tConst("builtin " + x.Name()))
	}
	d, ok := fr.env[v]
	if !ok {
		panic(undecided("unevaluated register " + v.Name() + " in " + fr.fn.String()))
	}
	return d
}

func (ex *Exec) constVal(c *ssa.Const) *DD {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolDD(constant.BoolVal(c.Value))
	case constant.String:
		return leaf(mkSeq([]*Term{bytesSeg([]byte(constant.StringVal(c.Value)))}))
	case constant.Int:
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if ok {
			if b, isB := t.Underlying().(*types.Basic); isB && b.Info()&types.IsInteger == 0 && b.Info()&types.IsNumeric != 0 {
				return leaf(tConst(c.Value.ExactString()))
			}
			return leaf(pBig(n))
		}
	}
	return leaf(tConst(c.Value.ExactString()))
}

func (ex *Exec) set(fr *Frame, st *State, v ssa.Value, d *DD) {
	fr.env[v] = restrict(d, st.pc)
}

// fit reduces an integer polynomial to the range of type t.
func (ex *Exec) fit(st *State, d *DD, t types.Type) *DD {
	lo, hi, ok := intRange(t)
	if !ok {
		return d
	}
	b := t.Underlying().(*types.Basic)
	return map1(d, func(p *Term) *DD {
		if p.op != OPoly {
			return leaf(p)
		}
		if c, ok := p.constVal(); ok {
			n := new(big.Int).Sub(hi, lo)
			n.Add(n, big1)
			r := new(big.Int).Sub(c, lo)
			r.Mod(r, n)
			r.Add(r, lo)
			return leaf(pBig(r))
		}
		plo, phi := prange(p)
		if plo != nil && phi != nil && plo.Cmp(lo) >= 0 && phi.Cmp(hi) <= 0 {
			return leaf(p)
		}
		if b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.Uint64 || b.Kind() == types.Uint {
			// 64 bit quantities here are lengths and counters
			if b.Kind() == types.Int || b.Kind() == types.Int64 {
				return leaf(p)
			}
			if plo != nil && plo.Sign() >= 0 {
				return leaf(p)
			}
		}
		if st != nil && impliesRange(st.pc, p, lo, hi) {
			return leaf(p)
		}
		if st != nil && len(p.poly.ms) <= 4 {
			// at most one turn
			n := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
			if impliesRange(st.pc, p, new(big.Int).Sub(lo, n), hi) {
				return ite(le(pBig(lo), p), leaf(p), leaf(pAdd(p, pBig(n))))
			}
			if impliesRange(st.pc, p, lo, new(big.Int).Add(hi, n)) {
				return ite(le(p, pBig(hi)), leaf(p), leaf(pSub(p, pBig(n))))
			}
		}
		return leaf(wrapInt(p, lo, hi, b.Name()))
	})
}

func wrapInt(p *Term, lo, hi *big.Int, name string) *Term {
	// wrapping is a ring homomorphism: drop inner wraps to a multiple of the range
	if p.op == OPoly {
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, big1)
		q := p
		for _, m := range p.poly.ms {
			if len(m.fs) == 1 && m.fs[0].e == one() && strings.HasPrefix(m.fs[0].a.s, "wrap:") && m.fs[0].a.op == OApp {
				w := m.fs[0].a
				k := new(big.Int).Sub(w.hi, w.lo)
				k.Add(k, big1)
				if new(big.Int).Mod(k, n).Sign() == 0 {
					q = pSub(q, mkPoly(modZ, []Mono{m}))
					q = pAdd(q, pMul(pBig(m.c), w.args[0]))
				}
			}
		}
		if q != p {
			plo, phi := prange(q)
			if plo != nil && phi != nil && plo.Cmp(lo) >= 0 && phi.Cmp(hi) <= 0 {
				return q
			}
			p = q
		}
	}
	return pAtom(modZ, simpApp(&Term{op: OApp, s: "wrap:" + name, args: []*Term{p}, lo: lo, hi: hi}))
}

func init() {
	for _, n := range []string{"uint8", "uint16", "uint32", "uint64", "uint", "int8", "int16", "int32", "byte"} {
		simplifiers["wrap:"+n] = func(t *Term) *Term {
			p := t.args[0]
			lo, hi := prange(p)
			if lo != nil && hi != nil && lo.Cmp(t.lo) >= 0 && hi.Cmp(t.hi) <= 0 {
				return p
			}
			return nil
		}
	}
	for _, op := range []token.Token{token.QUO, token.REM} {
		simplifiers["op"+op.String()] = func(t *Term) *Term {
			if len(t.args) == 2 {
				if r := divmod(op, t.args[0], t.args[1], types.Typ[types.Int]); r.singleAtom() == nil || r.singleAtom().s != t.s {
					return r
				}
			}
			return nil
		}
	}
	simplifiers["byteAt"] = func(t *Term) *Term {
		if t.args[0].op == OSeq {
			r := byteAt(t.args[0], t.args[1])
			if a := r.singleAtom(); a == nil || a.s != "byteAt" {
				return r
			}
		}
		return nil
	}
}

func (ex *Exec) instr(fr *Frame, st *State, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := ex.allocAt(ex.ctxOf(fr, in))
		if et := i.Type().Underlying().(*types.Pointer).Elem(); hasMutex(et) {
			ex.allocType[a] = et
		}
		ex.initAlloc(st, a, i.Type().Underlying().(*types.Pointer).Elem())
		fr.env[i] = leaf(a)
	case *ssa.BinOp:
		ex.set(fr, st, i, ex.binop(fr, st, i))
	case *ssa.UnOp:
		ex.unop(fr, st, i)
	case *ssa.ChangeType:
		fr.env[i] = ex.val(fr, i.X)
	case *ssa.ChangeInterface:
		fr.env[i] = ex.val(fr, i.X)
	case *ssa.Convert:
		ex.set(fr, st, i, ex.convert(fr, st, i))
	case *ssa.MakeInterface:
		d := ex.val(fr, i.X)
		fr.env[i] = leaf(intern(&Term{op: OIface, typ: i.X.Type(), dds: []*DD{d}}))
	case *ssa.MakeClosure:
		var bs []*DD
		for _, b := range i.Bindings {
			bs = append(bs, ex.val(fr, b))
		}
		f := i.Fn.(*ssa.Function)
		fr.env[i] = leaf(intern(&Term{op: OFunc, s: f.String(), fn: f, dds: bs}))
	case *ssa.MakeMap:
		a := ex.allocAt(ex.ctxOf(fr, in))
		fr.env[i] = leaf(a)
	case *ssa.MakeChan:
		fr.env[i] = leaf(ex.allocAt(ex.ctxOf(fr, in)))
	case *ssa.MakeSlice:
		a := ex.allocAt(ex.ctxOf(fr, in))
		l, c := ex.val(fr, i.Len), ex.val(fr, i.Cap)
		et := i.Type().Underlying().(*types.Slice).Elem()
		ex.bounds(fr, st, in, map1(l, func(t *Term) *DD { return le(pInt(0), t) }), "makeslice length")
		if isByte(et) {
			sig, idx := locOf(a)
			st.mem.writeLoc(sig, idx, map1(l, func(t *Term) *DD { return leaf(mkSeq([]*Term{zerosSeg(t)})) }), nil)
		}
		l, c = restrict(l, st.pc), restrict(c, st.pc)
		if l.leaf != nil && c.leaf == nil {
			c = dAtom(modZ, intern(&Term{op: OApp, s: "capOf", dds: []*DD{c}, lo: big0, hi: maxLen}))
			st.pc = and(st.pc, map2(l, c, func(x, y *Term) *DD { return le(x, y) }))
		}
		fr.env[i] = map2(l, c, func(x, y *Term) *DD { return leaf(mkSlice(a, pInt(0), x, y)) })
	case *ssa.FieldAddr:
		p := ex.val(fr, i.X)
		stt := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		name := stt.Field(i.Field).Name()
		ex.nilCheck(fr, st, in, p)
		if st.pc == ddF {
			return
		}
		ex.set(fr, st, i, map1(restrict(p, st.pc), func(t *Term) *DD {
			if t.op == ONil {
				return leaf(tNil)
			}
			return leaf(fldPtr(t, name))
		}))
	case *ssa.Field:
		ex.set(fr, st, i, fieldOf(ex.val(fr, i.X), i.Field))
	case *ssa.IndexAddr:
		ex.indexAddr(fr, st, i)
	case *ssa.Index:
		x, ix := ex.val(fr, i.X), ex.val(fr, i.Index)
		ex.set(fr, st, i, map2(x, ix, func(a, k *Term) *DD {
			if a.op == OSeq {
				return leaf(byteAt(a, k))
			}
			if a.op == OAgg {
				if n, ok := k.intVal(); ok && int(n) < len(a.dds) {
					return a.dds[n]
				}
			}
			panic(undecided("index into " + a.String()))
		}))
	case *ssa.Lookup:
		ex.lookup(fr, st, i)
	case *ssa.MapUpdate:
		ex.mapUpdate(fr, st, in, ex.val(fr, i.Map), ex.val(fr, i.Key), ex.val(fr, i.Value), i.Map.Type())
	case *ssa.Slice:
		ex.slice(fr, st, i)
	case *ssa.Store:
		p, v := ex.val(fr, i.Addr), ex.val(fr, i.Val)
		ex.event(fr, st, in, "store", "", p, v)
		ex.storeDD(fr, st, in, p, i.Val.Type(), v)
	case *ssa.Extract:
		fr.env[i] = fieldOf(ex.val(fr, i.Tuple), i.Index)
	case *ssa.Range:
		fr.env[i] = ex.val(fr, i.X)
	case *ssa.Next:
		ex.next(fr, st, i)
	case *ssa.TypeAssert:
		ex.typeAssert(fr, st, i)
	case *ssa.Call:
		res := ex.call(fr, st, in, &i.Call)
		if st.pc == ddF {
			return
		}
		switch len(res) {
		case 0:
			fr.env[i] = leaf(tNil)
		case 1:
			fr.env[i] = restrict(res[0], st.pc)
		default:
			fr.env[i] = leaf(intern(&Term{op: OAgg, dds: res}))
		}
	case *ssa.Defer:
		d := deferRec{call: &i.Call, instr: in, guard: st.pc, n: len(fr.defers)}
		for _, a := range i.Call.Args {
			d.args = append(d.args, ex.val(fr, a))
		}
		d.fnv = ex.val(fr, i.Call.Value)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		ds := fr.defers
		for k := len(ds) - 1; k >= 0; k-- {
			d := ds[k]
			g := restrict(d.guard, st.pc)
			if and(d.guard, st.pc) == ddF {
				continue
			}
			if and(st.pc, not(d.guard)) == ddF {
				ex.callWith(fr, st, d.instr, d.call, d.fnv, d.args)
				continue
			}
			_ = g
			s1, s2 := st.clone(), st.clone()
			s1.pc = and(st.pc, d.guard)
			s2.pc = and(st.pc, not(d.guard))
			ex.callWith(fr, s1, d.instr, d.call, d.fnv, d.args)
			m := mergeStates(s1, s2)
			*st = *m
		}
	case *ssa.Go:
		var args []*DD
		args = append(args, ex.val(fr, i.Call.Value))
		for _, a := range i.Call.Args {
			args = append(args, ex.val(fr, a))
		}
		ex.event(fr, st, in, "go", "", args...)
	case *ssa.Send:
		ex.event(fr, st, in, "send", "", ex.val(fr, i.Chan), ex.val(fr, i.X))
	case *ssa.Select:
		e := ex.event(fr, st, in, "select", "")
		_ = e
		tt := i.Type().(*types.Tuple)
		var ds []*DD
		for k := 0; k < tt.Len(); k++ {
			ds = append(ds, symVal("sel:"+ex.ctxOf(fr, in)+"#"+fmt.Sprint(k), ex.loopIdx(), tt.At(k).Type()))
		}
		fr.env[i] = leaf(intern(&Term{op: OAgg, dds: ds}))
	default:
		panic(undecided(fmt.Sprintf("unsupported instruction %T in %s", in, fr.fn)))
	}
}

func (ex *Exec) initAlloc(st *State, a *Term, t types.Type) {
	// a byte array gets its zero content explicitly; everything else is zero by default
	if at, ok := t.Underlying().(*types.Array); ok && isByte(at.Elem()) {
		sig, idx := locOf(a)
		st.mem.writeLoc(sig, idx, leaf(mkSeq([]*Term{zerosSeg(pInt(at.Len()))})), nil)
		return
	}
	// variables declared in a loop body are fresh in each iteration: the loop index is part of the allocation
}

func (ex *Exec) bounds(fr *Frame, st *State, in ssa.Instruction, ok *DD, what string) {
	bad := and(st.pc, not(ok))
	if unsat(bad) {
		return
	}
	e := ex.event(fr, st, in, "bounds", what)
	e.extra = bad
	st.pc = and(st.pc, ok)
}

func (ex *Exec) nilCheck(fr *Frame, st *State, in ssa.Instruction, p *DD) {
	ex.ptrLeaves(fr, st, in, p)
}

func (ex *Exec) binop(fr *Frame, st *State, i *ssa.BinOp) *DD {
	x, y := ex.val(fr, i.X), ex.val(fr, i.Y)
	t := i.X.Type()
	isNum := false
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		isNum = true
	}
	isStr := false
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	switch i.Op {
	case token.EQL:
		return eqDD(x, y)
	case token.NEQ:
		return not(eqDD(x, y))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isNum {
			switch i.Op {
			case token.LSS:
				return dLt(x, y)
			case token.LEQ:
				return dLe(x, y)
			case token.GTR:
				return dLt(y, x)
			}
			return dLe(y, x)
		}
		return map2(x, y, func(a, b *Term) *DD { return mkAtom(i.Op.String(), []*Term{a, b}) })
	case token.ADD:
		if isStr {
			return dConcat(x, y)
		}
		if isNum {
			return ex.fit(st, dAdd(x, y), i.Type())
		}
	case token.SUB:
		if isNum {
			return ex.fit(st, dSub(x, y), i.Type())
		}
	case token.MUL:
		if isNum {
			return ex.fit(st, dMul(x, y), i.Type())
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if isBoolDD(x) && isBoolDD(y) {
			switch i.Op {
			case token.AND:
				return and(x, y)
			case token.OR:
				return or(x, y)
			}
			return not(xnor(x, y))
		}
		return map2(x, y, func(a, b *Term) *DD { return leaf(bitop(i.Op, a, b, i.Type())) })
	case token.SHL:
		return map2(x, y, func(a, b *Term) *DD {
			if n, ok := b.intVal(); ok && n < 128 {
				return ex.fit(st, leaf(pScale(a, new(big.Int).Lsh(big1, uint(n)))), i.Type())
			}
			return leaf(opaqueInt("shl", i.Type(), a, b))
		})
	case token.SHR:
		return map2(x, y, func(a, b *Term) *DD { return leaf(shr(a, b, i.Type())) })
	case token.QUO, token.REM:
		ex.bounds(fr, st, i, map1(y, func(b *Term) *DD { return not(eqZero(b)) }), "division by zero")
		return map2(x, y, func(a, b *Term) *DD { return leaf(divmod(i.Op, a, b, i.Type())) })
	}
	return map2(x, y, func(a, b *Term) *DD {
		return leaf(tApp("op"+i.Op.String(), a, b))
	})
}

func opaqueInt(name string, t types.Type, args ...*Term) *Term {
	lo, hi, _ := intRange(t)
	return pAtom(modZ, intern(&Term{op: OApp, s: name, args: args, lo: lo, hi: hi}))
}

func shr(a, b *Term, t types.Type) *Term {
	n, ok := b.intVal()
	if !ok {
		return opaqueInt("shr", t, a, b)
	}
	if c, ok := a.constVal(); ok {
		return pBig(new(big.Int).Rsh(c, uint(n)))
	}
	lo, hi := prange(a)
	if lo != nil && hi != nil && lo.Sign() >= 0 {
		if hi.BitLen() <= int(n) {
			return pInt(0)
		}
		if n%8 == 0 && hi.BitLen() <= int(n)+8 {
			return byteK(a, int(n/8))
		}
		return pAtom(modZ, intern(&Term{op: OApp, s: fmt.Sprintf("shr%d", n), args: []*Term{a}, lo: big0, hi: new(big.Int).Rsh(hi, uint(n))}))
	}
	return opaqueInt("shr", t, a, b)
}

func divmod(op token.Token, a, b *Term, t types.Type) *Term {
	n, ok := b.constVal()
	if c, ok2 := a.constVal(); ok && ok2 && n.Sign() > 0 && c.Sign() >= 0 {
		q, r := new(big.Int).DivMod(c, n, new(big.Int))
		if op == token.QUO {
			return pBig(q)
		}
		return pBig(r)
	}
	if ok && n.Sign() > 0 {
		// exact multiples of n split off
		var mul, rest []Mono
		for _, m := range a.poly.ms {
			if new(big.Int).Mod(m.c, n).Sign() == 0 {
				mul = append(mul, Mono{m.fs, new(big.Int).Div(m.c, n), m.key})
			} else {
				rest = append(rest, m)
			}
		}
		r := mkPoly(modZ, rest)
		if len(rest) == 0 {
			if op == token.QUO {
				return mkPoly(modZ, mul)
			}
			return r
		}
		lo, hi := prange(r)
		alo, _ := prange(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(n) < 0 && alo != nil && alo.Sign() >= 0 {
			if op == token.QUO {
				return mkPoly(modZ, mul)
			}
			return r
		}
		if alo != nil && alo.Sign() >= 0 {
			name := "div" + n.String()
			if op == token.REM {
				name = "mod" + n.String()
			}
			if simplifiers[name] == nil {
				simplifiers[name] = func(t *Term) *Term {
					if r := divmod(op, t.args[0], b, types.Typ[types.Int]); r.singleAtom() == nil || r.singleAtom().s != t.s {
						return r
					}
					return nil
				}
			}
			if op == token.REM {
				return pAtom(modZ, intern(&Term{op: OApp, s: "mod" + n.String(), args: []*Term{a}, lo: big0, hi: new(big.Int).Sub(n, big1)}))
			}
			return pAtom(modZ, intern(&Term{op: OApp, s: "div" + n.String(), args: []*Term{a}, lo: big0, hi: maxLen}))
		}
	}
	return opaqueInt("op"+op.String(), t, a, b)
}

func bitop(op token.Token, a, b *Term, t types.Type) *Term {
	if a.op != OPoly || b.op != OPoly {
		return tApp("op"+op.String(), a, b)
	}
	x, ok1 := a.constVal()
	y, ok2 := b.constVal()
	if ok1 && ok2 {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(x, y)
		case token.OR:
			r.Or(x, y)
		case token.XOR:
			r.Xor(x, y)
		default:
			r.AndNot(x, y)
		}
		return pBig(r)
	}
	if op == token.AND {
		if ok1 {
			a, b, x, y, ok1, ok2 = b, a, y, x, ok2, ok1
		}
		if ok2 {
			if y.Sign() == 0 {
				return pInt(0)
			}
			if y.Cmp(bi(255)) == 0 {
				return byteK(a, 0)
			}
			lo, hi := prange(a)
			// mask of all ones covering the range
			if n := y.BitLen(); new(big.Int).Add(y, big1).Cmp(new(big.Int).Lsh(big1, uint(n))) == 0 && lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(y) <= 0 {
				return a
			}
		}
	}
	if op == token.OR || op == token.XOR {
		// disjoint bit ranges add up
		for k := 0; k < 2; k++ {
			lo, hi := prange(b)
			if lo != nil && hi != nil && lo.Sign() >= 0 {
				n := uint(hi.BitLen())
				ok := true
				for _, m := range a.poly.ms {
					if new(big.Int).Mod(m.c, new(big.Int).Lsh(big1, n)).Sign() != 0 {
						ok = false
					}
				}
				if alo, _ := prange(a); ok && alo != nil && alo.Sign() >= 0 {
					return recombine(pAdd(a, b))
				}
			}
			a, b = b, a
		}
	}
	x1, y1 := a, b
	if y1.id < x1.id {
		x1, y1 = y1, x1
	}
	return opaqueInt("op"+op.String(), t, x1, y1)
}

// recombine turns 256*byte1(x)+byte0(x) back into x.
func recombine(p *Term) *Term {
	var bs []*Term
	rest := p
	for k := 0; k < 8; k++ {
		c := new(big.Int).Lsh(big1, uint(8*k))
		var found *Term
		for _, m := range rest.poly.ms {
			if m.c.Cmp(c) == 0 && len(m.fs) == 1 && m.fs[0].e == one() {
				lo, hi := m.fs[0].a.lo, m.fs[0].a.hi
				if lo != nil && lo.Sign() == 0 && hi != nil && hi.Cmp(bi(255)) <= 0 {
					found = pAtom(modZ, m.fs[0].a)
					break
				}
			}
		}
		if found == nil {
			break
		}
		bs = append(bs, found)
		rest = pSub(rest, pScale(found, c))
	}
	if rest.isInt(0) && len(bs) > 0 {
		return fromBytesLE(bs)
	}
	return p
}

func (ex *Exec) unop(fr *Frame, st *State, i *ssa.UnOp) {
	x := ex.val(fr, i.X)
	switch i.Op {
	case token.MUL:
		t := i.X.Type().Underlying().(*types.Pointer).Elem()
		d := ex.loadDD(fr, st, i, x, t)
		if st.pc == ddF {
			return
		}
		ex.event(fr, st, i, "load", "", x, d)
		fr.env[i] = d
	case token.NOT:
		ex.set(fr, st, i, not(x))
	case token.SUB:
		ex.set(fr, st, i, ex.fit(st, dNeg(x), i.Type()))
	case token.ARROW:
		ex.event(fr, st, i, "recv", "", x)
		if ct, ok := i.X.Type().Underlying().(*types.Chan); ok && x.leaf != nil && x.leaf.op == OAlloc {
			if s, ok := ct.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
				// nothing is sent on such channels: wait until it is closed
				ex.waiting(fr, st, x)
				st.pc = and(st.pc, ex.chanClosed(st, x))
			}
		}
		if i.CommaOk {
			fr.env[i] = leaf(intern(&Term{op: OAgg, dds: []*DD{symVal("recv:"+ex.ctxOf(fr, i), ex.loopIdx(), i.Type().(*types.Tuple).At(0).Type()), atomDD(tApp("recvok:" + ex.ctxOf(fr, i)))}}))
		} else {
			fr.env[i] = symVal("recv:"+ex.ctxOf(fr, i), ex.loopIdx(), i.Type())
		}
	case token.XOR:
		ex.set(fr, st, i, map1(x, func(a *Term) *DD { return leaf(opaqueInt("not", i.Type(), a)) }))
	default:
		panic(undecided("unary operator " + i.Op.String()))
	}
}

func (ex *Exec) convert(fr *Frame, st *State, i *ssa.Convert) *DD {
	x := ex.val(fr, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	if fb != nil && tb != nil {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			lo, hi, _ := intRange(i.Type())
			return map1(x, func(p *Term) *DD {
				if lo.Sign() == 0 && hi.Cmp(bi(255)) == 0 {
					plo, _ := prange(p)
					if plo != nil && plo.Sign() >= 0 {
						return leaf(byteK(p, 0))
					}
				}
				return ex.fit(st, leaf(p), i.Type())
			})
		}
		if tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0 {
			return x
		}
		return map1(x, func(p *Term) *DD { return leaf(tApp("conv:"+tb.Name(), p)) })
	}
	if fs, ok := from.(*types.Slice); ok && tb != nil && isByte(fs.Elem()) {
		return ex.sliceBytes(st, x)
	}
	if ts, ok := to.(*types.Slice); ok && fb != nil && isByte(ts.Elem()) {
		a := ex.allocAt(ex.ctxOf(fr, i))
		sig, idx := locOf(a)
		st.mem.writeLoc(sig, idx, x, nil)
		return map1(x, func(s *Term) *DD {
			n := seqLen(s)
			return leaf(mkSlice(a, pInt(0), n, n))
		})
	}
	return x
}

// sliceBytes is the byte sequence denoted by a []byte value.
func (ex *Exec) sliceBytes(st *State, s *DD) *DD {
	return map1(s, func(t *Term) *DD {
		if t.op == OSeq {
			return leaf(t)
		}
		if t.op != OSlice {
			panic(undecided("bytes of " + t.String()))
		}
		if t.args[0].op == ONil {
			return leaf(mkSeq(nil))
		}
		c := ex.bytesOf(st, t.args[0])
		return map1(c, func(q *Term) *DD { return leaf(subSeq(q, t.args[1], pAdd(t.args[1], t.args[2]))) })
	})
}

func (ex *Exec) indexAddr(fr *Frame, st *State, i *ssa.IndexAddr) {
	x, ix := ex.val(fr, i.X), ex.val(fr, i.Index)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		be := isByte(u.Elem())
		ok := map2(x, ix, func(s, k *Term) *DD { return and(le(pInt(0), k), lt(k, s.args[2])) })
		ex.bounds(fr, st, i, ok, "index out of range")
		if st.pc == ddF {
			return
		}
		ex.set(fr, st, i, map2(restrict(x, st.pc), restrict(ix, st.pc), func(s, k *Term) *DD {
			if s.args[0].op == ONil {
				return leaf(tNil)
			}
			return leaf(idxPtr(s.args[0], pAdd(s.args[1], k), be))
		}))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		ex.nilCheck(fr, st, i, x)
		ok := map1(ix, func(k *Term) *DD { return and(le(pInt(0), k), lt(k, pInt(at.Len()))) })
		ex.bounds(fr, st, i, ok, "index out of range")
		ex.set(fr, st, i, map2(x, ix, func(p, k *Term) *DD { return leaf(idxPtr(p, k, isByte(at.Elem()))) }))
	default:
		panic(undecided("indexaddr"))
	}
}

// ---------------------------------------------------------------- maps

func (ex *Exec) mapRead(st *State, m, k *Term, et types.Type) (val, ok *DD) {
	if m.op == ONil {
		return zeroVal(et), ddF
	}
	sig, idx := locOf(m)
	ki := append(append([]*Term{}, idx...), k)
	ok = ex.readBase(st, sig+"{}?", ki, func() *DD { return mapBasePresent(m, sig, k) })
	val = ex.readBase(st, sig+"{}", ki, func() *DD { return baseVal(sig+"{}", ki, et) })
	return ite(ok, val, zeroVal(et)), ok
}

func mapBasePresent(m *Term, sig string, k *Term) *DD {
	if isAllocSig(sig) {
		return ddF
	}
	return in(k, intern(&Term{op: DKeys, args: []*Term{m}}))
}

func (ex *Exec) keyTerm(k *Term) *Term { return k }

func (ex *Exec) lookup(fr *Frame, st *State, i *ssa.Lookup) {
	x, k := ex.val(fr, i.X), ex.val(fr, i.Index)
	mt, isMap := i.X.Type().Underlying().(*types.Map)
	if !isMap {
		ex.set(fr, st, i, map2(x, k, func(a, b *Term) *DD { return leaf(byteAt(a, b)) }))
		return
	}
	val := map2(x, k, func(m, kk *Term) *DD { v, _ := ex.mapRead(st, m, kk, mt.Elem()); return v })
	ex.event(fr, st, i, "mapread", "", x, k, val)
	if i.CommaOk {
		ok := map2(x, k, func(m, kk *Term) *DD { _, o := ex.mapRead(st, m, kk, mt.Elem()); return o })
		fr.env[i] = leaf(intern(&Term{op: OAgg, dds: []*DD{restrict(val, st.pc), restrict(ok, st.pc)}}))
		return
	}
	ex.set(fr, st, i, val)
}

func (ex *Exec) mapUpdate(fr *Frame, st *State, in ssa.Instruction, m, k, v *DD, mt types.Type) {
	et := mt.Underlying().(*types.Map).Elem()
	ex.event(fr, st, in, "mapupdate", "", m, k, v)
	ls := ex.ptrLeaves(fr, st, in, m)
	k = restrict(k, st.pc)
	for _, l := range ls {
		for _, kl := range k.leaves() {
			g := restrict(and(l.g, kl.g), st.pc)
			if g == ddF {
				continue
			}
			ex.mapWrite(st, l.t, kl.t, v, ddT, et, g)
		}
	}
}

func (ex *Exec) mapWrite(st *State, m, k *Term, v, present *DD, et types.Type, g *DD) {
	sig, idx := locOf(m)
	ki := append(append([]*Term{}, idx...), k)
	nv, np := v, present
	if g != ddT {
		if v != nil {
			nv = ite(g, v, st.mem.readLoc(sig+"{}", ki, func() *DD { return baseVal(sig+"{}", ki, et) }))
		}
		np = ite(g, present, st.mem.readLoc(sig+"{}?", ki, func() *DD { return mapBasePresent(m, sig, k) }))
	}
	if v != nil {
		st.mem.writeLoc(sig+"{}", ki, nv, et)
	}
	st.mem.writeLoc(sig+"{}?", ki, np, types.Typ[types.Bool])
}

// mapLen is the number of entries of a map in the given state.
func (ex *Exec) mapLen(st *State, m *Term) *DD {
	if m.op == ONil {
		return dInt(0)
	}
	sig, _ := locOf(m)
	if st.mem.logs[sig+"{}?"] == nil {
		if isAllocSig(sig) {
			return dInt(0)
		}
		return domCard(intern(&Term{op: DKeys, args: []*Term{m}}))
	}
	dom, pres, kv := ex.mapDomain(st, m, "len@"+sig)
	if dom == nil {
		panic(undecided("length of a map with unknown keys"))
	}
	return mkSum(dom, kv, ite(pres, leaf(one()), dInt(0)))
}

// mapDomain computes the key set of a map: a domain and a presence condition on it.
func (ex *Exec) mapDomain(st *State, m *Term, ctx string) (dom *Term, pres *DD, kv *Term) {
	kv = loopVar("k@"+ctx, big0, bi(65535))
	if m.op == ONil {
		return intern(&Term{op: DRange, args: []*Term{pInt(0)}}), ddT, kv
	}
	sig, idx := locOf(m)
	ki := append(append([]*Term{}, idx...), pAtom(modZ, kv))
	p := st.mem.readLoc(sig+"{}?", ki, func() *DD { return mapBasePresent(m, sig, pAtom(modZ, kv)) })
	p = restrict(p, st.pc)
	p = collapseIn(p, kv, st.pc)
	// find a membership atom implied by p
	for _, a := range p.atoms() {
		if a.op == OIn && a.args[0] == pAtom(modZ, kv) {
			if and(p, not(atomDD(a))) == ddF {
				return a.args[1], cofDD(p, a, true), kv
			}
		}
	}
	return intern(&Term{op: DAll, s: sig}), p, kv
}

// theMap: m is one map where a condition holds, and nil elsewhere.
func theMap(m *DD) (one *Term, is *DD, ok bool) {
	one, is = tNil, ddT
	if m.leaf != nil {
		return m.leaf, ddT, true
	}
	for _, l := range m.leaves() {
		if l.t.op == ONil {
			continue
		}
		if one != tNil {
			return nil, nil, false
		}
		one, is = l.t, l.g
	}
	return one, is, true
}

func (ex *Exec) next(fr *Frame, st *State, i *ssa.Next) {
	if i.IsString {
		panic(undecided("range over string"))
	}
	if len(ex.loops) == 0 {
		// a loop whose body never repeats
		m := ex.val(fr, i.Iter)
		if m.leaf != nil {
			dom, pres, kv := ex.mapDomain(st, m.leaf, "#"+fr.ctx)
			if unsat(and(st.pc, and(in(pAtom(modZ, kv), dom), pres))) {
				mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
				fr.env[i] = leaf(intern(&Term{op: OAgg, dds: []*DD{ddF, zeroVal(mt.Key()), zeroVal(mt.Elem())}}))
				return
			}
		}
		panic(undecided("map iteration outside of a loop"))
	}
	lc := ex.loops[len(ex.loops)-1]
	m := restrict(ex.val(fr, i.Iter), st.pc)
	one, is, ok := theMap(m)
	if !ok {
		panic(undecided("iteration over conditional map"))
	}
	mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	lo, hi, _ := intRange(mt.Key())
	if lo == nil {
		lo, hi = big0, bi(65535)
	}
	lc.ev = loopVar("x@"+lc.ctx, lo, hi)
	lc.id = lc.ev
	k := pAtom(modZ, lc.ev)
	if lc.mapDom == nil {
		dom, pres, kv := ex.mapDomain(st, one, lc.ctx)
		lc.mapDom = dom
		lc.mapPres = and(is, subst(pres, kv, leaf(k)))
	}
	lc.more = intern(&Term{op: OAtom, s: "more@" + lc.ctx})
	hyp := and(in(k, lc.mapDom), lc.mapPres)
	st.pc = and(st.pc, implD(atomDD(lc.more), hyp))
	v, _ := ex.mapRead(st, one, k, mt.Elem())
	pcMore := and(st.pc, atomDD(lc.more))
	fr.env[i] = leaf(intern(&Term{op: OAgg, dds: []*DD{atomDD(lc.more), leaf(k), restrict(v, pcMore)}}))
}

// ---------------------------------------------------------------- slices

func (ex *Exec) slice(fr *Frame, st *State, i *ssa.Slice) {
	x := ex.val(fr, i.X)
	get := func(v ssa.Value) *DD {
		if v == nil {
			return nil
		}
		return ex.val(fr, v)
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = dInt(0)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		n := pInt(at.Len())
		if hi == nil {
			hi = leaf(n)
		}
		if al, ok := i.X.(*ssa.Alloc); ok && al.Comment == "makeslice" && isByte(at.Elem()) && hi.leaf != nil && x.leaf != nil {
			sig, idx := locOf(x.leaf)
			st.mem.writeLoc(sig, idx, leaf(mkSeq([]*Term{zerosSeg(hi.leaf)})), nil)
		}
		ex.nilCheck(fr, st, i, x)
		ex.bounds(fr, st, i, lift([]*DD{lo, hi}, func(t []*Term) *DD { return andN(le(pInt(0), t[0]), le(t[0], t[1]), le(t[1], n)) }), "slice bounds")
		ex.set(fr, st, i, lift([]*DD{x, lo, hi}, func(t []*Term) *DD { return leaf(mkSlice(t[0], t[1], pSub(t[2], t[1]), pSub(n, t[1]))) }))
	case *types.Slice:
		if hi == nil {
			hi = map1(x, func(s *Term) *DD { return leaf(s.args[2]) })
		}
		okc := lift([]*DD{x, lo, hi}, func(t []*Term) *DD {
			up := le(t[2], t[0].args[2])
			if up != ddT {
				up = or(up, le(t[2], t[0].args[3]))
			}
			return andN(le(pInt(0), t[1]), le(t[1], t[2]), up)
		})
		ex.bounds(fr, st, i, okc, "slice bounds")
		if st.pc == ddF {
			return
		}
		ex.set(fr, st, i, lift([]*DD{x, lo, hi}, func(t []*Term) *DD {
			s := t[0]
			cp := pSub(s.args[3], t[1])
			if mx != nil && mx.leaf != nil {
				cp = pSub(mx.leaf, t[1])
			}
			return leaf(mkSlice(s.args[0], pAdd(s.args[1], t[1]), pSub(t[2], t[1]), cp))
		}))
	case *types.Basic: // string
		if hi == nil {
			hi = map1(x, func(s *Term) *DD { return leaf(seqLen(s)) })
		}
		okc := lift([]*DD{x, lo, hi}, func(t []*Term) *DD {
			return andN(le(pInt(0), t[1]), le(t[1], t[2]), le(t[2], seqLen(t[0])))
		})
		ex.bounds(fr, st, i, okc, "slice bounds")
		ex.set(fr, st, i, lift([]*DD{x, lo, hi}, func(t []*Term) *DD { return leaf(subSeq(t[0], t[1], t[2])) }))
	default:
		panic(undecided("slice of " + u.String()))
	}
}

// appendVal models append(s, items...).
func (ex *Exec) appendBytes(fr *Frame, st *State, in ssa.Instruction, s, w *DD) *DD {
	ctx := ex.ctxOf(fr, in)
	s, w = restrict(s, st.pc), restrict(w, st.pc)
	var res *DD
	sl := s.leaves()
	for n := len(sl) - 1; n >= 0; n-- {
		l := sl[n]
		t := l.t
		var r *DD
		if t.args[0].op == ONil {
			a := ex.allocAt(ctx)
			sig, idx := locOf(a)
			st.mem.writeLoc(sig, idx, w, nil)
			r = map1(w, func(q *Term) *DD { return leaf(mkSlice(a, pInt(0), seqLen(q), growCap(a))) })
		} else {
			sig, idx := locOf(t.args[0])
			c := ex.bytesOf(st, t.args[0])
			end := pAdd(t.args[1], t.args[2])
			full := t.args[3] == t.args[2] && !t.args[2].isInt(0) || t.args[3].isInt(0)
			top := ddT
			nc := map2(c, w, func(q, x *Term) *DD {
				if seqLen(q) == end {
					return leaf(mkSeq(append(append([]*Term{}, q.args...), x.args...)))
				}
				if full {
					top = ddF
					return leaf(q)
				}
				ne := pAdd(end, seqLen(x))
				if y, k := decideLe(ne, seqLen(q)); k && y {
					return leaf(splice(q, end, x))
				}
				pre := subSeq(q, pInt(0), end)
				return leaf(mkSeq(append(append([]*Term{}, pre.args...), x.args...)))
			})
			if top == ddT {
				g := restrict(l.g, st.pc)
				st.mem.writeLoc(sig, idx, ite(g, nc, c), nil)
				r = map1(w, func(x *Term) *DD {
					nl := pAdd(t.args[2], seqLen(x))
					return leaf(mkSlice(t.args[0], t.args[1], nl, maxCap(t.args[3], nl, t.args[0])))
				})
			} else {
				a := ex.allocAt(ctx)
				as, ai := locOf(a)
				old := map1(c, func(q *Term) *DD { return leaf(subSeq(q, t.args[1], end)) })
				st.mem.writeLoc(as, ai, dConcat(old, w), nil)
				r = map1(w, func(x *Term) *DD { return leaf(mkSlice(a, pInt(0), pAdd(t.args[2], seqLen(x)), growCap(a))) })
			}
		}
		if res == nil {
			res = r
		} else {
			res = ite(l.g, r, res)
		}
	}
	return res
}

func growCap(a *Term) *Term {
	return pAtom(modZ, intern(&Term{op: OApp, s: "grow", args: []*Term{a}, lo: big0, hi: maxLen}))
}
func maxCap(c, n, a *Term) *Term {
	if y, k := decideLe(n, c); k && y {
		return c
	}
	return growCap(a)
}

// appendElems models append for slices of other element types: items are written one by one.
func (ex *Exec) appendElems(fr *Frame, st *State, in ssa.Instruction, s, w *DD, et types.Type) *DD {
	s, w = restrict(s, st.pc), restrict(w, st.pc)
	if w.leaf == nil {
		panic(undecided("append of conditional slice"))
	}
	ws := w.leaf
	ctx := ex.ctxOf(fr, in)
	var res *DD
	sl := s.leaves()
	for n := len(sl) - 1; n >= 0; n-- {
		l := sl[n]
		t := l.t
		arr, off, ln := t.args[0], t.args[1], t.args[2]
		cp := t.args[3]
		if arr.op == ONil {
			arr = ex.allocAt(ctx)
			off, ln = pInt(0), pInt(0)
			cp = growCap(arr)
		}
		g := restrict(l.g, st.pc)
		start := pAdd(off, ln)
		if k, ok := ws.args[2].intVal(); ok && k <= 16 {
			for j := int64(0); j < k; j++ {
				v := ex.load(st, idxPtr(ws.args[0], pAdd(ws.args[1], pInt(j)), false), et)
				dst := idxPtr(arr, pAdd(start, pInt(j)), false)
				if g != ddT {
					v = ite(g, v, ex.load(st, dst, et))
				}
				ex.store(st, dst, et, v)
			}
		} else {
			ex.copyElems(st, arr, start, ws, ws.args[2], et, ctx, g)
		}
		nl := pAdd(ln, ws.args[2])
		r := leaf(mkSlice(arr, off, nl, maxCap(cp, nl, arr)))
		if res == nil {
			res = r
		} else {
			res = ite(l.g, r, res)
		}
	}
	return res
}

// copyElems copies n elements of slice src to arr starting at index start.
func (ex *Exec) copyElems(st *State, arr, start, src, n *Term, et types.Type, ctx string, g *DD) {
	v := loopVar("c@"+ctx, big0, maxLen)
	dom := intern(&Term{op: DRange, args: []*Term{n}})
	var rec func(dst, from *Term, t types.Type)
	rec = func(dst, from *Term, t types.Type) {
		if stt, ok := openStruct(t); ok {
			for i := 0; i < stt.NumFields(); i++ {
				rec(fldPtr(dst, stt.Field(i).Name()), fldPtr(from, stt.Field(i).Name()), stt.Field(i).Type())
			}
			return
		}
		val := ex.load(st, from, t)
		sig, idx := locOf(dst)
		st.mem.push(sig, &Layer{idx: idx, val: val, guard: g, vars: []*Term{v}, doms: []*Term{dom}, typ: t})
	}
	rec(idxPtr(arr, pAdd(start, pAtom(modZ, v)), false), idxPtr(src.args[0], pAdd(src.args[1], pAtom(modZ, v)), false), et)
}

func (ex *Exec) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) {
	x := restrict(ex.val(fr, i.X), st.pc)
	val := map1(x, func(t *Term) *DD {
		if t.op == OIface && types.Identical(t.typ, i.AssertedType) {
			return t.dds[0]
		}
		if types.IsInterface(i.AssertedType) {
			return leaf(t)
		}
		if t.op == OIface || t.op == ONil {
			return zeroVal(i.AssertedType)
		}
		return symVal("assert:"+typeKey(i.AssertedType), []*Term{t}, i.AssertedType)
	})
	ok := map1(x, func(t *Term) *DD {
		if t.op == ONil {
			return ddF
		}
		if t.op == OIface {
			if types.IsInterface(i.AssertedType) {
				return boolDD(types.Implements(t.typ, i.AssertedType.Underlying().(*types.Interface)))
			}
			return boolDD(types.Identical(t.typ, i.AssertedType))
		}
		return mkAtom("istype:"+typeKey(i.AssertedType), []*Term{t})
	})
	if i.CommaOk {
		fr.env[i] = leaf(intern(&Term{op: OAgg, dds: []*DD{ite(ok, val, zeroVal(i.AssertedType)), ok}}))
		return
	}
	ex.bounds(fr, st, i, ok, "type assertion")
	ex.set(fr, st, i, val)
}

// sortedKeys helps deterministic iteration.
func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func isErrType(t types.Type) bool {
	return types.IsInterface(t) && strings.HasSuffix(t.String(), "error")
}
