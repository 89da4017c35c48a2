package main

// Loop summarisation.  The body of a loop is interpreted for an arbitrary
// iteration; the variables it carries are classified (invariant, affine,
// accumulator, flag, appended sequence, last write, recurrence) and the state
// after the loop is expressed with binders over the iteration domain.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var debugLoop = os.Getenv("FDEBUG") != ""

type loopOut struct {
	back bool
	e    Edge
	regs []*DD
}

type loopSpec struct {
	ctx  string
	fr   *Frame
	init []*DD
	tys  []types.Type
	run  func(st *State, phis []*DD) []loopOut
	live []ssa.Value
	// given domain (driver loops)
	root *Term
	pres func(x *Term) *DD
	// how often the loop was split into cases
	depth int
	// may be interpreted iteration by iteration
	plain  bool
	header *ssa.BasicBlock
}

type ckind int

const (
	kInv    ckind = iota // assumed equal to its value on entry
	kSym                 // symbolic, not yet classified
	kClosed              // closed form of the iteration number
	kLast                // value written by the previous iteration
	kAcc                 // accumulator: symbolic, final value known
	kSeq                 // appended byte sequence
	kSlice               // slice header kept in memory
)

type cvar struct {
	name  string
	phi   int // phi slot or -1
	part  int // 0 whole, 1 offset, 2 length of a slice
	sig   string
	idx   []*Term
	typ   types.Type
	vars  []*Term // pattern variables of a carried family
	doms  []*Term
	guard *DD
	init  *DD
	kind  ckind
	mu    *Term // symbol (OVar) or marker of a function symbol
	mod   int
	isBoo bool
	hdr   *DD
	beta  *DD
	last0 *DD
	lnVar *Term
	sl    *slicePhi
	obj   *objPhi // a reference to a new object in every iteration
	// content of the object at the end of an iteration
	objBeta *DD
	// results
	pre, fin *DD
}

type slicePhi struct {
	arr      *Term
	off, len *cvar
	cap      *Term
	grow     bool
	resl     bool
	cap0     *Term
	off0     *Term
}

type prevRead struct {
	sig string
	idx []*Term
	mu  *Term
	val *DD // value to return
	typ types.Type
}

type famLayer struct {
	sig   string
	l     *Layer
	guard *DD
	val   *DD
}

type loopRun struct {
	split  []*DD
	ex     *Exec
	sp     *loopSpec
	lc     *loopCtx
	st0    *State
	cv     []*cvar // scalar carried variables
	byPhi  map[int]*cvar
	slices map[int]*slicePhi
	mem    map[string]*cvar
	prevs  []*prevRead
	first  *Term
	pv     *Term // previous iteration variable (index or element)
	ev     *Term // element variable as of the last pass
	elem   bool
	mapLp  bool
	dom    *Term
	pres   *DD
	trip   *DD
	lits   *DD // exhaustion literal holding inside the loop
	exh    *DD // the exit condition as found
	inv    *DD // its part that does not depend on the iteration
	fams   []famLayer
	outs   []loopOut
	bst    *State
	hm     *Mem
	reads  []readRec
}

var errElem = fmt.Errorf("element mode fails")

func (ex *Exec) runLoopSSA(fr *Frame, lp *Loop, st *State, phis []*DD) []Edge {
	sp := &loopSpec{ctx: fr.ctx + "/" + ex.prog.loopID(lp), fr: fr, init: phis, live: lp.liveOut, header: lp.header}
	for _, p := range blockPhis(lp.header) {
		sp.tys = append(sp.tys, p.Type())
	}
	sp.plain = true
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				sp.plain = false
			}
		}
	}
	sp.run = func(s *State, ph []*DD) []loopOut {
		nd := len(fr.defers)
		out, rets := ex.runBlocks(fr, lp, lp.header, []Edge{{to: lp.header, st: s, phis: ph}})
		if len(rets) > 0 {
			panic(undecided("return inside a loop body"))
		}
		if len(fr.defers) > nd {
			panic(undecided("defer inside a loop in " + fr.fn.String()))
		}
		var res []loopOut
		for _, e := range out {
			o := loopOut{back: e.to == lp.header, e: e}
			if !o.back {
				for _, v := range lp.liveOut {
					o.regs = append(o.regs, fr.env[v])
				}
			}
			res = append(res, o)
		}
		return res
	}
	edges := ex.summarise(sp, st)
	return edges
}

// summarise runs the loop and returns its exit edges.
func (ex *Exec) summarise(sp *loopSpec, st *State) []Edge {
	ne, nr := len(ex.events), len(ex.reads)
	var lastErr string
	var split []*DD
	for _, elem := range []bool{true, false} {
		if sp.root != nil && !elem {
			break
		}
		lr := &loopRun{ex: ex, sp: sp, st0: st, byPhi: map[int]*cvar{}, slices: map[int]*slicePhi{}, mem: map[string]*cvar{}, elem: elem}
		ex.events = ex.events[:ne]
		ex.reads = ex.reads[:nr]
		es, err := lr.solve(ne, nr)
		if err == "" {
			return es
		}
		lastErr = err
		if err == "short" {
			break
		}
		split = lr.split
		if debugLoop {
			fmt.Println("LOOP", sp.ctx, "elem", elem, "failed:", err)
		}
	}
	if len(split) > 1 && sp.depth < 3 {
		// one summary for each of the ways the loop can end
		ex.events = ex.events[:ne]
		ex.reads = ex.reads[:nr]
		var es []Edge
		live := make([]*DD, len(sp.live))
		for _, g := range split {
			pc := and(st.pc, g)
			if unsat(pc) {
				continue
			}
			if sp.fr != nil {
				for _, v := range sp.live {
					delete(sp.fr.env, v)
				}
			}
			s2 := st.clone()
			s2.pc = pc
			sp2 := *sp
			sp2.depth++
			sp2.init = nil
			for _, d := range sp.init {
				sp2.init = append(sp2.init, restrict(d, pc))
			}
			es = append(es, ex.summarise(&sp2, s2)...)
			if sp.fr != nil {
				for i, v := range sp.live {
					if d := sp.fr.env[v]; d != nil && live[i] != nil {
						live[i] = ite(g, d, live[i])
					} else if d != nil {
						live[i] = d
					}
				}
			}
		}
		for i, v := range sp.live {
			if sp.fr != nil && live[i] != nil {
				sp.fr.env[v] = live[i]
			}
		}
		return es
	}
	ex.events = ex.events[:ne]
	ex.reads = ex.reads[:nr]
	if es, ok := ex.unroll(sp, st); ok {
		return es
	}
	where := sp.ctx
	if sp.fr != nil {
		where = sp.fr.fn.String()
	}
	panic(undecided("loop in " + where + " not summarised: " + lastErr))
}

// unroll interprets a loop of at most a few iterations one by one.
func (ex *Exec) unroll(sp *loopSpec, st *State) ([]Edge, bool) {
	const max = 4
	fr := sp.fr
	if fr == nil || !sp.plain {
		return nil, false
	}
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	cur, phis := st.clone(), sp.init
	var es []Edge
	live := make([]*DD, len(sp.live))
	for k := 0; k <= max; k++ {
		fr.ctx = fmt.Sprintf("%s#%d", sp.ctx, k)
		var backs []Edge
		for _, o := range sp.run(cur, phis) {
			if o.e.st == nil || unsat(o.e.st.pc) {
				continue
			}
			if o.back {
				backs = append(backs, o.e)
				continue
			}
			es = append(es, o.e)
			for i, r := range o.regs {
				if r == nil {
					continue
				}
				if live[i] == nil {
					live[i] = r
				} else {
					live[i] = ite(o.e.st.pc, r, live[i])
				}
			}
		}
		cur, phis = mergeEdges(backs)
		if cur == nil {
			for i, v := range sp.live {
				if live[i] != nil {
					fr.env[v] = live[i]
				}
			}
			return es, true
		}
	}
	return nil, false
}

func (lr *loopRun) fail(f string, a ...interface{}) { panic(loopFail(fmt.Sprintf(f, a...))) }

type loopFail string

func (lr *loopRun) solve(ne, nr int) (es []Edge, err string) {
	ex := lr.ex
	depth := len(ex.loops)
	prevHook := len(ex.prevReads)
	defer func() {
		ex.loops = ex.loops[:depth]
		ex.prevReads = ex.prevReads[:prevHook]
		if r := recover(); r != nil {
			if f, ok := r.(loopFail); ok {
				es, err = nil, string(f)
				return
			}
			if u, ok := r.(undecidedErr); ok && lr.sp.plain && lr.sp.fr != nil && !timeUp() {
				// iteration by iteration it may be clear
				es, err = nil, u.msg
				return
			}
			panic(r)
		}
	}()
	sp := lr.sp
	lr.first = intern(&Term{op: OVar, s: "first@" + sp.ctx})
	for i, d := range sp.init {
		c := &cvar{name: fmt.Sprintf("phi%d", i), phi: i, init: d, typ: sp.tys[i], guard: ddT}
		lr.byPhi[i] = c
		lr.initKind(c)
		lr.cv = append(lr.cv, c)
	}
	elem := lr.elem
	lr.elem = false
	if sp.root != nil {
		lr.elem = true
	}
	for pass := 0; ; pass++ {
		if pass > 25 {
			lr.fail("no fixpoint")
		}
		ex.events = ex.events[:ne]
		ex.reads = ex.reads[:nr]
		ex.prevReads = append(ex.prevReads[:prevHook], lr.prevs...)
		lc := &loopCtx{ctx: sp.ctx}
		lc.iv = loopVar("v@"+sp.ctx, big0, maxLen)
		lc.id = lc.iv
		if lr.elem && lr.lc != nil && lr.lc.root != nil {
			lc.root, lc.ev, lc.id, lc.rev = lr.lc.root, lr.lc.ev, lr.lc.id, lr.lc.rev
		} else if sp.root != nil {
			lc.root = sp.root
			lc.ev = ex.elemVar(sp.root, "x@"+sp.ctx)
			lc.id = lc.ev
		}
		lr.lc = lc
		ex.loops = append(ex.loops[:depth], lc)
		done := lr.pass()
		lr.reads = append([]readRec{}, ex.reads[nr:]...)
		ex.loops = ex.loops[:depth]
		if lr.bst == nil {
			// the body never repeats: a single iteration with the entry values
			if done == stNoBack {
				return lr.straight(ne, nr, depth), ""
			}
		}
		if done != stStable {
			continue
		}
		// trip count known?
		if lr.dom == nil {
			ch := lr.findDomain()
			if ch && elem && !lr.elem && !lr.mapLp {
				// try element mode
				if root, rev := lr.elemRoot(); root != nil {
					lr.elem = true
					lc.rev = rev
					lc.root = root
					lc.ev = ex.elemVar(root, "x@"+sp.ctx)
					lc.id = lc.ev
					lr.dom = intern(&Term{op: DSet, args: []*Term{root}})
					lr.resetMem()
					continue
				}
				lr.fail("no element root")
			}
			if lr.dom != nil && lr.trip != nil && lr.trip.leaf != nil && sp.plain && smallRange(lr.dom) >= 0 && smallRange(lr.dom) <= 4 {
				lr.fail("short")
			}
			if lr.dom == nil {
				lr.fail("no iteration domain")
			}
			lr.resetMem()
			continue
		}
		if lr.refine() {
			continue
		}
		return lr.finish(ne), ""
	}
}

func (lr *loopRun) resetMem() {}

// elemVar is a variable ranging over the elements of a slice.
func (ex *Exec) elemVar(root *Term, name string) *Term {
	lo, hi := big0, bi(65535)
	if root.s == "@list" {
		lo, hi = root.args[0].args[1].lo, root.args[0].args[1].hi
	}
	if root.typ != nil {
		if sl, ok := root.typ.Underlying().(*types.Slice); ok {
			if l, h, ok := intRange(sl.Elem()); ok {
				lo, hi = l, h
			}
		}
	}
	return loopVar(name, lo, hi)
}

type passRes int

const (
	stAgain passRes = iota
	stStable
	stNoBack
)

func (lr *loopRun) initKind(c *cvar) {
	c.kind = kInv
	if isBoolDD(c.init) {
		c.isBoo = true
		c.kind = kSym
	} else if t := anyLeaf(c.init); t.op == OPoly {
		c.mod = t.poly.mod
		for _, l := range c.init.leaves() {
			if l.t.op != OPoly {
				c.kind = kInv
				return
			}
		}
		c.kind = kSym
	}
	if c.kind == kSym {
		lr.mkMu(c)
	}
}

func anyLeaf(d *DD) *Term {
	for d.leaf == nil {
		d = d.lo
	}
	return d.leaf
}

func (lr *loopRun) mkMu(c *cvar) {
	lo, hi := (*big.Int)(nil), (*big.Int)(nil)
	if !c.isBoo && c.mod == modZ && c.typ != nil {
		if l, h, ok := intRange(c.typ); ok && c.part == 0 {
			lo, hi = l, h
		}
		if c.part > 0 {
			lo, hi = big0, maxLen
		}
	}
	c.mu = intern(&Term{op: OVar, s: "μ" + c.name + "@" + lr.sp.ctx, lo: lo, hi: hi})
}

// muVal is the symbolic header value.
func (lr *loopRun) muVal(c *cvar) *DD {
	if len(c.vars) > 0 {
		args := []*Term{c.mu}
		for _, v := range c.vars {
			args = append(args, pAtom(modZ, v))
		}
		t := intern(&Term{op: OApp, s: "mu@" + c.name + lr.sp.ctx, args: args, point: lr.isPoint(c)})
		return dAtom(c.mod, t)
	}
	if c.isBoo {
		return atomDD(c.mu)
	}
	if c.kind == kSeq {
		return leaf(mkSeq([]*Term{c.mu}))
	}
	m := c.mu
	return dAtom(c.mod, m)
}

func (lr *loopRun) isPoint(c *cvar) bool { return c.typ != nil && primKind(c.typ) == "point" }

func (lr *loopRun) header(c *cvar) *DD {
	switch c.kind {
	case kInv:
		return c.init
	case kSym, kAcc, kSeq:
		return lr.muVal(c)
	case kClosed:
		return c.hdr
	case kSlice:
		return lr.sliceHdr(c.sl)
	case kLast:
		if lr.pv == nil {
			lr.pv = intern(&Term{op: OVar, s: "p@" + lr.sp.ctx, lo: big0, hi: maxLen})
		}
		m := map[*Term]*DD{lr.lc.iv: dAtom(modZ, lr.pv)}
		if lr.ev != nil {
			m[lr.ev] = dAtom(modZ, lr.pv)
		}
		return ite(atomDD(lr.first), c.init, newRepl(m).dd(c.last0))
	}
	panic("kind")
}

// pass interprets the body once with the current assumptions.
func (lr *loopRun) pass() passRes {
	ex, sp := lr.ex, lr.sp
	st := lr.st0.clone()
	for _, c := range lr.cv {
		if c.kind == kSeq {
			if ln := lr.carriedLen(c); ln != nil && ln != c.mu.ln {
				c.mu = intern(&Term{op: OVar, s: fmt.Sprintf("μs%s.%d@%s", c.name, ln.id, lr.sp.ctx), ln: ln})
			}
		}
	}
	if lr.lc.ev != nil {
		lr.ev = lr.lc.ev
	}
	if lr.lc.root != nil {
		x := pAtom(modZ, lr.lc.ev)
		f := in(x, intern(&Term{op: DSet, args: []*Term{lr.lc.root}}))
		if sp.pres != nil {
			f = and(f, sp.pres(x))
		}
		st.pc = and(st.pc, f)
	}
	// header memory
	keys := make([]string, 0, len(lr.mem))
	for k := range lr.mem {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c := lr.mem[k]
		h := lr.header(c)
		if len(c.vars) > 0 {
			st.mem.push(c.sig, &Layer{idx: c.idx, val: h, guard: c.guard, vars: c.vars, doms: c.doms, typ: c.typ})
		} else if c.kind != kInv {
			st.mem.writeLoc(c.sig, c.idx, h, c.typ)
		}
	}
	lr.hm = st.mem.clone()
	phis := make([]*DD, len(sp.init))
	for i := range phis {
		if s := lr.slices[i]; s != nil {
			phis[i] = lr.sliceHdr(s)
		} else {
			phis[i] = lr.header(lr.byPhi[i])
		}
	}
	lr.outs = sp.run(st, phis)
	if lr.lc.ev != nil {
		lr.ev = lr.lc.ev
	}
	var backs []Edge
	for _, o := range lr.outs {
		if o.back && o.e.st.pc != ddF {
			backs = append(backs, o.e)
		}
	}
	lr.bst = nil
	if len(backs) == 0 {
		return stNoBack
	}
	bst, bph := mergeEdges(backs)
	if bst == nil {
		return stNoBack
	}
	lr.bst = bst
	again := false
	clean := func(d *DD) *DD { return lr.settleIn(lr.cleanD(restrict(d, bst.pc))) }
	// phis
	for i := range sp.init {
		b := clean(bph[i])
		if s := lr.slices[i]; s != nil {
			if lr.sliceBeta(s, b) {
				again = true
			}
			continue
		}
		c := lr.byPhi[i]
		c.beta = b
		if c.obj != nil {
			lr.checkObj(c, b)
			continue
		}
		if c.kind == kInv && b != restrict(c.init, bst.pc) && b != c.init {
			if lr.changeInv(c, i) {
				again = true
			}
		}
		if c.kind == kLast {
			if lr.checkLast(c) {
				again = true
			}
		}
	}
	if again {
		return stAgain // the registers first
	}
	lr.objContents(bst, bph)
	// memory
	if lr.scanMem(bst, clean) {
		again = true
	}
	if again {
		return stAgain
	}
	if lr.classifyClosed() {
		return stAgain
	}
	_ = ex
	return stStable
}

// settleIn decides the memberships that the state of the iteration settles.
func (lr *loopRun) settleIn(d *DD) *DD {
	if d.leaf != nil {
		return d
	}
	for _, a := range d.atoms() {
		if a.op != OIn || !a.has(lr.lc.iv) && (lr.ev == nil || !a.has(lr.ev)) {
			continue
		}
		if lr.implied(not(atomDD(a))) {
			d = cofDD(d, a, false)
		} else if lr.implied(atomDD(a)) {
			d = cofDD(d, a, true)
		}
	}
	return d
}

// cleanD removes the exhaustion literal and the map iteration atom.
func (lr *loopRun) cleanD(d *DD) *DD {
	if lr.lc.more != nil {
		d = cofDD(d, lr.lc.more, true)
	}
	if lr.lits != nil {
		d = restrict(d, lr.lits)
	}
	return d
}

func (lr *loopRun) checkLast(c *cvar) bool {
	b := c.beta
	if b == c.last0 {
		return false
	}
	if (lr.pv != nil && b.has(lr.pv)) || b.has(lr.first) {
		// the previous value matters: iterate the guess once more when it came from the entry value
		lr.fail("value of %s%v depends on the previous iteration: %s", c.name, c.idx, b)
	}
	c.last0 = b
	return true
}

// changeInv reacts to a variable assumed invariant that changes.
func (lr *loopRun) changeInv(c *cvar, i int) bool {
	if it := anyLeaf(c.init); it.op == OSlice && c.phi >= 0 {
		if c.init.leaf == nil {
			lr.fail("conditional slice carried")
		}
		lr.slices[i] = lr.newSlice(it, fmt.Sprint(i), i)
		var cv []*cvar
		for _, q := range lr.cv {
			if q != c {
				cv = append(cv, q)
			}
		}
		lr.cv = cv
		return true
	}
	if lr.changeObj(c) {
		return true
	}
	c.kind = kLast
	c.last0 = c.beta
	return true
}

// newSlice starts tracking offset and length of a carried slice.
func (lr *loopRun) newSlice(it *Term, name string, phi int) *slicePhi {
	s := &slicePhi{arr: it.args[0], cap0: it.args[3], off0: it.args[1]}
	if s.arr.op == ONil {
		s.arr = intern(&Term{op: OAlloc, s: "phi:" + lr.sp.ctx + name, args: lr.outerIdx()})
		s.grow = true
	}
	s.off = &cvar{name: "off" + name, phi: phi, part: 1, init: leaf(it.args[1]), typ: types.Typ[types.Int], guard: ddT}
	s.len = &cvar{name: "len" + name, phi: phi, part: 2, init: leaf(it.args[2]), typ: types.Typ[types.Int], guard: ddT}
	for _, q := range []*cvar{s.off, s.len} {
		lr.initKind(q)
		lr.cv = append(lr.cv, q)
	}
	return s
}

func (lr *loopRun) allSlices() []*slicePhi {
	var out []*slicePhi
	for i := range lr.sp.init {
		if s := lr.slices[i]; s != nil {
			out = append(out, s)
		}
	}
	for _, k := range lr.memKeys() {
		if c := lr.mem[k]; c.sl != nil {
			out = append(out, c.sl)
		}
	}
	return out
}

func (lr *loopRun) outerIdx() []*Term {
	var out []*Term
	for _, l := range lr.ex.loops {
		if l == lr.lc {
			continue
		}
		out = append(out, pAtom(modZ, l.id))
	}
	return out
}

func (lr *loopRun) sliceHdr(s *slicePhi) *DD {
	return map2(lr.header(s.off), lr.header(s.len), func(o, l *Term) *DD { return leaf(lr.hdrTerm(s, o, l)) })
}

func (lr *loopRun) hdrTerm(s *slicePhi, o, l *Term) *Term {
	cp := s.cap0
	if s.resl {
		cp = pSub(s.cap0, pSub(o, s.off0))
	}
	if s.grow {
		cp = growCap(s.arr)
	}
	return mkSlice(s.arr, o, l, cp)
}

func (lr *loopRun) sliceBeta(s *slicePhi, b *DD) bool {
	again := false
	for _, l := range b.leaves() {
		if l.t.op != OSlice || l.t.args[0] != s.arr {
			lr.fail("carried slice changes its array: %s", l.t)
		}
	}
	s.off.beta = map1(b, func(t *Term) *DD { return leaf(t.args[1]) })
	s.len.beta = map1(b, func(t *Term) *DD { return leaf(t.args[2]) })
	h := lr.sliceHdr(s)
	bc := map1(b, func(t *Term) *DD { return leaf(t.args[3]) })
	hc := map1(h, func(t *Term) *DD { return leaf(t.args[3]) })
	if bc != hc {
		if s.off.beta != lr.header(s.off) {
			if !s.resl {
				s.resl = true
				again = true
			}
		} else if !s.grow {
			s.grow = true
			again = true
		}
	}
	return again
}

func memKey(sig string, idx []*Term) string {
	k := sig
	for _, t := range idx {
		k += fmt.Sprintf(",%d", t.id)
	}
	return k
}

func (lr *loopRun) loopDependent(ts []*Term) bool {
	for _, t := range ts {
		if t.has(lr.lc.iv) || (lr.lc.ev != nil && t.has(lr.lc.ev)) {
			return true
		}
		for _, c := range lr.cv {
			if c.mu != nil && t.has(c.mu) {
				return true
			}
		}
	}
	return false
}

func commonBase(la, lb *Layer) *Layer {
	x, y := la, lb
	for x != y {
		dx, dy := 0, 0
		if x != nil {
			dx = x.depth
		}
		if y != nil {
			dy = y.depth
		}
		if dx >= dy {
			x = x.prev
		}
		if dy >= dx && y != nil {
			y = y.prev
		}
	}
	return x
}

// renamePattern replaces pattern variables by the canonical ones of a carried family.
func renamePattern(l *Layer, ctx string) *Layer {
	m := map[*Term]*DD{}
	var nv []*Term
	for i, v := range l.vars {
		w := loopVar(fmt.Sprintf("w%d@%s", i, ctx), v.lo, v.hi)
		m[v] = dAtom(modZ, w)
		nv = append(nv, w)
	}
	r := newRepl(m)
	n := *l
	n.vars = nv
	n.idx = nil
	for _, t := range l.idx {
		n.idx = append(n.idx, r.term(t).leaf)
	}
	n.doms = nil
	for _, t := range l.doms {
		n.doms = append(n.doms, r.term(t).leaf)
	}
	n.guard = r.dd(l.guard)
	n.val = r.dd(l.val)
	return &n
}

// scanMem classifies the writes of one iteration.
func (lr *loopRun) scanMem(bst *State, clean func(*DD) *DD) bool {
	again := false
	lr.fams = nil
	sigs := sortedKeys(bst.mem.logs)
	v := lr.lc.iv
	for _, sig := range sigs {
		la, lb := lr.hm.logs[sig], bst.mem.logs[sig]
		if la == lb {
			continue
		}
		base := commonBase(la, lb)
		ls := layersAbove(lb, base)
		for n := len(ls) - 1; n >= 0; n-- {
			l := ls[n]
			if lr.mem[memKey(l.sigIdx(sig))] != nil && len(l.vars) == 0 {
				continue
			}
			dep := lr.loopDependent(l.idx)
			if !dep && len(l.vars) == 0 && l.cnt == nil {
				// writes to a constant element in the iteration that equals it
				if nl := lr.indexByIteration(sig, l, v, clean); nl != nil {
					lr.fams = append(lr.fams, famLayer{sig: sig, l: nl, guard: nl.guard, val: nl.val})
					continue
				}
				c := &cvar{name: "m" + fmt.Sprint(len(lr.mem)), phi: -1, sig: sig, idx: l.idx, typ: l.typ, guard: ddT}
				c.init = lr.initRead(c)
				if clean(l.val) == c.init {
					continue
				}
				lr.initKind(c)
				if c.kind == kSym {
					lr.cv = append(lr.cv, c)
				}
				lr.mem[memKey(sig, l.idx)] = c
				c.beta = clean(l.val)
				again = true
				continue
			}
			if !dep && len(l.vars) > 0 {
				if lr.carriedFamily(sig, l, clean) {
					again = true
				}
				continue
			}
			lr.fams = append(lr.fams, famLayer{sig: sig, l: l, guard: clean(l.guard), val: clean(l.val)})
		}
	}
	// new values of carried locations
	for _, c := range lr.mem {
		if c.objBeta != nil {
			c.beta = clean(c.objBeta)
		} else if len(c.vars) == 0 {
			c.beta = clean(readLog(bst.mem.logs[c.sig], c.idx, func() *DD { return lr.baseOf(c) }))
		} else {
			st := &State{pc: lr.domCond(c), mem: bst.mem}
			c.beta = clean(restrict(readLog(st.mem.logs[c.sig], c.idx, func() *DD { return lr.baseOf(c) }), and(lr.domCond(c), c.guard)))
			if len(c.beta.leaves()) > 1 {
				c.beta = lr.collapsePattern(c, c.beta)
			}
		}
		if again {
			continue
		}
		if c.kind == kSlice {
			if lr.sliceBeta(c.sl, c.beta) {
				again = true
			}
			continue
		}
		if c.kind == kInv && c.beta != c.init {
			if lr.memChanged(c) {
				again = true
			}
		}
		if c.kind == kLast && lr.checkLast(c) {
			again = true
		}
	}
	return again
}

func (l *Layer) sigIdx(sig string) (string, []*Term) { return sig, l.idx }

func (lr *loopRun) collapsePattern(c *cvar, d *DD) *DD { return d }

func (lr *loopRun) domCond(c *cvar) *DD {
	r := ddT
	for i, v := range c.vars {
		r = and(r, in(pAtom(modZ, v), c.doms[i]))
	}
	return r
}

func (lr *loopRun) baseOf(c *cvar) *DD {
	if c.typ == nil {
		return byteBase(c.sig, c.idx)
	}
	return baseVal(c.sig, c.idx, c.typ)
}

func (lr *loopRun) initRead(c *cvar) *DD {
	return restrict(readLog(lr.st0.mem.logs[c.sig], c.idx, func() *DD { return lr.baseOf(c) }), and(lr.st0.pc, and(lr.domCond(c), c.guard)))
}

func (lr *loopRun) memChanged(c *cvar) bool {
	b, i := anyLeaf(c.beta), anyLeaf(c.init)
	if b.op == OSlice && i.op == OSlice && c.init.leaf != nil && len(c.vars) == 0 {
		c.sl = lr.newSlice(i, "m:"+c.name, -1)
		same := true
		for _, l := range c.beta.leaves() {
			if l.t.op != OSlice || l.t.args[0] != c.sl.arr && !(i.args[0].op == ONil && l.t.args[0].op == OAlloc) {
				same = false
			}
		}
		if same {
			c.kind = kSlice
			lr.dropElements(i.args[0])
			return true
		}
		lr.cv = lr.cv[:len(lr.cv)-2]
		c.sl = nil
	}
	if b.op == OSeq && i.op == OSeq && c.init.leaf != nil {
		grows := false
		for _, l := range c.beta.leaves() {
			if seqLen(l.t) != seqLen(i) {
				grows = true
			}
		}
		if grows {
			c.kind = kSeq
			ln := lr.carriedLen(c)
			if ln == nil {
				c.lnVar = loopVar("ln@"+c.name+lr.sp.ctx, big0, maxLen)
				ln = pAtom(modZ, c.lnVar)
			}
			c.mu = intern(&Term{op: OVar, s: "μs" + c.name + "@" + lr.sp.ctx, ln: ln})
			lr.cv = append(lr.cv, c)
			return true
		}
	}
	c.kind = kLast
	c.last0 = c.beta
	return true
}

// dropElements forgets the elements of an array found carried while the offset
// and length of the slice referring to it were taken for constants.
func (lr *loopRun) dropElements(arr *Term) {
	if arr.op == ONil {
		return
	}
	s, _ := locOf(arr)
	for k, c := range lr.mem {
		if c.sig != s+"[]" || len(c.vars) > 0 || c.kind == kSlice {
			continue
		}
		delete(lr.mem, k)
		var cv []*cvar
		for _, q := range lr.cv {
			if q != c {
				cv = append(cv, q)
			}
		}
		lr.cv = cv
	}
}

// carriedLen is the length of a carried byte sequence as far as the slice
// variable that refers to it tells.
func (lr *loopRun) carriedLen(c *cvar) *Term {
	for _, s := range lr.allSlices() {
		ss, si := locOf(s.arr)
		if ss == c.sig && sameIdxT(si, c.idx) {
			h := lr.sliceHdr(s)
			if h.leaf != nil {
				return pAdd(h.leaf.args[1], h.leaf.args[2])
			}
		}
	}
	return nil
}

// indexByIteration rewrites a[const] written only when v == const as a[v].
func (lr *loopRun) indexByIteration(sig string, l *Layer, v *Term, clean func(*DD) *DD) *Layer {
	if len(l.idx) == 0 || l.typ == nil {
		return nil
	}
	k := len(l.idx) - 1
	if l.idx[k].op != OPoly {
		return nil
	}
	if _, ok := l.idx[k].constVal(); !ok {
		return nil
	}
	hv := readLog(lr.hm.logs[sig], l.idx, func() *DD { return baseVal(sig, l.idx, l.typ) })
	ch := clean(map2(l.val, hv, func(a, b *Term) *DD { return boolDD(a != b) }))
	if ch == ddF {
		n := *l
		n.guard = ddF
		return &n
	}
	e := eqPoly(pAtom(modZ, v), l.idx[k])
	if and(ch, not(e)) != ddF {
		return nil
	}
	n := *l
	n.idx = append(append([]*Term{}, l.idx[:k]...), pAtom(modZ, v))
	n.guard = ch
	n.val = restrict(clean(l.val), ch)
	return &n
}

// carriedFamily registers a family of locations rewritten by every iteration.
func (lr *loopRun) carriedFamily(sig string, l *Layer, clean func(*DD) *DD) bool {
	key := sig + "*"
	if l.cnt != nil {
		lr.fail("filtered list rewritten in a loop")
	}
	n := renamePattern(l, lr.sp.ctx)
	for _, g := range n.vars {
		_ = g
	}
	gd := clean(n.guard)
	if gd == ddF {
		return false // not on a way back to the loop
	}
	if c := lr.mem[key]; c != nil {
		if !sameIdx(c.idx, n.idx) {
			lr.fail("two index patterns for %s", sig)
		}
		return false
	}
	if gd != ddT && lr.ddLoopDep(gd) {
		gd = ddT // conditional writes: the value keeps the previous content
	}
	c := &cvar{name: "f" + fmt.Sprint(len(lr.mem)), phi: -1, sig: sig, idx: n.idx, typ: n.typ, vars: n.vars, doms: n.doms, guard: gd}
	c.init = lr.initRead(c)
	t := anyLeaf(c.init)
	if t.op == OPoly {
		c.mod = t.poly.mod
		c.kind = kSym
		lr.mkMu(c)
		lr.cv = append(lr.cv, c)
	} else if c.init == ddT || c.init == ddF || t.op == OTrue || t.op == OFalse {
		c.kind = kInv
	} else {
		c.kind = kInv
		// uninitialised content: only whole rewrites are supported
		if t.op == OConst {
			c.kind = kLast
			c.last0 = clean(n.val)
		}
	}
	c.beta = clean(n.val)
	lr.mem[key] = c
	return true
}

func (lr *loopRun) ddLoopDep(d *DD) bool {
	if d.has(lr.lc.iv) || lr.lc.ev != nil && d.has(lr.lc.ev) {
		return true
	}
	for _, c := range lr.cv {
		if c.mu != nil && d.has(c.mu) {
			return true
		}
	}
	return false
}

func (lr *loopRun) hasMu(d *DD, except *cvar) bool {
	for _, c := range lr.cv {
		if c != except && c.mu != nil && (c.kind == kSym || c.kind == kAcc || c.kind == kSeq) && d.has(c.mu) {
			return true
		}
	}
	for _, p := range lr.prevs {
		if p.mu != nil && p.val.has(p.mu) && d.has(p.mu) {
			return true
		}
	}
	return d.has(lr.first) || lr.pv != nil && d.has(lr.pv)
}

func (lr *loopRun) varying(d *DD) bool {
	return d.has(lr.lc.iv) || lr.lc.ev != nil && d.has(lr.lc.ev)
}

// classifyClosed finds invariants and affine integer variables.
func (lr *loopRun) classifyClosed() bool {
	changed := false
	for _, c := range lr.cv {
		if c.kind != kSym || len(c.vars) > 0 {
			continue
		}
		mu := lr.muVal(c)
		if c.beta == mu {
			c.kind = kClosed
			c.hdr = c.init
			changed = true
			continue
		}
		if c.isBoo || c.mod != modZ {
			continue
		}
		d := dSub(c.beta, mu)
		if d.leaf != nil && !lr.varying(d) && !lr.hasMu(d, nil) {
			c.kind = kClosed
			c.hdr = map1(c.init, func(i *Term) *DD { return leaf(pAdd(i, pMul(d.leaf, pAtom(modZ, lr.lc.iv)))) })
			changed = true
		}
	}
	return changed
}

// straight: the loop body never returns to the header.
func (lr *loopRun) straight(ne, nr, depth int) []Edge {
	ex := lr.ex
	ex.events = ex.events[:ne]
	ex.reads = ex.reads[:nr]
	outs := lr.sp.run(lr.st0.clone(), lr.sp.init)
	var es []Edge
	for _, o := range outs {
		if o.back {
			lr.fail("loop repeats only with its entry values")
		}
		es = append(es, o.e)
	}
	return es
}

// findDomain derives the iteration domain from the exit conditions.
func (lr *loopRun) findDomain() bool {
	if lr.lc.root != nil {
		lr.dom = intern(&Term{op: DSet, args: []*Term{lr.lc.root}})
		lr.pres = ddT
		if lr.sp.pres != nil {
			lr.pres = lr.sp.pres(pAtom(modZ, lr.lc.ev))
		}
		lr.trip = domCard(lr.dom)
		return true
	}
	if lr.lc.more != nil {
		lr.mapLp = true
		lr.dom, lr.pres = lr.lc.mapDom, lr.lc.mapPres
		if lr.lc.ev != nil {
			lr.trip = mkSum(lr.dom, lr.lc.ev, ite(lr.pres, dInt(1), dInt(0)))
		}
		return true
	}
	v := lr.lc.iv
	for _, o := range lr.outs {
		if o.back {
			continue
		}
		c := restrict(o.e.st.pc, lr.st0.pc)
		if debugLoop {
			fmt.Println("exit cond", lr.sp.ctx, c)
		}
		full := c
		var inv *DD
		c, inv = lr.stripInvariant(c)
		if full != c && !unsat(and(lr.bst.pc, and(not(full), c))) {
			c, inv = full, ddT
		}
		if t := exhaustion(c, v, lr.st0.pc); t != nil {
			lr.lits = not(c)
			lr.exh, lr.inv = full, inv
			lr.trip = map1(leaf(t), max0)
			if lr.trip.leaf == nil && unsat(and(lr.st0.pc, lt(t, pInt(0)))) {
				lr.trip = leaf(t)
			}
			lr.dom = nil
			if lr.trip.leaf != nil {
				lr.dom = intern(&Term{op: DRange, args: []*Term{lr.trip.leaf}})
			} else {
				lr.dom = intern(&Term{op: DRange, args: []*Term{t}})
			}
			lr.pres = ddT
			return true
		}
		if lr.split == nil {
			lr.split = lr.cases(full)
		}
	}
	return false
}

// cases partitions the entry states by what the condition says about the
// iteration.
func (lr *loopRun) cases(c *DD) []*DD {
	by := map[*DD]*DD{}
	var order []*DD
	n := 0
	var rec func(c, g *DD) bool
	rec = func(c, g *DD) bool {
		if n++; n > 4000 {
			return false
		}
		for _, a := range c.atoms() {
			if !lr.loopDependent([]*Term{a}) {
				return rec(cofDD(c, a, true), and(g, atomDD(a))) && rec(cofDD(c, a, false), and(g, not(atomDD(a))))
			}
		}
		if by[c] == nil {
			by[c] = ddF
			order = append(order, c)
		}
		by[c] = or(by[c], g)
		return true
	}
	if !rec(c, ddT) || len(order) < 2 || len(order) > 6 {
		return nil
	}
	var out []*DD
	for _, c := range order {
		out = append(out, by[c])
	}
	return out
}

// stripInvariant splits off conjuncts that do not depend on the iteration.
func (lr *loopRun) stripInvariant(c *DD) (rest, inv *DD) {
	inv = ddT
	for n := 0; n < 30; n++ {
		changed := false
		for _, a := range c.atoms() {
			if lr.loopDependent([]*Term{a}) || c == atomDD(a) || c == not(atomDD(a)) {
				continue
			}
			if hi, lo := cofDD(c, a, true), cofDD(c, a, false); hi == ddF {
				c, inv, changed = lo, and(inv, not(atomDD(a))), true
			} else if lo == ddF {
				c, inv, changed = hi, and(inv, atomDD(a)), true
			}
			if changed {
				break
			}
		}
		if !changed {
			break
		}
	}
	return c, inv
}

func max0(t *Term) *DD {
	return ite(le(pInt(0), t), leaf(t), dInt(0))
}

// exhaustion: c is a literal on v that becomes (and stays) true at iteration T.
func exhaustion(c *DD, v *Term, pc *DD) *Term {
	if c.leaf != nil || !c.has(v) {
		return nil
	}
	pos := false
	switch {
	case c.hi == ddT && c.lo == ddF:
		pos = true
	case c.hi == ddF && c.lo == ddT:
	default:
		return nil
	}
	a := c.atom
	if a.op != OLe0 && a.op != OEq0 {
		return nil
	}
	p := a.args[0]
	var cv *big.Int
	var rest []Mono
	for _, m := range p.poly.ms {
		if len(m.fs) == 1 && m.fs[0].a == v && m.fs[0].e == one() {
			cv = m.c
			continue
		}
		for _, f := range m.fs {
			if f.a.has(v) || f.e.has(v) {
				return nil
			}
		}
		rest = append(rest, m)
	}
	if cv == nil {
		return nil
	}
	r := mkPoly(modZ, rest)
	if a.op == OEq0 {
		// exit when cv*v + r == 0
		if pos && cv.CmpAbs(big1) == 0 {
			if cv.Sign() > 0 {
				return pNeg(r)
			}
			return r
		}
		if !pos && r.isInt(0) {
			return one() // exit when v != 0
		}
		return nil
	}
	if pos { // cv*v + r <= 0 : must be decreasing
		if cv.Sign() >= 0 {
			return nil
		}
		if cv.Cmp(big.NewInt(-1)) == 0 {
			return r
		}
		return ceilDivIn(pc, r, new(big.Int).Neg(cv))
	}
	// not (cv*v + r <= 0): cv*v + r >= 1, v >= (1-r)/cv
	if cv.Sign() <= 0 {
		return nil
	}
	if cv.Cmp(big1) == 0 {
		return pSub(one(), r)
	}
	return ceilDivIn(pc, pSub(one(), r), cv)
}

// ceilDivIn: the quotient rounded up, using an equation that holds under pc
// when the dividend is not evidently a multiple.
func ceilDivIn(pc *DD, p *Term, k *big.Int) *Term {
	if t := ceilDiv(p, k); t != nil {
		return t
	}
	for _, a := range pc.atoms() {
		if a.op != OEq0 || a.args[0].poly == nil || !implies(pc, atomDD(a)) {
			continue
		}
		for _, q := range []*Term{pAdd(p, a.args[0]), pSub(p, a.args[0])} {
			if t := ceilDiv(q, k); t != nil {
				return t
			}
		}
	}
	return nil
}

func ceilDiv(p *Term, k *big.Int) *Term {
	if c, ok := p.constVal(); ok {
		q := new(big.Int).Add(c, new(big.Int).Sub(k, big1))
		return pBig(q.Div(q, k))
	}
	var ms []Mono
	for _, m := range p.poly.ms {
		if new(big.Int).Mod(m.c, k).Sign() != 0 {
			return nil
		}
		ms = append(ms, Mono{m.fs, new(big.Int).Div(m.c, k), m.key})
	}
	return mkPoly(modZ, ms)
}

// elemRoot finds the slice whose elements the loop enumerates, and the last
// index when it does so from the end.
func (lr *loopRun) elemRoot() (*Term, *Term) {
	if lr.trip == nil || lr.trip.leaf == nil {
		return nil, nil
	}
	// candidate: an element read S[v] or S[n-1-v] with trip count n = len(S)
	iv := pAtom(modZ, lr.lc.iv)
	last := pSub(lr.trip.leaf, oneT)
	for _, rev := range []*Term{nil, last} {
		at := iv
		if rev != nil {
			at = pSub(rev, iv)
		}
		seen := map[*Term]bool{}
		for _, r := range lr.reads {
			if r.sig == "nth" && rev == nil && r.idx[1] == iv {
				if root := listTerm(r.idx[0]); isRootLen(root, lr.trip.leaf, lr.st0.pc) {
					return root, nil
				}
			}
			if len(r.idx) == 0 || r.idx[len(r.idx)-1] != at || !strings.HasSuffix(r.sig, "[]") {
				continue
			}
			root := listRoot(r.sig, r.idx)
			if root == nil || seen[root] {
				continue
			}
			seen[root] = true
			if isRootLen(root, lr.trip.leaf, lr.st0.pc) && lr.st0.mem.logs[r.sig] == nil && intElems(root) {
				return root, rev
			}
		}
	}
	return nil, nil
}

// intElems: the elements of the slice are integers.
func intElems(root *Term) bool {
	if root.typ == nil {
		return false
	}
	sl, ok := root.typ.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, _, ok = intRange(sl.Elem())
	return ok && !isByte(sl.Elem())
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

// refine checks cross-iteration dependences of families; true = run again.
func (lr *loopRun) refine() bool {
	v := lr.lc.iv
	for _, f := range lr.fams {
		if f.guard == ddF || f.l.cnt != nil {
			continue
		}
		for _, r := range lr.reads {
			if r.sig != f.sig || len(r.idx) != len(f.l.idx) || sameIdx(r.idx, f.l.idx) {
				continue
			}
			if len(f.l.vars) == 0 && !lr.elem && !lr.mapLp {
				if pi := prevIdx(f.l.idx, v); pi != nil && sameIdx(r.idx, pi) {
					if lr.addPrev(f.sig, r.idx, f.l.typ) {
						return true
					}
					continue
				}
			}
			if lr.mayDepend(f, r) {
				if debugLoop {
					fmt.Println("DEP", f.guard, f.l.val, "READ", r.idx)
				}
				lr.fail("iterations are not independent: %s%s written, %s read", f.sig, idxStr(f.l.idx), idxStr(r.idx))
			}
		}
	}
	return lr.solvePrev()
}

func prevIdx(idx []*Term, v *Term) []*Term {
	out := make([]*Term, len(idx))
	for i, t := range idx {
		d := substT(t, v, leaf(pSub(pAtom(modZ, v), one())))
		if d.leaf == nil {
			return nil
		}
		out[i] = d.leaf
	}
	return out
}

func (lr *loopRun) mayDepend(f famLayer, r readRec) bool {
	iv := lr.lc.iv
	o := loopVar("o@"+lr.sp.ctx, big0, maxLen)
	m := map[*Term]*DD{iv: dAtom(modZ, o)}
	if lr.lc.ev != nil {
		o2 := loopVar("oe@"+lr.sp.ctx, lr.lc.ev.lo, lr.lc.ev.hi)
		m[lr.lc.ev] = dAtom(modZ, o2)
	}
	for i, w := range f.l.vars {
		m[w] = dAtom(modZ, loopVar(fmt.Sprintf("ow%d@%s", i, lr.sp.ctx), w.lo, w.hi))
	}
	rp := newRepl(m)
	g := and(rp.dd(f.guard), lr.presOther(m))
	if lr.lc.ev != nil {
		// another element
		g = and(g, not(map1(m[lr.lc.ev], func(x *Term) *DD { return eqTerm(x, pAtom(modZ, lr.lc.ev)) })))
	} else {
		// an earlier iteration
		g = and(g, lt(pAtom(modZ, o), pAtom(modZ, iv)))
	}
	for i, t := range f.l.idx {
		d := rp.term(t)
		g = and(g, map1(d, func(x *Term) *DD { return eqTerm(x, r.idx[i]) }))
		if g == ddF {
			return false
		}
	}
	// same element of the same iteration
	for i, t := range f.l.idx {
		if t.op == OPoly && r.idx[i].op == OPoly {
			continue
		}
		_ = i
	}
	return !unsat(and(g, lr.bst.pc))
}

func (lr *loopRun) presOther(m map[*Term]*DD) *DD {
	if lr.pres == nil || lr.pres == ddT {
		return ddT
	}
	return newRepl(m).dd(lr.pres)
}

func (lr *loopRun) addPrev(sig string, idx []*Term, typ types.Type) bool {
	for _, p := range lr.prevs {
		if p.sig == sig && sameIdx(p.idx, idx) {
			return false
		}
	}
	z := zeroVal(typ)
	if z.leaf == nil || z.leaf.op != OPoly {
		lr.fail("recurrence on non numeric elements")
	}
	mu := intern(&Term{op: OVar, s: "μp" + fmt.Sprint(len(lr.prevs)) + "@" + lr.sp.ctx})
	lr.prevs = append(lr.prevs, &prevRead{sig: sig, idx: idx, mu: mu, val: dAtom(z.leaf.poly.mod, mu), typ: typ})
	return true
}

// solvePrev guesses and verifies the closed form of recurrences over an indexed family.
func (lr *loopRun) solvePrev() bool {
	changed := false
	v := lr.lc.iv
	for _, p := range lr.prevs {
		if !p.val.has(p.mu) {
			continue
		}
		// combined value
		var val *DD
		g := ddF
		for _, f := range lr.fams {
			if f.sig != p.sig {
				continue
			}
			pi := prevIdx(f.l.idx, v)
			if pi == nil || !sameIdx(pi, p.idx) {
				lr.fail("recurrence with several index patterns")
			}
			if f.guard == ddF {
				continue
			}
			if val == nil {
				val = f.val
			} else {
				val = ite(f.guard, f.val, val)
			}
			g = or(g, f.guard)
		}
		if g != ddT && lr.implied(g) == false {
			lr.fail("recurrence does not write every element")
		}
		mod := anyLeaf(val).poly.mod
		b0 := subst(val, v, leaf(pInt(0)))
		if b0.leaf == nil || b0.has(p.mu) {
			lr.fail("recurrence base")
		}
		var G *DD
		for _, l := range val.leaves() {
			if !l.t.has(p.mu) {
				continue
			}
			one := substT(l.t, p.mu, leaf(pConst(mod, big1)))
			zero := substT(l.t, p.mu, leaf(pZero(mod)))
			if one.leaf == nil || zero.leaf == nil {
				continue
			}
			if len(zero.leaf.poly.ms) == 0 && !one.has(v) {
				G = leaf(pMul(b0.leaf, pPow(one.leaf, pAtom(modZ, v))))
			} else if pSub(one.leaf, zero.leaf) == pConst(mod, big1) && !zero.has(v) {
				G = leaf(pAdd(b0.leaf, pMul(zero.leaf, cast(pAtom(modZ, v), mod))))
			}
		}
		if G == nil {
			lr.fail("recurrence not recognised: %s", val)
		}
		gp := subst(G, v, leaf(pSub(pAtom(modZ, v), oneT)))
		if !equalOn(subst(val, p.mu, gp), G, v, lr.bst.pc) {
			lr.fail("recurrence guess %s not verified for %s", G, val)
		}
		p.val = gp
		changed = true
	}
	return changed
}

func (lr *loopRun) implied(g *DD) bool {
	return unsat(and(lr.bst.pc, not(g)))
}

// equalOn: the two diagrams agree for every v (case distinctions v==t are instantiated).
func equalOn(a, b *DD, v *Term, pc *DD) bool {
	if pc == ddF {
		return true
	}
	for _, at := range a.atoms() {
		if t := eqAtomOn(at, v); t != nil {
			h := subst(cofDD(a, at, true), v, leaf(t))
			hb := subst(b, v, leaf(t))
			return equalOn(h, hb, v, subst(pc, v, leaf(t))) && equalOn(cofDD(a, at, false), b, v, and(pc, not(atomDD(at))))
		}
	}
	r := map2(a, b, func(x, y *Term) *DD { return boolDD(x == y) })
	return r == ddT || unsat(and(pc, not(r)))
}

// ---------------------------------------------------------------- finish

type subMap struct {
	m  map[*Term]*DD
	fm map[*Term]*lamDef
}

type lamDef struct {
	vars []*Term
	body *DD
}

func (lr *loopRun) sumOver(dom *Term, v *Term, g *DD) *DD {
	return mkSum(dom, v, g)
}

// guardDom combines a body with the presence condition.
func (lr *loopRun) zeroIf(pres, g *DD, mod int) *DD {
	if pres == ddT {
		return g
	}
	return ite(pres, g, leaf(pZero(mod)))
}

// binder variable of the loop
func (lr *loopRun) bvar() *Term {
	if lr.lc.ev != nil {
		return lr.lc.ev
	}
	return lr.lc.iv
}

// prefixDom is the set of earlier iterations, with its variable.
func (lr *loopRun) prefixDom() (*Term, *Term) {
	b := lr.bvar()
	w := loopVar("q@"+lr.sp.ctx, b.lo, b.hi)
	if lr.dom.op == DRange {
		return intern(&Term{op: DRange, args: []*Term{pAtom(modZ, lr.lc.iv)}}), w
	}
	return intern(&Term{op: DPre, args: []*Term{lr.dom, pAtom(modZ, b)}}), w
}

func (lr *loopRun) resolveAcc() {
	b := lr.bvar()
	pending := []*cvar{}
	for _, c := range lr.cv {
		if c.kind == kSym || c.kind == kSeq {
			pending = append(pending, c)
		}
	}
	for len(pending) > 0 {
		progress := false
		var rest []*cvar
		for _, c := range pending {
			dep := false
			for _, o := range pending {
				if o != c && c.beta.has(o.mu) {
					dep = true
				}
			}
			if dep {
				rest = append(rest, c)
				continue
			}
			// substitute resolved accumulators by their prefix values
			beta := c.beta
			sm := newRepl(map[*Term]*DD{})
			for _, o := range lr.cv {
				if o.pre != nil && beta.has(o.mu) {
					sm.m[o.mu] = o.pre
					if len(o.vars) > 0 {
						sm.fm = addFm(sm.fm, o)
					}
				}
			}
			if len(sm.m) > 0 {
				beta = sm.dd(beta)
			}
			lr.accumulate(c, beta, b)
			if c.fin != nil && c.fin != c.init {
				lr.noV(c.fin)
			}
			progress = true
		}
		if !progress {
			lr.fail("mutually dependent accumulators: %s := %s", rest[0].name, rest[0].beta)
		}
		pending = rest
	}
}

func addFm(fm map[*Term]*lamDef, o *cvar) map[*Term]*lamDef {
	if fm == nil {
		fm = map[*Term]*lamDef{}
	}
	fm[o.mu] = &lamDef{o.vars, o.pre}
	return fm
}

func (lr *loopRun) accumulate(c *cvar, beta *DD, b *Term) {
	pd, w := lr.prefixDom()
	toW := func(d *DD) *DD { return subst(d, b, dAtom(modZ, w)) }
	presW := toW(lr.pres)
	if c.kind == kSeq {
		wd := map1(beta, func(t *Term) *DD {
			if t.op != OSeq || len(t.args) == 0 || t.args[0] != c.mu {
				lr.fail("carried sequence is not extended: %s", t)
			}
			return leaf(mkSeq(t.args[1:]))
		})
		if wd.has(c.mu) {
			lr.fail("appended data depends on the sequence")
		}
		if lr.pres != ddT {
			wd = ite(lr.pres, wd, leaf(mkSeq(nil)))
		}
		c.fin = dConcat(c.init, leaf(mkSeq([]*Term{mkRep(lr.dom, b, wd)})))
		c.pre = dConcat(c.init, leaf(mkSeq([]*Term{mkRep(pd, w, toW(wd))})))
		c.kind = kAcc
		return
	}
	if c.isBoo {
		hi, lo := cofDD(beta, c.mu, true), cofDD(beta, c.mu, false)
		switch {
		case hi == ddT || and(not(hi), lr.bst.pc) == ddF:
			c.fin = or(c.init, exists(lr.dom, b, and(lr.pres, lo)))
			c.pre = or(c.init, exists(pd, w, and(presW, toW(lo))))
		case lo == ddF || and(lo, lr.bst.pc) == ddF:
			c.fin = and(c.init, forall(lr.dom, b, implD(lr.pres, hi)))
			c.pre = and(c.init, forall(pd, w, implD(presW, toW(hi))))
		default:
			if and(and(not(hi), lo), lr.bst.pc) != ddF {
				lr.fail("flag %s not recognised: %s", c.name, beta)
			}
			P := not(and(hi, not(lo)))
			lr.selectLast(c, b, pd, w, presW, toW, P, and(hi, lo))
		}
		c.kind = kAcc
		return
	}
	mu := lr.muVal(c)
	if P, val, ok := overwrites(beta, mu.leaf, c.mu); ok && len(c.vars) == 0 {
		lr.selectLast(c, b, pd, w, presW, toW, P, val)
		c.kind = kAcc
		return
	}
	d := dSub(beta, mu)
	if !d.has(c.mu) {
		c.fin = dAdd(c.init, mkSum(lr.dom, b, lr.zeroIf(lr.pres, d, c.mod)))
		c.pre = dAdd(c.init, mkSum(pd, w, lr.zeroIf(presW, toW(d), c.mod)))
		c.kind = kAcc
		return
	}
	// multiplicative
	okM := true
	rep := func(val *Term) *DD {
		r := newRepl(map[*Term]*DD{c.mu: leaf(val)})
		if len(c.vars) > 0 {
			r.fm = map[*Term]*lamDef{c.mu: {c.vars, leaf(val)}}
		}
		return r.dd(beta)
	}
	at0, at1, at2 := rep(pZero(c.mod)), rep(pConst(c.mod, big1)), rep(pInt2(c.mod))
	if at0.has(c.mu) || at1.has(c.mu) {
		okM = false
	}
	a := dSub(at1, at0) // coefficient of μ
	if dSub(at2, at1) != a {
		okM = false // not linear
	}
	if okM {
		zero := leaf(pZero(c.mod))
		if at0 == zero || lr.allZero(at0) {
			body := a
			if lr.pres != ddT {
				body = ite(lr.pres, a, leaf(pConst(c.mod, big1)))
			}
			c.fin = dMul(c.init, mkProd(lr.dom, b, body))
			c.pre = dMul(c.init, mkProd(pd, w, toW(body)))
			c.kind = kAcc
			return
		}
		if a.leaf != nil && !lr.varying(a) && lr.dom.op == DRange {
			// Horner: μ' = aμ + g
			T := lr.dom.args[0]
			v := pAtom(modZ, lr.lc.iv)
			pow := leaf(pPow(a.leaf, pSub(pSub(T, oneT), v)))
			c.fin = dAdd(dMul(c.init, leaf(pPow(a.leaf, T))), mkSum(lr.dom, lr.lc.iv, dMul(at0, pow)))
			wv := pAtom(modZ, w)
			pw := leaf(pPow(a.leaf, pSub(pSub(v, oneT), wv)))
			c.pre = dAdd(dMul(c.init, leaf(pPow(a.leaf, v))), mkSum(pd, w, dMul(toW(at0), pw)))
			c.kind = kAcc
			return
		}
	}
	if !beta.has(c.mu) {
		lr.fail("variable %s is overwritten: %s", c.name, beta)
	}
	if q := lr.prune(beta); q != beta {
		lr.accumulate(c, q, b)
		return
	}
	lr.fail("update of %s not recognised: %s", c.name, beta)
}

// prune decides the conditions that the state at the loop settles.
func (lr *loopRun) prune(d *DD) *DD {
	for n := 0; n < 20; n++ {
		changed := false
		for _, a := range d.atoms() {
			if lr.loopDependent([]*Term{a}) {
				continue
			}
			if unsat(and(lr.st0.pc, atomDD(a))) {
				d, changed = cofDD(d, a, false), true
			} else if unsat(and(lr.st0.pc, not(atomDD(a)))) {
				d, changed = cofDD(d, a, true), true
			}
			if changed {
				break
			}
		}
		if !changed {
			return d
		}
	}
	return d
}

// overwrites recognises beta = P ? val : μ with P and val free of μ.
func overwrites(beta *DD, mu, v *Term) (P, val *DD, ok bool) {
	ok = true
	var other *Term
	P = map1(beta, func(t *Term) *DD {
		if t == mu {
			return ddF
		}
		if t.has(v) {
			ok = false
		}
		other = t
		return ddT
	})
	if !ok || other == nil || P.has(v) {
		return nil, nil, false
	}
	val = restrict(beta, P)
	if val.has(v) {
		val = map1(beta, func(t *Term) *DD {
			if t == mu {
				return leaf(other)
			}
			return leaf(t)
		})
	}
	return P, val, true
}

// selectLast is the value written by the last iteration that satisfies P.
func (lr *loopRun) selectLast(c *cvar, b, pd, w *Term, presW *DD, toW func(*DD) *DD, P, val *DD) {
	pick := func(dom, v *Term, p, x *DD) *DD {
		e := exists(dom, v, p)
		if !x.has(v) {
			return ite(e, x, c.init)
		}
		for _, a := range p.atoms() {
			if only := eqAtomOn(a, v); only != nil && cofDD(p, a, false) == ddF {
				return ite(e, subst(x, v, leaf(only)), c.init)
			}
		}
		last := intern(&Term{op: OApp, s: "last", args: []*Term{mkLam(dom, v, p)}, lo: v.lo, hi: v.hi})
		return ite(e, subst(x, v, dAtom(modZ, last)), c.init)
	}
	c.fin = pick(lr.dom, b, and(lr.pres, P), val)
	c.pre = pick(pd, w, and(presW, toW(P)), toW(val))
}

func pInt2(mod int) *Term { return pConst(mod, big.NewInt(2)) }

func (lr *loopRun) allZero(d *DD) bool {
	for _, l := range d.leaves() {
		if l.t.op != OPoly || len(l.t.poly.ms) != 0 {
			return false
		}
	}
	return true
}

func (lr *loopRun) finish(ne int) []Edge {
	ex := lr.ex
	b := lr.bvar()
	iv := pAtom(modZ, lr.lc.iv)
	// overwritten symbolic variables become last-write variables
	for _, c := range lr.cv {
		if (c.kind == kSym || c.kind == kSeq) && !c.beta.has(c.mu) && !lr.hasMuOther(c) && len(c.vars) == 0 {
			c.pre = lr.lastPre(c, c.beta)
			c.fin = lr.lastFin(c, c.beta)
			c.kind = kAcc
		}
	}
	// conditionally overwritten
	for _, c := range lr.cv {
		if c.kind != kSym || c.isBoo || len(c.vars) > 0 {
			continue
		}
	}
	lr.resolveAcc()
	// substitution of header symbols inside the body
	in := newRepl(map[*Term]*DD{})
	out := newRepl(map[*Term]*DD{})
	lr.bind(in, out)
	// early exits
	type exitInfo struct {
		o loopOut
		c *DD
	}
	var exits []exitInfo
	var normal *loopOut
	any := ddF
	for i := range lr.outs {
		o := lr.outs[i]
		if o.back || o.e.st.pc == ddF {
			continue
		}
		raw := restrict(o.e.st.pc, lr.st0.pc)
		isEx := false
		if lr.lits != nil && (raw == not(lr.lits) || raw == lr.exh) {
			isEx = true
		}
		if lr.lc.more != nil && cofDD(o.e.st.pc, lr.lc.more, true) == ddF {
			isEx = true
		}
		if lr.elem && lr.lits != nil && and(o.e.st.pc, lr.lits) == ddF {
			isEx = true
		}
		if lr.sp.root != nil && o.e.to == nil && o.e.from == nil {
			isEx = true
		}
		if isEx {
			if normal != nil {
				lr.fail("two exhaustion exits")
			}
			n := o
			normal = &n
			continue
		}
		c := in.dd(lr.cleanD(restrict(o.e.st.pc, lr.st0.pc)))
		c = restrict(c, lr.inDom(b))
		exits = append(exits, exitInfo{o, c})
		any = or(any, c)
	}
	if lr.sp.root != nil {
		normal = &loopOut{}
	}
	any = lr.noV(any)
	anyP := and(lr.pres, any)
	ex1 := exists(lr.dom, b, anyP)
	var edges []Edge
	live := make([]*DD, len(lr.sp.live))
	addLive := func(pc *DD, regs []*DD, s *repl, elemSub bool) {
		for i, r := range regs {
			if r == nil {
				continue
			}
			x := s.dd(lr.dropLit(r, elemSub))
			x = restrict(x, pc)
			if live[i] == nil {
				live[i] = x
			} else {
				live[i] = ite(pc, x, live[i])
			}
		}
	}
	for i := range lr.fams {
		f := &lr.fams[i]
		f.guard = lr.noV(restrict(in.dd(f.guard), and(lr.inDom(b), not(anyP))))
		f.val = lr.noV(restrict(in.dd(f.val), and(lr.inDom(b), f.guard)))
	}
	// normal exit
	if normal != nil {
		pc := and(lr.st0.pc, not(ex1))
		if lr.inv != nil {
			pc = and(pc, lr.inv)
		}
		if pc != ddF {
			st := &State{pc: pc, mem: lr.st0.mem.clone()}
			for _, k := range lr.memKeys() {
				c := lr.mem[k]
				if len(c.vars) > 0 {
					st.mem.push(c.sig, &Layer{idx: c.idx, val: lr.fin(c), guard: c.guard, vars: c.vars, doms: c.doms, typ: c.typ})
				} else if f := lr.fin(c); f != c.init {
					st.mem.writeLoc(c.sig, c.idx, f, c.typ)
				}
			}
			lr.pushFams(st, lr.dom, lr.pres, nil)
			if normal.e.st != nil {
				sub := out
				e := Edge{from: normal.e.from, to: normal.e.to, st: st}
				for _, p := range normal.e.phis {
					e.phis = append(e.phis, restrict(sub.dd(lr.dropLit(p, false)), pc))
				}
				addLive(pc, normal.regs, sub, false)
				edges = append(edges, e)
			} else {
				edges = append(edges, Edge{st: st})
			}
		}
	}
	if len(exits) > 0 && ex1 != ddF {
		k := mkFirst(lr.dom, b, anyP)
		kt := leaf(pAtom(modZ, k))
		at := newRepl(map[*Term]*DD{b: kt})
		for _, x := range exits {
			ck := at.dd(x.c)
			pc := andN(lr.st0.pc, ex1, ck, at.dd(lr.pres))
			if pc == ddF {
				continue
			}
			st := &State{pc: pc, mem: lr.st0.mem.clone()}
			// state of the interrupted iteration: earlier iterations, then its own writes
			for _, key := range lr.memKeys() {
				c := lr.mem[key]
				if len(c.vars) > 0 {
					if c.pre != nil {
						st.mem.push(c.sig, &Layer{idx: c.idx, val: at.dd(c.pre), guard: c.guard, vars: c.vars, doms: c.doms, typ: c.typ})
					}
				} else {
					v := lr.exitRead(x.o, c)
					st.mem.writeLoc(c.sig, c.idx, at.dd(lr.noV(in.dd(lr.cleanD(v)))), c.typ)
				}
			}
			pd := intern(&Term{op: DPre, args: []*Term{lr.dom, kt.leaf}})
			lr.pushFams(st, pd, lr.pres, nil)
			lr.pushExitLayers(st, x.o, in, at)
			e := Edge{from: x.o.e.from, to: x.o.e.to, st: st}
			for _, p := range x.o.e.phis {
				e.phis = append(e.phis, restrict(at.dd(lr.noV(in.dd(lr.cleanD(p)))), pc))
			}
			regs := make([]*DD, len(x.o.regs))
			for i, r := range x.o.regs {
				if r != nil {
					func() {
						defer func() {
							if rr := recover(); rr != nil {
								if _, ok := rr.(loopFail); !ok {
									panic(rr)
								}
							}
						}()
						regs[i] = lr.noV(in.dd(lr.cleanD(r)))
					}()
				}
			}
			addLive(pc, regs, at, true)
			edges = append(edges, e)
		}
	}
	// events of the final pass
	for _, e := range ex.events[ne:] {
		e.pc = in.dd(lr.cleanE(e.pc))
		for i, a := range e.args {
			e.args[i] = in.dd(lr.cleanE(a))
		}
		for i, a := range e.res {
			e.res[i] = in.dd(lr.cleanE(a))
		}
		if d, ok := e.extra.(*DD); ok {
			e.extra = in.dd(lr.cleanE(d))
		}
	}
	lr.lc.aux = nil
	for i, v := range lr.sp.live {
		if live[i] != nil && lr.sp.fr != nil {
			lr.sp.fr.env[v] = live[i]
		}
	}
	_ = iv
	return edges
}

func (lr *loopRun) cleanE(d *DD) *DD { return d }

func (lr *loopRun) hasMuOther(c *cvar) bool { return lr.hasMu(c.beta, c) }

// inDom is the fact that the loop variable is in its domain.
func (lr *loopRun) inDom(b *Term) *DD {
	return and(in(pAtom(modZ, b), lr.dom), lr.pres)
}

// noV asserts that in element mode no value depends on the iteration number.
func (lr *loopRun) noV(d *DD) *DD {
	if (lr.lc.ev != nil) && d.has(lr.lc.iv) {
		lr.fail("iteration number used in element mode: %s", d)
	}
	if d.has(lr.first) || lr.pv != nil && d.has(lr.pv) {
		lr.fail("previous iteration used in element mode")
	}
	return d
}

func (lr *loopRun) dropLit(d *DD, inside bool) *DD {
	if inside {
		return d
	}
	if lr.lc.more != nil {
		return cofDD(d, lr.lc.more, false)
	}
	if lr.lits != nil {
		return restrict(d, not(lr.lits))
	}
	return d
}

// bind fills the substitutions for values inside the body and after the loop.
func (lr *loopRun) bind(in, out *repl) {
	iv := lr.lc.iv
	elemMode := lr.lc.ev != nil
	if !elemMode {
		in.m[lr.first] = eqPoly(pAtom(modZ, iv), pInt(0))
		if lr.pv != nil {
			in.m[lr.pv] = leaf(pSub(pAtom(modZ, iv), oneT))
		}
	}
	if lr.trip != nil {
		out.m[iv] = lr.trip
		out.m[lr.first] = map1(lr.trip, func(t *Term) *DD { return eqPoly(t, pInt(0)) })
		if lr.pv != nil && !elemMode {
			out.m[lr.pv] = dSub(lr.trip, dInt(1))
		}
	}
	all := append([]*cvar{}, lr.cv...)
	for _, c := range lr.mem {
		if c.kind == kAcc {
			dup := false
			for _, o := range lr.cv {
				if o == c {
					dup = true
				}
			}
			if !dup {
				all = append(all, c)
			}
		}
	}
	for _, c := range all {
		if c.kind != kAcc {
			continue
		}
		in.m[c.mu] = c.pre
		out.m[c.mu] = c.fin
		if len(c.vars) > 0 {
			in.fm = addFm(in.fm, c)
			if out.fm == nil {
				out.fm = map[*Term]*lamDef{}
			}
			out.fm[c.mu] = &lamDef{c.vars, c.fin}
		}
	}
}

func (lr *loopRun) memKeys() []string {
	var ks []string
	for k := range lr.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// fin is the value of a carried variable after the loop.
func (lr *loopRun) fin(c *cvar) *DD {
	switch c.kind {
	case kInv:
		return c.init
	case kAcc:
		return lr.noV(c.fin)
	case kClosed:
		return subst(c.hdr, lr.lc.iv, lr.tripOrFail())
	case kLast:
		return lr.noV(lr.lastFin(c, c.last0))
	case kSlice:
		s := c.sl
		return map2(lr.fin(s.off), lr.fin(s.len), func(o, l *Term) *DD { return leaf(lr.hdrTerm(s, o, l)) })
	}
	lr.fail("variable %s not classified", c.name)
	return nil
}

func (lr *loopRun) tripOrFail() *DD {
	if lr.trip == nil {
		lr.fail("number of iterations needed")
	}
	return lr.trip
}

// lastFin is the value after the loop of a variable overwritten by every iteration.
func (lr *loopRun) lastFin(c *cvar, beta *DD) *DD {
	var empty *DD
	b := lr.bvar()
	if lr.trip != nil {
		empty = map1(lr.trip, func(t *Term) *DD { return eqPoly(t, pInt(0)) })
		if lr.pres != ddT {
			empty = not(exists(lr.dom, b, lr.pres))
		}
	} else {
		empty = not(exists(lr.dom, b, lr.pres))
	}
	if empty == ddT {
		return c.init
	}
	if !lr.varying(beta) {
		return ite(empty, c.init, beta)
	}
	if lr.lc.ev != nil {
		lastE := intern(&Term{op: OApp, s: "last", args: []*Term{lr.dom}, lo: b.lo, hi: b.hi})
		return ite(empty, c.init, subst(beta, b, dAtom(modZ, lastE)))
	}
	return ite(empty, c.init, subst(beta, lr.lc.iv, dSub(lr.tripOrFail(), dInt(1))))
}

func (lr *loopRun) lastPre(c *cvar, beta *DD) *DD {
	if lr.lc.ev != nil {
		// a use before the overwrite would need the previous element
		return ite(atomDD(lr.first), c.init, beta)
	}
	v := lr.lc.iv
	return collapse(ite(eqPoly(pAtom(modZ, v), pInt(0)), c.init, subst(beta, v, leaf(pSub(pAtom(modZ, v), oneT)))), v)
}

func (lr *loopRun) exitRead(o loopOut, c *cvar) *DD {
	return readLog(o.e.st.mem.logs[c.sig], c.idx, func() *DD { return lr.baseOf(c) })
}

// pushFams adds the writes of all iterations in dom.
func (lr *loopRun) pushFams(st *State, dom *Term, pres *DD, _ interface{}) {
	b := lr.bvar()
	// merge layers of one signature and index
	type ent struct {
		sig string
		l   *Layer
	}
	var order []*ent
	for _, f := range lr.fams {
		if f.guard == ddF {
			continue
		}
		g := and(f.guard, pres)
		idx := f.l.idx
		cnt := f.l.cnt
		vars := append(append([]*Term{}, f.l.vars...), b)
		doms := append(append([]*Term{}, f.l.doms...), dom)
		// index depends on a counter?
		var ctr *cvar
		for _, t := range idx {
			for _, c := range lr.cv {
				if c.kind == kAcc && c.mu != nil && t.has(c.mu) {
					ctr = c
				}
			}
		}
		nl := &Layer{idx: idx, val: f.val, guard: g, vars: vars, doms: doms, typ: f.l.typ, cnt: cnt}
		if lr.mapLp && len(vars) == 1 && len(idx) > 0 && idx[len(idx)-1].op == OPoly {
			// element number v of a map range: the keys in the order of the iteration
			if start := pSub(idx[len(idx)-1], pAtom(modZ, lr.lc.iv)); !start.has(lr.lc.iv) && unsat(andN(lr.inDom(b), not(f.guard))) {
				nl.guard = pres
				nl.cnt = mkLam(dom, b, pres)
				nl.cntStart = start
				nl.cntLen = mkSum(dom, b, ite(pres, dInt(1), dInt(0)))
				order = append(order, &ent{f.sig, nl})
				continue
			}
		}
		if ctr != nil {
			lr.filterLayer(f.sig, nl, ctr, pres)
		}
		if lr.byPosition(nl) {
			nl.val = collapse(nl.val, lr.lc.iv)
			order = append(order, &ent{f.sig, nl})
			continue
		}
		merged := false
		for i := len(order) - 1; i >= 0 && !merged && ctr == nil && order[i].l.cnt == nil; i-- {
			o := order[i]
			if o.sig == f.sig && len(o.l.vars) == len(nl.vars) && sameIdx(o.l.idx, nl.idx) && sameIdx(o.l.vars, nl.vars) {
				o.l.val = ite(nl.guard, nl.val, o.l.val)
				o.l.guard = or(o.l.guard, nl.guard)
				merged = true
			} else if o.sig == f.sig {
				break
			}
		}
		if !merged {
			order = append(order, &ent{f.sig, nl})
		}
	}
	for _, o := range order {
		for _, p := range lr.prevs {
			if p.sig == o.sig && len(o.l.vars) == 1 && !p.val.has(p.mu) && lr.lc.ev == nil {
				o.l.val = subst(p.val, lr.lc.iv, leaf(pAdd(pAtom(modZ, lr.lc.iv), oneT)))
			}
		}
		if o.l.guard == ddT || true {
			o.l.val = collapse(o.l.val, b)
		}
		st.mem.push(o.sig, o.l)
	}
}

// byPosition turns a write in a loop over the elements of a list to a place
// that depends on the position in the list into one over the positions.
func (lr *loopRun) byPosition(l *Layer) bool {
	root, iv, ev := lr.lc.root, lr.lc.iv, lr.lc.ev
	if ev == nil || root == nil || l.cnt != nil {
		return false
	}
	dep := false
	for _, t := range l.idx {
		dep = dep || t.has(iv)
	}
	if !dep {
		return false
	}
	var el *DD
	if root.s == "@list" {
		el = dAtom(modZ, intern(&Term{op: OApp, s: "nth", args: []*Term{root.args[0], pAtom(modZ, iv)}, lo: ev.lo, hi: ev.hi}))
	} else {
		u, ok := root.typ.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		rs, ri := locOf(root)
		el = baseVal(rs+"[]", append(append([]*Term{}, ri...), lr.lc.elemIdx()), u.Elem())
	}
	r := newRepl(map[*Term]*DD{ev: el})
	for i, d := range l.doms[:len(l.doms)-1] {
		if l.doms[i] = r.term(d).leaf; l.doms[i] == nil {
			lr.fail("conditional domain")
		}
	}
	idx := make([]*Term, len(l.idx))
	for i, t := range l.idx {
		if idx[i] = r.term(t).leaf; idx[i] == nil {
			lr.fail("conditional index")
		}
	}
	l.idx, l.val, l.guard = idx, r.dd(l.val), r.dd(l.guard)
	l.vars[len(l.vars)-1] = iv
	l.doms[len(l.doms)-1] = intern(&Term{op: DRange, args: []*Term{rootLen(root)}})
	return true
}

// filterLayer: elements appended conditionally; the index counts the selected iterations.
func (lr *loopRun) filterLayer(sig string, l *Layer, c *cvar, pres *DD) {
	k := len(l.idx) - 1
	p := l.idx[k]
	if p.op != OPoly {
		lr.fail("counter in a nested index")
	}
	start := pSub(p, pAtom(modZ, c.mu))
	if start.has(c.mu) || !start.isInvariant(lr) {
		lr.fail("index is not linear in the counter")
	}
	d := dSub(c.beta, lr.muVal(c))
	// d must be [g]
	g := ddF
	for _, x := range d.leaves() {
		if x.t.isInt(1) {
			g = or(g, x.g)
		} else if !x.t.isInt(0) {
			lr.fail("counter step")
		}
	}
	g = and(pres, restrict(g, lr.inDom(lr.bvar())))
	if ex := and(l.guard, not(g)); ex != ddF && l.typ != nil && len(l.vars) == 1 {
		// iterations that are not selected write back what is there
		old := readLog(lr.hm.logs[sig], l.idx, func() *DD { return baseVal(sig, l.idx, l.typ) })
		if restrict(l.val, ex) == restrict(old, ex) {
			l.guard = and(l.guard, g)
			l.val = restrict(l.val, l.guard)
		}
	}
	if !unsat(andN(lr.inDom(lr.bvar()), g, not(l.guard))) || !unsat(andN(lr.inDom(lr.bvar()), l.guard, not(g))) {
		lr.fail("conditional element of a conditional list: %s / %s in %s", g, l.guard, lr.inDom(lr.bvar()))
	}
	if c.init.leaf == nil {
		lr.fail("conditional list length")
	}
	l.cnt = flatLam(l.doms[len(l.doms)-1], lr.bvar(), g)
	l.cntStart = pAdd(start, c.init.leaf)
	l.cntLen = dSub(c.fin, c.init)
	l.guard = g
}

func (t *Term) isInvariant(lr *loopRun) bool {
	return !t.has(lr.lc.iv) && (lr.lc.ev == nil || !t.has(lr.lc.ev))
}

// filterAt reads element idx of a filtered list.
func filterAt(l *Layer, idx []*Term) (*DD, *DD, bool) {
	k := len(idx) - 1
	if len(l.vars) != 1 {
		return nil, nil, false
	}
	t := pSub(idx[k], l.cntStart)
	b := l.vars[0]
	nth := intern(&Term{op: OApp, s: "nth", args: []*Term{l.cnt, t}, lo: b.lo, hi: b.hi})
	w := pAtom(modZ, nth)
	cond := and(le(pInt(0), t), map1(l.cntLen, func(n *Term) *DD { return lt(t, n) }))
	for i := 0; i < k; i++ {
		cond = and(cond, eqTerm(l.idx[i], idx[i]))
	}
	care := and(in(w, l.doms[0]), subst(l.guard, b, leaf(w)))
	return restrict(subst(l.val, b, leaf(w)), care), cond, true
}

// pushExitLayers adds the family writes of the interrupted iteration.
func (lr *loopRun) pushExitLayers(st *State, o loopOut, in, at *repl) {
	for _, sig := range sortedKeys(o.e.st.mem.logs) {
		la, lb := lr.hm.logs[sig], o.e.st.mem.logs[sig]
		if la == lb {
			continue
		}
		ls := layersAbove(lb, commonBase(la, lb))
		for n := len(ls) - 1; n >= 0; n-- {
			l := *ls[n]
			if len(l.vars) == 0 && !lr.loopDependent(l.idx) {
				continue // carried or constant location, handled by exitRead
			}
			if l.cnt != nil {
				continue
			}
			var idx []*Term
			ok := true
			for _, t := range l.idx {
				x := in.term(t)
				x = at.dd(x)
				if x.leaf == nil {
					ok = false
					break
				}
				idx = append(idx, x.leaf)
			}
			if !ok {
				continue
			}
			l.idx = idx
			l.val = at.dd(in.dd(lr.cleanD(l.val)))
			l.guard = at.dd(in.dd(lr.cleanD(l.guard)))
			var doms []*Term
			for _, d := range l.doms {
				x := at.dd(in.term(d))
				if x.leaf == nil {
					lr.fail("conditional domain")
				}
				doms = append(doms, x.leaf)
			}
			l.doms = doms
			st.mem.push(sig, &l)
		}
	}
}
