package main

// Smart constructors for conditions, binders and byte sequences, and
// substitution.

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- arithmetic on diagrams

func dInt(n int64) *DD { return leaf(pInt(n)) }
func dAdd(a, b *DD) *DD {
	return map2(a, b, func(x, y *Term) *DD { return leaf(absorbNew(pAdd(x, y))) })
}

// absorbNew normalises a sum with binders.
func absorbNew(t *Term) *Term {
	if uninitialised(t) || absorbBusy || len(t.poly.ms) < 2 {
		return t
	}
	for _, m := range t.poly.ms {
		for _, f := range m.fs {
			if f.a.op == OSum {
				absorbBusy = true
				defer func() { absorbBusy = false }()
				return absorb(t)
			}
		}
	}
	return t
}

var absorbBusy bool

func dAddOld(a, b *DD) *DD {
	return map2(a, b, func(x, y *Term) *DD { return leaf(pAdd(x, y)) })
}
func dSub(a, b *DD) *DD {
	return map2(a, b, func(x, y *Term) *DD { return leaf(pSub(x, y)) })
}
func dMul(a, b *DD) *DD {
	return map2(a, b, func(x, y *Term) *DD { return leaf(pMul(x, y)) })
}
func dNeg(a *DD) *DD { return map1(a, func(x *Term) *DD { return leaf(pNeg(x)) }) }
func dInv(a *DD) *DD { return map1(a, func(x *Term) *DD { return leaf(pInv(x)) }) }
func dCast(a *DD, mod int) *DD {
	return map1(a, func(x *Term) *DD { return leaf(cast(x, mod)) })
}
func dAtom(mod int, t *Term) *DD { return leaf(pAtom(mod, t)) }

// ---------------------------------------------------------------- conditions

func bterm(b bool) *DD { return boolDD(b) }

func polyGcd(t *Term) *big.Int {
	g := new(big.Int)
	for _, m := range t.poly.ms {
		if len(m.fs) == 0 {
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
	}
	return g
}
func constPart(t *Term) *big.Int {
	for _, m := range t.poly.ms {
		if len(m.fs) == 0 {
			return m.c
		}
	}
	return big0
}
func leadCoef(t *Term) *big.Int {
	for _, m := range t.poly.ms {
		if len(m.fs) != 0 {
			return m.c
		}
	}
	return big0
}

// searchTerm matches elem(S, search(S,t)) - t.
func eqZero(p *Term) *DD {
	if c, ok := p.constVal(); ok {
		return boolDD(c.Sign() == 0)
	}
	if p.poly.mod != modZ {
		// a scalar polynomial that is a linear form over small integers is
		// compared as integers
		if ip := asSmallInt(p); ip != nil {
			return eqZero(ip)
		}
		if d := zeroFactor(p); d != nil {
			return d
		}
		_, m := monic(p)
		return atomDD(intern(&Term{op: OEq0, args: []*Term{m}}))
	}
	lo, hi := prange(p)
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return ddF
	}
	g := polyGcd(p)
	c := constPart(p)
	if g.Sign() != 0 && g.Cmp(big1) != 0 {
		if new(big.Int).Mod(c, g).Sign() != 0 {
			return ddF
		}
		ms := make([]Mono, len(p.poly.ms))
		for i, m := range p.poly.ms {
			ms[i] = Mono{m.fs, new(big.Int).Div(m.c, g), m.key}
		}
		p = mkPoly(modZ, ms)
	}
	if leadCoef(p).Sign() < 0 {
		p = pNeg(p)
	}
	if d := matchSearch(p); d != nil {
		return d
	}
	if d := searchEnd(p); d != nil {
		return d
	}
	if d := nthEq(p); d != nil {
		return d
	}
	return atomDD(intern(&Term{op: OEq0, args: []*Term{p}}))
}

// zeroFactor: a product is zero iff one of its factors is.
func zeroFactor(p *Term) *DD {
	if len(p.poly.ms) != 1 || p.point {
		return nil
	}
	fs := p.poly.ms[0].fs
	r := ddF
	for _, f := range fs {
		if f.a.point {
			return nil
		}
		if c, ok := f.e.constVal(); !ok || c.Sign() <= 0 {
			return nil
		}
		switch {
		case f.a.op == OProd:
			v := loopVar("zf@", f.a.args[1].lo, f.a.args[1].hi)
			x := pAtom(modZ, v)
			body := openBinder(f.a, ite(f.a.dds[0], leaf(f.a.args[2]), leaf(pConst(p.poly.mod, big1))), x)
			r = or(r, exists(f.a.args[0], v, lift([]*DD{body}, func(ts []*Term) *DD { return eqZero(ts[0]) })))
		case len(fs) == 1:
			return nil
		default:
			r = or(r, eqZero(pAtom(p.poly.mod, f.a)))
		}
	}
	return r
}

// asSmallInt returns the integer form of a scalar polynomial all of whose
// atoms are bounded integers with small coefficients (so that it vanishes
// modulo the order iff it vanishes).
func asSmallInt(p *Term) *Term {
	q := modulus(p.poly.mod)
	half := new(big.Int).Rsh(q, 1)
	var ms []Mono
	for _, m := range p.poly.ms {
		for _, f := range m.fs {
			if f.e != one() || f.a.lo == nil || f.a.hi == nil || f.a.point {
				return nil
			}
		}
		c := m.c
		if c.Cmp(half) > 0 {
			c = new(big.Int).Sub(c, q)
		}
		if c.BitLen() > 64 {
			return nil
		}
		ms = append(ms, Mono{m.fs, c, m.key})
	}
	r := mkPoly(modZ, ms)
	lo, hi := prange(r)
	if lo == nil || hi == nil || lo.BitLen() > 200 || hi.BitLen() > 200 {
		return nil
	}
	return r
}

func eqPoly(a, b *Term) *DD { return eqZero(pSub(a, b)) }

// leZero is p <= 0 over the integers.
func leZero(p *Term) *DD {
	if c, ok := p.constVal(); ok {
		return boolDD(c.Sign() <= 0)
	}
	lo, hi := prange(p)
	if lo != nil && lo.Sign() > 0 {
		return ddF
	}
	if hi != nil && hi.Sign() <= 0 {
		return ddT
	}
	if lo != nil && lo.Sign() == 0 {
		return eqZero(p)
	}
	g := polyGcd(p)
	if g.Cmp(big1) != 0 {
		var ms []Mono
		for _, m := range p.poly.ms {
			if len(m.fs) == 0 {
				// ceil(c/g)
				c := new(big.Int).Neg(m.c)
				c.Div(c, g) // floor(-c/g)
				c.Neg(c)
				ms = append(ms, Mono{nil, c, ""})
			} else {
				ms = append(ms, Mono{m.fs, new(big.Int).Div(m.c, g), m.key})
			}
		}
		return leZero(mkPoly(modZ, ms))
	}
	if leadCoef(p).Sign() < 0 {
		// p <= 0  <=>  not (1-p <= 0)
		n := pSub(one(), p)
		nlo, _ := prange(n)
		if nlo != nil && nlo.Sign() == 0 {
			return not(eqZero(n))
		}
		return not(atomDD(intern(&Term{op: OLe0, args: []*Term{n}})))
	}
	// upper end: p in [-k,1] , p<=0 <=> not p==1
	if hi != nil && hi.Cmp(big1) == 0 {
		n := pSub(one(), p)
		return not(eqZero(n))
	}
	return atomDD(intern(&Term{op: OLe0, args: []*Term{p}}))
}

func le(a, b *Term) *DD { return leZero(pSub(a, b)) }
func lt(a, b *Term) *DD { return leZero(pAdd(pSub(a, b), one())) }
func dLe(a, b *DD) *DD  { return map2(a, b, le) }
func dLt(a, b *DD) *DD  { return map2(a, b, lt) }

// in is membership in a domain.
func in(x, dom *Term) *DD {
	switch dom.op {
	case DRange:
		return and(le(pInt(0), x), lt(x, dom.args[0]))
	case DAll:
		return ddT
	case DSet:
		if isDerived(dom.args[0]) {
			u, p := underlying(dom)
			return and(in(x, u), p(x))
		}
	}
	if x.op == OPoly && isBoundedBy(x, dom) {
		return ddT
	}
	return atomDD(intern(&Term{op: OIn, args: []*Term{x, dom}}))
}

// isBoundedBy: x is an element of a list whose elements come from dom.  (An
// element outside the list is never used: reads carry the bounds condition.)
func isBoundedBy(x, dom *Term) bool {
	a := x.singleAtom()
	return a != nil && a.op == OApp && a.s == "nth" && a.args[0].args[0] == dom
}

var nthBusy bool

// nthEq decides p == 0 from the condition that selects the elements of a list.
func nthEq(p *Term) *DD {
	if nthBusy {
		return nil
	}
	for _, m := range p.poly.ms {
		if len(m.fs) != 1 || m.fs[0].e != one() || m.fs[0].a.op != OApp || m.fs[0].a.s != "nth" {
			continue
		}
		lam := m.fs[0].a.args[0]
		nthBusy = true
		g := openBinder(lam, lam.dds[0], pAtom(modZ, m.fs[0].a))
		nthBusy = false
		at := intern(&Term{op: OEq0, args: []*Term{p}})
		if cofDD(g, at, true) == ddF {
			return ddF
		}
		if cofDD(g, at, false) == ddF {
			return ddT
		}
	}
	return nil
}

// isNil says whether a reference value is nil.
func isNil(t *Term) *DD {
	switch t.op {
	case ONil:
		return ddT
	case OAlloc, OFld, OIdx, OFunc, OIface, OAgg, OSeq:
		return ddF
	case OSlice:
		return isNil(t.args[0])
	case OApp:
		if strings.HasPrefix(t.s, "@") || strings.HasPrefix(t.s, "err:") || strings.HasPrefix(t.s, "g:") {
			return ddF
		}
	case OPoly, OTrue, OFalse, OConst:
		return ddF
	case OBase:
		if strings.HasPrefix(t.s, "any:") || strings.HasPrefix(t.s, "(any:") || strings.HasPrefix(t.s, "((any:") {
			return ddF // what decoding gives has no missing parts
		}
	}
	return atomDD(intern(&Term{op: OIsNil, args: []*Term{t}}))
}

// eqTerm compares two values.
func eqTerm(a, b *Term) *DD {
	if a == b {
		return ddT
	}
	if a.op == OPoly && b.op == OPoly {
		return eqPoly(a, b)
	}
	if a.op == ONil {
		return isNil(b)
	}
	if b.op == ONil {
		return isNil(a)
	}
	if a.op == OConst && b.op == OConst {
		return ddF
	}
	if a.op == OAgg && b.op == OAgg && len(a.dds) == len(b.dds) {
		r := ddT
		for i := range a.dds {
			r = and(r, eqDD(a.dds[i], b.dds[i]))
		}
		return r
	}
	if a.op == OIface && b.op == OIface {
		if typeKey(a.typ) != typeKey(b.typ) {
			return ddF
		}
		return eqDD(a.dds[0], b.dds[0])
	}
	if isRef(a) && isRef(b) {
		return alias(a, b)
	}
	if a.op == OSeq && b.op == OSeq {
		return eqSeq(a, b)
	}
	if a.op == OApp && b.op == OApp && strings.HasPrefix(a.s, "err:") && strings.HasPrefix(b.s, "err:") {
		return ddF
	}
	x, y := a, b
	if y.id < x.id {
		x, y = y, x
	}
	return atomDD(intern(&Term{op: OEq, args: []*Term{x, y}}))
}

func eqDD(a, b *DD) *DD {
	// boolean values compare by equivalence
	if isBoolDD(a) && isBoolDD(b) {
		return xnor(a, b)
	}
	return map2(a, b, eqTerm)
}

func isBoolDD(d *DD) bool {
	for d.leaf == nil {
		d = d.lo
	}
	return d.leaf == tTrue || d.leaf == tFalse
}

func isRef(t *Term) bool {
	switch t.op {
	case OAlloc, OFld, OIdx:
		return true
	case OBase:
		return t.typ != nil && isPtrLike(t.typ)
	case OApp:
		return strings.HasPrefix(t.s, "@") || strings.HasPrefix(t.s, "g:")
	}
	return false
}

// alias gives the condition under which two reference terms denote the same
// location.  Distinct access paths are assumed not to alias (see DESIGN.md).
func alias(a, b *Term) *DD {
	if a == b {
		return ddT
	}
	if a.op != b.op || a.s != b.s || len(a.args) != len(b.args) {
		return ddF
	}
	r := ddT
	for i := range a.args {
		x, y := a.args[i], b.args[i]
		if x == y {
			continue
		}
		if x.op == OPoly && y.op == OPoly {
			r = and(r, eqPoly(x, y))
		} else if isRef(x) && isRef(y) {
			r = and(r, alias(x, y))
		} else {
			r = and(r, eqTerm(x, y))
		}
		if r == ddF {
			return ddF
		}
	}
	return r
}

// ---------------------------------------------------------------- substitution

type repl struct {
	m  map[*Term]*DD
	tm map[*Term]*DD
	am map[*Term]*DD
	dm map[*DD]*DD
	fm map[*Term]*lamDef
	rt map[*Term]*DD // terms to replace as a whole
	// replace terms without variables, too
	all bool
}

func newRepl(m map[*Term]*DD) *repl {
	return &repl{m: m, tm: map[*Term]*DD{}, am: map[*Term]*DD{}, dm: map[*DD]*DD{}}
}

func (r *repl) hits(vs []*Term) bool {
	if r.all {
		return true
	}
	for _, v := range vs {
		if _, ok := r.m[v]; ok {
			return true
		}
	}
	return false
}

func (r *repl) dd(d *DD) *DD {
	if !r.hits(d.vars) {
		return d
	}
	if x, ok := r.dm[d]; ok {
		return x
	}
	var x *DD
	if d.leaf != nil {
		x = r.term(d.leaf)
	} else {
		x = ite(r.atom(d.atom), r.dd(d.hi), r.dd(d.lo))
	}
	r.dm[d] = x
	return x
}

// num rebuilds a numeric atom and returns a diagram of polynomials mod `mod`.
func (r *repl) num(a *Term, mod int) *DD {
	if !r.hits(a.vars) {
		return dAtom(mod, a)
	}
	if d, ok := r.rt[a]; ok {
		return map1(d, func(t *Term) *DD { return leaf(cast(t, mod)) })
	}
	switch a.op {
	case OVar:
		if d, ok := r.m[a]; ok {
			return map1(d, func(t *Term) *DD {
				if t.op != OPoly {
					panic(undecided("substitution of non numeric value"))
				}
				return leaf(cast(t, mod))
			})
		}
		return dAtom(mod, a)
	case OWrap:
		return r.term(a.args[0])
	case OSum:
		body := ite(r.dd(a.dds[0]), r.term(a.args[2]), leaf(pZero(a.args[2].poly.mod)))
		return map1(lift([]*DD{r.term(a.args[0])}, func(ts []*Term) *DD {
			return mkSum(ts[0], a.args[1], body)
		}), func(t *Term) *DD { return leaf(cast(t, mod)) })
	case OProd:
		body := ite(r.dd(a.dds[0]), r.term(a.args[2]), leaf(pConst(a.args[2].poly.mod, big1)))
		return lift([]*DD{r.term(a.args[0])}, func(ts []*Term) *DD { return mkProd(ts[0], a.args[1], body) })
	case OFirst:
		g := r.dd(a.dds[0])
		return lift([]*DD{r.term(a.args[0])}, func(ts []*Term) *DD {
			return dAtom(mod, mkFirst(ts[0], a.args[1], g))
		})
	case OApp, OBase:
		if a.op == OApp && len(a.args) > 0 && r.fm[a.args[0]] != nil {
			l := r.fm[a.args[0]]
			m := map[*Term]*DD{}
			for i, v := range l.vars {
				m[v] = r.term(a.args[i+1])
			}
			return newRepl(m).dd(l.body)
		}
		return map1(r.term(a), func(t *Term) *DD {
			if t.op == OPoly {
				return leaf(cast(t, mod))
			}
			return dAtom(mod, t)
		})
	}
	return dAtom(mod, a)
}

func (r *repl) term(t *Term) *DD {
	if !r.hits(t.vars) {
		return leaf(t)
	}
	if x, ok := r.tm[t]; ok {
		return x
	}
	x := r.term0(t)
	r.tm[t] = x
	return x
}

func (r *repl) args(t *Term) []*DD {
	out := make([]*DD, len(t.args))
	for i, a := range t.args {
		out[i] = r.term(a)
	}
	return out
}

func (r *repl) term0(t *Term) *DD {
	if d, ok := r.rt[t]; ok && r.all {
		return d
	}
	if r.all && len(t.args) == 0 && len(t.dds) == 0 && t.poly == nil && t.ln == nil && t.op != OVar {
		return leaf(t)
	}
	switch t.op {
	case OVar:
		if d, ok := r.m[t]; ok {
			return d
		}
		return leaf(t)
	case OPoly:
		mod := t.poly.mod
		sum := leaf(pZero(mod))
		for _, m := range t.poly.ms {
			prod := leaf(pConst(mod, m.c))
			for _, f := range m.fs {
				v := r.num(f.a, mod)
				e := r.term(f.e)
				prod = dMul(prod, map2(v, e, func(x, y *Term) *DD { return leaf(pPow(x, y)) }))
			}
			sum = dAdd(sum, prod)
		}
		return sum
	case OAgg:
		ds := make([]*DD, len(t.dds))
		for i, d := range t.dds {
			ds[i] = r.dd(d)
		}
		return leaf(intern(&Term{op: OAgg, dds: ds, typ: t.typ}))
	case OIface:
		return leaf(intern(&Term{op: OIface, typ: t.typ, dds: []*DD{r.dd(t.dds[0])}}))
	case OFunc:
		ds := make([]*DD, len(t.dds))
		for i, d := range t.dds {
			ds[i] = r.dd(d)
		}
		return leaf(intern(&Term{op: OFunc, s: t.s, fn: t.fn, dds: ds}))
	case OSeq:
		out := leaf(mkSeq(nil))
		for _, s := range t.args {
			out = map2(out, r.seg(s), func(x, y *Term) *DD { return leaf(mkSeq(append(append([]*Term{}, x.args...), y.args...))) })
		}
		return out
	case DRange, DSet, DKeys, DPre, OSlice, OAlloc, OFld, OIdx:
		return lift(r.args(t), func(ts []*Term) *DD {
			return leaf(intern(&Term{op: t.op, s: t.s, args: ts, typ: t.typ}))
		})
	case OBase, OApp:
		as := r.args(t)
		n := len(as)
		if t.ln != nil {
			as = append(as, r.term(t.ln))
		}
		k := len(as)
		for _, d := range t.dds {
			as = append(as, nil)
			_ = d
		}
		as = as[:k]
		var ds []*DD
		for _, d := range t.dds {
			ds = append(ds, r.dd(d))
		}
		return lift(as, func(ts []*Term) *DD {
			nt := &Term{op: t.op, s: t.s, args: ts[:n:n], dds: ds, typ: t.typ, lo: t.lo, hi: t.hi, point: t.point}
			if t.ln != nil {
				nt.ln = ts[n]
			}
			return leaf(simpApp(nt))
		})
	case OSum, OProd, OFirst, OWrap:
		return r.num(t, modZ)
	case ORep, OSub, OBytes:
		return map1(r.seg(t), func(x *Term) *DD { return leaf(x) })
	case OLam:
		body := r.dd(t.dds[0])
		return lift([]*DD{r.term(t.args[0])}, func(ts []*Term) *DD { return leaf(mkLam(ts[0], t.args[1], body)) })
	}
	panic(undecided("substitution into " + t.String()))
}

// seg rebuilds a byte segment; the result is a diagram of OSeq.
func (r *repl) seg(s *Term) *DD {
	if !r.hits(s.vars) {
		return leaf(mkSeq([]*Term{s}))
	}
	switch s.op {
	case OVar:
		if d, ok := r.m[s]; ok {
			return d
		}
		// a carried sequence whose length is rebuilt
		return leaf(mkSeq([]*Term{s}))
	case ORep:
		body := r.dd(s.dds[0])
		return lift([]*DD{r.term(s.args[0])}, func(ts []*Term) *DD { return leaf(mkSeq([]*Term{mkRep(ts[0], s.args[1], body)})) })
	case OSub:
		return lift(r.args(s), func(ts []*Term) *DD {
			return leaf(subData(ts[0], ts[1], ts[2]))
		})
	}
	return map1(r.term(s), func(t *Term) *DD {
		if t.op == OSeq {
			return leaf(t)
		}
		return leaf(mkSeq([]*Term{t}))
	})
}

// atom rebuilds a condition atom.
func (r *repl) atom(t *Term) *DD {
	if !r.hits(t.vars) {
		return atomDD(t)
	}
	if x, ok := r.am[t]; ok {
		return x
	}
	var x *DD
	switch t.op {
	case OVar:
		x = atomDD(t)
		if d, ok := r.m[t]; ok {
			x = d
		}
	case OEq0:
		x = map1(r.term(t.args[0]), eqZero)
	case OLe0:
		x = map1(r.term(t.args[0]), leZero)
	case OEq:
		x = map2(r.term(t.args[0]), r.term(t.args[1]), eqTerm)
	case OIsNil:
		x = map1(r.term(t.args[0]), isNil)
	case OIn:
		x = map2(r.term(t.args[0]), r.term(t.args[1]), in)
	case OAtom:
		var ds []*DD
		for _, d := range t.dds {
			ds = append(ds, r.dd(d))
		}
		x = lift(r.args(t), func(ts []*Term) *DD { return mkAtom(t.s, ts, ds...) })
	case OBase:
		x = lift(r.args(t), func(ts []*Term) *DD {
			return atomDD(intern(&Term{op: OBase, s: t.s, args: ts, typ: t.typ}))
		})
	case OEx:
		g := r.dd(t.dds[0])
		x = map1(r.term(t.args[0]), func(d *Term) *DD { return exists(d, t.args[1], g) })
	default:
		panic(undecided("substitution into condition " + t.String()))
	}
	r.am[t] = x
	return x
}

func mkAtom(s string, args []*Term, dds ...*DD) *DD {
	return atomDD(intern(&Term{op: OAtom, s: s, args: args, dds: dds}))
}

func subst(d *DD, v *Term, to *DD) *DD {
	if !d.has(v) {
		return d
	}
	return newRepl(map[*Term]*DD{v: to}).dd(d)
}
func substT(t *Term, v *Term, to *DD) *DD {
	if !t.has(v) {
		return leaf(t)
	}
	return newRepl(map[*Term]*DD{v: to}).term(t)
}

// substT1 substitutes and expects a single term.
func substT1(t *Term, v *Term, to *Term) *Term {
	d := substT(t, v, leaf(to))
	if d.leaf == nil {
		panic(undecided("conditional index"))
	}
	return d.leaf
}

// simpApp re-simplifies an application after substitution.
func simpApp(t *Term) *Term {
	if f, ok := simplifiers[t.s]; ok && t.op == OApp {
		if x := f(t); x != nil {
			return x
		}
	}
	return intern(t)
}

var simplifiers = map[string]func(*Term) *Term{}

// ---------------------------------------------------------------- binders

func loopVar(name string, lo, hi *big.Int) *Term {
	return intern(&Term{op: OVar, s: name, lo: lo, hi: hi})
}

// bound closes v in the given parts: it returns the canonical bound variable
// and a substitution.
func closeOver(v *Term, parts []*Term, dds []*DD) (*Term, []*Term, []*DD) {
	h := 0
	for _, p := range parts {
		if p.h > h {
			h = p.h
		}
	}
	for _, d := range dds {
		if d.h > h {
			h = d.h
		}
	}
	b := intern(&Term{op: OVar, s: fmt.Sprintf("B%d", h), lo: v.lo, hi: v.hi})
	if b == v {
		return b, parts, dds
	}
	r := newRepl(map[*Term]*DD{v: dAtom(modZ, b)})
	np := make([]*Term, len(parts))
	for i, p := range parts {
		x := r.term(p)
		if x.leaf == nil {
			panic(undecided("binder over conditional term"))
		}
		np[i] = x.leaf
	}
	nd := make([]*DD, len(dds))
	for i, d := range dds {
		nd[i] = r.dd(d)
	}
	// closing may change the height (simplification), iterate once
	h2 := 0
	for _, p := range np {
		if p.h > h2 {
			h2 = p.h
		}
	}
	for _, d := range nd {
		if d.h > h2 {
			h2 = d.h
		}
	}
	if h2 != h {
		return closeOver(b, np, nd)
	}
	return b, np, nd
}

func domVars(dom *Term) []*Term { return dom.vars }

// domRange is the range of the elements of a domain.
func domRange(dom *Term) (lo, hi *big.Int) {
	switch dom.op {
	case DRange:
		return big0, maxLen
	case DSet:
		r := dom.args[0]
		if r.typ != nil {
			if sl, ok := r.typ.Underlying().(*types.Slice); ok {
				if l, h, ok := intRange(sl.Elem()); ok {
					return l, h
				}
			}
		}
		if isDerived(r) {
			return domRange(r.args[0].args[0])
		}
	}
	return nil, nil
}

// canonVar gives a bound variable the range of its domain.
func canonVar(dom, v *Term, body *DD) (*Term, *DD) {
	lo, hi := domRange(dom)
	if lo == nil || v.lo != nil && v.hi != nil && v.lo.Cmp(lo) == 0 && v.hi.Cmp(hi) == 0 {
		return v, body
	}
	w := loopVar(strings.TrimSuffix(v.s, "~")+"~", lo, hi)
	return w, subst(body, v, dAtom(modZ, w))
}

// normBody simplifies a body under the assumption v in dom.
func normBody(dom, v *Term, d *DD) *DD {
	m := and(in(pAtom(modZ, v), dom), searchFacts(dom, v, d))
	return collapse(restrict(d, m), v)
}

// searchFacts: the search for an element of a list finds a position in it.
func searchFacts(dom, v *Term, d *DD) *DD {
	m := ddT
	if dom.op != DSet {
		return m
	}
	for _, a := range d.atoms() {
		if a.op != OLe0 || !a.has(v) {
			continue
		}
		for _, mm := range a.args[0].poly.ms {
			if len(mm.fs) == 1 && mm.fs[0].a.op == OApp && mm.fs[0].a.s == "searchGE" && mm.fs[0].a.args[0] == dom.args[0] && mm.fs[0].a.args[1] == pAtom(modZ, v) {
				m = and(m, lt(pAtom(modZ, mm.fs[0].a), rootLen(dom.args[0])))
			}
		}
	}
	return m
}

// collapse removes case distinctions v == t that agree with the general case.
func collapse(d *DD, v *Term) *DD { return collapseIn(d, v, ddT) }

// collapseIn: known holds and does not mention v.
func collapseIn(d *DD, v *Term, known *DD) *DD {
	if d.leaf != nil || !d.has(v) {
		return d
	}
	for n := 0; n < 20; n++ {
		changed := false
		for _, a := range d.atoms() {
			t := eqAtomOn(a, v)
			if t == nil {
				continue
			}
			hi, lo := cofDD(d, a, true), cofDD(d, a, false)
			h2 := subst(hi, v, leaf(t))
			l2 := subst(lo, v, leaf(t))
			if h2 != l2 && known != ddT {
				h2, l2 = restrict(h2, known), restrict(l2, known)
				if h2 != l2 && isBoolDD(h2) && isBoolDD(l2) && unsat(and(known, not(xnor(h2, l2)))) {
					h2 = l2
				}
			}
			if h2 == l2 {
				d = lo
				changed = true
				break
			}
			if h2 != hi && !isBoolDD(d) {
				nd := ite(atomDD(a), h2, lo)
				if nd != d {
					d = nd
					changed = true
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	return d
}

// hoistable returns an atom of d that does not mention v.
func hoistable(d *DD, v *Term) *Term {
	for _, a := range d.atoms() {
		if !a.has(v) {
			return a
		}
	}
	return nil
}

func cofDD(d *DD, a *Term, val bool) *DD {
	lit := atomDD(a)
	if !val {
		lit = not(lit)
	}
	// full cofactor
	memo := map[*DD]*DD{}
	var rec func(x *DD) *DD
	rec = func(x *DD) *DD {
		if x.leaf != nil || x.atom.id > a.id {
			return x
		}
		if x.atom == a {
			if val {
				return x.hi
			}
			return x.lo
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := mkDD(x.atom, rec(x.hi), rec(x.lo))
		memo[x] = r
		return r
	}
	_ = lit
	return rec(d)
}

// eqAtomOn: atom a is (v == t) for some term t free of v; returns t.
func eqAtomOn(a, v *Term) *Term {
	if a.op != OEq0 || a.args[0].poly.mod != modZ {
		return nil
	}
	p := a.args[0]
	var c *big.Int
	var rest []Mono
	for _, m := range p.poly.ms {
		if len(m.fs) == 1 && m.fs[0].a == v && m.fs[0].e == one() {
			c = m.c
			continue
		}
		for _, f := range m.fs {
			if f.a.has(v) || f.e.has(v) {
				return nil
			}
		}
		rest = append(rest, m)
	}
	if c == nil {
		return nil
	}
	r := mkPoly(modZ, rest)
	if c.Cmp(big1) == 0 {
		return pNeg(r)
	}
	if c.Cmp(big.NewInt(-1)) == 0 {
		return r
	}
	return nil
}

func findEqAtom(d *DD, v *Term) (*Term, *Term) {
	for _, a := range d.atoms() {
		if t := eqAtomOn(a, v); t != nil {
			return a, t
		}
	}
	return nil, nil
}

// domCard is the number of elements.
func domCard(dom *Term) *DD {
	switch dom.op {
	case DRange:
		return leaf(dom.args[0])
	case DSet:
		return rootLenDD(dom.args[0])
	}
	return leaf(pAtom(modZ, intern(&Term{op: OApp, s: "card", args: []*Term{dom}, lo: big0})))
}

// splitMono separates the factors that mention v.
func splitMono(m Mono, v *Term) (with, without []Factor) {
	for _, f := range m.fs {
		if f.a.has(v) || f.e.has(v) {
			with = append(with, f)
		} else {
			without = append(without, f)
		}
	}
	return
}

// restrict0 is body where g holds and zero elsewhere.
func restrict0(g, body *DD) *DD {
	if g == ddT {
		return body
	}
	l := anyLeaf(body)
	return ite(g, body, leaf(pZero(l.poly.mod)))
}

// mkSum builds the sum over v in dom of body (a diagram of polynomials).
// smallRange is the size of a range of few numbers, or -1.
func smallRange(dom *Term) int {
	if dom.op == DRange {
		if n, ok := dom.args[0].constVal(); ok && n.IsInt64() && n.Int64() <= 8 {
			if n.Sign() < 0 {
				return 0
			}
			return int(n.Int64())
		}
	}
	return -1
}

func mkSum(dom, v *Term, body *DD) *DD { return mkSumK(dom, v, body, ddT) }

// mkSumK: known holds (and does not mention v).
func mkSumK(dom, v *Term, body, known *DD) *DD {
	if n := smallRange(dom); n > 0 {
		r := subst(body, v, leaf(pInt(0)))
		for i := 1; i < n; i++ {
			r = dAdd(r, subst(body, v, leaf(pInt(int64(i)))))
		}
		return r
	} else if n == 0 {
		if l := anyLeaf(body); l.op == OPoly {
			return leaf(pZero(l.poly.mod))
		}
	}
	if d, w, b, ok := overElements(dom, v, body); ok {
		dom, v, body = d, w, b
	}
	v, body = canonVar(dom, v, body)
	if u, p := underlying(dom); p != nil {
		dom, body = u, restrict0(p(pAtom(modZ, v)), body)
	}
	body = restrict(normBody(dom, v, body), known)
	if a := hoistable(body, v); a != nil {
		return ite(atomDD(a), mkSumK(dom, v, cofDD(body, a, true), and(known, atomDD(a))), mkSumK(dom, v, cofDD(body, a, false), and(known, not(atomDD(a)))))
	}
	type entry struct {
		with, without []Factor
		c             *big.Int
		g             *DD
	}
	var order []string
	tab := map[string]*entry{}
	mod := -1
	for _, l := range body.leaves() {
		if l.t.op != OPoly {
			panic(undecided("sum of non numeric values"))
		}
		mod = l.t.poly.mod
		for _, m := range l.t.poly.ms {
			k := m.key + "#" + m.c.String()
			e := tab[k]
			if e == nil {
				w, wo := splitMono(m, v)
				e = &entry{w, wo, m.c, ddF}
				tab[k] = e
				order = append(order, k)
			}
			e.g = or(e.g, l.g)
		}
	}
	res := leaf(pZero(mod))
	for _, k := range order {
		e := tab[k]
		coef := mkPoly(mod, []Mono{mkMono(e.without, e.c)})
		mono := mkPoly(mod, []Mono{mkMono(e.with, big1)})
		res = dAdd(res, dMul(leaf(coef), sumAtom(dom, v, e.g, mono)))
	}
	return res
}

func isPointMono(fs []Factor) bool {
	for _, f := range fs {
		if f.a.point {
			return true
		}
	}
	return false
}

func sumAtom(dom, v *Term, g *DD, mono *Term) *DD {
	mod := mono.poly.mod
	if g == ddF {
		return leaf(pZero(mod))
	}
	// eliminate positive equalities on v
	if a, t := findEqAtom(g, v); a != nil {
		pos := cofDD(g, a, true)
		if pos != ddF {
			tv := leaf(t)
			cond := and(map1(leaf(t), func(x *Term) *DD { return in(x, dom) }), subst(pos, v, tv))
			single := ite(cond, substT(mono, v, tv), leaf(pZero(mod)))
			neg := ite(atomDD(a), ddF, cofDD(g, a, false))
			return dAdd(single, sumAtom2(dom, v, neg, mono))
		}
	}
	return sumAtom2(dom, v, g, mono)
}

func sumAtom2(dom, v *Term, g *DD, mono *Term) *DD {
	mod := mono.poly.mod
	if g == ddF {
		return leaf(pZero(mod))
	}
	// several equalities: recurse until only negative ones remain
	for _, a := range g.atoms() {
		t := eqAtomOn(a, v)
		if t == nil {
			continue
		}
		if cofDD(g, a, true) != ddF {
			pos := cofDD(g, a, true)
			tv := leaf(t)
			cond := and(in(t, dom), subst(pos, v, tv))
			single := ite(cond, substT(mono, v, tv), leaf(pZero(mod)))
			neg := ite(atomDD(a), ddF, cofDD(g, a, false))
			return dAdd(single, sumAtom2(dom, v, neg, mono))
		}
	}
	if a := hoistable(g, v); a != nil {
		return ite(atomDD(a), sumAtom2(dom, v, cofDD(g, a, true), mono), sumAtom2(dom, v, cofDD(g, a, false), mono))
	}
	if c, ok := mono.constVal(); ok && g == ddT {
		return map1(domCard(dom), func(n *Term) *DD { return leaf(pScale(cast(n, mod), c)) })
	}
	if _, ok := mono.constVal(); ok {
		// counting: all but one
		for _, a := range g.atoms() {
			t := eqAtomOn(a, v)
			if t == nil || cofDD(g, a, true) != ddF {
				continue
			}
			rest := cofDD(g, a, false)
			one := ite(and(in(t, dom), subst(rest, v, leaf(t))), leaf(mono), leaf(pZero(mod)))
			return dSub(sumAtom2(dom, v, rest, mono), one)
		}
	}
	if r := swapSums(dom, v, g, mono); r != nil {
		return r
	}
	if dom.op == DRange {
		// a range without its end points is a shorter range
		n := dom.args[0]
		for _, a := range g.atoms() {
			t := eqAtomOn(a, v)
			if t == nil || cofDD(g, a, true) != ddF {
				continue
			}
			rest := cofDD(g, a, false)
			nd := intern(&Term{op: DRange, args: []*Term{pSub(n, one())}})
			if t.isInt(0) {
				up := leaf(pAdd(pAtom(modZ, v), one()))
				return mkSum(nd, v, ite(subst(rest, v, up), substT(mono, v, up), leaf(pZero(mod))))
			}
			if t == pSub(n, one()) {
				return mkSum(nd, v, ite(rest, leaf(mono), leaf(pZero(mod))))
			}
		}
		// canonical orientation of the index
		rev := leaf(pSub(pSub(dom.args[0], one()), pAtom(modZ, v)))
		mr, gr := substT(mono, v, rev), subst(g, v, rev)
		if mr.leaf != nil && len(mr.leaf.poly.ms) == 1 && mr.leaf.poly.ms[0].c.Cmp(big1) == 0 {
			_, p1, d1 := closeOver(v, []*Term{mono}, []*DD{g})
			_, p2, d2 := closeOver(v, []*Term{mr.leaf}, []*DD{gr})
			if less2(p2[0], d2[0], p1[0], d1[0]) {
				mono, g = mr.leaf, gr
			}
		}
	}
	b, ps, ds := closeOver(v, []*Term{mono}, []*DD{g})
	t := &Term{op: OSum, args: []*Term{dom, b, ps[0]}, dds: ds, lo: nil}
	if mod == modZ {
		if lo, _ := prange(ps[0]); lo != nil && lo.Sign() >= 0 {
			t.lo = big0
		}
	}
	for _, f := range ps[0].poly.ms[0].fs {
		if f.a.point {
			t.point = true
		}
	}
	return dAtom(mod, intern(t))
}

// swapSums exchanges two nested sums into the canonical order.
func swapSums(dom, v *Term, g *DD, mono *Term) *DD {
	mod := mono.poly.mod
	var in *Term
	var rest []Factor
	for _, f := range mono.poly.ms[0].fs {
		if f.a.op == OSum && f.e == one() && f.a.has(v) && in == nil {
			in = f.a
		} else {
			rest = append(rest, f)
		}
	}
	if in == nil {
		return nil
	}
	d2 := in.args[0]
	if d2.has(v) || d2.id >= dom.id {
		return nil
	}
	w := loopVar(fmt.Sprintf("sw%d~", in.id), in.args[1].lo, in.args[1].hi)
	wx := leaf(pAtom(modZ, w))
	m2 := cast2(substT(in.args[2], in.args[1], wx), mod)
	g2 := subst(in.dds[0], in.args[1], wx)
	body := dMul(leaf(mkPoly(mod, []Mono{mkMono(rest, big1)})), m2)
	inner := mkSum(dom, v, ite(and(g, g2), body, leaf(pZero(mod))))
	return mkSum(d2, w, inner)
}

func cast2(d *DD, mod int) *DD { return map1(d, func(t *Term) *DD { return leaf(cast(t, mod)) }) }

// absorb merges single terms into sums that lack exactly that term.
func absorb(t *Term) *Term {
	for n := 0; n < 8; n++ {
		r := absorb1(t)
		if r == nil {
			return t
		}
		t = r
	}
	return t
}

func absorb1(t *Term) *Term {
	if len(t.poly.ms) < 2 {
		return nil
	}
	mod := t.poly.mod
	if r := absorbInner(t); r != nil {
		return r
	}
	coef := map[string]*big.Int{}
	for _, m := range t.poly.ms {
		coef[m.key] = m.c
	}
	for _, m := range t.poly.ms {
		for i, f := range m.fs {
			if f.a.op != OSum || f.e != one() {
				continue
			}
			s := f.a
			dom, v, mono, g := s.args[0], s.args[1], s.args[2], s.dds[0]
			rest := append(append([]Factor{}, m.fs[:i]...), m.fs[i+1:]...)
			k := leaf(mkPoly(mod, []Mono{mkMono(rest, m.c)}))
			has := func(p *DD) bool {
				if p.leaf == nil || len(p.leaf.poly.ms) == 0 {
					return false
				}
				for _, x := range p.leaf.poly.ms {
					c := coef[x.key]
					if c == nil || x.key == m.key || c.Cmp(x.c) != 0 {
						return false
					}
				}
				return true
			}
			at := func(u *Term) *DD { return dMul(k, cast2(substT(mono, v, leaf(u)), mod)) }
			old := mkPoly(mod, []Mono{m})
			done := func(p, sum *DD) *Term {
				x := dAdd(dSub(dSub(leaf(t), p), leaf(old)), dMul(k, sum))
				return x.leaf
			}
			for _, a := range g.atoms() {
				u := eqAtomOn(a, v)
				if u == nil || cofDD(g, a, true) != ddF {
					continue
				}
				g1 := cofDD(g, a, false)
				if in(u, dom) != ddT || subst(g1, v, leaf(u)) != ddT {
					continue
				}
				if p := at(u); has(p) {
					if r := done(p, cast2(mkSum(dom, v, ite(g1, leaf(mono), leaf(pZero(mono.poly.mod)))), mod)); r != nil {
						return r
					}
				}
			}
			if dom.op != DRange {
				continue
			}
			n := dom.args[0]
			if lo, _ := prange(n); lo == nil || lo.Sign() < 0 {
				continue
			}
			nd := intern(&Term{op: DRange, args: []*Term{pAdd(n, one())}})
			if subst(g, v, leaf(n)) == ddT {
				if p := at(n); has(p) {
					if r := done(p, cast2(mkSum(nd, v, ite(g, leaf(mono), leaf(pZero(mono.poly.mod)))), mod)); r != nil {
						return r
					}
				}
			}
			if subst(g, v, leaf(pInt(-1))) == ddT {
				if p := at(pInt(-1)); has(p) {
					dn := leaf(pSub(pAtom(modZ, v), one()))
					if r := done(p, cast2(mkSum(nd, v, ite(subst(g, v, dn), substT(mono, v, dn), leaf(pZero(mono.poly.mod)))), mod)); r != nil {
						return r
					}
				}
			}
		}
	}
	return nil
}

// absorbInner absorbs within two sums over the same elements.
func absorbInner(t *Term) *Term {
	mod := t.poly.mod
	type part struct {
		m    Mono
		s    *Term
		rest []Factor
	}
	by := map[string][]part{}
	var keys []string
	for _, m := range t.poly.ms {
		for i, f := range m.fs {
			if f.a.op != OSum || f.e != one() {
				continue
			}
			rest := append(append([]Factor{}, m.fs[:i]...), m.fs[i+1:]...)
			s := f.a
			k := fmt.Sprintf("%s|%d", mkMono(rest, big1).key, s.args[0].id)
			if len(by[k]) == 1 {
				keys = append(keys, k)
			}
			by[k] = append(by[k], part{m, s, rest})
		}
	}
	for _, k := range keys {
		ps := by[k]
		for i, a := range ps {
			for _, b := range ps[i+1:] {
				if a.m.key == b.m.key {
					continue
				}
				if len(subs(a.s.args[2])) == 0 && len(subs(b.s.args[2])) == 0 {
					continue
				}
				// a common variable: the one of the sum with the deeper body
				if len(subs(a.s.args[2])) == 0 {
					a, b = b, a
				}
				v := a.s.args[1]
				mb, gb := leaf(b.s.args[2]), b.s.dds[0]
				if w := b.s.args[1]; w != v {
					if len(subs(b.s.args[2])) != 0 {
						continue
					}
					x := leaf(pAtom(modZ, v))
					mb, gb = substT(b.s.args[2], w, x), subst(gb, w, x)
				}
				if gb != a.s.dds[0] {
					continue
				}
				body := dAddOld(dMul(leaf(mkPoly(mod, []Mono{mkMono(nil, a.m.c)})), cast2(leaf(a.s.args[2]), mod)), dMul(leaf(mkPoly(mod, []Mono{mkMono(nil, b.m.c)})), cast2(mb, mod)))
				if body.leaf == nil || len(body.leaf.poly.ms) != 2 {
					continue
				}
				r := absorb1(body.leaf)
				if r == nil {
					continue
				}
				sum := cast2(mkSum(a.s.args[0], v, ite(gb, leaf(r), leaf(pZero(mod)))), mod)
				x := dAdd(dSub(leaf(t), leaf(mkPoly(mod, []Mono{a.m, b.m}))), dMul(leaf(mkPoly(mod, []Mono{mkMono(a.rest, big1)})), sum))
				if x.leaf != nil {
					return x.leaf
				}
			}
		}
	}
	return nil
}

// subs lists the sums among the factors of a monomial.
func subs(t *Term) []*Term {
	var r []*Term
	for _, m := range t.poly.ms {
		for _, f := range m.fs {
			if f.a.op == OSum {
				r = append(r, f.a)
			}
		}
	}
	return r
}

func less2(a *Term, g *DD, b *Term, h *DD) bool {
	x, y := a.String()+g.String(), b.String()+h.String()
	if len(x) != len(y) {
		return len(x) < len(y)
	}
	return x < y
}

// mkProd builds the product over v in dom of body.
func mkProd(dom, v *Term, body *DD) *DD { return mkProdK(dom, v, body, ddT) }

// mkProdK: known holds (and does not mention v).
func mkProdK(dom, v *Term, body, known *DD) *DD {
	if n := smallRange(dom); n > 0 {
		r := subst(body, v, leaf(pInt(0)))
		for i := 1; i < n; i++ {
			r = dMul(r, subst(body, v, leaf(pInt(int64(i)))))
		}
		return r
	}
	if d, w, b, ok := overElements(dom, v, body); ok {
		dom, v, body = d, w, b
	}
	v, body = canonVar(dom, v, body)
	if u, p := underlying(dom); p != nil {
		if g := p(pAtom(modZ, v)); g != ddT {
			body = ite(g, body, leaf(pConst(anyLeaf(body).poly.mod, big1)))
		}
		dom = u
	}
	body = restrict(normBody(dom, v, body), known)
	if a := hoistable(body, v); a != nil {
		return ite(atomDD(a), mkProdK(dom, v, cofDD(body, a, true), and(known, atomDD(a))), mkProdK(dom, v, cofDD(body, a, false), and(known, not(atomDD(a)))))
	}
	type entry struct {
		base *Term
		e    *Term
		g    *DD
	}
	var order []string
	tab := map[string]*entry{}
	mod := -1
	put := func(base, e *Term, g *DD) {
		k := fmt.Sprintf("%d^%d", base.id, e.id)
		x := tab[k]
		if x == nil {
			x = &entry{base, e, ddF}
			tab[k] = x
			order = append(order, k)
		}
		x.g = or(x.g, g)
	}
	for _, l := range body.leaves() {
		if l.t.op != OPoly {
			panic(undecided("product of non numeric values"))
		}
		mod = l.t.poly.mod
		if len(l.t.poly.ms) == 0 {
			put(l.t, one(), l.g)
			continue
		}
		c := l.t.poly.ms[0].c
		p := l.t
		if len(p.poly.ms) == 1 {
			for _, f := range p.poly.ms[0].fs {
				put(pAtom(mod, f.a), f.e, l.g)
			}
		} else {
			c, p = monicIn(p, v)
			put(p, one(), l.g)
		}
		if c.Cmp(big1) != 0 {
			put(pConst(mod, c), one(), l.g)
		}
	}
	res := leaf(pConst(mod, big1))
	for _, k := range order {
		e := tab[k]
		if !e.base.has(v) {
			// base^(sum of exponents)
			cnt := mkSum(dom, v, ite(e.g, leaf(e.e), leaf(pZero(modZ))))
			res = dMul(res, map1(cnt, func(n *Term) *DD { return leaf(pPow(e.base, n)) }))
			continue
		}
		if e.e.has(v) {
			panic(undecided("product with varying exponent"))
		}
		p := prodAtom(dom, v, e.g, e.base)
		res = dMul(res, map1(p, func(x *Term) *DD { return leaf(pPow(x, e.e)) }))
	}
	return res
}

// monicIn normalises p by the coefficient of a monomial that mentions v; the
// choice does not depend on the name of v.
func monicIn(p, v *Term) (*big.Int, *Term) {
	var ms []Mono
	for _, m := range p.poly.ms {
		if w, _ := splitMono(m, v); w != nil {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return monic(p)
	}
	c := ms[0].c
	if len(ms) > 1 {
		b := intern(&Term{op: OVar, s: "$lead", lo: v.lo, hi: v.hi})
		if x := substT(mkPoly(p.poly.mod, ms), v, dAtom(modZ, b)); x.leaf != nil && len(x.leaf.poly.ms) > 0 {
			c = x.leaf.poly.ms[0].c
		}
	}
	return c, pScale(p, new(big.Int).ModInverse(c, modulus(p.poly.mod)))
}

func prodAtom(dom, v *Term, g *DD, base *Term) *DD {
	mod := base.poly.mod
	if g == ddF {
		return leaf(pConst(mod, big1))
	}
	for _, a := range g.atoms() {
		t := eqAtomOn(a, v)
		if t == nil {
			continue
		}
		if pos := cofDD(g, a, true); pos != ddF {
			tv := leaf(t)
			cond := and(in(t, dom), subst(pos, v, tv))
			single := ite(cond, substT(base, v, tv), leaf(pConst(mod, big1)))
			neg := ite(atomDD(a), ddF, cofDD(g, a, false))
			return dMul(single, prodAtom(dom, v, neg, base))
		}
	}
	if a := hoistable(g, v); a != nil {
		return ite(atomDD(a), prodAtom(dom, v, cofDD(g, a, true), base), prodAtom(dom, v, cofDD(g, a, false), base))
	}
	b, ps, ds := closeOver(v, []*Term{base}, []*DD{g})
	return dAtom(mod, intern(&Term{op: OProd, args: []*Term{dom, b, ps[0]}, dds: ds}))
}

// exists v in dom. c
func exists(dom, v *Term, c *DD) *DD {
	if n := smallRange(dom); n >= 0 {
		r := ddF
		for i := 0; i < n; i++ {
			r = or(r, subst(c, v, leaf(pInt(int64(i)))))
		}
		return r
	}
	if d, w, b, ok := overElements(dom, v, c); ok {
		dom, v, c = d, w, b
	} else if dom.op == DRange && c.has(v) && c.leaf == nil {
		// split off disjuncts about the elements
		for _, a := range c.atoms() {
			if !a.has(v) {
				continue
			}
			for _, val := range []bool{true, false} {
				if cofDD(c, a, val) != ddT {
					continue
				}
				l := atomDD(a)
				if !val {
					l = not(l)
				}
				if c == l {
					continue
				}
				if _, _, _, ok := overElements(dom, v, l); ok {
					return or(exists(dom, v, l), exists(dom, v, cofDD(c, a, !val)))
				}
			}
		}
	}
	v, c = canonVar(dom, v, c)
	if u, p := underlying(dom); p != nil {
		dom, c = u, and(p(pAtom(modZ, v)), c)
	}
	c = normBody(dom, v, c)
	if c == ddF {
		return ddF
	}
	if a := hoistable(c, v); a != nil {
		return ite(atomDD(a), exists(dom, v, cofDD(c, a, true)), exists(dom, v, cofDD(c, a, false)))
	}
	// distribute over positive equalities
	for _, a := range c.atoms() {
		t := eqAtomOn(a, v)
		if t == nil {
			continue
		}
		if pos := cofDD(c, a, true); pos != ddF {
			single := and(in(t, dom), subst(pos, v, leaf(t)))
			neg := ite(atomDD(a), ddF, cofDD(c, a, false))
			return or(single, exists(dom, v, neg))
		}
	}
	if c == ddT {
		if dom.op == DRange || dom.op == DSet {
			return map1(domCard(dom), func(n *Term) *DD { return lt(pInt(0), n) })
		}
	}
	b, _, ds := closeOver(v, nil, []*DD{c})
	return atomDD(intern(&Term{op: OEx, args: []*Term{dom, b}, dds: ds}))
}

func forall(dom, v *Term, c *DD) *DD { return not(exists(dom, v, not(c))) }

// mkFirst is the first element of dom (in iteration order) satisfying c.
func mkFirst(dom, v *Term, c *DD) *Term {
	v, c = canonVar(dom, v, c)
	c = normBody(dom, v, c)
	b, _, ds := closeOver(v, nil, []*DD{c})
	t := &Term{op: OFirst, args: []*Term{dom, b}, dds: ds, lo: v.lo, hi: v.hi}
	if dom.op == DRange {
		t.lo = big0
	}
	return intern(t)
}

func mkLam(dom, v *Term, body *DD) *Term {
	v, body = canonVar(dom, v, body)
	b, _, ds := closeOver(v, nil, []*DD{body})
	return intern(&Term{op: OLam, args: []*Term{dom, b}, dds: ds})
}

// openBinder instantiates the body of a binder at x.
func openBinder(t *Term, d *DD, x *Term) *DD { return subst(d, t.args[1], leaf(x)) }

// ---------------------------------------------------------------- byte sequences

func segLen(s *Term) *Term {
	switch s.op {
	case OBytes:
		return pInt(int64(len(s.s)))
	case OSub:
		return pSub(s.args[2], s.args[1])
	case ORep:
		l := s.dds[0]
		var ln *Term
		for _, x := range l.leaves() {
			n := seqLen(x.t)
			if ln == nil {
				ln = n
			} else if ln != n {
				return pAtom(modZ, intern(&Term{op: OApp, s: "replen", args: []*Term{s}, lo: big0}))
			}
		}
		if ln.has(s.args[1]) {
			return pAtom(modZ, intern(&Term{op: OApp, s: "replen", args: []*Term{s}, lo: big0}))
		}
		if c := domCard(s.args[0]); c.leaf != nil {
			return pMul(ln, c.leaf)
		}
		return pMul(ln, pAtom(modZ, intern(&Term{op: OApp, s: "card", args: []*Term{s.args[0]}, lo: big0})))
	}
	if s.ln == nil {
		panic(undecided("segment without length: " + s.String()))
	}
	return s.ln
}

func seqLen(t *Term) *Term {
	n := pInt(0)
	for _, s := range t.args {
		n = pAdd(n, segLen(s))
	}
	return n
}

func bytesSeg(b []byte) *Term { return intern(&Term{op: OBytes, s: string(b)}) }

func mkSeq(segs []*Term) *Term {
	var out []*Term
	for _, s := range segs {
		if s.op == OSeq {
			panic("nested seq")
		}
		if s.op == OApp && s.s == "b" {
			if n, ok := s.args[0].intVal(); ok {
				s = bytesSeg([]byte{byte(n)})
			}
		}
		if s.op == OApp && s.s == "zeros" {
			if n, ok := s.args[0].intVal(); ok {
				s = bytesSeg(make([]byte, n))
			}
		}
		if s.op == OBytes && len(s.s) == 0 {
			continue
		}
		if s.op == OApp && s.s == "b" {
			if a := s.args[0].singleAtom(); a != nil && a.op == OApp && a.s == "byteAt" && a.args[0].op == OBase {
				s = mkSub(a.args[0], a.args[1], pAdd(a.args[1], one()))
			}
		}
		if s.op == ORep {
			if n := repLen(s); n != nil && len(s.dds[0].leaf.args) == 1 && s.dds[0].leaf.args[0].op == OSub {
				x, v := s.dds[0].leaf.args[0], s.args[1]
				d := x.args[0]
				if lo := x.args[1]; !d.has(v) && pSub(lo, pMul(n, pAtom(modZ, v))).has(v) == false {
					c := pSub(lo, pMul(n, pAtom(modZ, v)))
					s = mkSub(d, c, pAdd(c, segLen(s)))
				}
			}
		}
		if q := encoded(s); q != nil {
			out = append([]*Term{}, mkSeq(append(out, q.args...)).args...)
			continue
		}
		if s.op == OSub && s.args[1] == s.args[2] {
			continue
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.op == OBytes && s.op == OBytes {
				out[len(out)-1] = bytesSeg([]byte(l.s + s.s))
				continue
			}
			if l.op == OSub && s.op == OSub && l.args[0] == s.args[0] && l.args[2] == s.args[1] {
				out[len(out)-1] = mkSub(l.args[0], l.args[1], s.args[2])
				continue
			}
		}
		out = append(out, s)
	}
	return intern(&Term{op: OSeq, args: out})
}

// encoded gives the byte string that s is the encoding of the decoded value
// of: a value is decoded from canonical encodings only.
func encoded(s *Term) *Term {
	if s.op != OApp || len(s.args) != 1 || !s.args[0].isPoly() {
		return nil
	}
	dec, ok := decoders[s.s]
	if !ok {
		return nil
	}
	if a := s.args[0].singleAtom(); a != nil && a.op == OApp && a.s == dec {
		return a.args[0]
	}
	return nil
}

var decoders = map[string]string{"sc": "dec32", "el": "decEl", "rawpt": "decpt", "elText": "decElText"}

// divLen writes p as n*k + r for a constant n.
func divLen(p, n *Term) (k *Term, r int64, ok bool) {
	c, isConst := n.constVal()
	if !isConst || c.Sign() <= 0 || !c.IsInt64() {
		return nil, 0, false
	}
	var ms []Mono
	for _, m := range p.poly.ms {
		if len(m.fs) == 0 {
			q, rem := new(big.Int).DivMod(m.c, c, new(big.Int))
			r = rem.Int64()
			if q.Sign() != 0 {
				ms = append(ms, Mono{m.fs, q, m.key})
			}
			continue
		}
		q, rem := new(big.Int).DivMod(m.c, c, new(big.Int))
		if rem.Sign() != 0 {
			return nil, 0, false
		}
		ms = append(ms, Mono{m.fs, q, m.key})
	}
	return mkPoly(modZ, ms), r, true
}

// repAt is the k-th part of a repetition over a range.
func repAt(s, k *Term) *Term {
	if s.op != ORep || s.args[0].op != DRange {
		return nil
	}
	d := openBinder(s, s.dds[0], k)
	if d.leaf == nil || d.leaf.op != OSeq {
		return nil
	}
	return d.leaf
}

// repLen is the constant length of the parts of a repetition.
func repLen(s *Term) *Term {
	if s.op != ORep || s.args[0].op != DRange || s.dds[0].leaf == nil || s.dds[0].leaf.op != OSeq {
		return nil
	}
	n := seqLen(s.dds[0].leaf)
	if _, ok := n.constVal(); !ok {
		return nil
	}
	return n
}

func mkSub(data, lo, hi *Term) *Term {
	return intern(&Term{op: OSub, args: []*Term{data, lo, hi}})
}

// subData is the sequence data[lo:hi] where data is a symbolic byte string or a sequence.
func subData(data, lo, hi *Term) *Term {
	if data.op == OSeq {
		return subSeq(data, lo, hi)
	}
	return mkSeq([]*Term{mkSub(data, lo, hi)})
}

func byteSeg(v *Term) *Term {
	return intern(&Term{op: OApp, s: "b", args: []*Term{v}, ln: one()})
}
func segOf(kind string, n int64, arg ...*Term) *Term {
	return intern(&Term{op: OApp, s: kind, args: arg, ln: pInt(n)})
}
func zerosSeg(n *Term) *Term {
	return intern(&Term{op: OApp, s: "zeros", args: []*Term{n}, ln: n})
}

// concat of diagrams of sequences
func dConcat(a, b *DD) *DD {
	return map2(a, b, func(x, y *Term) *DD { return leaf(mkSeq(append(append([]*Term{}, x.args...), y.args...))) })
}

// geq decides a >= b syntactically (nil = unknown).
func decideLe(a, b *Term) (yes, known bool) {
	d := le(a, b)
	if d == ddT {
		return true, true
	}
	if d == ddF {
		return false, true
	}
	return false, false
}

// subSeq extracts [lo,hi) of a sequence.
func subSeq(t, lo, hi *Term) *Term {
	if lo.isInt(0) && hi == seqLen(t) {
		return t
	}
	if lo == hi {
		return mkSeq(nil)
	}
	var out []*Term
	pos := pInt(0)
	fallback := func() *Term { return mkSeq([]*Term{mkSub(t, lo, hi)}) }
	if len(t.args) == 1 {
		return mkSeq(cutSeg(t.args[0], lo, hi))
	}
	for i, s := range t.args {
		n := segLen(s)
		end := pAdd(pos, n)
		if i == len(t.args)-1 {
			// the rest is in here
			a := pInt(0)
			if y, k := decideLe(lo, pos); !k || !y {
				if y, k := decideLe(pos, lo); !k || !y {
					return fallback()
				}
				a = pSub(lo, pos)
			}
			if y, k := decideLe(pos, hi); !k || !y {
				return fallback()
			}
			out = append(out, cutSeg(s, a, pSub(hi, pos))...)
			break
		}
		// segment entirely before lo
		if y, k := decideLe(end, lo); k && y {
			pos = end
			continue
		} else if !k && end != lo {
			// maybe lo inside this segment
			if y2, k2 := decideLe(lo, end); !(k2 && y2) {
				return fallback()
			}
		}
		if y, k := decideLe(hi, pos); k && y {
			break
		} else if !k {
			if y2, k2 := decideLe(pos, hi); !k2 || !y2 {
				return fallback()
			}
		}
		a := pInt(0)
		if y, k := decideLe(lo, pos); k && y {
		} else if y, k := decideLe(pos, lo); k && y {
			a = pSub(lo, pos)
		} else {
			return fallback()
		}
		b := n
		if y, k := decideLe(end, hi); k && y {
		} else if y, k := decideLe(hi, end); k && y {
			b = pSub(hi, pos)
		} else {
			return fallback()
		}
		out = append(out, cutSeg(s, a, b)...)
		pos = end
	}
	r := mkSeq(out)
	if seqLen(r) != pSub(hi, lo) {
		return fallback()
	}
	return r
}

func cutSeg(s, a, b *Term) []*Term {
	if a == b {
		return nil
	}
	if a.isInt(0) && b == segLen(s) {
		return []*Term{s}
	}
	switch s.op {
	case OBytes:
		x, ok1 := a.intVal()
		y, ok2 := b.intVal()
		if ok1 && ok2 && x >= 0 && y <= int64(len(s.s)) && x <= y {
			return []*Term{bytesSeg([]byte(s.s[x:y]))}
		}
	case OSub:
		return []*Term{mkSub(s.args[0], pAdd(s.args[1], a), pAdd(s.args[1], b))}
	case OApp:
		if s.s == "zeros" {
			return []*Term{zerosSeg(pSub(b, a))}
		}
	case ORep:
		n := repLen(s)
		if n == nil {
			break
		}
		k, r, ok := divLen(a, n)
		k2, r2, ok2 := divLen(b, n)
		if !ok || !ok2 {
			break
		}
		d, isc := pSub(k2, k).intVal()
		switch {
		case isc && d == 0:
			if x := repAt(s, k); x != nil {
				return subSeq(x, pInt(r), pInt(r2)).args
			}
		case isc && d == 1 && r2 == 0:
			if x := repAt(s, k); x != nil {
				return subSeq(x, pInt(r), n).args
			}
		case r == 0 && r2 == 0:
			v := loopVar("cut@", big0, nil)
			if x := repAt(s, pAdd(k, pAtom(modZ, v))); x != nil {
				return []*Term{mkRep(intern(&Term{op: DRange, args: []*Term{pSub(k2, k)}}), v, leaf(x))}
			}
		}
	}
	return []*Term{mkSub(mkSeq([]*Term{s}), a, b)}
}

// splice replaces [lo, lo+len(w)) of t by w.
func splice(t, lo, w *Term) *Term {
	n := seqLen(t)
	end := pAdd(lo, seqLen(w))
	pre := subSeq(t, pInt(0), lo)
	post := subSeq(t, end, n)
	segs := append(append(append([]*Term{}, pre.args...), w.args...), post.args...)
	return mkSeq(segs)
}

// byteAt gives the integer value of byte i of a sequence.
func byteAt(t, i *Term) *Term {
	pos := pInt(0)
	for j, s := range t.args {
		n := segLen(s)
		end := pAdd(pos, n)
		if j == len(t.args)-1 {
			// the byte is in here if it is in the sequence at all
		} else if y, k := decideLe(end, i); k && y {
			pos = end
			continue
		} else if !k {
			break
		}
		if y, k := decideLe(pos, i); !k || !y {
			break
		}
		off := pSub(i, pos)
		switch s.op {
		case OBytes:
			if x, ok := off.intVal(); ok && x >= 0 && x < int64(len(s.s)) {
				return pInt(int64(s.s[x]))
			}
		case OSub:
			if s.args[0].op != OSeq {
				return pAtom(modZ, intern(&Term{op: OApp, s: "byteAt", args: []*Term{s.args[0], pAdd(s.args[1], off)}, lo: big0, hi: bi(255)}))
			}
		case OApp:
			if s.s == "b" {
				return s.args[0]
			}
			if s.s == "zeros" {
				return pInt(0)
			}
		case ORep:
			if n := repLen(s); n != nil {
				if k, r, ok := divLen(off, n); ok {
					if x := repAt(s, k); x != nil {
						return byteAt(x, pInt(r))
					}
				}
			}
		}
		return pAtom(modZ, intern(&Term{op: OApp, s: "byteAt", args: []*Term{s, off}, lo: big0, hi: bi(255)}))
	}
	return pAtom(modZ, intern(&Term{op: OApp, s: "byteAt", args: []*Term{t, i}, lo: big0, hi: bi(255)}))
}

// byteK is byte k (little endian) of a nonnegative integer.
func byteK(x *Term, k int) *Term {
	lo, hi := prange(x)
	if a := x.singleAtom(); a != nil && a.op == OApp && strings.HasPrefix(a.s, "shr") {
		if n, err := strconv.Atoi(a.s[3:]); err == nil && n%8 == 0 {
			return byteK(a.args[0], k+n/8)
		}
	}
	if lo != nil && hi != nil && lo.Sign() >= 0 {
		if c, ok := x.constVal(); ok {
			return pInt(new(big.Int).And(new(big.Int).Rsh(c, uint(8*k)), bi(255)).Int64())
		}
		if hi.BitLen() <= 8*k {
			return pInt(0)
		}
		if k == 0 && hi.BitLen() <= 8 {
			return x
		}
		// decompose 256*a+b with b in [0,255]
		var hiP, loP []Mono
		for _, m := range x.poly.ms {
			if new(big.Int).Mod(m.c, bi(256)).Sign() == 0 {
				hiP = append(hiP, Mono{m.fs, new(big.Int).Div(m.c, bi(256)), m.key})
			} else {
				loP = append(loP, m)
			}
		}
		if len(hiP) > 0 {
			l, h := mkPoly(modZ, loP), mkPoly(modZ, hiP)
			ll, lh := prange(l)
			if ll != nil && lh != nil && ll.Sign() >= 0 && lh.Cmp(bi(255)) <= 0 {
				if k == 0 {
					return l
				}
				return byteK(h, k-1)
			}
		}
	}
	return pAtom(modZ, intern(&Term{op: OApp, s: fmt.Sprintf("byte%d", k), args: []*Term{x}, lo: big0, hi: bi(255)}))
}

// fromBytes recombines little-endian byte values into an integer.
func fromBytesLE(bs []*Term) *Term {
	// recombine byteK of the same term
	n := len(bs)
	for n > 0 && bs[n-1].isInt(0) {
		n--
	}
	if n > 0 {
		if a := bs[0].singleAtom(); a != nil && a.op == OApp && a.s == "byte0" {
			x := a.args[0]
			ok := true
			for i := 0; i < n; i++ {
				if bs[i] != byteK(x, i) {
					ok = false
				}
			}
			_, hi := prange(x)
			if ok && hi != nil && hi.BitLen() <= 8*n {
				return x
			}
		}
	}
	r := pInt(0)
	for i := n - 1; i >= 0; i-- {
		r = pAdd(pScale(r, bi(256)), bs[i])
	}
	return r
}

func mkRep(dom, v *Term, body *DD) *Term {
	for dom.op == DSet && dom.args[0].op == OBase && dom.args[0].s == "@list" {
		lam := dom.args[0].args[0]
		body = ite(openBinder(lam, lam.dds[0], pAtom(modZ, v)), body, leaf(mkSeq(nil)))
		dom = lam.args[0]
	}
	v, body = canonVar(dom, v, body)
	body = normBody(dom, v, body)
	b, _, ds := closeOver(v, nil, []*DD{body})
	return intern(&Term{op: ORep, args: []*Term{dom, b}, dds: ds})
}

// eqSeq compares byte sequences segment by segment.
// eqSeg compares two segments of the same constant length that are equal iff
// what they encode is.
func eqSeg(s, t *Term) *DD {
	n, ok := segLen(s).intVal()
	m, ok2 := segLen(t).intVal()
	if !ok || !ok2 || n != m {
		return nil
	}
	if s == t {
		return ddT
	}
	if s.op != OApp || t.op != OApp || s.s != t.s {
		return nil
	}
	switch s.s {
	case "sc", "el", "ed", "rawpt", "fe", "elText", "b":
		return eqPoly(s.args[0], t.args[0])
	}
	return nil
}

// eqParts compares a part a of a byte string with b of the same length: what
// of b comes from the same place is equal, and single bytes are compared.
func eqParts(a, b *Term) *DD {
	if len(a.args) != 1 || a.args[0].op != OSub || len(b.args) == 0 {
		return nil
	}
	d, lo, hi := a.args[0].args[0], a.args[0].args[1], a.args[0].args[2]
	r := ddT
	s := b.args[0]
	switch {
	case s.op == OSub && s.args[0] == d && s.args[1] == lo:
		lo = s.args[2]
	case s.op == OBytes && len(b.args) > 1 && len(s.s) <= 8:
		for i := 0; i < len(s.s); i++ {
			r = and(r, eqPoly(byteAt(d, pAdd(lo, pInt(int64(i)))), pInt(int64(s.s[i]))))
		}
		lo = pAdd(lo, pInt(int64(len(s.s))))
	default:
		return nil
	}
	if len(b.args) == 1 {
		return r
	}
	return and(r, eqSeq(mkSeq([]*Term{mkSub(d, lo, hi)}), mkSeq(b.args[1:])))
}

func eqSeq(a, b *Term) *DD {
	if a == b {
		return ddT
	}
	la, lb := seqLen(a), seqLen(b)
	leq := eqPoly(la, lb)
	if leq == ddF {
		return ddF
	}
	// matching segments
	r, i, j := leq, 0, 0
	for i < len(a.args) && i < len(b.args) {
		d := eqSeg(a.args[i], b.args[i])
		if d == nil {
			break
		}
		r = and(r, d)
		i++
	}
	for i+j < len(a.args) && i+j < len(b.args) {
		d := eqSeg(a.args[len(a.args)-1-j], b.args[len(b.args)-1-j])
		if d == nil {
			break
		}
		r = and(r, d)
		j++
	}
	if i+j > 0 {
		return and(r, eqSeq(mkSeq(a.args[i:len(a.args)-j]), mkSeq(b.args[i:len(b.args)-j])))
	}
	if d := eqParts(a, b); d != nil {
		return and(leq, d)
	}
	if d := eqParts(b, a); d != nil {
		return and(leq, d)
	}
	if v, w := wholeOf(a), wholeOf(b); v != nil && w != nil && v.op == OApp && w.op == OApp && v.s == w.s && len(v.args) == len(w.args) {
		switch v.s {
		case "dec", "int":
			return eqPoly(v.args[0], w.args[0])
		}
	}
	x, y := a, b
	if y.id < x.id {
		x, y = y, x
	}
	return and(leq, atomDD(intern(&Term{op: OEq, args: []*Term{x, y}})))
}

// searchEnd: a search that does not end inside the list ends at its length.
func searchEnd(p *Term) *DD {
	if len(p.poly.ms) > 4 {
		return nil
	}
	for _, m := range p.poly.ms {
		if len(m.fs) != 1 || m.fs[0].a.op != OApp || m.fs[0].a.s != "searchGE" || m.fs[0].e != one() {
			continue
		}
		s := m.fs[0].a
		n := rootLen(s.args[0])
		if d := pSub(pAtom(modZ, s), n); p == d || p == pNeg(d) {
			return le(n, pAtom(modZ, s))
		}
	}
	return nil
}

// matchSearch recognises S[search(S,t)] == t as membership of t in S.
func matchSearch(p *Term) *DD {
	if len(p.poly.ms) < 1 || len(p.poly.ms) > 2 {
		return nil
	}
	for i, m := range p.poly.ms {
		if len(m.fs) != 1 || m.fs[0].e != one() {
			continue
		}
		a := m.fs[0].a
		if a.op != OBase || len(a.args) == 0 {
			continue
		}
		ix := a.args[len(a.args)-1].singleAtom()
		if ix == nil || ix.op != OApp || ix.s != "searchGE" {
			continue
		}
		var rest []Mono
		for j, o := range p.poly.ms {
			if j != i {
				rest = append(rest, o)
			}
		}
		t := mkPoly(modZ, rest)
		if m.c.Sign() > 0 {
			t = pNeg(t)
		}
		if t != ix.args[1] {
			continue
		}
		return in(t, intern(&Term{op: DSet, args: []*Term{ix.args[0]}}))
	}
	return nil
}
