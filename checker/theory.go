package main

// A bounded consistency check for guards: interval and difference reasoning on
// integer literals, substitution of equalities, instantiation of quantified
// literals over domains.  It only ever answers "inconsistent" when the literals
// contradict each other; running out of budget means "possibly consistent".

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type cube struct {
	les    []*Term // p <= 0
	nes    []*Term // p != 0 (integers)
	eqs    []*Term // p == 0 (integers, unsolved)
	pos    []*Term // other positive literals
	neg    []*Term // other negative literals
	inst   map[string]bool
	rounds int // of instantiation so far
}

func (c *cube) clone() *cube {
	n := &cube{inst: c.inst, rounds: c.rounds}
	n.les = append([]*Term{}, c.les...)
	n.nes = append([]*Term{}, c.nes...)
	n.eqs = append([]*Term{}, c.eqs...)
	n.pos = append([]*Term{}, c.pos...)
	n.neg = append([]*Term{}, c.neg...)
	return n
}

func (c *cube) conj() *DD {
	r := ddT
	for _, p := range c.les {
		r = and(r, leZero(p))
	}
	for _, p := range c.nes {
		r = and(r, not(eqZero(p)))
	}
	for _, p := range c.eqs {
		r = and(r, eqZero(p))
	}
	for _, p := range c.pos {
		r = and(r, atomDD(p))
	}
	for _, p := range c.neg {
		r = and(r, not(atomDD(p)))
	}
	return r
}

type prover struct {
	budget int
	skolem int
	deep   bool // bound the rounds of instantiation instead of the literals
}

var unsatMemo = map[*DD]bool{}

func unsat(d *DD) bool {
	if d == ddF {
		return true
	}
	if d == ddT {
		return false
	}
	if r, ok := unsatMemo[d]; ok {
		return r
	}
	p := &prover{budget: 3000}
	r := p.run(d, &cube{}, 0)
	unsatMemo[d] = r
	return r
}

// neverHolds is unsat with more effort, for the obligations themselves.
func neverHolds(d *DD) bool {
	if unsat(d) {
		return true
	}
	p := &prover{budget: 3000, deep: true}
	return d != ddT && p.run(d, &cube{}, 0)
}

// implies: every state satisfying a satisfies b (false = not shown).
func implies(a, b *DD) bool { return unsat(and(a, not(b))) }

func impliesRange(pc *DD, p *Term, lo, hi *big.Int) bool {
	return implies(pc, and(le(pBig(lo), p), le(p, pBig(hi))))
}

func (p *prover) run(d *DD, c *cube, depth int) bool {
	if d == ddF {
		return true
	}
	if p.budget <= 0 || depth > 60 && (!p.deep || depth > 400) {
		return false
	}
	p.budget--
	if d == ddT {
		return p.final(c, depth)
	}
	a := d.atom
	return p.branch(a, true, d.hi, c, depth) && p.branch(a, false, d.lo, c, depth)
}

func solvedVar(p *Term) (*Term, *Term) {
	var best *Term
	for _, m := range p.poly.ms {
		if len(m.fs) == 1 && m.fs[0].e == one() && m.fs[0].a.op == OVar && m.c.CmpAbs(big1) == 0 {
			v := m.fs[0].a
			n := 0
			for _, o := range p.poly.ms {
				for _, f := range o.fs {
					if f.a.has(v) || f.e.has(v) {
						n++
					}
				}
			}
			if n == 1 && (best == nil || v.id > best.id) {
				best = v
			}
		}
	}
	if best == nil {
		return nil, nil
	}
	return best, eqAtomOn(intern(&Term{op: OEq0, args: []*Term{p}}), best)
}

// solvedBase solves an equation for one of two parameters of the same range.
func solvedBase(p *Term) (*Term, *Term) {
	if b, t := solvedLen(p); b != nil {
		return b, t
	}
	if len(p.poly.ms) == 0 || len(p.poly.ms) > 2 {
		return nil, nil
	}
	var best *Term
	for _, m := range p.poly.ms {
		if len(m.fs) == 0 {
			continue
		}
		if len(m.fs) != 1 || m.fs[0].e != one() || m.c.CmpAbs(big1) != 0 {
			return nil, nil
		}
		if a := m.fs[0].a; (a.op == OBase || a.op == OFirst) && !a.point && (best == nil || a.id > best.id) && !(len(a.args) > 0 && strings.HasPrefix(a.s, "@")) {
			best = a
		}
	}
	if best == nil {
		return nil, nil
	}
	var rest *Term = pZero(modZ)
	neg := false
	for _, m := range p.poly.ms {
		if len(m.fs) == 1 && m.fs[0].a == best {
			neg = m.c.Sign() > 0
			continue
		}
		for _, f := range m.fs {
			if mentions(f.a, best) {
				return nil, nil
			}
		}
		rest = pAdd(rest, mkPoly(modZ, []Mono{m}))
	}
	if neg {
		rest = pNeg(rest)
	}
	return best, rest
}

// solvedLen solves an equation for the length of a byte string.
func solvedLen(p *Term) (*Term, *Term) {
	for _, m := range p.poly.ms {
		if len(m.fs) != 1 || m.fs[0].e != one() || m.c.CmpAbs(big1) != 0 {
			continue
		}
		a := m.fs[0].a
		if a.op != OApp || a.s != "len" || a.args[0].op != OBase {
			continue
		}
		rest := pSub(p, mkPoly(modZ, []Mono{m}))
		if m.c.Sign() > 0 {
			rest = pNeg(rest)
		}
		if mentions(rest, a) {
			continue
		}
		return a, rest
	}
	return nil, nil
}

// firstFact: the first element with a property has it if any has.
func firstFact(f *Term) *DD {
	x := pAtom(modZ, f)
	return implD(exists(f.args[0], f.args[1], f.dds[0]), and(in(x, f.args[0]), openBinder(f, f.dds[0], x)))
}

func mentions(t, u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if mentions(a, u) {
			return true
		}
	}
	if t.poly != nil {
		for _, m := range t.poly.ms {
			for _, f := range m.fs {
				if mentions(f.a, u) || mentions(f.e, u) {
					return true
				}
			}
		}
	}
	return len(t.dds) > 0
}

func (p *prover) branch(a *Term, val bool, rest *DD, c *cube, depth int) bool {
	if rest == ddF {
		return true
	}
	n := c.clone()
	switch {
	case a.op == OEq0 && a.args[0].poly.mod == modZ && val:
		q := a.args[0]
		if v, t := solvedVar(q); v != nil && t != nil {
			return p.guard(func() bool {
				m := newRepl(map[*Term]*DD{v: leaf(t)})
				d := and(m.dd(n.conj()), m.dd(rest))
				if v.lo != nil {
					d = and(d, le(pBig(v.lo), t))
				}
				if v.hi != nil {
					d = and(d, le(t, pBig(v.hi)))
				}
				return p.run(d, &cube{inst: n.inst, rounds: n.rounds}, depth+1)
			})
		}
		if b, t := solvedBase(q); b != nil {
			ok := p.guard(func() bool {
				m := newRepl(nil)
				m.all, m.rt = true, map[*Term]*DD{b: leaf(t)}
				rest := rest
				if b.op == OFirst {
					rest = and(rest, firstFact(b))
				}
				d := and(m.dd(n.conj()), m.dd(rest))
				if b.lo != nil {
					d = and(d, le(pBig(b.lo), t))
				}
				if b.hi != nil {
					d = and(d, le(t, pBig(b.hi)))
				}
				return p.run(d, &cube{inst: n.inst, rounds: n.rounds}, depth+1)
			})
			if ok {
				return true
			}
		}
		n.eqs = append(n.eqs, q)
		n.les = append(n.les, q, pNeg(q))
	case a.op == OEq0 && a.args[0].poly.mod == modZ:
		n.nes = append(n.nes, a.args[0])
	case a.op == OLe0 && val:
		n.les = append(n.les, a.args[0])
	case a.op == OLe0:
		n.les = append(n.les, pSub(one(), a.args[0]))
	case a.op == OEx && val:
		p.skolem++
		sv := intern(&Term{op: OVar, s: fmt.Sprintf("sk%d", p.skolem), lo: a.args[1].lo, hi: a.args[1].hi})
		x := pAtom(modZ, sv)
		return p.guard(func() bool {
			body := and(in(x, a.args[0]), openBinder(a, a.dds[0], x))
			n.pos = append(n.pos, a)
			return p.run(and(rest, body), n, depth+1)
		})
	case val:
		n.pos = append(n.pos, a)
		if a.op == OIsNil && a.args[0].op == OBase && a.args[0].typ != nil {
			if _, ok := a.args[0].typ.Underlying().(*types.Map); ok {
				// a nil map has no entries
				rest = and(rest, map1(domCard(intern(&Term{op: DKeys, args: []*Term{a.args[0]}})), func(x *Term) *DD { return eqPoly(x, pInt(0)) }))
			}
		}
	default:
		n.neg = append(n.neg, a)
	}
	if n.contradictory(false) {
		return true
	}
	return p.run(rest, n, depth+1)
}

// guard treats an undecided substitution as "not shown".
func (p *prover) guard(f func() bool) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(undecidedErr); ok {
				r = false
				return
			}
			panic(e)
		}
	}()
	return f()
}

func linAtoms(p *Term, add func(*Term)) {
	for _, m := range p.poly.ms {
		if len(m.fs) == 1 && m.fs[0].e == one() {
			add(m.fs[0].a)
		}
	}
}

func coefOf(p, a *Term) *big.Int {
	for _, m := range p.poly.ms {
		if len(m.fs) == 1 && m.fs[0].e == one() && m.fs[0].a == a {
			return m.c
		}
	}
	return nil
}

// fmContradiction eliminates atoms pairwise, bounded.
func fmContradiction(les []*Term) bool {
	seen := map[*Term]bool{}
	var work []*Term
	push := func(p *Term) bool {
		if c, ok := p.constVal(); ok {
			return c.Sign() > 0
		}
		if seen[p] {
			return false
		}
		lo, _ := prange(p)
		if lo != nil && lo.Sign() > 0 {
			return true
		}
		seen[p] = true
		work = append(work, p)
		return false
	}
	for _, p := range les {
		if push(p) {
			return true
		}
	}
	for i := 0; i < len(work) && len(work) < 120; i++ {
		p := work[i]
		var as []*Term
		linAtoms(p, func(a *Term) { as = append(as, a) })
		for j := 0; j < i; j++ {
			q := work[j]
			for _, a := range as {
				cp, cq := coefOf(p, a), coefOf(q, a)
				if cq == nil || cp.Sign() == cq.Sign() {
					continue
				}
				r := pAdd(pScale(p, new(big.Int).Abs(cq)), pScale(q, new(big.Int).Abs(cp)))
				if g := polyGcd(r); g.Sign() != 0 && g.Cmp(big1) != 0 {
					x := leZero(r)
					if x == ddF {
						return true
					}
				}
				if len(r.poly.ms) > 6 {
					continue
				}
				if push(r) {
					return true
				}
			}
		}
	}
	return false
}

func (c *cube) contradictory(deep bool) bool {
	if len(c.les) > 0 {
		if fmContradiction(c.les) {
			return true
		}
	}
	// q != 0 with 0 <= q is 1 <= q
	les := c.les
	for done := map[*Term]bool{}; ; {
		changed := false
		for _, q := range c.nes {
			if done[q] {
				continue
			}
			pos := fmContradiction(append(append([]*Term{}, les...), pAdd(q, one())))
			if !pos && !deep {
				continue
			}
			neg := fmContradiction(append(append([]*Term{}, les...), pSub(one(), q)))
			switch {
			case pos && neg:
				return true
			case !deep:
			case pos:
				les = append(append([]*Term{}, les...), pSub(one(), q))
			case neg:
				les = append(append([]*Term{}, les...), pAdd(q, one()))
			}
			if deep && (pos || neg) {
				done[q], changed = true, true
			}
		}
		if !changed {
			return false
		}
	}
}

// final: all literals are collected; try quantifier instantiation.
func (p *prover) final(c *cube, depth int) bool {
	if c.contradictory(true) {
		return true
	}
	if depth > 40 && (!p.deep || c.rounds > 2) {
		return false
	}
	// candidate terms: variables occurring in membership literals or in polys
	cand := map[*Term]bool{}
	for _, a := range c.pos {
		if a.op == OIn {
			cand[a.args[0]] = true
		}
	}
	addP := func(q *Term) {
		linAtoms(q, func(a *Term) {
			if a.op == OVar || a.op == OFirst || a.op == OApp || a.op == OBase && len(a.args) == 0 {
				cand[pAtom(modZ, a)] = true
			}
		})
		if len(q.poly.ms) > 0 {
			// p <= 0 with p = x - y + c suggests nothing more
		}
	}
	for _, l := range [][]*Term{c.les, c.nes, c.eqs} {
		for _, q := range l {
			addP(q)
		}
	}
	var cs []*Term
	for t := range cand {
		cs = append(cs, t)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	if len(cs) > 8 {
		cs = cs[:8]
	}
	if p.modular(c) {
		return true
	}
	more := ddT
	var found []*Term
	inst := map[string]bool{}
	for k := range c.inst {
		inst[k] = true
	}
	for _, a := range c.neg {
		if a.op != OEx {
			continue
		}
		ms := matches(a, c)
		if p.deep && c.rounds < 3 {
			ms = append(ms, elementMatches(a, c)...)
		}
		found = append(found, ms...)
		for _, t := range append(cs[:len(cs):len(cs)], ms...) {
			key := fmt.Sprint(a.id, ":", t.id)
			if inst[key] {
				continue
			}
			inst[key] = true
			if !p.guard(func() bool {
				more = and(more, not(and(in(t, a.args[0]), openBinder(a, a.dds[0], t))))
				return true
			}) {
				continue
			}
		}
	}
	// an element found by a search satisfies its condition if one exists; a
	// member of a set bounds the set's size from below
	for _, a := range c.pos {
		if a.op == OIn && a.args[1].op == DSet {
			key := fmt.Sprint("card", a.id)
			if !inst[key] {
				inst[key] = true
				more = and(more, map1(domCard(a.args[1]), func(n *Term) *DD { return lt(pInt(0), n) }))
				if p.deep {
					p.guard(func() bool { more = and(more, p.position(a, c)); return true })
				}
			}
		}
	}
	// two members of a set are the same or the set has two elements
	for i, a := range c.pos {
		if a.op != OIn || a.args[1].op != DSet {
			continue
		}
		for _, b := range c.pos[:i] {
			if b.op != OIn || b.args[1] != a.args[1] {
				continue
			}
			key := fmt.Sprint("two", a.id, ":", b.id)
			if inst[key] {
				continue
			}
			inst[key] = true
			same := eqTerm(a.args[0], b.args[0])
			more = and(more, map1(domCard(a.args[1]), func(n *Term) *DD { return or(same, lt(pInt(1), n)) }))
		}
	}
	// an element of a list is in its set
	element := func(a *Term) {
		f := elementFact(a)
		if key := fmt.Sprint("element", a.id); f != nil && !inst[key] {
			inst[key] = true
			more = and(more, f)
		}
	}
	for _, l := range [][]*Term{c.les, c.nes, c.eqs} {
		for _, q := range l {
			linAtoms(q, element)
		}
	}
	for _, t := range found {
		if a := t.singleAtom(); a != nil {
			element(a)
		}
	}
	// a search returns at most the length; if the element is there it is found
	for _, l := range [][]*Term{c.les, c.nes, c.eqs} {
		for _, q := range l {
			linAtoms(q, func(a *Term) {
				if a.op != OApp || a.s != "searchGE" {
					return
				}
				key := fmt.Sprint("search", a.id)
				if inst[key] {
					return
				}
				inst[key] = true
				n, x := rootLen(a.args[0]), pAtom(modZ, a)
				more = andN(more, le(x, n), implD(in(a.args[1], intern(&Term{op: DSet, args: []*Term{a.args[0]}})), lt(x, n)))
			})
		}
	}
	// the first element with a property has it if any has
	var firsts []*Term
	var look func(t *Term, n int)
	look = func(t *Term, n int) {
		if n > 4 {
			return
		}
		if t.op == OPoly {
			linAtoms(t, func(a *Term) { look(a, n+1) })
			return
		}
		if t.op == OFirst {
			firsts = append(firsts, t)
			return
		}
		if len(t.dds) == 0 {
			for _, a := range t.args {
				look(a, n+1)
			}
		}
	}
	for _, l := range [][]*Term{c.les, c.nes, c.eqs, c.pos, c.neg} {
		for _, q := range l {
			look(q, 0)
		}
	}
	for _, f := range firsts {
		key := fmt.Sprint("first", f.id)
		if inst[key] {
			continue
		}
		inst[key] = true
		p.guard(func() bool {
			more = and(more, firstFact(f))
			return true
		})
	}
	if more == ddT {
		return false
	}
	n := c.clone()
	n.inst = inst
	d := and(more, n.conj())
	return p.run(d, &cube{inst: inst, rounds: c.rounds + 1}, depth+1)
}

// elementFact: an element of a sorted list is one of the elements sorted.
func elementFact(a *Term) *DD {
	if a.op != OBase || len(a.args) == 0 {
		return nil
	}
	r := listRoot(a.s, a.args)
	if r == nil || !isSorted(r) {
		return nil
	}
	lam, i, t := r.args[0], a.args[len(a.args)-1], pAtom(modZ, a)
	return implD(andN(le(pInt(0), i), map1(rootLenDD(r), func(n *Term) *DD { return lt(i, n) })), and(in(t, lam.args[0]), openBinder(lam, lam.dds[0], t)))
}

// matches gives the terms at which the literals of c use the same atoms as the
// body of a quantified literal.
func matches(q *Term, c *cube) []*Term {
	b := pAtom(modZ, q.args[1])
	var out []*Term
	seen := map[*Term]bool{}
	for _, e := range q.dds[0].atoms() {
		if e.op == OEx || e.op == OIn || e.op == OEq0 || e.op == OLe0 {
			continue
		}
		for _, l := range [][]*Term{c.pos, c.neg} {
			for _, g := range l {
				if x := matchAt(e, g, b, 0); x != nil && !seen[x] && len(out) < 8 {
					seen[x] = true
					out = append(out, x)
				}
			}
		}
	}
	return out
}

// position is the fact that a member of the set of a list is at some place in
// the list, when something is known of the places.
func (p *prover) position(a *Term, c *cube) *DD {
	r := a.args[1].args[0]
	if isDerived(r) || r.op != OBase || r.typ == nil {
		return ddT
	}
	s, ri := locOf(r)
	used := false
	for _, q := range c.neg {
		used = used || q.op == OEx && q.args[0].op == DRange && mentionsElem(q, s+"[]", ri)
	}
	if !used {
		return ddT
	}
	p.skolem++
	k := pAtom(modZ, intern(&Term{op: OVar, s: fmt.Sprintf("sk%d", p.skolem), lo: big0}))
	el := baseVal(s+"[]", append(append([]*Term{}, ri...), k), r.typ.Underlying().(*types.Slice).Elem())
	return andN(le(pInt(0), k), lt(k, rootLen(r)), map1(el, func(e *Term) *DD { return eqPoly(e, a.args[0]) }))
}

func mentionsElem(q *Term, sig string, ri []*Term) bool {
	for _, e := range q.dds[0].atoms() {
		if len(e.args) == 0 || e.args[0].op != OPoly {
			continue
		}
		found := false
		linAtoms(e.args[0], func(a *Term) {
			found = found || a.op == OBase && a.s == sig && len(a.args) == len(ri)+1 && sameIdxT(a.args[:len(ri)], ri)
		})
		if found {
			return true
		}
	}
	return false
}

// elementMatches gives the places of the elements that the literals of c speak
// of, where the body of q speaks of elements of the same list.
func elementMatches(q *Term, c *cube) []*Term {
	b := pAtom(modZ, q.args[1])
	var out []*Term
	seen := map[*Term]bool{}
	for _, e := range q.dds[0].atoms() {
		if e.op != OEq0 && e.op != OLe0 {
			continue
		}
		linAtoms(e.args[0], func(x *Term) {
			if x.op != OBase || len(x.args) == 0 || !x.has(q.args[1]) {
				return
			}
			n := len(x.args) - 1
			off := pSub(x.args[n], b)
			if off.has(q.args[1]) {
				return
			}
			for _, l := range [][]*Term{c.les, c.nes, c.eqs} {
				for _, g := range l {
					linAtoms(g, func(y *Term) {
						if y.op != OBase || y.s != x.s || len(y.args) != n+1 || !sameIdxT(x.args[:n], y.args[:n]) {
							return
						}
						if t := pSub(y.args[n], off); !seen[t] && len(out) < 8 {
							seen[t] = true
							out = append(out, t)
						}
					})
				}
			}
		})
	}
	return out
}

// matchAt gives the term of g at the place where e has b.
func matchAt(e, g, b *Term, depth int) *Term {
	if e == b {
		return g
	}
	if e == g || depth > 3 || g.op != e.op || g.s != e.s || len(g.args) != len(e.args) || e.op == OPoly {
		return nil
	}
	for k, x := range e.args {
		if r := matchAt(x, g.args[k], b, depth+1); r != nil {
			return r
		}
	}
	return nil
}

// modular looks for a disequation modulo the group order that follows linearly
// from the equations, including the sums of equations that hold for all
// elements of a domain.
func (p *prover) modular(c *cube) bool {
	var eqs, nes []*Term
	for _, a := range c.pos {
		if a.op == OEq0 {
			eqs = append(eqs, a.args[0])
		}
	}
	for _, a := range c.neg {
		if a.op == OEq0 {
			nes = append(nes, a.args[0])
		}
	}
	if len(nes) == 0 {
		return false
	}
	for i, t := range nes {
		if p.guard(func() bool { nes[i] = underFacts(t, c); return true }) && nes[i] == pZero(t.poly.mod) {
			return true
		}
	}
	for i, t := range eqs {
		p.guard(func() bool { eqs[i] = underFacts(t, c); return true })
	}
	if p.joined(c, nes) {
		return true
	}
	for _, a := range c.neg {
		if a.op != OEx {
			continue
		}
		b := a.args[1]
		for _, e := range a.dds[0].atoms() {
			if e.op != OEq0 || e.args[0].poly.mod == modZ || !e.has(b) {
				continue
			}
			// where the body holds with e false, e has to be true
			g := cofDD(a.dds[0], e, false)
			p.guard(func() bool {
				v := loopVar("ms@", b.lo, b.hi)
				x := pAtom(modZ, v)
				s := mkSum(a.args[0], v, ite(openBinder(a, g, x), substT(e.args[0], b, leaf(x)), leaf(pZero(e.args[0].poly.mod))))
				s = restrict(s, c.conj())
				if s.leaf != nil {
					eqs = append(eqs, s.leaf)
				}
				return true
			})
		}
	}
	for _, m := range []int{modQ, modP} {
		var es, ns []*Term
		for _, t := range eqs {
			if t.poly.mod == m {
				es = append(es, t)
			}
		}
		for _, t := range nes {
			if t.poly.mod == m {
				ns = append(ns, t)
			}
		}
		if len(es) > 0 && len(ns) > 0 && (inSpan(es, ns, modulus(m)) || divided(es, ns, m)) {
			return true
		}
	}
	return false
}

// underFacts drops conditions of sums that hold for all elements of their domain.
func underFacts(t *Term, c *cube) *Term {
	r := newRepl(nil)
	r.all, r.rt = true, map[*Term]*DD{}
	for _, m := range t.poly.ms {
		for _, f := range m.fs {
			s := f.a
			if s.op != OSum || s.dds[0] == ddT || r.rt[s] != nil {
				continue
			}
			v := loopVar("uf@", s.args[1].lo, s.args[1].hi)
			x := pAtom(modZ, v)
			old := openBinder(s, s.dds[0], x)
			facts := ddT
			for _, a := range c.neg {
				switch {
				case a.op == OEx && a.args[0] == s.args[0]:
					facts = and(facts, not(openBinder(a, a.dds[0], x)))
				case a.op == OIn && a.args[1] == s.args[0]:
					facts = and(facts, not(eqTerm(x, a.args[0])))
				}
			}
			if facts == ddF {
				continue
			}
			g := restrict(old, facts)
			if g != old {
				r.rt[s] = mkSum(s.args[0], v, ite(g, substT(s.args[2], s.args[1], leaf(x)), leaf(pZero(s.args[2].poly.mod))))
			}
		}
	}
	if len(r.rt) == 0 {
		return t
	}
	if d := r.term(t); d.leaf != nil {
		return d.leaf
	}
	return t
}

// joined: some target is zero once elements next to the range of a sum are
// added to the sum.
func (p *prover) joined(c *cube, nes []*Term) bool {
	if joinCtx != nil {
		return false
	}
	var ctx *DD
	for i, t := range nes {
		if t.poly.mod == modZ || !rangeSums(t) {
			continue
		}
		if ctx == nil {
			ctx = ddT
			for _, q := range c.les {
				ctx = and(ctx, leZero(q))
			}
			for _, q := range c.nes {
				ctx = and(ctx, not(eqZero(q)))
			}
			for _, a := range c.neg {
				if a.op == OEq0 && a.args[0].poly.mod == modZ {
					ctx = and(ctx, not(atomDD(a)))
				}
			}
		}
		if p.guard(func() bool {
			joinCtx = ctx
			defer func() { joinCtx = nil }()
			nes[i] = joinSums(t)
			return len(nes[i].poly.ms) == 0
		}) {
			return true
		}
	}
	return false
}

// rangeSums: t has two sums that involve ranges.
func rangeSums(t *Term) bool {
	n := 0
	for _, m := range t.poly.ms {
		for _, f := range m.fs {
			if f.a.op == OSum && (f.a.args[0].op == DRange || nestedRange(f.a)) {
				n++
			}
		}
	}
	return n > 1
}

// divided: some target follows once the equations that determine an atom are
// used to replace that atom everywhere.
func divided(rows, targets []*Term, mod int) bool {
	for n := 0; n < 4; n++ {
		var eq *Term
		var k Mono
		for _, r := range rows {
			for _, m := range r.poly.ms {
				if len(m.fs) != 1 || m.fs[0].e != one() || m.fs[0].a.op != OBase || len(r.poly.ms) < 2 {
					continue
				}
				alone := true
				for _, o := range r.poly.ms {
					for _, f := range o.fs {
						if o.key != m.key && f.a == m.fs[0].a {
							alone = false
						}
					}
				}
				if alone && (eq == nil || m.fs[0].a.id > k.fs[0].a.id) {
					eq, k = r, m
				}
			}
		}
		if eq == nil {
			return false
		}
		replace := func(t *Term) *Term {
			for i := 0; i < 50; i++ {
				found := false
				for _, m := range t.poly.ms {
					for j, f := range m.fs {
						if f.a != k.fs[0].a || f.e != one() {
							continue
						}
						// m = c*a*rest, eq = kc*a + ...
						fs := append(append([]Factor{}, m.fs[:j]...), m.fs[j+1:]...)
						rest := mkPoly(mod, []Mono{{fs: fs, c: m.c, key: monoKey(fs)}})
						t = pSub(t, pMul(rest, pScale(eq, new(big.Int).ModInverse(k.c, modulus(mod)))))
						found = true
						break
					}
					if found {
						break
					}
				}
				if !found {
					break
				}
			}
			return t
		}
		var rs, ts []*Term
		for _, r := range rows {
			if r = replace(r); len(r.poly.ms) > 0 {
				rs = append(rs, r)
			}
		}
		for _, t := range targets {
			t = replace(t)
			if len(t.poly.ms) == 0 {
				return true
			}
			ts = append(ts, t)
		}
		rows, targets = rs, ts
		if len(rows) > 0 && inSpan(rows, targets, modulus(mod)) {
			return true
		}
	}
	return false
}

// inSpan: some target is a linear combination of the rows.
func inSpan(rows, targets []*Term, q *big.Int) bool {
	var basis []*Term
	var lead []string
	reduce := func(t *Term) *Term {
		for i, b := range basis {
			for _, m := range t.poly.ms {
				if m.key == lead[i] {
					var bc *big.Int
					for _, n := range b.poly.ms {
						if n.key == lead[i] {
							bc = n.c
						}
					}
					f := new(big.Int).Mul(m.c, new(big.Int).ModInverse(bc, q))
					t = pSub(t, pScale(b, f))
					break
				}
			}
		}
		return t
	}
	for _, r := range rows {
		r = reduce(r)
		if len(r.poly.ms) == 0 {
			continue
		}
		k := r.poly.ms[0].key
		// keep the basis reduced
		for i, b := range basis {
			for _, m := range b.poly.ms {
				if m.key == k {
					f := new(big.Int).Mul(m.c, new(big.Int).ModInverse(r.poly.ms[0].c, q))
					basis[i] = pSub(b, pScale(r, f))
					break
				}
			}
		}
		basis = append(basis, r)
		lead = append(lead, k)
	}
	for _, t := range targets {
		if len(reduce(t).poly.ms) == 0 {
			return true
		}
	}
	return false
}
