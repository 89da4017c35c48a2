package main

// Multi-terminal binary decision diagrams over condition atoms.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

type DD struct {
	id     int
	atom   *Term
	hi, lo *DD
	leaf   *Term
	vars   []*Term
	h      int
	rcache map[*DD]*DD
}

type ddKey struct{ a, h, l int }

var (
	ddTab  = map[ddKey]*DD{}
	leafTb = map[*Term]*DD{}
	ddCnt  int
)

func leaf(t *Term) *DD {
	if d, ok := leafTb[t]; ok {
		return d
	}
	ddCnt++
	d := &DD{id: ddCnt, leaf: t, vars: t.vars, h: t.h}
	leafTb[t] = d
	return d
}

var (
	ddT = leaf(tTrue)
	ddF = leaf(tFalse)
)

// An analysis that takes too long decides nothing: the work on one harness and
// the work of one check are limited.
var (
	ticks    int
	started  = time.Now()
	deadline time.Time
)

const (
	harnessTime = 240 * time.Second
	checkTime   = 600 * time.Second
)

func timeUp() bool { return !deadline.IsZero() && time.Now().After(deadline) }

func allow() {
	deadline = time.Now().Add(harnessTime)
	if end := started.Add(checkTime); end.Before(deadline) {
		deadline = end
	}
}

func tick() {
	if ticks++; ticks&0xfff == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		panic(undecided("the analysis takes too long"))
	}
}

func mkDD(atom *Term, hi, lo *DD) *DD {
	if hi == lo {
		return hi
	}
	tick()
	k := ddKey{atom.id, hi.id, lo.id}
	if d, ok := ddTab[k]; ok {
		return d
	}
	switch atom.op {
	case OLe0:
		if m := foundAtom(atom); m != nil {
			pos := atom.searchPos
			h, l := hi, lo
			if pos {
				l = rcof(l, m, false)
			} else {
				h = rcof(h, m, false)
			}
			if rcof(h, m, false) == rcof(l, m, false) {
				d := h
				if !pos {
					d = l
				}
				ddTab[k] = d
				return d
			}
			hi, lo = h, l
		}
	case OIn:
		if le := foundBy[atom]; le != nil {
			hi = rcof(hi, le, le.searchPos)
			if hi == lo {
				ddTab[k] = lo
				return lo
			}
		}
	}
	if d, ok := ddTab[ddKey{atom.id, hi.id, lo.id}]; ok {
		ddTab[k] = d
		return d
	}
	if atom.op == OEq0 && hi.leaf != nil && lo.leaf != nil && sameUnder(atom.args[0], hi.leaf, lo.leaf) {
		ddTab[k] = lo
		return lo
	}
	ddCnt++
	d := &DD{id: ddCnt, atom: atom, hi: hi, lo: lo}
	d.vars = unionVars(unionVars(hi.vars, lo.vars), atom.vars)
	d.h = atom.h
	if hi.h > d.h {
		d.h = hi.h
	}
	if lo.h > d.h {
		d.h = lo.h
	}
	ddTab[k] = d
	ddTab[ddKey{atom.id, hi.id, lo.id}] = d
	if ddCnt > 6000000 {
		panic(undecided("value analysis too large"))
	}
	return d
}

var foundBy = map[*Term]*Term{}

// foundAtom gives the membership that an atom "a search ends inside the slice"
// goes with: a member is found.
func foundAtom(a *Term) *Term {
	if a.searchKnown {
		return a.searchIn
	}
	a.searchKnown = true
	q := a.args[0]
	if len(q.poly.ms) > 4 {
		return nil
	}
	for _, m := range q.poly.ms {
		if len(m.fs) != 1 || m.fs[0].a.op != OApp || m.fs[0].a.s != "searchGE" || m.fs[0].e != one() {
			continue
		}
		s := m.fs[0].a
		d := pSub(pAtom(modZ, s), rootLen(s.args[0])) // inside: d+1 <= 0; outside: -d <= 0
		if q == pAdd(d, one()) {
			a.searchPos = true
		} else if q != pNeg(d) {
			return nil
		}
		dd := in(s.args[1], intern(&Term{op: DSet, args: []*Term{s.args[0]}}))
		if dd.leaf == nil && dd.hi == ddT && dd.lo == ddF {
			a.searchIn = dd.atom
			foundBy[dd.atom] = a
		}
		return a.searchIn
	}
	return nil
}

// rcof is the diagram below a decided atom.
func rcof(d *DD, a *Term, v bool) *DD {
	if d.leaf != nil || d.atom.id > a.id {
		return d
	}
	if d.atom == a {
		if v {
			return d.hi
		}
		return d.lo
	}
	return mkDD(d.atom, rcof(d.hi, a, v), rcof(d.lo, a, v))
}

// sameUnder: two polynomials that agree where l is zero.
func sameUnder(l, a, b *Term) bool {
	if a.op != OPoly || b.op != OPoly || a.poly.mod != b.poly.mod || l.op != OPoly || l.poly.mod != a.poly.mod {
		return false
	}
	d := pSub(a, b)
	if len(d.poly.ms) != len(l.poly.ms) || len(l.poly.ms) == 0 {
		return false
	}
	c := new(big.Int)
	if q := modulus(l.poly.mod); q != nil {
		c.ModInverse(l.poly.ms[0].c, q)
		c.Mul(c, d.poly.ms[0].c)
	} else {
		m := new(big.Int)
		c.QuoRem(d.poly.ms[0].c, l.poly.ms[0].c, m)
		if m.Sign() != 0 {
			return false
		}
	}
	return pScale(l, c) == d
}

func atomDD(a *Term) *DD { return mkDD(a, ddT, ddF) }

func (d *DD) isLeaf() bool { return d.leaf != nil }
func (d *DD) has(v *Term) bool {
	return hasVar(d.vars, v)
}

func (d *DD) cof(a *Term, v bool) *DD {
	if d.leaf == nil && d.atom == a {
		if v {
			return d.hi
		}
		return d.lo
	}
	return d
}

type iteKey struct{ c, t, e int }

var iteMemo = map[iteKey]*DD{}

func ite(c, t, e *DD) *DD {
	if c == ddT || t == e {
		return t
	}
	if c == ddF {
		return e
	}
	if t == ddT && e == ddF {
		return c
	}
	k := iteKey{c.id, t.id, e.id}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	if c.leaf != nil {
		panic(undecided("condition is not boolean: " + c.leaf.String()))
	}
	a := c.atom
	if t.leaf == nil && t.atom.id < a.id {
		a = t.atom
	}
	if e.leaf == nil && e.atom.id < a.id {
		a = e.atom
	}
	r := mkDD(a, ite(c.cof(a, true), t.cof(a, true), e.cof(a, true)), ite(c.cof(a, false), t.cof(a, false), e.cof(a, false)))
	iteMemo[k] = r
	return r
}

func not(a *DD) *DD      { return ite(a, ddF, ddT) }
func and(a, b *DD) *DD   { return ite(a, b, ddF) }
func or(a, b *DD) *DD    { return ite(a, ddT, b) }
func implD(a, b *DD) *DD { return ite(a, b, ddT) }
func xnor(a, b *DD) *DD  { return ite(a, b, not(b)) }
func andN(xs ...*DD) *DD {
	r := ddT
	for _, x := range xs {
		r = and(r, x)
	}
	return r
}
func orN(xs ...*DD) *DD {
	r := ddF
	for _, x := range xs {
		r = or(r, x)
	}
	return r
}
func boolDD(b bool) *DD {
	if b {
		return ddT
	}
	return ddF
}

// restrict simplifies f using the care set c.
func restrict(f, c *DD) *DD {
	if c == ddT || f.leaf != nil || c == ddF {
		return f
	}
	if r, ok := f.rcache[c]; ok {
		return r
	}
	var r *DD
	switch {
	case c.leaf != nil:
		return f
	case c.atom.id < f.atom.id:
		r = restrict(f, or(c.hi, c.lo))
	case c.atom == f.atom:
		if c.hi == ddF {
			r = restrict(f.lo, c.lo)
		} else if c.lo == ddF {
			r = restrict(f.hi, c.hi)
		} else {
			r = mkDD(f.atom, restrict(f.hi, c.hi), restrict(f.lo, c.lo))
		}
	default:
		r = mkDD(f.atom, restrict(f.hi, c), restrict(f.lo, c))
	}
	if f.rcache == nil {
		f.rcache = map[*DD]*DD{}
	}
	f.rcache[c] = r
	return r
}

// lift applies f to all combinations of leaves.
func lift(args []*DD, f func([]*Term) *DD) *DD {
	memo := map[string]*DD{}
	var rec func(a []*DD) *DD
	rec = func(a []*DD) *DD {
		var top *Term
		for _, x := range a {
			if x.leaf == nil && (top == nil || x.atom.id < top.id) {
				top = x.atom
			}
		}
		if top == nil {
			ts := make([]*Term, len(a))
			for i, x := range a {
				ts[i] = x.leaf
			}
			return f(ts)
		}
		var k string
		if len(a) > 0 {
			var sb strings.Builder
			for _, x := range a {
				fmt.Fprintf(&sb, "%d,", x.id)
			}
			k = sb.String()
			if r, ok := memo[k]; ok {
				return r
			}
		}
		h := make([]*DD, len(a))
		l := make([]*DD, len(a))
		for i, x := range a {
			h[i], l[i] = x.cof(top, true), x.cof(top, false)
		}
		r := ite(atomDD(top), rec(h), rec(l))
		memo[k] = r
		return r
	}
	return rec(args)
}

func map1(a *DD, f func(*Term) *DD) *DD {
	if a.leaf != nil {
		return f(a.leaf)
	}
	return lift([]*DD{a}, func(t []*Term) *DD { return f(t[0]) })
}
func map2(a, b *DD, f func(x, y *Term) *DD) *DD {
	if a.leaf != nil && b.leaf != nil {
		return f(a.leaf, b.leaf)
	}
	return lift([]*DD{a, b}, func(t []*Term) *DD { return f(t[0], t[1]) })
}

// atoms of a DD in order.
func (d *DD) atoms() []*Term {
	seen := map[*DD]bool{}
	set := map[*Term]bool{}
	var rec func(x *DD)
	rec = func(x *DD) {
		if x.leaf != nil || seen[x] {
			return
		}
		seen[x] = true
		set[x.atom] = true
		rec(x.hi)
		rec(x.lo)
	}
	rec(d)
	var out []*Term
	for a := range set {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

type guarded struct {
	g *DD
	t *Term
}

// leaves returns each distinct leaf with the condition under which it is taken.
func (d *DD) leaves() []guarded {
	if d.leaf != nil {
		return []guarded{{ddT, d.leaf}}
	}
	memo := map[*DD]map[*Term]*DD{}
	var order []*Term
	seenLeaf := map[*Term]bool{}
	var rec func(x *DD) map[*Term]*DD
	rec = func(x *DD) map[*Term]*DD {
		if m, ok := memo[x]; ok {
			return m
		}
		m := map[*Term]*DD{}
		if x.leaf != nil {
			m[x.leaf] = ddT
			if !seenLeaf[x.leaf] {
				seenLeaf[x.leaf] = true
				order = append(order, x.leaf)
			}
		} else {
			a := atomDD(x.atom)
			for t, g := range rec(x.hi) {
				m[t] = and(a, g)
			}
			na := not(a)
			for t, g := range rec(x.lo) {
				g = and(na, g)
				if o, ok := m[t]; ok {
					g = or(o, g)
				}
				m[t] = g
			}
		}
		memo[x] = m
		return m
	}
	m := rec(d)
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []guarded
	for _, t := range order {
		out = append(out, guarded{m[t], t})
	}
	return out
}

func (d *DD) String() string { return d.str(0) }
func (d *DD) str(n int) string {
	if d.leaf != nil {
		return d.leaf.str(n)
	}
	if n > 10 {
		return "…"
	}
	if d.hi == ddT && d.lo == ddF {
		return d.atom.str(n + 1)
	}
	if d.hi == ddF && d.lo == ddT {
		return "¬" + d.atom.str(n+1)
	}
	return "(" + d.atom.str(n+1) + " ? " + d.hi.str(n+1) + " : " + d.lo.str(n+1) + ")"
}
