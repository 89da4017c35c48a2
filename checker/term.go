package main

// Hash-consed value terms.  Numeric values (integers, scalars modulo the group
// order, field elements, group elements) are polynomials over atoms; everything
// else is a plain term.  Conditional values are decision diagrams (dd.go) whose
// leaves are terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

type Op uint8

const (
	OTrue Op = iota
	OFalse
	ONil   // nil pointer / map / func / interface
	OPoly  // numeric value
	OConst // other constant (string), s
	OVar   // loop / bound / carried variable
	OBase  // initial symbolic content of memory location s at index args
	OApp   // uninterpreted function s(args; dds)
	OWrap  // polynomial used as an atom (under an inverse or a product)
	OSum   // binder: sum over dom of guarded monomial
	OProd  // binder: product over dom of guarded factor
	ORep   // binder: concatenation over dom of byte sequence (segment)
	OEx    // binder (boolean): exists x in dom. dds[0]
	OFirst // binder (integer): first x in dom with dds[0]
	OLam   // binder: generic function of an index
	OEq0   // poly == 0
	OLe0   // poly <= 0 (integers)
	OEq    // generic equality of two terms
	OIsNil // term is nil
	OIn    // membership of args[0] in domain args[1]
	OAtom  // uninterpreted boolean s(args)
	OAlloc // allocation, s=context, args=loop indices
	OFld   // field address
	OIdx   // element address
	OSlice // slice value: arr, off, len, cap
	OAgg   // aggregate value: dds
	OFunc  // function value: fn, dds = bindings
	OIface // interface value: typ, dds[0]
	OSeq   // byte sequence: args = segments
	OBytes // constant byte segment: s
	OSub   // bytes lo..hi of symbolic data: args[0] data, args[1] lo, args[2] hi
	DRange // domain 0..args[0]-1
	DSet   // domain: elements of slice args[0]
	DKeys  // domain: keys of map
	DPre   // domain: elements of dom args[0] before iteration args[1]
	DAll   // domain: everything
)

type Term struct {
	searchKnown, searchPos bool
	searchIn               *Term
	id                     int
	op                     Op
	s                      string
	args                   []*Term
	dds                    []*DD
	poly                   *Poly
	typ                    types.Type
	fn                     interface{} // *ssa.Function
	lo, hi                 *big.Int    // integer range (nil = unbounded)
	vars                   []*Term     // free variables, sorted by id
	h                      int         // binder height
	ln                     *Term       // length of a byte segment / carried sequence
	point                  bool        // atom denotes a group element
	key                    string
}

var (
	termTab = map[string]*Term{}
	termCnt int
)

func unionVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	same := len(a) == len(b)
	if same {
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			out = append(out, b[j])
			j++
		case j == len(b):
			out = append(out, a[i])
			i++
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	return out
}

func hasVar(vs []*Term, v *Term) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

func (t *Term) has(v *Term) bool { return hasVar(t.vars, v) }

func intern(t *Term) *Term {
	tick()
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.op)))
	sb.WriteByte('|')
	sb.WriteString(t.s)
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	sb.WriteByte(';')
	for _, d := range t.dds {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(d.id))
	}
	if t.poly != nil {
		sb.WriteByte('P')
		sb.WriteString(t.poly.key)
	}
	if t.typ != nil {
		sb.WriteByte('T')
		sb.WriteString(typeKey(t.typ))
	}
	if t.fn != nil {
		fmt.Fprintf(&sb, "F%p", t.fn)
	}
	if t.op == OVar || t.op == OApp || t.op == OBase {
		if t.lo != nil {
			sb.WriteString("L" + t.lo.String())
		}
		if t.hi != nil {
			sb.WriteString("H" + t.hi.String())
		}
		if t.point {
			sb.WriteString("G")
		}
		if t.ln != nil {
			sb.WriteString("N" + strconv.Itoa(t.ln.id))
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	t.key = k
	var vs []*Term
	h := 0
	for _, a := range t.args {
		vs = unionVars(vs, a.vars)
		if a.h > h {
			h = a.h
		}
	}
	for _, d := range t.dds {
		vs = unionVars(vs, d.vars)
		if d.h > h {
			h = d.h
		}
	}
	if t.ln != nil {
		vs = unionVars(vs, t.ln.vars)
		if t.ln.h > h {
			h = t.ln.h
		}
	}
	if t.poly != nil {
		for _, m := range t.poly.ms {
			for _, f := range m.fs {
				vs = unionVars(vs, f.a.vars)
				if f.a.h > h {
					h = f.a.h
				}
				vs = unionVars(vs, f.e.vars)
				if f.e.h > h {
					h = f.e.h
				}
			}
		}
	}
	if t.op == OVar {
		vs = unionVars(vs, []*Term{t})
	}
	t.vars, t.h = vs, h
	switch t.op {
	case OSum, OProd, ORep, OEx, OFirst, OLam:
		// args[1] is the bound variable
		var w []*Term
		for _, v := range t.vars {
			if v != t.args[1] {
				w = append(w, v)
			}
		}
		t.vars = w
		t.h = h + 1
	}
	termTab[k] = t
	return t
}

var (
	tTrue  = intern(&Term{op: OTrue})
	tFalse = intern(&Term{op: OFalse})
	tNil   = intern(&Term{op: ONil})
	tAll   = intern(&Term{op: DAll})
)

func tConst(s string) *Term { return intern(&Term{op: OConst, s: s}) }

func tApp(s string, args ...*Term) *Term { return intern(&Term{op: OApp, s: s, args: args}) }

// ---------------------------------------------------------------- polynomials

const (
	modZ = 0
	modQ = 1
	modP = 2
)

var (
	bigQ, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	bigP, _ = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	big0    = big.NewInt(0)
	big1    = big.NewInt(1)
)

func modulus(m int) *big.Int {
	switch m {
	case modQ:
		return bigQ
	case modP:
		return bigP
	}
	return nil
}

type Factor struct {
	a *Term // atom
	e *Term // exponent, integer polynomial
}

type Mono struct {
	fs  []Factor
	c   *big.Int
	key string
}

type Poly struct {
	mod int
	ms  []Mono
	key string
}

func monoKey(fs []Factor) string {
	var sb strings.Builder
	for _, f := range fs {
		sb.WriteString(strconv.Itoa(f.a.id))
		if f.e != one() {
			sb.WriteByte('^')
			sb.WriteString(strconv.Itoa(f.e.id))
		}
		sb.WriteByte('*')
	}
	return sb.String()
}

var oneT *Term

func one() *Term {
	return oneT
}

func init() {
	// the exponent 1 is needed to build keys, so it is created by hand
	p := &Poly{mod: modZ, ms: []Mono{{c: big1, key: ""}}, key: "0:1*"}
	oneT = intern(&Term{op: OPoly, poly: p})
}

func mkPoly(mod int, ms []Mono) *Term {
	m := map[string]int{}
	var out []Mono
	q := modulus(mod)
	for _, x := range ms {
		if i, ok := m[x.key]; ok {
			c := new(big.Int).Add(out[i].c, x.c)
			out[i].c = c
		} else {
			m[x.key] = len(out)
			out = append(out, x)
		}
	}
	var res []Mono
	for _, x := range out {
		c := x.c
		if q != nil {
			c = new(big.Int).Mod(c, q)
		}
		if c.Sign() == 0 {
			continue
		}
		x.c = c
		res = append(res, x)
	}
	sort.Slice(res, func(i, j int) bool { return res[i].key < res[j].key })
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(mod))
	sb.WriteByte(':')
	for i, x := range res {
		if i > 0 {
			sb.WriteByte('+')
		}
		sb.WriteString(x.c.String())
		sb.WriteByte('*')
		sb.WriteString(x.key)
	}
	return intern(&Term{op: OPoly, poly: &Poly{mod: mod, ms: res, key: sb.String()}})
}

func pConst(mod int, c *big.Int) *Term { return mkPoly(mod, []Mono{{c: c}}) }
func pInt(n int64) *Term               { return pConst(modZ, big.NewInt(n)) }
func pBig(c *big.Int) *Term            { return pConst(modZ, c) }
func pZero(mod int) *Term              { return mkPoly(mod, nil) }
func pAtom(mod int, a *Term) *Term {
	fs := []Factor{{a, one()}}
	return mkPoly(mod, []Mono{{fs: fs, c: big1, key: monoKey(fs)}})
}

func (t *Term) isPoly() bool { return t.op == OPoly }
func (t *Term) constVal() (*big.Int, bool) {
	if t.op != OPoly {
		return nil, false
	}
	if len(t.poly.ms) == 0 {
		return big0, true
	}
	if len(t.poly.ms) == 1 && len(t.poly.ms[0].fs) == 0 {
		return t.poly.ms[0].c, true
	}
	return nil, false
}
func (t *Term) isInt(n int64) bool {
	c, ok := t.constVal()
	return ok && c.IsInt64() && c.Int64() == n
}
func (t *Term) intVal() (int64, bool) {
	c, ok := t.constVal()
	if ok && c.IsInt64() {
		return c.Int64(), true
	}
	return 0, false
}

// singleAtom returns the atom a if t is exactly 1*a^1.
func (t *Term) singleAtom() *Term {
	if t.op == OPoly && len(t.poly.ms) == 1 {
		m := t.poly.ms[0]
		if len(m.fs) == 1 && m.fs[0].e == one() && m.c.Cmp(big1) == 0 {
			return m.fs[0].a
		}
	}
	return nil
}

func mustSameMod(a, b *Term) int {
	if a.op != OPoly || b.op != OPoly {
		panic(undecided("arithmetic on non numeric terms " + a.String() + " , " + b.String()))
	}
	if a.poly.mod != b.poly.mod {
		panic(undecided("arithmetic on mixed sorts " + a.String() + " , " + b.String()))
	}
	return a.poly.mod
}

// An uninitialised point stays one; the operations that panic on it report that.
func uninitialised(a *Term) bool { return a.op == OConst && a.s == "uninitialised point" }

func pAdd(a, b *Term) *Term {
	if uninitialised(a) {
		return a
	}
	if uninitialised(b) {
		return b
	}
	mod := mustSameMod(a, b)
	ms := make([]Mono, 0, len(a.poly.ms)+len(b.poly.ms))
	ms = append(ms, a.poly.ms...)
	ms = append(ms, b.poly.ms...)
	return joinSums(mkPoly(mod, ms))
}

// sumEnds are the values of the body of a sum over [0,n) at n and at -1, if
// they are single monomials, and the sums over one element more.
type sumEnds struct {
	need    *DD // 0 <= n
	at, sum [2]*Term
}

var sumEndsOf = map[*Term]*sumEnds{}

func endsOf(a *Term) *sumEnds {
	if e, ok := sumEndsOf[a]; ok {
		return e
	}
	e := &sumEnds{}
	sumEndsOf[a] = e
	n := a.args[0].args[0]
	e.need = le(pInt(0), n)
	if a.dds[0] != ddT || e.need == ddF {
		return e
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(undecidedErr); !ok {
					panic(r)
				}
			}
		}()
		v := loopVar("se@", big0, maxLen)
		x := pAtom(modZ, v)
		body := substT1(a.args[2], a.args[1], x)
		dom := intern(&Term{op: DRange, args: []*Term{pAdd(n, one())}})
		for i, at := range []*Term{n, pInt(-1)} {
			t := substT1(a.args[2], a.args[1], at)
			f := body
			if i == 1 {
				f = substT1(body, v, pSub(x, one()))
			}
			s := mkSum(dom, v, leaf(f))
			if t.op == OPoly && len(t.poly.ms) == 1 && s.leaf != nil && s.leaf.op == OPoly && len(s.leaf.poly.ms) == 1 {
				e.at[i], e.sum[i] = t, s.leaf
			}
		}
	}()
	return e
}

// nestedRange: t is a sum whose elements have sums over ranges as a factor.
func nestedRange(t *Term) bool {
	if t.op != OSum || len(t.args[2].poly.ms) != 1 {
		return false
	}
	for _, f := range t.args[2].poly.ms[0].fs {
		if f.a.op == OSum && f.e == one() && (f.a.args[0].op == DRange || nestedRange(f.a)) {
			return true
		}
	}
	return false
}

// joinNested joins the elements of two sums over the same domain.
func joinNested(a, b *Term, mod int) *Term {
	if a.args[0] != b.args[0] {
		return nil
	}
	if joinCtx == nil {
		joinCtx = ddT
		defer func() { joinCtx = nil }()
	}
	k := joinKey{a, b, joinCtx}
	if r, ok := joinedSums[k]; ok {
		return r
	}
	joinedSums[k] = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(undecidedErr); !ok {
					panic(r)
				}
			}
		}()
		v := loopVar("sj@", big0, maxLen)
		if a.args[0].op != DRange {
			v = intern(&Term{op: OVar, s: "sj@", lo: a.args[1].lo, hi: a.args[1].hi})
		}
		x := pAtom(modZ, v)
		ga, gb := subst(a.dds[0], a.args[1], leaf(x)), subst(b.dds[0], b.args[1], leaf(x))
		if ga != gb {
			return
		}
		s := pAdd(substT1(a.args[2], a.args[1], x), substT1(b.args[2], b.args[1], x))
		if len(s.poly.ms) != 1 {
			return
		}
		r := mkSum(a.args[0], v, ite(ga, leaf(s), leaf(pZero(mod))))
		if r.leaf != nil && r.leaf.op == OPoly && len(r.leaf.poly.ms) == 1 {
			joinedSums[k] = r.leaf
		}
	}()
	return joinedSums[k]
}

type joinKey struct {
	a, b *Term
	ctx  *DD
}

var joinedSums = map[joinKey]*Term{}

// joinCtx is what is known while sums are joined.
var joinCtx *DD

func inContext(d *DD) bool {
	c := joinCtx
	if c == nil || c == ddT {
		return false
	}
	joinCtx = nil
	defer func() { joinCtx = c }()
	return implies(c, d)
}

// joinSums adds an element next to the range of a sum to the sum.
func joinSums(t *Term) *Term {
	if t.op != OPoly || len(t.poly.ms) < 2 {
		return t
	}
	for _, m := range t.poly.ms {
		for j, f := range m.fs {
			if f.a.op != OSum || f.e != one() {
				continue
			}
			if nestedRange(f.a) {
				for _, o := range t.poly.ms {
					if o.key == m.key || o.c.Cmp(m.c) != 0 || len(o.fs) != len(m.fs) {
						continue
					}
					for l, g := range o.fs {
						if g.a.op != OSum || g.e != one() {
							continue
						}
						fs := append(append([]Factor{}, m.fs[:j]...), m.fs[j+1:]...)
						gs := append(append([]Factor{}, o.fs[:l]...), o.fs[l+1:]...)
						if monoKey(fs) != monoKey(gs) {
							continue
						}
						if s := joinNested(f.a, g.a, t.poly.mod); s != nil {
							rest := mkPoly(t.poly.mod, []Mono{mkMono(fs, m.c)})
							return pAdd(pSub(t, mkPoly(t.poly.mod, []Mono{m, o})), pMul(rest, s))
						}
					}
				}
			}
			if f.a.args[0].op != DRange {
				continue
			}
			e := endsOf(f.a)
			if e.need != ddT && !inContext(e.need) {
				continue
			}
			for i, at := range e.at {
				if at == nil {
					continue
				}
				fs := append(append([]Factor{}, m.fs[:j]...), m.fs[j+1:]...)
				rest := mkPoly(t.poly.mod, []Mono{mkMono(fs, m.c)})
				p := pMul(rest, at)
				if len(p.poly.ms) != 1 {
					continue
				}
				for _, o := range t.poly.ms {
					if o.key == p.poly.ms[0].key && o.c.Cmp(p.poly.ms[0].c) == 0 {
						old := mkPoly(t.poly.mod, []Mono{m, o})
						return pAdd(pSub(t, old), pMul(rest, e.sum[i]))
					}
				}
			}
		}
	}
	return t
}
func pScale(a *Term, c *big.Int) *Term {
	if uninitialised(a) {
		return a
	}
	ms := make([]Mono, len(a.poly.ms))
	for i, m := range a.poly.ms {
		ms[i] = Mono{fs: m.fs, c: new(big.Int).Mul(m.c, c), key: m.key}
	}
	return mkPoly(a.poly.mod, ms)
}
func pNeg(a *Term) *Term    { return pScale(a, big.NewInt(-1)) }
func pSub(a, b *Term) *Term { return pAdd(a, pNeg(b)) }

func mulFs(a, b []Factor) []Factor {
	out := append([]Factor{}, a...)
	for _, f := range b {
		found := false
		for i := range out {
			if out[i].a == f.a {
				out[i].e = pAdd(out[i].e, f.e)
				found = true
				break
			}
		}
		if !found {
			out = append(out, f)
		}
	}
	var r []Factor
	for _, f := range out {
		if !f.e.isInt(0) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].a.id < r[j].a.id })
	return r
}

func mkMono(fs []Factor, c *big.Int) Mono { return Mono{fs: fs, c: c, key: monoKey(fs)} }

func pMul(a, b *Term) *Term {
	if uninitialised(a) {
		return a
	}
	if uninitialised(b) {
		return b
	}
	mod := mustSameMod(a, b)
	var ms []Mono
	for _, x := range a.poly.ms {
		for _, y := range b.poly.ms {
			ms = append(ms, mkMono(mulFs(x.fs, y.fs), new(big.Int).Mul(x.c, y.c)))
		}
	}
	return cancelWraps(mkPoly(mod, ms))
}

// cancelWraps simplifies p^-1 * p for wrapped polynomials when the whole
// polynomial is a multiple.
func cancelWraps(t *Term) *Term {
	ms := t.poly.ms
	if len(ms) < 2 {
		return t
	}
	for _, f := range ms[0].fs {
		if f.a.op != OWrap || !f.e.isInt(-1) {
			continue
		}
		// t = inv(w) * rest ; if rest == c*w*m then c*m
		var rest []Mono
		ok := true
		for _, m := range ms {
			found := false
			var fs []Factor
			for _, g := range m.fs {
				if g.a == f.a && g.e == f.e {
					found = true
				} else {
					fs = append(fs, g)
				}
			}
			if !found {
				ok = false
				break
			}
			rest = append(rest, mkMono(fs, m.c))
		}
		if !ok {
			continue
		}
		w := f.a.args[0]
		r := mkPoly(t.poly.mod, rest)
		if len(w.poly.ms) != len(r.poly.ms) {
			continue
		}
		// try constant multiples
		if r.poly.ms[0].key != w.poly.ms[0].key {
			continue
		}
		inv := new(big.Int).ModInverse(w.poly.ms[0].c, modulus(t.poly.mod))
		if inv == nil {
			continue
		}
		c := new(big.Int).Mul(r.poly.ms[0].c, inv)
		if pScale(w, c) == r {
			return pConst(t.poly.mod, c)
		}
	}
	return t
}

func cast(t *Term, mod int) *Term {
	if t.poly.mod == mod {
		return t
	}
	return mkPoly(mod, append([]Mono{}, t.poly.ms...))
}

// monic splits p into c*p' with p' having leading coefficient 1.
func monic(t *Term) (*big.Int, *Term) {
	c := t.poly.ms[0].c
	q := modulus(t.poly.mod)
	inv := new(big.Int).ModInverse(c, q)
	return c, pScale(t, inv)
}

func pInv(t *Term) *Term {
	q := modulus(t.poly.mod)
	ms := t.poly.ms
	if len(ms) == 0 {
		return t // 0^-1 = 0 by convention of edwards25519
	}
	if len(ms) == 1 {
		m := ms[0]
		var fs []Factor
		for _, f := range m.fs {
			fs = append(fs, Factor{f.a, pNeg(f.e)})
		}
		return mkPoly(t.poly.mod, []Mono{mkMono(fs, new(big.Int).ModInverse(m.c, q))})
	}
	c, p := monic(t)
	w := intern(&Term{op: OWrap, args: []*Term{p}})
	fs := []Factor{{w, pInt(-1)}}
	return mkPoly(t.poly.mod, []Mono{mkMono(fs, new(big.Int).ModInverse(c, q))})
}

// pPow raises t to the (integer polynomial) power e.
func pPow(t, e *Term) *Term {
	if n, ok := e.intVal(); ok {
		if n == 0 {
			return pConst(t.poly.mod, big1)
		}
		if n > 0 && n <= 64 {
			r := t
			for i := int64(1); i < n; i++ {
				r = pMul(r, t)
			}
			return r
		}
		if n == -1 {
			return pInv(t)
		}
		if n < 0 && n >= -64 {
			return pPow(pInv(t), pInt(-n))
		}
	}
	ms := t.poly.ms
	if len(ms) == 1 && ms[0].c.Cmp(big1) == 0 {
		var fs []Factor
		for _, f := range ms[0].fs {
			fs = append(fs, Factor{f.a, pMul(f.e, e)})
		}
		var r []Factor
		for _, f := range fs {
			if !f.e.isInt(0) {
				r = append(r, f)
			}
		}
		return mkPoly(t.poly.mod, []Mono{mkMono(r, big1)})
	}
	w := intern(&Term{op: OWrap, args: []*Term{t}})
	return mkPoly(t.poly.mod, []Mono{mkMono([]Factor{{w, e}}, big1)})
}

// prange computes an interval for an integer polynomial (nil = unbounded).
func prange(t *Term) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, m := range t.poly.ms {
		mlo, mhi := m.c, m.c
		if len(m.fs) > 0 {
			flo, fhi := big.NewInt(1), big.NewInt(1)
			for _, f := range m.fs {
				n, ok := f.e.intVal()
				if !ok || n < 1 || n > 4 {
					return nil, nil
				}
				for ; n > 0; n-- {
					alo, ahi := f.a.lo, f.a.hi
					if alo == nil || alo.Sign() < 0 {
						if len(m.fs) == 1 && f.e == one() {
							flo, fhi = alo, ahi
							goto done
						}
						return nil, nil
					}
					flo = new(big.Int).Mul(flo, alo)
					if ahi == nil || fhi == nil {
						fhi = nil
					} else {
						fhi = new(big.Int).Mul(fhi, ahi)
					}
				}
			}
		done:
			if m.c.Sign() > 0 {
				mlo, mhi = mulN(flo, m.c), mulN(fhi, m.c)
			} else {
				mlo, mhi = mulN(fhi, m.c), mulN(flo, m.c)
			}
		}
		lo, hi = addN(lo, mlo), addN(hi, mhi)
	}
	return lo, hi
}
func mulN(a, c *big.Int) *big.Int {
	if a == nil {
		return nil
	}
	return new(big.Int).Mul(a, c)
}
func addN(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

// intAtom makes an integer atom with a range.
func intAtom(s string, lo, hi *big.Int, args ...*Term) *Term {
	if !strings.HasPrefix(s, "$") && !strings.Contains(s, "#") {
	}
	return intern(&Term{op: OApp, s: s, args: args, lo: lo, hi: hi})
}
func bi(n int64) *big.Int { return big.NewInt(n) }

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 9 {
		return "…"
	}
	join := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1))
		}
		for _, x := range t.dds {
			p = append(p, x.str(d+1))
		}
		return strings.Join(p, ",")
	}
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONil:
		return "nil"
	case OConst:
		return strconv.Quote(t.s)
	case OVar:
		return t.s
	case OPoly:
		if len(t.poly.ms) == 0 {
			return "0"
		}
		var p []string
		for _, m := range t.poly.ms {
			var fs []string
			c := m.c
			if q := modulus(t.poly.mod); q != nil {
				n := new(big.Int).Sub(c, q)
				if n.BitLen() < 64 {
					c = n
				}
			}
			if len(m.fs) == 0 || c.Cmp(big1) != 0 {
				fs = append(fs, c.String())
			}
			for _, f := range m.fs {
				s := f.a.str(d + 1)
				if f.e != one() {
					s += "^" + f.e.str(d+1)
				}
				fs = append(fs, s)
			}
			p = append(p, strings.Join(fs, "·"))
		}
		if len(p) == 1 {
			return p[0]
		}
		return "(" + strings.Join(p, "+") + ")"
	case OWrap:
		return "[" + t.args[0].str(d+1) + "]"
	case OBase:
		return t.s + "<" + join() + ">"
	case OApp, OAtom:
		if len(t.args)+len(t.dds) == 0 {
			return t.s
		}
		return t.s + "(" + join() + ")"
	case OSum, OProd, ORep, OEx, OFirst, OLam:
		n := map[Op]string{OSum: "Σ", OProd: "Π", ORep: "Rep", OEx: "∃", OFirst: "first", OLam: "λ"}[t.op]
		return n + t.s + "{" + join() + "}"
	case OEq0:
		return t.args[0].str(d+1) + "==0"
	case OLe0:
		return t.args[0].str(d+1) + "<=0"
	case OEq:
		return t.args[0].str(d+1) + "==" + t.args[1].str(d+1)
	case OIsNil:
		return "isnil(" + join() + ")"
	case OIn:
		return t.args[0].str(d+1) + "∈" + t.args[1].str(d+1)
	case OAlloc:
		return "new[" + t.s + "](" + join() + ")"
	case OFld:
		return t.args[0].str(d+1) + "." + t.s
	case OIdx:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case OSlice:
		return "slice(" + join() + ")"
	case OAgg:
		return "{" + join() + "}"
	case OFunc:
		return "func " + t.s
	case OIface:
		return "iface(" + typeKey(t.typ) + ":" + join() + ")"
	case OSeq:
		return "⟨" + join() + "⟩"
	case OBytes:
		return fmt.Sprintf("0x%x", t.s)
	case OSub:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + ":" + t.args[2].str(d+1) + "]"
	case DRange:
		return "[0," + t.args[0].str(d+1) + ")"
	case DSet:
		return "set(" + t.args[0].str(d+1) + ")"
	case DKeys:
		return "keys(" + join() + ")"
	case DPre:
		return "pre(" + join() + ")"
	case DAll:
		return "*"
	}
	return "?"
}

// typeKey names a type; types that are identical up to aliases have one name.
func typeKey(t types.Type) string {
	if k, ok := typeKeys.At(t).(string); ok {
		return k
	}
	k := types.TypeString(t, nil)
	typeKeys.Set(t, k)
	return k
}

var typeKeys typeutil.Map

// undecidedErr is raised when the analysis cannot give an answer.
type undecidedErr struct{ msg string }

func undecided(msg string) undecidedErr { return undecidedErr{msg} }
