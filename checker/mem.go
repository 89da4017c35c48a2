package main

// Symbolic memory: every location is a signature (access path with holes) and
// an index vector filling the holes; its content is a log of guarded layers.

import (
	"go/types"
	"math/big"
	"strings"
)

type Layer struct {
	prev     *Layer
	depth    int
	idx      []*Term
	val      *DD
	guard    *DD
	vars     []*Term // pattern variables (families)
	doms     []*Term
	cnt      *Term // filter layer: λ selecting the iterations that append
	cntStart *Term
	cntLen   *DD
	typ      types.Type
}

type Mem struct {
	logs map[string]*Layer
}

func newMem() *Mem { return &Mem{logs: map[string]*Layer{}} }
func (m *Mem) clone() *Mem {
	n := &Mem{logs: make(map[string]*Layer, len(m.logs)+8)}
	for k, v := range m.logs {
		n.logs[k] = v
	}
	return n
}

type locKey struct {
	sig string
	idx []*Term
}

var locCache = map[*Term]locKey{}

func locOf(p *Term) (string, []*Term) {
	if l, ok := locCache[p]; ok {
		return l.sig, l.idx
	}
	var sig string
	var idx []*Term
	switch p.op {
	case OAlloc:
		sig, idx = "a:"+p.s, p.args
	case OFld:
		s, i := locOf(p.args[0])
		sig, idx = s+"."+p.s, i
	case OIdx:
		s, i := locOf(p.args[0])
		sig = s + "[]"
		idx = append(append([]*Term{}, i...), p.args[1])
	case OBase:
		sig, idx = "("+p.s+")*", p.args
	case OApp:
		sig, idx = p.s, p.args
	default:
		panic(undecided("dereference of " + p.String()))
	}
	locCache[p] = locKey{sig, idx}
	return sig, idx
}

func isAllocSig(sig string) bool { return strings.HasPrefix(sig, "a:") }

func eqIdx(a, b []*Term) *DD {
	r := ddT
	if len(a) != len(b) {
		panic("index arity")
	}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		r = and(r, eqTerm(a[i], b[i]))
		if r == ddF {
			return r
		}
	}
	return r
}

// push adds a layer.
func (m *Mem) push(sig string, l *Layer) {
	l.prev = m.logs[sig]
	l.depth = 1
	if l.prev != nil {
		l.depth = l.prev.depth + 1
	}
	m.logs[sig] = l
}

func sameIdx(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *Mem) writeLoc(sig string, idx []*Term, val *DD, typ types.Type) {
	if top := m.logs[sig]; top != nil && len(top.vars) == 0 && top.cnt == nil && sameIdx(top.idx, idx) {
		m.logs[sig] = top.prev
	}
	m.push(sig, &Layer{idx: idx, val: val, guard: ddT, typ: typ})
}

// matchLayer returns the condition under which the layer defines location idx
// and the value there.
func matchLayer(l *Layer, idx []*Term) (*DD, *DD) {
	if l.cnt != nil {
		if len(idx) > 0 {
			if v, c, ok := filterAt(l, idx); ok {
				return c, v
			}
		}
		panic(undecided("read of a filtered list"))
	}
	if len(l.vars) == 0 {
		return and(l.guard, eqIdx(l.idx, idx)), l.val
	}
	m := map[*Term]*DD{}
	solved := map[*Term]bool{}
	for n := 0; n < len(l.vars); n++ {
		for _, v := range l.vars {
			if solved[v] {
				continue
			}
			for i, p := range l.idx {
				if t := solveFor(p, idx[i], v, l.vars, solved); t != nil {
					m[v] = leaf(t)
					solved[v] = true
					break
				}
			}
		}
	}
	if len(solved) != len(l.vars) {
		panic(undecided("cannot resolve family index " + idxStr(l.idx) + " of " + idxStr(l.vars) + idxStr(l.doms) + l.val.String() + " against " + idxStr(idx)))
	}
	r := newRepl(m)
	cond := r.dd(l.guard)
	for i, v := range l.vars {
		d := r.term(l.doms[i])
		cond = and(cond, map2(m[v], d, in))
	}
	for i, p := range l.idx {
		cond = and(cond, map1(r.term(p), func(t *Term) *DD { return eqTerm(t, idx[i]) }))
	}
	if cond == ddF {
		return ddF, nil
	}
	return cond, r.dd(l.val)
}

func idxStr(ts []*Term) string {
	var p []string
	for _, t := range ts {
		p = append(p, t.String())
	}
	return "[" + strings.Join(p, ",") + "]"
}

// solveFor solves p(v) == t for v where p = v + rest.
func solveFor(p, t, v *Term, all []*Term, solved map[*Term]bool) *Term {
	if p.op != OPoly || t.op != OPoly {
		// structural: same constructor
		if p.op == t.op && p.s == t.s && len(p.args) == len(t.args) {
			for i := range p.args {
				if r := solveFor(p.args[i], t.args[i], v, all, solved); r != nil {
					return r
				}
			}
		}
		return nil
	}
	var rest []Mono
	var c *big.Int
	for _, m := range p.poly.ms {
		if len(m.fs) == 1 && m.fs[0].a == v && m.fs[0].e == one() {
			c = m.c
			continue
		}
		for _, f := range m.fs {
			if f.a.has(v) || f.e.has(v) {
				return nil
			}
			for _, o := range all {
				if o != v && !solved[o] && (f.a.has(o) || f.e.has(o)) {
					return nil
				}
			}
		}
		rest = append(rest, m)
	}
	if c == nil || (c.Cmp(big1) != 0 && c.Cmp(big.NewInt(-1)) != 0) {
		return nil
	}
	r := pSub(t, mkPoly(modZ, rest))
	if c.Sign() < 0 {
		r = pNeg(r)
	}
	return r
}

// readLoc reads a location; base produces the initial content.
func (m *Mem) readLoc(sig string, idx []*Term, base func() *DD) *DD {
	return readLog(m.logs[sig], idx, base)
}

func readLog(l *Layer, idx []*Term, base func() *DD) *DD {
	type pend struct{ c, v *DD }
	var ps []pend
	var res *DD
	rem := ddT
	for ; l != nil; l = l.prev {
		c, v := matchLayer(l, idx)
		c = and(rem, c)
		if c == ddF {
			continue
		}
		if c == rem {
			res = v
			break
		}
		ps = append(ps, pend{c, v})
		rem = and(rem, not(c))
	}
	if res == nil {
		res = base()
	}
	for i := len(ps) - 1; i >= 0; i-- {
		res = ite(ps[i].c, ps[i].v, res)
	}
	return res
}

// ---------------------------------------------------------------- types

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
		return true
	}
	return false
}

const (
	edPkg    = "filippo.io/edwards25519"
	fieldPkg = "filippo.io/edwards25519/field"
)

// primKind recognises the primitive crypto types.
func primKind(t types.Type) string {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	switch n.Obj().Pkg().Path() {
	case edPkg:
		switch n.Obj().Name() {
		case "Scalar":
			return "scalar"
		case "Point":
			return "point"
		}
	case fieldPkg:
		if n.Obj().Name() == "Element" {
			return "field"
		}
	}
	return ""
}

func isModulePkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modulePath)
}

var modulePath = "github.com/taurusgroup/frost-ed25519"

// openStruct says whether the analysis looks inside values of struct type t.
func openStruct(t types.Type) (*types.Struct, bool) {
	if primKind(t) != "" {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil && !isModulePkg(n.Obj().Pkg()) {
			return nil, false
		}
	}
	return st, true
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	u := func(n uint) (*big.Int, *big.Int, bool) {
		return big0, new(big.Int).Sub(new(big.Int).Lsh(big1, n), big1), true
	}
	s := func(n uint) (*big.Int, *big.Int, bool) {
		h := new(big.Int).Lsh(big1, n-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big1), true
	}
	switch b.Kind() {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return u(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32:
		return s(32)
	}
	return s(64)
}

var maxLen = new(big.Int).Lsh(big1, 40)

// lenBound lets a contract bound the length of particular slices.
var lenBound = map[string][2]int64{}

func lenAtom(root *Term) *Term {
	if root.op == OApp && root.s == "base64" {
		return encodedLen(root.args[0], seqLen(root.args[1]))
	}
	lo, hi := big0, maxLen
	if root.op == OBase || root.op == OApp {
		if b, ok := lenBound[root.s]; ok {
			lo, hi = bi(b[0]), bi(b[1])
		}
	}
	return intern(&Term{op: OApp, s: "len", args: []*Term{root}, lo: lo, hi: hi})
}

func mkSlice(arr, off, ln, cp *Term) *Term {
	return intern(&Term{op: OSlice, args: []*Term{arr, off, ln, cp}})
}

var nilSlice = func() *DD { return leaf(mkSlice(tNil, pInt(0), pInt(0), pInt(0))) }

var noPoint = tConst("uninitialised point")

func zeroVal(t types.Type) *DD {
	switch primKind(t) {
	case "scalar":
		return leaf(pZero(modQ))
	case "point":
		return leaf(noPoint)
	case "field":
		return leaf(pZero(modP))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ddF
		case u.Info()&types.IsInteger != 0:
			return dInt(0)
		case u.Info()&types.IsString != 0:
			return leaf(mkSeq(nil))
		}
		return leaf(tConst("zero:" + typeKey(t)))
	case *types.Slice:
		return nilSlice()
	case *types.Struct:
		if st, ok := openStruct(t); ok {
			ds := make([]*DD, st.NumFields())
			for i := range ds {
				ds[i] = zeroVal(st.Field(i).Type())
			}
			return leaf(intern(&Term{op: OAgg, dds: ds, typ: t}))
		}
		return leaf(tConst("zero:" + typeKey(t)))
	case *types.Array:
		if isByte(u.Elem()) {
			return leaf(mkSeq([]*Term{zerosSeg(pInt(u.Len()))}))
		}
		if u.Len() <= 256 {
			ds := make([]*DD, u.Len())
			for i := range ds {
				ds[i] = zeroVal(u.Elem())
			}
			return leaf(intern(&Term{op: OAgg, dds: ds, typ: t}))
		}
		return leaf(tConst("zero:" + typeKey(t)))
	}
	return leaf(tNil)
}

// symVal is the symbolic content of a location with signature sig.
func symVal(sig string, idx []*Term, t types.Type) *DD {
	mk := func() *Term { return &Term{op: OBase, s: sig, args: idx} }
	switch primKind(t) {
	case "scalar":
		return dAtom(modQ, intern(mk()))
	case "point":
		b := mk()
		b.point = true
		return dAtom(modQ, intern(b))
	case "field":
		return dAtom(modP, intern(mk()))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return atomDD(intern(mk()))
		case u.Info()&types.IsInteger != 0:
			b := mk()
			b.lo, b.hi, _ = intRange(t)
			if o, ok := symRange[sig]; ok {
				b.lo, b.hi = bi(o[0]), bi(o[1])
			}
			return dAtom(modZ, intern(b))
		case u.Info()&types.IsString != 0:
			return leaf(symBytes(sig, idx))
		}
	case *types.Slice:
		b := mk()
		b.typ = t
		r := intern(b)
		listType["("+sig+")*[]"] = t
		ln := pAtom(modZ, lenAtom(r))
		cp := pAtom(modZ, intern(&Term{op: OApp, s: "cap", args: []*Term{r}, lo: big0, hi: maxLen}))
		return leaf(mkSlice(r, pInt(0), ln, cp))
	case *types.Struct:
		if st, ok := openStruct(t); ok {
			ds := make([]*DD, st.NumFields())
			for i := range ds {
				ds[i] = symVal(sig+"."+st.Field(i).Name(), idx, st.Field(i).Type())
			}
			return leaf(intern(&Term{op: OAgg, dds: ds, typ: t}))
		}
	case *types.Array:
		if isByte(u.Elem()) {
			return leaf(symBytesN(sig, idx, pInt(u.Len())))
		}
		if u.Len() <= 256 {
			ds := make([]*DD, u.Len())
			for i := range ds {
				ds[i] = symVal(sig+"[]", append(append([]*Term{}, idx...), pInt(int64(i))), u.Elem())
			}
			return leaf(intern(&Term{op: OAgg, dds: ds, typ: t}))
		}
	}
	b := mk()
	b.typ = t
	return leaf(intern(b))
}

// listType gives the slice type of the lists whose elements have a signature.
var listType = map[string]types.Type{}

// listRoot is the list of which e (by signature and index) is an element.
func listRoot(sig string, idx []*Term) *Term {
	t, ok := listType[sig]
	if !ok || len(idx) == 0 {
		return nil
	}
	return intern(&Term{op: OBase, s: strings.TrimSuffix(strings.TrimPrefix(sig, "("), ")*[]"), args: idx[:len(idx)-1], typ: t})
}

var symRange = map[string][2]int64{}

// symBytes is symbolic data of symbolic length.
func symBytes(sig string, idx []*Term) *Term {
	d := intern(&Term{op: OBase, s: sig + "#bytes", args: idx})
	return symBytesOf(d)
}
func symBytesOf(d *Term) *Term {
	n := pAtom(modZ, lenAtom(d))
	return mkSeq([]*Term{mkSub(d, pInt(0), n)})
}
func symBytesN(sig string, idx []*Term, n *Term) *Term {
	d := intern(&Term{op: OBase, s: sig + "#bytes", args: idx})
	return mkSeq([]*Term{mkSub(d, pInt(0), n)})
}

func fldPtr(p *Term, name string) *Term {
	return intern(&Term{op: OFld, s: name, args: []*Term{p}})
}
func idxPtr(p, i *Term, byteElem bool) *Term {
	s := ""
	if byteElem {
		s = "byte"
	}
	return intern(&Term{op: OIdx, s: s, args: []*Term{p, i}})
}

// baseVal is the initial content of a location.
func baseVal(sig string, idx []*Term, t types.Type) *DD {
	if isAllocSig(sig) {
		return zeroVal(t)
	}
	if sl := strings.HasSuffix(sig, "{}?"); sl {
		m := strings.TrimSuffix(sig, "{}?")
		_ = m
	}
	return symVal(sig, idx, t)
}
