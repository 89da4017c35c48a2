package main

// encoding/json.  A document is a term built by Marshal from what it encodes,
// or an unknown document (jdoc) read through uninterpreted accessors.  The
// methods of the module that encode and decode themselves are analysed as they
// are called.

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type jsonRun struct {
	ex *Exec
	fr *Frame
	ci *callInfo
}

func jTerm(kind string, args ...*Term) *Term {
	return intern(&Term{op: OApp, s: kind, args: args})
}

var jNull = "jnull"

// jsonOf is the document a text is, and whether it is one.
func jsonOf(q *Term) (*Term, *DD) {
	if w := wholeOf(q); w != nil && w.op == OApp && (w.s == "json" || w.s == "jsonIndent") {
		return w.args[0], ddT
	}
	return jTerm("jdoc", q), mkAtom("isjson", []*Term{q})
}

// jsonText is the text of a document.
func jsonText(j *Term) *Term {
	if j.s == "jdoc" {
		return j.args[0]
	}
	return textOf("json", j)
}

func jKnown(j *Term) bool {
	switch j.s {
	case "jnull", "jnum", "jstr", "jb64":
		return true
	}
	return strings.HasPrefix(j.s, "jobj:") || strings.HasPrefix(j.s, "jmap:")
}

// jIs tests the kind of a document.
func jIs(j *Term, kind string) *DD {
	if jKnown(j) {
		return boolDD(j.s == kind || kind == "jobj" && (strings.HasPrefix(j.s, "jobj:") || strings.HasPrefix(j.s, "jmap:")))
	}
	return mkAtom("is:"+kind, []*Term{j})
}

// jField is the value of a name in an object, and whether it is there.
func jField(j *Term, name string) (*Term, *DD) {
	if strings.HasPrefix(j.s, "jobj:") {
		for i, n := range strings.Split(j.s[5:], ",") {
			if n == name {
				return j.args[i], ddT
			}
		}
		return nil, ddF
	}
	return jTerm("jget:"+name, j), mkAtom("jhas:"+name, []*Term{j})
}

// method finds a method of *t that is callable on an addressable value, or on
// any value.
func (r *jsonRun) method(t types.Type, name string, addressable bool) (fn *ssa.Function, byPtr bool) {
	if _, ok := t.Underlying().(*types.Interface); ok {
		panic(undecided("JSON of an interface"))
	}
	if sel := r.ex.prog.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
		return r.ex.prog.prog.MethodValue(sel), false
	}
	if !addressable {
		return nil, false
	}
	if sel := r.ex.prog.prog.MethodSets.MethodSet(types.NewPointer(t)).Lookup(nil, name); sel != nil {
		return r.ex.prog.prog.MethodValue(sel), true
	}
	return nil, false
}

func (r *jsonRun) callMethod(st *State, fn *ssa.Function, path string, args ...*DD) []*DD {
	f := *r.fr
	f.ctx = r.ci.ctx + "/json" + path
	f.parent = r.fr
	f.depth++
	return r.ex.dispatch(&f, st, r.ci.in, fn, args, nil)
}

// when runs f where c holds.
func (r *jsonRun) when(st *State, c *DD, f func(st *State) *DD, other *DD) *DD {
	c = restrict(c, st.pc)
	if c == ddF {
		return other
	}
	if c == ddT {
		return f(st)
	}
	a, b := st.clone(), st.clone()
	a.pc, b.pc = and(st.pc, c), and(st.pc, not(c))
	if a.pc == ddF {
		return other
	}
	if b.pc == ddF {
		return f(st)
	}
	v := f(a)
	*st = *mergeStates(a, b)
	return ite(c, v, other)
}

func jsonName(f *types.Var, tag string) (string, bool) {
	v := reflect.StructTag(tag).Get("json")
	if v == "-" || !f.Exported() {
		return "", false
	}
	if f.Embedded() || strings.Contains(v, ",") {
		panic(undecided("JSON of field " + f.Name()))
	}
	if v != "" {
		return v, true
	}
	return f.Name(), true
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

// decode stores document j in *p and tells whether that succeeds.
func (r *jsonRun) decode(st *State, j, p *Term, t types.Type, path string) *DD {
	ex := r.ex
	null := jIs(j, jNull)
	pt, isPtr := t.Underlying().(*types.Pointer)
	if !isPtr {
		if fn, _ := r.method(t, "UnmarshalJSON", true); fn != nil {
			b := ex.newBytes(st, r.ci.ctx+"/json"+path, leaf(jsonText(j)))
			return map1(r.callMethod(st, fn, path, leaf(p), b)[0], isNil)
		}
		if fn, _ := r.method(t, "UnmarshalText", true); fn != nil {
			ok := r.when(st, and(not(null), jIs(j, "jstr")), func(st *State) *DD {
				q := textOf("jstrOf", j)
				if j.s == "jstr" {
					q = j.args[0]
				}
				b := ex.newBytes(st, r.ci.ctx+"/json"+path, leaf(q))
				return map1(r.callMethod(st, fn, path, leaf(p), b)[0], isNil)
			}, ddF)
			return or(null, ok)
		}
	}
	put := func(c *DD, v *DD) {
		c = restrict(c, st.pc)
		if c != ddF {
			ex.store(st, p, t, ite(c, v, ex.load(st, p, t)))
		}
	}
	switch {
	case isPtr:
		a := ex.allocAt(r.ci.ctx + "/json" + path + "*")
		old := restrict(ex.load(st, p, t), st.pc)
		if old.leaf != tNil {
			panic(undecided("JSON decoded into an existing object"))
		}
		ex.initAlloc(st, a, pt.Elem())
		r.prefill(st, j, a, pt.Elem())
		put(not(null), leaf(a))
		ok := r.when(st, not(null), func(st *State) *DD { return r.decode(st, j, a, pt.Elem(), path+"*") }, ddT)
		return ok
	case isByteSlice(t):
		is := and(not(null), jIs(j, "jb64"))
		q := textOf("unjb64", j)
		if j.s == "jb64" {
			q = j.args[0]
		}
		put(null, zeroVal(t))
		put(is, ex.newBytes(st, r.ci.ctx+"/json"+path, leaf(q)))
		return or(null, is)
	}
	if lo, hi, isInt := intRange(t); isInt {
		v := pAtom(modZ, jTerm("jnumOf", j))
		if j.s == "jnum" {
			v = j.args[0]
		}
		is := and(and(not(null), jIs(j, "jnum")), and(le(pBig(lo), v), le(v, pBig(hi))))
		put(is, leaf(v))
		return or(null, is)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			q := textOf("jstrOf", j)
			if j.s == "jstr" {
				q = j.args[0]
			}
			is := and(not(null), jIs(j, "jstr"))
			put(is, leaf(q))
			return or(null, is)
		}
	case *types.Struct:
		if _, ok := openStruct(t); !ok {
			break
		}
		obj := and(not(null), jIs(j, "jobj"))
		ok := r.when(st, obj, func(st *State) *DD {
			all := ddT
			for i := 0; i < u.NumFields(); i++ {
				name, ok := jsonName(u.Field(i), u.Tag(i))
				if !ok {
					continue
				}
				v, has := jField(j, name)
				if has == ddF {
					continue
				}
				f := u.Field(i)
				all = and(all, r.when(st, has, func(st *State) *DD {
					return r.decode(st, v, fldPtr(p, f.Name()), f.Type(), path+"."+name)
				}, ddT))
			}
			return all
		}, ddF)
		return or(null, ok)
	case *types.Map:
		sym := symVal("jmap:"+typeKey(t), []*Term{j}, t)
		if old := restrict(ex.load(st, p, t), st.pc); old.leaf != tNil && (old != sym || jKnown(j)) {
			panic(undecided("JSON decoded into an existing map"))
		}
		if jKnown(j) {
			if j.s == jNull {
				return ddT
			}
			if j.s != "jmap:"+typeKey(t) {
				panic(undecided("JSON decoded into a map of another type"))
			}
			put(ddT, r.copyMap(st, leaf(j.args[0]), t, path))
			return ddT
		}
		is := and(not(null), mkAtom("is:jmap:"+typeKey(t), []*Term{j}))
		return or(null, is)
	}
	panic(undecided("JSON decoded into " + typeKey(t)))
}

// prefill gives the maps of an unknown document, which may be nil, their
// values: they are the same whether the document has them or not.
func (r *jsonRun) prefill(st *State, j, p *Term, t types.Type) {
	if jKnown(j) && !strings.HasPrefix(j.s, "jobj:") {
		return
	}
	for _, m := range []string{"UnmarshalJSON", "UnmarshalText"} {
		if fn, _ := r.method(t, m, true); fn != nil {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if _, ok := openStruct(t); !ok {
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			if name, ok := jsonName(u.Field(i), u.Tag(i)); ok {
				if v, has := jField(j, name); has != ddF {
					r.prefill(st, v, fldPtr(p, u.Field(i).Name()), u.Field(i).Type())
				}
			}
		}
	case *types.Map:
		if old := restrict(r.ex.load(st, p, t), st.pc); old.leaf == tNil && !jKnown(j) {
			r.ex.store(st, p, t, symVal("jmap:"+typeKey(t), []*Term{j}, t))
		}
	}
}

// copyMap copies a map as encoding and decoding it does: the model is a
// function of the harness.
func (r *jsonRun) copyMap(st *State, m *DD, t types.Type, path string) *DD {
	pkg := r.ex.prog.prog.ImportedPackage(modulePath + "/" + harnessPkg)
	for name, mem := range pkg.Members {
		fn, ok := mem.(*ssa.Function)
		if ok && strings.HasPrefix(name, "jsonMap") && types.Identical(fn.Signature.Params().At(0).Type(), t) {
			return r.callMethod(st, fn, path, m)[0]
		}
	}
	panic(undecided("JSON of map " + typeKey(t)))
}

// encode is the document of a value (at addr, if that is known), and whether
// there is one.
func (r *jsonRun) encode(st *State, v *DD, t types.Type, addr *Term, path string) (*DD, *DD) {
	ex := r.ex
	v = restrict(v, st.pc)
	nilJ := leaf(jTerm(jNull))
	pt, isPtr := t.Underlying().(*types.Pointer)
	for _, name := range []string{"MarshalJSON", "MarshalText"} {
		fn, byPtr := r.method(t, name, addr != nil)
		if fn == nil {
			continue
		}
		recv := v
		if byPtr {
			recv = leaf(addr)
		}
		isnil := ddF
		if isPtr {
			isnil = map1(v, isNil)
		}
		ok := ddT
		j := r.when(st, not(isnil), func(st *State) *DD {
			res := r.callMethod(st, fn, path, recv)
			q := ex.sliceBytes(st, restrict(res[0], st.pc))
			ok = map1(res[1], isNil)
			if name == "MarshalText" {
				return map1(q, func(q *Term) *DD { return leaf(jTerm("jstr", q)) })
			}
			ok = and(ok, map1(q, func(q *Term) *DD { _, is := jsonOf(q); return is }))
			return map1(q, func(q *Term) *DD { j, _ := jsonOf(q); return leaf(j) })
		}, nilJ)
		return j, or(isnil, ok)
	}
	switch {
	case isPtr:
		isnil := map1(v, isNil)
		ok := ddT
		j := r.when(st, not(isnil), func(st *State) *DD {
			w := restrict(v, st.pc)
			if w.leaf == nil {
				panic(undecided("JSON of one of several objects"))
			}
			var j *DD
			j, ok = r.encode(st, ex.load(st, w.leaf, pt.Elem()), pt.Elem(), w.leaf, path+"*")
			return j
		}, nilJ)
		return j, or(isnil, ok)
	case isByteSlice(t):
		isnil := map1(v, isNil)
		return ite(isnil, nilJ, map1(ex.sliceBytes(st, v), func(q *Term) *DD { return leaf(jTerm("jb64", q)) })), ddT
	}
	if _, _, isInt := intRange(t); isInt {
		return map1(v, func(x *Term) *DD { return leaf(jTerm("jnum", x)) }), ddT
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return map1(v, func(q *Term) *DD { return leaf(jTerm("jstr", q)) }), ddT
		}
	case *types.Struct:
		if _, ok := openStruct(t); !ok {
			break
		}
		var names []string
		var js []*DD
		all := ddT
		for i := 0; i < u.NumFields(); i++ {
			name, ok := jsonName(u.Field(i), u.Tag(i))
			if !ok {
				continue
			}
			var a *Term
			if addr != nil {
				a = fldPtr(addr, u.Field(i).Name())
			}
			j, k := r.encode(st, fieldOf(v, i), u.Field(i).Type(), a, path+"."+name)
			names, js, all = append(names, name), append(js, j), and(all, k)
		}
		return lift(js, func(ts []*Term) *DD {
			return leaf(jTerm("jobj:"+strings.Join(names, ","), append([]*Term{}, ts...)...))
		}), all
	case *types.Map:
		isnil := map1(v, isNil)
		j := r.when(st, not(isnil), func(st *State) *DD {
			return map1(r.copyMap(st, restrict(v, st.pc), t, path), func(m *Term) *DD { return leaf(jTerm("jmap:"+typeKey(t), m)) })
		}, nilJ)
		return j, ddT
	}
	panic(undecided("JSON of " + typeKey(t)))
}

func initJSONIntrinsics() {
	in := intrinsics
	in["encoding/json.Unmarshal"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		to := restrict(ci.args[1], st.pc)
		if to.leaf == nil || to.leaf.op != OIface {
			return nil, false
		}
		pt, ok := to.leaf.typ.Underlying().(*types.Pointer)
		p := restrict(to.leaf.dds[0], st.pc)
		if !ok || p.leaf == nil || p.leaf == tNil {
			return nil, false
		}
		q := restrict(ex.sliceBytes(st, ci.args[0]), st.pc)
		r := &jsonRun{ex, fr, ci}
		res := ex.split(fr, st, q, func(q *Term, st *State) []*DD {
			j, valid := jsonOf(q)
			r.prefill(st, j, p.leaf, pt.Elem())
			ok := r.when(st, valid, func(st *State) *DD { return r.decode(st, j, p.leaf, pt.Elem(), "") }, ddF)
			return []*DD{ite(ok, dNil, ex.newErr(ci))}
		}, ci.sig)
		return res, true
	}
	marshal := func(kind string) intrinsic {
		return func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
			v := restrict(ci.args[0], st.pc)
			if v.leaf == nil || v.leaf.op != OIface {
				return nil, false
			}
			r := &jsonRun{ex, fr, ci}
			j, ok := r.encode(st, v.leaf.dds[0], v.leaf.typ, nil, "")
			b := ex.newBytes(st, ci.ctx, map1(j, func(j *Term) *DD {
				if kind == "json" {
					return leaf(jsonText(j))
				}
				return leaf(textOf(kind, j))
			}))
			return []*DD{ite(ok, b, zeroVal(ci.sig.Results().At(0).Type())), ite(ok, dNil, ex.newErr(ci))}, true
		}
	}
	in["encoding/json.Marshal"] = marshal("json")
	in["encoding/json.MarshalIndent"] = marshal("jsonIndent")
	in["encoding/json.Valid"] = func(ex *Exec, fr *Frame, st *State, ci *callInfo) ([]*DD, bool) {
		return []*DD{map1(ex.sliceBytes(st, ci.args[0]), func(q *Term) *DD { _, ok := jsonOf(q); return ok })}, true
	}
}
