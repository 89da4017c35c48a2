package main

import (
	"embed"
	"go/types"
	"path/filepath"
)

//go:embed harness/*.go
var harnessFS embed.FS

const harnessPkg = "pkg/zzverif"

// harnessOverlay places the harness package inside the module for the type
// checker; nothing is written to disk.
func harnessOverlay(dir string) (map[string][]byte, error) {
	es, err := harnessFS.ReadDir("harness")
	if err != nil {
		return nil, err
	}
	out := map[string][]byte{}
	for _, e := range es {
		b, err := harnessFS.ReadFile("harness/" + e.Name())
		if err != nil {
			return nil, err
		}
		out[filepath.Join(dir, harnessPkg, e.Name())] = b
	}
	return out, nil
}

func (ex *Exec) harnessOverrides() {
	mod := modulePath + "/" + harnessPkg + "."
	ex.override[mod+"prove"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ex.event(fr, st, c.in, "prove", litString(c.args[0]), c.args[1])
		return nil, nil, true
	}
	ex.override[mod+"noPanic"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ex.event(fr, st, c.in, "noPanic", litString(c.args[0]))
		return nil, nil, true
	}
	ex.override[mod+"reach"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		ex.event(fr, st, c.in, "reach", litString(c.args[0]))
		return nil, nil, true
	}
	ex.ghostOverrides(mod)
	ex.commandOverrides(mod)
	ex.cmdOverrides(mod)
	ex.freshOverrides(mod)
	ex.walkOverrides(mod)
	ex.leakOverrides(mod)
	ex.fieldOverrides(mod)
	ex.coefOverrides(mod)
	for _, n := range []string{"anyScalar", "anyPoint", "anyExponent", "anyProof", "anyBool", "anyMessage", "anyPolynomial"} {
		ex.override[mod+n] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
			if n == "anyExponent" || n == "anyPolynomial" {
				pt := c.sig.Results().At(0).Type()
				lenBound["(any:"+litString(c.args[0])+")*."+listField(ptrElem(pt)).Name()] = [2]int64{1, 65536}
			}
			return []*DD{map1(c.args[1], func(t *Term) *DD {
				return symVal("any:"+litString(c.args[0]), []*Term{t}, c.sig.Results().At(0).Type())
			})}, nil, true
		}
	}
	// a commitment of known degree
	ex.override[mod+"anyExponentOf"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		pt := c.sig.Results().At(0).Type()
		name := "any:" + litString(c.args[0])
		u := pt.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			sl, ok := u.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			sig := "(" + name + ")*." + u.Field(i).Name()
			if st.mem.logs[sig] == nil {
				b := loopVar("any@", big0, bi(65535))
				h := symVal(sig, []*Term{pAtom(modZ, b)}, sl).leaf
				n := dAdd(c.args[2], dInt(1))
				st.mem.push(sig, &Layer{idx: []*Term{pAtom(modZ, b)}, val: map1(n, func(t *Term) *DD { return leaf(mkSlice(h.args[0], h.args[1], t, t)) }), guard: ddT, vars: []*Term{b}, doms: []*Term{tAll}, typ: u.Field(i).Type()})
			}
			return []*DD{map1(c.args[1], func(t *Term) *DD { return symVal(name, []*Term{t}, pt) })}, nil, true
		}
		panic(undecided("commitments without a list of coefficients"))
	}
}

// listField is the field of a polynomial type that lists the coefficients.
func listField(t types.Type) *types.Var {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided("polynomials are not structs"))
	}
	for i := 0; i < u.NumFields(); i++ {
		if _, ok := u.Field(i).Type().Underlying().(*types.Slice); ok {
			return u.Field(i)
		}
	}
	panic(undecided("polynomials without a list of coefficients"))
}

// coefOverrides gives the harness the coefficients of a polynomial and the
// point of a public key.
func (ex *Exec) coefOverrides(mod string) {
	ex.override[mod+"keyPoint"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		elem := ptrElem(c.sig.Results().At(0).Type())
		kt := ptrElem(c.sig.Params().At(0).Type())
		if types.Identical(kt.Underlying(), elem.Underlying()) {
			return []*DD{c.args[0]}, nil, true
		}
		u, ok := kt.Underlying().(*types.Struct)
		if !ok {
			panic(undecided("public keys are not structs"))
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			at := func() *DD { return map1(c.args[0], func(x *Term) *DD { return leaf(fldPtr(x, f.Name())) }) }
			if types.Identical(f.Type(), elem) {
				return []*DD{at()}, nil, true
			}
			if p, ok := f.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), elem) {
				return []*DD{ex.loadDD(fr, st, c.in, at(), f.Type())}, nil, true
			}
		}
		panic(undecided("public keys without a group element"))
	}
	list := func(fr *Frame, st *State, c *callInfo) (*DD, types.Type) {
		f := listField(ptrElem(c.sig.Params().At(0).Type()))
		return ex.loadDD(fr, st, c.in, map1(c.args[0], func(x *Term) *DD { return leaf(fldPtr(x, f.Name())) }), f.Type()), f.Type().Underlying().(*types.Slice).Elem()
	}
	count := func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		s, _ := list(fr, st, c)
		return []*DD{map1(s, func(x *Term) *DD {
			if x.op == ONil {
				return dInt(0)
			}
			return leaf(x.args[2])
		})}, nil, true
	}
	at := func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		s, et := list(fr, st, c)
		p := map2(s, c.args[1], func(x, i *Term) *DD {
			if x.op == ONil {
				return dNil
			}
			return leaf(idxPtr(x.args[0], pAdd(x.args[1], i), false))
		})
		if _, ok := et.Underlying().(*types.Pointer); ok {
			p = ex.loadDD(fr, st, c.in, p, et)
		}
		return []*DD{p}, nil, true
	}
	ex.override[mod+"coefficients"], ex.override[mod+"scalarCoefficients"] = count, count
	ex.override[mod+"coefficient"], ex.override[mod+"scalarCoefficient"] = at, at
	ex.override[mod+"lastPolynomial"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		if ex.lastPoly == nil {
			panic(undecided("no sharing polynomial is made"))
		}
		return []*DD{ex.lastPoly}, nil, true
	}
}

func litString(d *DD) string {
	if d.leaf != nil && d.leaf.op == OSeq && len(d.leaf.args) == 1 && d.leaf.args[0].op == OBytes {
		return d.leaf.args[0].s
	}
	return d.String()
}
