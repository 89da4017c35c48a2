package main

// Stand-ins: the harness replaces functions by its own.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fullName is the name go/ssa gives a function written with a path relative to
// the module.
func fullName(n string) string {
	for _, d := range []string{"pkg/", "cmd/"} {
		for _, p := range []string{"(*", "(", ""} {
			if strings.HasPrefix(n, p+d) {
				return p + modulePath + "/" + n[len(p):]
			}
		}
	}
	return n
}

func (ex *Exec) commandOverrides(mod string) {
	ex.override[mod+"replace"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		f := c.args[1]
		if f.leaf != nil && f.leaf.op == OIface {
			f = f.leaf.dds[0]
		}
		if f.leaf == nil || f.leaf.op != OFunc {
			panic(undecided("a stand-in that is not a function"))
		}
		t := f.leaf
		name := fullName(litString(c.args[0]))
		old := ex.override[name]
		var me func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool)
		me = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
			ex.override[name] = old // the stand-in may use what it stands for
			defer func() { ex.override[name] = me }()
			r, s := ex.callFn(t.fn.(*ssa.Function), c.args, t.dds, st, c.ctx, fr)
			return r, s, true
		}
		ex.override[name] = me
		return nil, nil, true
	}
}

// aggArg gives the struct or pointer to one that an interface holds.
func ifaceOf(d *DD) *Term {
	if d.leaf == nil || d.leaf.op != OIface {
		panic(undecided("a value of unknown type"))
	}
	return d.leaf
}

// fieldOfType finds the field of a struct type that has the given type.
func fieldOfType(t types.Type, ft types.Type) (*types.Var, int) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), ft) {
				return s.Field(i), i
			}
		}
	}
	panic(undecided("no field of type " + short(ft.String()) + " in " + short(t.String())))
}

type printRec struct {
	pc   *DD
	v    *DD
	text bool
}

func (ex *Exec) printed(fr *Frame, st *State, c *callInfo) {
	words := ""
	var args []*DD
	for i := range c.args {
		a := c.args[i]
		p := c.sig.Params().At(i).Type()
		switch {
		case c.sig.Variadic() && i == c.sig.Params().Len()-1:
			args = append(args, ex.variadic(fr, st, c, a)...)
		case types.Identical(p, types.Typ[types.String]):
			args = append(args, leaf(intern(&Term{op: OIface, typ: p, dds: []*DD{a}})))
		}
	}
	for _, a := range args {
		for _, l := range a.leaves() {
			t := l.t
			if t.op != OIface {
				continue
			}
			u := t.typ.Underlying()
			if len(ex.loops) > 0 {
				continue
			}
			if types.Identical(u, types.Typ[types.String]) {
				d := t.dds[0]
				if d.leaf != nil && d.leaf.op == OSeq {
					for _, x := range d.leaf.args {
						if x.op == OBytes {
							words += x.s + " "
						}
					}
				}
				ex.prints = append(ex.prints, printRec{andN(st.pc, l.g), d, true})
			} else if isByteSlice(t.typ) {
				ex.prints = append(ex.prints, printRec{andN(st.pc, l.g), ex.sliceBytes(st, t.dds[0]), false})
			}
		}
	}
	if strings.Contains(words, "Success") {
		ex.setGhost(st, "@success", nil, dInt(1))
	}
}

// variadic lists the arguments of a call with a literal argument list.
func (ex *Exec) variadic(fr *Frame, st *State, c *callInfo, a *DD) []*DD {
	if a.leaf == nil || a.leaf.op != OSlice {
		return nil
	}
	n, ok := a.leaf.args[2].intVal()
	if !ok {
		return nil
	}
	et := c.sig.Params().At(c.sig.Params().Len() - 1).Type().Underlying().(*types.Slice).Elem()
	var out []*DD
	for i := int64(0); i < n; i++ {
		out = append(out, ex.loadDD(fr, st, c.in, leaf(idxPtr(a.leaf.args[0], pAdd(a.leaf.args[1], pInt(i)), false)), et))
	}
	return out
}

func (ex *Exec) cmdOverrides(mod string) {
	o := func(name string, f func(fr *Frame, st *State, c *callInfo) []*DD) {
		ex.override[name] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
			return f(fr, st, c), nil, true
		}
	}
	any := func(prefix string, c *callInfo) []*DD {
		return []*DD{map1(c.args[1], func(t *Term) *DD {
			return symVal(prefix+litString(c.args[0]), []*Term{t}, c.sig.Results().At(0).Type())
		})}
	}
	for _, n := range []string{"anySession", "anyKeygenOutput", "anySignOutput", "anySignature", "anyKeyShare", "anyPublic", "anyBytes", "anySecrets"} {
		prefix := "any:"
		if n == "anySecrets" {
			prefix = "some:" // its entries may be nil
		}
		o(mod+n, func(fr *Frame, st *State, c *callInfo) []*DD { return any(prefix, c) })
	}
	owner := func(fr *Frame, st *State, c *callInfo) []*DD {
		return []*DD{map1(restrict(c.args[0], st.pc), func(t *Term) *DD {
			if t.op == ONil {
				return dInt(0)
			}
			if t.op == OBase && len(t.args) > 0 {
				return leaf(t.args[len(t.args)-1])
			}
			panic(undecided("a session of nobody: " + t.String()))
		})}
	}
	o(mod+"sessionOwner", owner)
	o(mod+"entryOf", owner)
	o(mod+"unknown", func(fr *Frame, st *State, c *callInfo) []*DD {
		return []*DD{mkAtom("unknown:"+c.ctx, ex.loopIdx())}
	})
	o(mod+"stop", func(fr *Frame, st *State, c *callInfo) []*DD {
		st.pc = ddF
		return []*DD{}
	})
	o(mod+"successPrinted", func(fr *Frame, st *State, c *callInfo) []*DD {
		return []*DD{eqDD(ex.ghost(st, "@success", nil), dInt(1))}
	})
	was := func(q *DD) *DD {
		r := ddF
		for _, p := range ex.prints {
			eq := map2(q, p.v, func(a, b *Term) *DD {
				if w := wholeOf(b); w != nil && w.op == OApp && w.s == "hex" {
					b = w.args[0]
				}
				return eqSeq(a, b)
			})
			r = or(r, and(p.pc, eq))
		}
		return r
	}
	o(mod+"wasPrinted", func(fr *Frame, st *State, c *callInfo) []*DD {
		return []*DD{was(ex.sliceBytes(st, c.args[0]))}
	})
	o(mod+"wasNamed", func(fr *Frame, st *State, c *callInfo) []*DD {
		return []*DD{was(c.args[0])}
	})
	in := func(fr *Frame, st *State, c *callInfo) []*DD {
		t := ifaceOf(c.args[0])
		v, typ := t.dds[0], t.typ
		if p, ok := typ.Underlying().(*types.Pointer); ok {
			typ = p.Elem()
			v = ex.loadDD(fr, st, c.in, v, typ)
		}
		f, i := fieldOfType(typ, c.sig.Results().At(0).Type())
		ex.event(fr, st, c.in, "jsonfield", ex.jsonFieldName(typ, f, i))
		return []*DD{map1(v, func(a *Term) *DD { return a.dds[i] })}
	}
	o(mod+"secretsIn", in)
	o(mod+"publicIn", in)
	o(mod+"decodeInto", func(fr *Frame, st *State, c *callInfo) []*DD {
		t := ifaceOf(c.args[0])
		p, ok := t.typ.Underlying().(*types.Pointer)
		if !ok {
			panic(undecided("decoding into no pointer"))
		}
		for k := 1; k <= 2; k++ {
			f, i := fieldOfType(p.Elem(), c.sig.Params().At(k).Type())
			ex.event(fr, st, c.in, "jsonfield", ex.jsonFieldName(p.Elem(), f, i))
			ex.storeDD(fr, st, c.in, map1(t.dds[0], func(x *Term) *DD { return leaf(fldPtr(x, f.Name())) }), f.Type(), c.args[k])
		}
		return []*DD{}
	})
	ex.override[mod+"runCommand"] = func(ex *Exec, fr *Frame, st *State, c *callInfo) ([]*DD, *State, bool) {
		pkg := ex.prog.prog.ImportedPackage(modulePath + "/" + litString(c.args[0]))
		if pkg == nil {
			panic(undecided("no command " + litString(c.args[0])))
		}
		ex.setGhost(st, "@success", nil, dInt(0))
		for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "log.Print", "log.Println", "log.Printf"} {
			o(n, func(fr *Frame, st *State, c *callInfo) []*DD {
				ex.printed(fr, st, c)
				return ex.opaque(fr, st, c.in, c.name, c.sig, c.args)
			})
		}
		for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln"} {
			o(n, func(fr *Frame, st *State, c *callInfo) []*DD {
				if n == "os.Exit" && and(st.pc, eqDD(c.args[0], dInt(0))) != ddF && andN(st.pc, eqDD(ex.ghost(st, "@success", nil), dInt(1))) != ddF {
					panic(undecided("exit after reporting success"))
				}
				st.pc = ddF
				return zeros(c.sig)
			})
		}
		_, s := ex.callFn(pkg.Func("main"), nil, nil, st, c.ctx, fr)
		return nil, s, true
	}
}

func (ex *Exec) jsonFieldName(t types.Type, f *types.Var, i int) string {
	n, ok := jsonName(f, t.Underlying().(*types.Struct).Tag(i))
	if !ok {
		panic(undecided("field " + f.Name() + " is not in the JSON"))
	}
	return short(f.Type().String()) + " " + n
}

func init() {
	addRule("C22", "the commands agree on the file that holds the keys", func(c *Ctx) {
		names := map[string]map[string]bool{}
		for _, f := range c.p.harnessFuncs() {
			if f.Name() != "KeygenCommand" && f.Name() != "SignCommand" {
				continue
			}
			ex, err := c.p.analyse(f)
			if err != "" {
				c.violate("harness "+f.Name(), "the analysis has to decide every construct", err)
				return
			}
			names[f.Name()] = map[string]bool{}
			for _, e := range ex.events {
				if e.kind == "jsonfield" {
					names[f.Name()][e.what] = true
				}
			}
		}
		w, r := sortedKeys(names["KeygenCommand"]), sortedKeys(names["SignCommand"])
		c.oblige(len(r) == 2 && strings.Join(w, ";") == strings.Join(r, ";"), "cmd", "the signing command reads the fields that the key generation command writes", "written: "+strings.Join(w, "; ")+", read: "+strings.Join(r, "; "))
	})
}
