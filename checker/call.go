package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	fn   *ssa.Function
	name string
	in   ssa.Instruction
	sig  *types.Signature
	args []*DD
	ctx  string
}

func (ex *Exec) call(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon) []*DD {
	var args []*DD
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	return ex.callWith(fr, st, in, c, ex.val(fr, c.Value), args)
}

func (ex *Exec) callWith(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fnv *DD, args []*DD) []*DD {
	for i := range args {
		args[i] = restrict(args[i], st.pc)
	}
	fnv = restrict(fnv, st.pc)
	if c.IsInvoke() {
		return ex.split(fr, st, fnv, func(t *Term, s *State) []*DD {
			return ex.invoke(fr, s, in, c, t, args)
		}, c.Signature())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, st, in, b.Name(), c, args)
	}
	return ex.split(fr, st, fnv, func(t *Term, s *State) []*DD {
		if t.op == OFunc {
			return ex.dispatch(fr, s, in, t.fn.(*ssa.Function), args, t.dds)
		}
		if t.op == ONil {
			e := ex.event(fr, s, in, "nilderef", "call of nil function")
			e.extra = s.pc
			s.pc = ddF
			return zeros(c.Signature())
		}
		return ex.opaque(fr, s, in, "funcvalue "+t.String(), c.Signature(), args)
	}, c.Signature())
}

func zeros(sig *types.Signature) []*DD {
	out := make([]*DD, sig.Results().Len())
	for i := range out {
		out[i] = zeroVal(sig.Results().At(i).Type())
	}
	return out
}

// split runs f for every leaf of v and joins the results.
func (ex *Exec) split(fr *Frame, st *State, v *DD, f func(t *Term, s *State) []*DD, sig *types.Signature) []*DD {
	ls := v.leaves()
	if len(ls) == 1 {
		return f(ls[0].t, st)
	}
	var es []Edge
	for _, l := range ls {
		s := st.clone()
		s.pc = and(st.pc, l.g)
		if s.pc == ddF {
			continue
		}
		r := f(l.t, s)
		es = append(es, Edge{st: s, phis: r})
	}
	s, r := mergeEdges(es)
	if s == nil {
		st.pc = ddF
		return zeros(sig)
	}
	*st = *s
	return r
}

func (ex *Exec) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, recv *Term, args []*DD) []*DD {
	switch recv.op {
	case OIface:
		ms := ex.prog.prog.MethodSets.MethodSet(recv.typ)
		sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			panic(undecided("no method " + c.Method.Name() + " on " + typeKey(recv.typ)))
		}
		fn := ex.prog.prog.MethodValue(sel)
		return ex.dispatch(fr, st, in, fn, append([]*DD{recv.dds[0]}, args...), nil)
	case ONil:
		e := ex.event(fr, st, in, "nilderef", "method call on nil interface")
		e.extra = st.pc
		st.pc = ddF
		return zeros(c.Signature())
	}
	ci := &callInfo{name: "invoke:" + c.Method.Name(), in: in, sig: c.Signature(), args: append([]*DD{leaf(recv)}, args...), ctx: ex.ctxOf(fr, in)}
	if o := ex.override[ci.name]; o != nil {
		if r, s, ok := o(ex, fr, st, ci); ok {
			if s != nil {
				*st = *s
			}
			return r
		}
	}
	if h := invokes[c.Method.Name()]; h != nil {
		if r, ok := h(ex, fr, st, ci); ok {
			return r
		}
	}
	if strings.HasPrefix(recv.s, "err:") || isErrLike(c) {
		return ex.symResults("invoke:"+c.Method.Name(), []*Term{recv}, c.Signature())
	}
	return ex.opaque(fr, st, in, "invoke "+c.Method.Name()+" on "+recv.String(), c.Signature(), ci.args)
}

func isErrLike(c *ssa.CallCommon) bool {
	return c.Method.Name() == "Error" && c.Signature().Params().Len() == 0
}

func (ex *Exec) symResults(name string, args []*Term, sig *types.Signature) []*DD {
	out := make([]*DD, sig.Results().Len())
	for i := range out {
		n := name
		if i > 0 {
			n += fmt.Sprintf("#%d", i)
		}
		out[i] = symVal(n, args, sig.Results().At(i).Type())
	}
	return out
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.String()
}

func (ex *Exec) dispatch(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []*DD, binds []*DD) []*DD {
	ctx := ex.ctxOf(fr, in)
	ci := &callInfo{fn: fn, name: fnName(fn), in: in, sig: fn.Signature, args: args, ctx: ctx}
	ex.sink(fr, st, ci)
	if o := ex.override[ci.name]; o != nil {
		r, s, ok := o(ex, fr, st, ci)
		if ok {
			if s != nil {
				*st = *s
			}
			return r
		}
	}
	if fn.Name() == "init" && strings.Contains(fn.Synthetic, "package init") {
		return nil // ordered by initState
	}
	if h := intrinsics[ci.name]; h != nil {
		if r, ok := h(ex, fr, st, ci); ok {
			return r
		}
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		pkg = fn.Object().Pkg()
	} else if p := fn.Parent(); p != nil && p.Pkg != nil {
		pkg = p.Pkg.Pkg
	}
	if fn.Blocks != nil && (pkg == nil || isModulePkg(pkg) || fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "package init")) {
		res, s := ex.callFn(fn, args, binds, st, ctx, fr)
		*st = *s
		if ci.name == modulePath+"/pkg/internal/polynomial.NewPolynomial" {
			ex.lastPoly = res[0]
		}
		return res
	}
	return ex.opaque(fr, st, in, ci.name, fn.Signature, args)
}

// pure external functions: results depend on the arguments only
var pureExt = map[string]bool{
	"strings.Repeat": true, "strings.Join": true, "filepath.Join": true, "path/filepath.Join": true,
	"strconv.Itoa": true, "strconv.Atoi": true, "strconv.ParseUint": true, "strconv.ParseInt": true, "strconv.FormatUint": true, "strconv.FormatInt": true,
	"strings.TrimSpace": true, "strings.Split": true, "encoding/hex.EncodeToString": true, "encoding/hex.DecodeString": true,
	"(*encoding/base64.Encoding).EncodeToString": true, "(*encoding/base64.Encoding).DecodeString": true,
	"math/rand.Int31n": true, "math/rand.Intn": true, "time.Now": true, "bytes.Compare": true,
	"path/filepath.Base": true, "math.Pow": true, "errors.Is": true, "errors.Unwrap": true, "strings.Contains": true,
}

// effectful external functions that do not modify memory the analysis tracks
var effectExt = map[string]bool{
	"fmt.Print": true, "fmt.Println": true, "fmt.Printf": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"os.Exit": true, "os.WriteFile": true, "io/ioutil.WriteFile": true, "os.ReadFile": true, "io/ioutil.ReadFile": true,
	"os.Remove": true, "os.MkdirAll": true, "log.Println": true, "log.Printf": true, "log.Fatal": true, "log.Fatalf": true,
	"flag.Parse": true, "flag.Args": true, "flag.Usage": true, "flag.NArg": true, "flag.Arg": true, "flag.PrintDefaults": true,
	"runtime.KeepAlive": true, "runtime.GC": true, "runtime.Gosched": true,
	"os.Getwd": true, "os.Stat": true, "os.Chmod": true, "os.Rename": true,
}

func (ex *Exec) opaque(fr *Frame, st *State, in ssa.Instruction, name string, sig *types.Signature, args []*DD) []*DD {
	if ex.leaks != nil {
		for _, a := range args {
			ex.leak(fr, st, in, "no secret is passed to "+name, a, nil)
		}
	}
	e := ex.event(fr, st, in, "extern", name, args...)
	key := "ext:" + name
	var ts []*Term
	for _, a := range args {
		ts = append(ts, ex.reify(st, a))
	}
	if !pureExt[name] {
		if !effectExt[name] {
			for i, a := range args {
				if i < sig.Params().Len() || sig.Recv() != nil {
					_ = a
				}
			}
			ex.unknown = append(ex.unknown, name)
			if ex.strict {
				panic(undecided("call of unmodelled function " + name))
			}
		}
		key += "@" + ex.ctxOf(fr, in)
		ts = ex.loopIdx()
	}
	e.res = ex.symResults(key, ts, sig)
	return e.res
}

// reify turns a value into a term usable as an argument.
func (ex *Exec) reify(st *State, d *DD) *Term {
	if d.leaf != nil {
		t := d.leaf
		if t.op == OSlice {
			ok := true
			var q *DD
			func() {
				defer func() {
					if r := recover(); r != nil {
						ok = false
					}
				}()
				q = ex.sliceBytes(st, d)
			}()
			if ok && q.leaf != nil && q.leaf.op == OSeq && isByteArr(st, t) {
				return q.leaf
			}
		}
		return t
	}
	return intern(&Term{op: OAgg, s: "dd", dds: []*DD{d}})
}

func isByteArr(st *State, t *Term) bool {
	if t.args[0].op == ONil {
		return true
	}
	sig, _ := locOf(t.args[0])
	if l := st.mem.logs[sig]; l != nil && l.val != nil && anyLeaf(l.val).op == OSeq {
		return true
	}
	if t.args[0].op == OBase && t.args[0].typ != nil {
		if sl, ok := t.args[0].typ.Underlying().(*types.Slice); ok {
			return isByte(sl.Elem())
		}
	}
	return false
}

// ---------------------------------------------------------------- builtins

func (ex *Exec) builtin(fr *Frame, st *State, in ssa.Instruction, name string, c *ssa.CallCommon, args []*DD) []*DD {
	switch name {
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			k := 2
			if name == "cap" {
				k = 3
			}
			return []*DD{map1(args[0], func(t *Term) *DD {
				if t.op != OSlice {
					panic(undecided("length of " + t.String()))
				}
				return leaf(t.args[k])
			})}
		case *types.Basic:
			return []*DD{map1(args[0], func(t *Term) *DD {
				if t.op == OSeq {
					return leaf(seqLen(t))
				}
				return dAtom(modZ, intern(&Term{op: OApp, s: "strlen", args: []*Term{t}, lo: big0, hi: maxLen}))
			})}
		case *types.Map:
			return []*DD{map1(args[0], func(t *Term) *DD { return ex.mapLen(st, t) })}
		case *types.Pointer:
			return []*DD{dInt(u.Elem().Underlying().(*types.Array).Len())}
		case *types.Array:
			return []*DD{dInt(u.Len())}
		}
	case "append":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		ex.event(fr, st, in, "append", "", args...)
		if isByte(et) {
			return []*DD{ex.appendBytes(fr, st, in, args[0], ex.sliceBytes(st, args[1]))}
		}
		return []*DD{ex.appendElems(fr, st, in, args[0], args[1], et)}
	case "copy":
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if isByte(et) {
			src := ex.sliceBytes(st, args[1])
			return []*DD{ex.copyBytes(fr, st, args[0], src)}
		}
		n := map2(args[0], args[1], func(a, b *Term) *DD { return dMin(a.args[2], b.args[2]) })
		if args[0].leaf == nil {
			panic(undecided("copy to conditional slices"))
		}
		if dst := args[0].leaf; dst.args[0].op != ONil {
			for _, src := range args[1].leaves() {
				k := restrict(dMin(dst.args[2], src.t.args[2]), and(st.pc, src.g))
				if src.t.args[0].op == ONil || k == dInt(0) {
					continue
				}
				if k.leaf == nil {
					panic(undecided("copy of conditional length"))
				}
				ex.copyElems(st, dst.args[0], dst.args[1], src.t, k.leaf, et, ex.ctxOf(fr, in), src.g)
			}
		}
		return []*DD{n}
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		ex.event(fr, st, in, "mapdelete", "", args...)
		for _, l := range args[0].leaves() {
			for _, k := range args[1].leaves() {
				g := restrict(and(l.g, k.g), st.pc)
				if g != ddF && l.t.op != ONil {
					ex.mapWrite(st, l.t, k.t, nil, ddF, mt.Elem(), g)
				}
			}
		}
		return nil
	case "close":
		ex.event(fr, st, in, "close", "", args...)
		ex.closeChan(fr, st, in, args[0])
		return nil
	case "print", "println":
		if ex.leaks != nil {
			for i, a := range args {
				ex.leak(fr, st, in, "no secret is printed", a, c.Args[i].Type())
			}
		}
		return nil
	case "panic":
		ex.event(fr, st, in, "panic", "explicit panic", args...)
		st.pc = ddF
		return nil
	case "recover":
		return []*DD{leaf(tNil)}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			if name == "min" {
				r = map2(r, a, dMin)
			} else {
				r = map2(r, a, func(x, y *Term) *DD { return ite(le(x, y), leaf(y), leaf(x)) })
			}
		}
		return []*DD{r}
	case "clear":
		panic(undecided("clear"))
	case "ssa:wrapnilchk":
		ex.nilCheck(fr, st, in, args[0])
		return []*DD{args[0]}
	}
	panic(undecided("builtin " + name))
}

func dMin(a, b *Term) *DD { return ite(le(a, b), leaf(a), leaf(b)) }

// copyBytes copies src to the start of dst.
func (ex *Exec) copyBytes(fr *Frame, st *State, dst, src *DD) *DD {
	n := map2(dst, src, func(d, s *Term) *DD {
		if d.args[0].op == ONil {
			return dInt(0)
		}
		return dMin(d.args[2], seqLen(s))
	})
	for _, l := range dst.leaves() {
		g := restrict(l.g, st.pc)
		if g == ddF || l.t.args[0].op == ONil {
			continue
		}
		arr := l.t.args[0]
		c := ex.bytesOf(st, arr)
		nc := lift([]*DD{c, src, n}, func(ts []*Term) *DD {
			w := ts[1]
			if ts[2] != seqLen(w) {
				w = subSeq(w, pInt(0), ts[2])
			}
			return leaf(splice(ts[0], l.t.args[1], w))
		})
		sig, idx := locOf(arr)
		st.mem.writeLoc(sig, idx, restrict(ite(g, nc, c), st.pc), nil)
	}
	return n
}
