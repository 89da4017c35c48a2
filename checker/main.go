package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"
)

func repoDir() string {
	if d := os.Getenv("FROST_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	t0 := time.Now()
	initIntrinsics()
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println(err)
		if len(os.Args) == 5 && os.Args[1] == "check" {
			os.Exit(loadFailed(os.Args[2], os.Args[3], os.Args[4], err))
		}
		os.Exit(2)
	}
	if os.Args[1] == "init" {
		st := p.initState()
		fmt.Println(p.initErr)
		for _, k := range sortedKeys(st.mem.logs) {
			fmt.Println(k, st.mem.logs[k].val)
		}
		return
	}
	if os.Args[1] == "all" {
		dumpAll(p)
		return
	}
	if os.Args[1] == "check" {
		os.Exit(runCheck(p, os.Args[2], os.Args[3], os.Args[4], t0))
	}
	if os.Args[1] == "checkall" {
		rc := 0
		ids := map[string]bool{}
		for _, f := range p.harnessFuncs() {
			for s := range p.proveSites(f) {
				for _, i := range oblIDs(s) {
					ids[i] = true
				}
			}
		}
		for i := range rules {
			ids[i] = true
		}
		for _, i := range sortedBoolKeys(ids) {
			t := time.Now()
			if runCheck(p, i, "quick", os.Args[2], t) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	if os.Args[1] == "dump" {
		dump(p, os.Args[2], os.Args[3], os.Args[4])
	}
}

func dump(p *Program, rel, recv, name string) {
	defer func() {
		if e := recover(); e != nil {
			if u, ok := e.(undecidedErr); ok {
				fmt.Println("UNDECIDED", u.msg)
				return
			}
			panic(e)
		}
	}()
	f := p.fn(rel, recv, name)
	ex := newExec(p)
	ex.harnessOverrides()
	st := p.initState()
	var args []*DD
	for i, a := range f.Params {
		_ = i
		args = append(args, symVal("p:"+a.Name(), nil, a.Type()))
	}
	res, s := ex.callFn(f, args, nil, st, "top", nil)
	for i, r := range res {
		fmt.Println("result", i, r)
		if pt, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Pointer); ok && r.leaf == nil || ok && r.leaf.op == OAlloc {
			rt := r
			for rt.leaf == nil {
				if rt.hi.leaf != nil && rt.hi.leaf.op != ONil {
					rt = rt.hi
				} else {
					rt = rt.lo
				}
			}
			if rt.leaf.op != OAlloc {
				continue
			}
			v := ex.load(s, rt.leaf, pt.Elem())
			fmt.Println("   ->", v)
			dumpRefs(ex, s, v, 0)
		}
	}
	for _, e := range ex.events {
		if e.kind == "load" || e.kind == "append" {
			continue
		}
		if e.kind == "prove" {
			fmt.Println("PROVE", unsat(and(e.pc, not(e.args[0]))), e.what)
			if !unsat(and(e.pc, not(e.args[0]))) {
				for i, l := range restrict(e.args[0], e.pc).leaves() {
					fmt.Println("   ", i, l.t, "when", l.g)
				}
			}
			continue
		}
		fmt.Println("event", e.kind, e.what, p.prog.Fset.Position(e.pos), "pc:", e.pc, "extra:", e.extra, "args:", e.args)
	}
	if s != nil {
		for _, k := range sortedKeys(s.mem.logs) {
			if !strings.HasPrefix(k, "a:") {
				l := s.mem.logs[k]
				fmt.Println("mem", k, l.idx, l.val, l.guard)
			}
		}
	}
}

// dumpRefs prints what allocated references of a value point to.
func dumpRefs(ex *Exec, s *State, v *DD, n int) {
	if n > 3 || v.leaf == nil || v.leaf.op != OAgg {
		return
	}
	st, ok := v.leaf.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i, d := range v.leaf.dds {
		if pt, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok && d.leaf != nil && (d.leaf.op == OAlloc || d.leaf.op == OFld) {
			x := ex.load(s, d.leaf, pt.Elem())
			fmt.Println("     ", st.Field(i).Name(), "->", x)
			dumpRefs(ex, s, x, n+1)
		}
	}
}

var debugOn = os.Getenv("FDEBUG") != ""
