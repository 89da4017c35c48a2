package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package variables that no function other than a package initialiser can
// change keep the values the initialisers give them.  The initialisers are
// interpreted once and the resulting memory is the entry state of every
// analysis.

func (p *Program) initState() *State {
	if p.init != nil {
		return p.init.clone()
	}
	ex := newExec(p)
	st := &State{pc: ddT, mem: newMem()}
	done := map[*types.Package]bool{}
	var visit func(pk *types.Package)
	visit = func(pk *types.Package) {
		if done[pk] || !isModulePkg(pk) {
			return
		}
		done[pk] = true
		for _, i := range pk.Imports() {
			visit(i)
		}
		sp := p.prog.Package(pk)
		if sp == nil || sp.Func("init") == nil || sp.Func("init").Blocks == nil {
			return
		}
		f := sp.Func("init")
		guard := "g:" + sp.Pkg.Path() + ".init$guard"
		s := st.clone()
		s.mem.writeLoc(guard, nil, ddF, types.Typ[types.Bool])
		func() {
			defer func() {
				if e := recover(); e != nil {
					u, ok := e.(undecidedErr)
					if !ok {
						panic(e)
					}
					p.initErr = append(p.initErr, pk.Path()+": "+u.msg)
				}
			}()
			_, r := ex.callFn(f, nil, nil, s, "init("+pk.Path()+")", nil)
			if r != nil && r.pc == ddT {
				st = r
			}
		}()
	}
	for _, sp := range p.spkgs {
		if sp != nil {
			visit(sp.Pkg)
		}
	}
	// variables that may change later are unknown
	mut := map[string]bool{}
	for _, sp := range p.spkgs {
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && p.mutable(g) {
				mut["g:"+g.String()] = true
			}
		}
	}
	for k := range st.mem.logs {
		if !strings.HasPrefix(k, "g:") {
			continue
		}
		n := strings.TrimRight(k, "[]")
		for m := range mut {
			if k == m || n == m || strings.HasPrefix(k, m+".") || strings.HasPrefix(k, m+"[") {
				delete(st.mem.logs, k)
			}
		}
	}
	p.init = st
	for k, l := range st.mem.logs {
		p.initLogs[k] = l
	}
	return st.clone()
}

// mutable reports whether a function other than an initialiser stores to g or
// lets its address escape.
func (p *Program) mutable(g *ssa.Global) bool {
	if p.globalUses == nil {
		p.globalUses = map[*ssa.Global][]ssa.Instruction{}
		for fn := range p.allFuncs() {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if x, ok := (*o).(*ssa.Global); ok {
							p.globalUses[x] = append(p.globalUses[x], in)
						}
					}
				}
			}
		}
	}
	var esc func(in ssa.Instruction, addr ssa.Value) bool
	esc = func(in ssa.Instruction, addr ssa.Value) bool {
		switch x := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
			return false
		case *ssa.FieldAddr:
			for _, r := range *x.Referrers() {
				if esc(r, x) {
					return true
				}
			}
			return false
		case *ssa.IndexAddr:
			for _, r := range *x.Referrers() {
				if esc(r, x) {
					return true
				}
			}
			return false
		case *ssa.BinOp:
			return false
		}
		return true
	}
	for _, in := range p.globalUses[g] {
		if esc(in, g) {
			return true
		}
	}
	return false
}

func (p *Program) allFuncs() map[*ssa.Function]bool {
	p.moduleFuncs(nil)
	return p.all
}
