package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loop struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	liveOut []ssa.Value
	fn      *ssa.Function
}

type loopInfoT struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*Loop
}

type Program struct {
	prog       *ssa.Program
	pkgs       []*packages.Package
	spkgs      []*ssa.Package
	infos      map[*ssa.Function]*loopInfoT
	ids        map[ssa.Instruction]string
	root       string
	all        map[*ssa.Function]bool
	init       *State
	cache      map[*ssa.Function]cached
	initErr    []string
	lost       map[string]*lostHarness // what does not fit the source
	initLogs   map[string]*Layer
	globalUses map[*ssa.Global][]ssa.Instruction
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off")}
	ov, err := harnessOverlay(dir)
	if err != nil {
		return nil, err
	}
	cfg.Overlay = ov
	lost := map[string]*lostHarness{}
	var ps []*packages.Package
	for round := 0; ; round++ {
		if ps, err = packages.Load(cfg, "./..."); err != nil {
			return nil, err
		}
		var errs []packages.Error
		packages.Visit(ps, nil, func(p *packages.Package) { errs = append(errs, p.Errors...) })
		if len(errs) == 0 {
			break
		}
		fit, other := unfit(errs, ov, lost)
		if len(other) > 0 || !fit || round > 20 {
			for _, e := range errs {
				other = append(other, e.Error())
			}
			return nil, fmt.Errorf("type errors: %s", strings.Join(other, "; "))
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: ps, spkgs: sp, infos: map[*ssa.Function]*loopInfoT{}, ids: map[ssa.Instruction]string{}, root: dir, initLogs: map[string]*Layer{}, cache: map[*ssa.Function]cached{}, lost: lost}
	return p, nil
}

// pkg finds a module package by its path relative to the module.
func (p *Program) pkg(rel string) *ssa.Package {
	for _, s := range p.spkgs {
		if s != nil && s.Pkg.Path() == modulePath+"/"+rel {
			return s
		}
	}
	panic(undecided("package " + rel + " not found"))
}

// fn finds a function or method: pkg rel path, optional receiver type, name.
func (p *Program) fn(rel, recv, name string) *ssa.Function {
	f := p.lookupFn(rel, recv, name)
	if f == nil {
		panic(undecided("function " + rel + "." + recv + "." + name + " not found"))
	}
	return f
}

func (p *Program) lookupFn(rel, recv, name string) *ssa.Function {
	pk := p.pkg(rel)
	if recv == "" {
		return pk.Func(name)
	}
	t := pk.Type(recv)
	if t == nil {
		return nil
	}
	T := t.Type()
	for _, x := range []types.Type{T, types.NewPointer(T)} {
		if sel := p.prog.MethodSets.MethodSet(x).Lookup(pk.Pkg, name); sel != nil {
			return p.prog.MethodValue(sel)
		}
	}
	return nil
}

func (p *Program) typ(rel, name string) types.Type {
	t := p.pkg(rel).Type(name)
	if t == nil {
		panic(undecided("type " + rel + "." + name + " not found"))
	}
	return t.Type()
}

func (p *Program) instrID(in ssa.Instruction) string {
	if s, ok := p.ids[in]; ok {
		return s
	}
	fn := in.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			p.ids[i] = fmt.Sprintf("%s:%d", fn.Name(), n)
			n++
		}
	}
	return p.ids[in]
}

func (p *Program) loopID(l *Loop) string {
	return fmt.Sprintf("%s:L%d", l.fn.Name(), l.header.Index)
}

func (p *Program) loopInfo(fn *ssa.Function) *loopInfoT {
	if i, ok := p.infos[fn]; ok {
		return i
	}
	info := &loopInfoT{byHeader: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		// reached only after a recovered panic
		_ = fn.Recover
	}
	for i := len(post) - 1; i >= 0; i-- {
		info.rpo = append(info.rpo, post[i])
	}
	for _, b := range info.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := info.byHeader[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, fn: fn}
					info.byHeader[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	// a reverse post order that keeps loop bodies before their exits is not
	// needed: loops are summarised when the header is met.
	for _, l := range info.byHeader {
		var bs []*ssa.BasicBlock
		for b := range l.blocks {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
		for _, b := range bs {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						l.liveOut = append(l.liveOut, v)
						break
					}
					// used by a phi of an exit block: handled through edges
				}
			}
		}
	}
	p.infos[fn] = info
	return info
}

// moduleFuncs lists all source functions of the module (methods and closures included).
func (p *Program) moduleFuncs(skip func(path string) bool) []*ssa.Function {
	if p.all == nil {
		p.all = ssautil.AllFunctions(p.prog)
	}
	var out []*ssa.Function
	for f := range p.all {
		pk := f.Pkg
		if pk == nil && f.Parent() != nil {
			pk = f.Parent().Pkg
		}
		if pk == nil || !isModulePkg(pk.Pkg) || f.Synthetic != "" || f.Blocks == nil {
			continue
		}
		rel := strings.TrimPrefix(pk.Pkg.Path(), modulePath+"/")
		if skip != nil && skip(rel) {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if a, b := out[i].String(), out[j].String(); a != b {
			return a < b
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

func (p *Program) posStr(x token.Pos) string {
	q := p.prog.Fset.Position(x)
	if !q.IsValid() {
		return "?"
	}
	return strings.TrimPrefix(q.String(), p.root+"/")
}
