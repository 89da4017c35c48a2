package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// A harness that does not fit the source (a function of the library that it
// uses is gone, or takes other arguments) cannot be checked. It is taken out,
// so that the other harnesses still decide what they are about, and each of
// its obligations is reported as not shown.

// lostHarness is a declaration that was taken out, and why.
type lostHarness struct {
	name, err string
	texts     []string
	refs      []string
}

var obligationText = regexp.MustCompile(`^C\d\d(,C\d\d)* `)

// unfit takes the declarations of the harness out that the errors point to. It
// reports whether any was found, and what is wrong outside of the harness.
func unfit(errs []packages.Error, ov map[string][]byte, lost map[string]*lostHarness) (bool, []string) {
	changed := false
	var other []string
	byFile := map[string][]packages.Error{}
	for _, e := range errs {
		file, _, _ := splitPos(e.Pos)
		if _, ok := ov[file]; !ok {
			other = append(other, e.Error())
			continue
		}
		byFile[file] = append(byFile[file], e)
	}
	for file, es := range byFile {
		src := ov[file]
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			other = append(other, err.Error())
			continue
		}
		out := append([]byte{}, src...)
		blank := func(n ast.Node) {
			for i := fset.Position(n.Pos()).Offset; i < fset.Position(n.End()).Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
			changed = true
		}
		for _, e := range es {
			_, line, col := splitPos(e.Pos)
			off := offsetOf(src, line, col)
			found := false
			for _, d := range f.Decls {
				if off < fset.Position(d.Pos()).Offset || off >= fset.Position(d.End()).Offset {
					continue
				}
				found = true
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
					for _, s := range g.Specs {
						if off >= fset.Position(s.Pos()).Offset && off < fset.Position(s.End()).Offset {
							blank(s)
							if !g.Lparen.IsValid() {
								blank(g)
							}
						}
					}
					continue
				}
				blank(d)
				for n, l := range lostDecl(d) {
					l.err = e.Msg
					lost[n] = l
				}
			}
			if !found {
				other = append(other, e.Error())
			}
		}
		ov[file] = out
	}
	return changed, other
}

// lostDecl collects what a declaration declares, proves and refers to.
func lostDecl(d ast.Decl) map[string]*lostHarness {
	out := map[string]*lostHarness{}
	l := &lostHarness{}
	switch d := d.(type) {
	case *ast.FuncDecl:
		l.name = d.Name.Name
		if d.Recv != nil {
			l.name = "(" + l.name + ")"
		}
		out[l.name] = l
	case *ast.GenDecl:
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				out[s.Name.Name] = l
			case *ast.ValueSpec:
				for _, n := range s.Names {
					out[n.Name] = l
				}
			}
		}
	}
	ast.Inspect(d, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			l.refs = append(l.refs, n.Name)
		case *ast.BasicLit:
			if n.Kind == token.STRING {
				if s, err := strconv.Unquote(n.Value); err == nil && obligationText.MatchString(s) {
					l.texts = append(l.texts, s)
				}
			}
		}
		return true
	})
	return out
}

// lostTexts adds the obligations of harness functions that a lost one calls.
func (p *Program) lostTexts(l *lostHarness) []string {
	seen := map[string]bool{l.name: true}
	var walk func(l *lostHarness) []string
	walk = func(l *lostHarness) []string {
		out := l.texts
		for _, r := range l.refs {
			if seen[r] {
				continue
			}
			seen[r] = true
			if o := p.lost[r]; o != nil {
				out = append(out, walk(o)...)
			} else if f := p.pkg(harnessPkg).Func(r); f != nil {
				for s := range p.proveSites(f) {
					out = append(out, s)
				}
			}
		}
		return out
	}
	return walk(l)
}

func splitPos(s string) (string, int, int) {
	q := strings.Split(s, ":")
	if len(q) < 3 {
		return s, 0, 0
	}
	line, _ := strconv.Atoi(q[len(q)-2])
	col, _ := strconv.Atoi(q[len(q)-1])
	return filepath.Clean(strings.Join(q[:len(q)-2], ":")), line, col
}

func offsetOf(src []byte, line, col int) int {
	off := 0
	for l := 1; l < line; l++ {
		i := strings.IndexByte(string(src[off:]), '\n')
		if i < 0 {
			break
		}
		off += i + 1
	}
	return off + col - 1
}
