package main

// Package-level data: what is written to it, through whatever aliases, by
// functions other than initialisers and without synchronisation.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sharing finds the values that may point into package-level data.
type sharing struct {
	p       *Program
	fns     []*ssa.Function
	vals    map[ssa.Value]bool
	cells   map[string]bool // fields and kinds of elements that may hold such a value
	results map[*ssa.Function]map[int]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	once    map[*ssa.Function]bool // run at most once, by sync.Once and the like
	changed bool
	report  func(in ssa.Instruction, what string)
}

func pointerLike(t types.Type) bool { return pointerLikeN(t, 0) }

func pointerLikeN(t types.Type, n int) bool {
	if n > 12 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLikeN(u.Field(i).Type(), n+1) {
				return true
			}
		}
	case *types.Array:
		return pointerLikeN(u.Elem(), n+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerLikeN(u.At(i).Type(), n+1) {
				return true
			}
		}
	case *types.TypeParam:
		return true
	}
	return false
}

// synced: types whose methods can be used by several goroutines.
func synced(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "regexp", "log", "context", "reflect", "encoding/base64", "time":
		return true
	}
	return false
}

func (s *sharing) is(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return !synced(ptrElem(g.Type()))
	}
	return s.vals[v]
}

func (s *sharing) mark(v ssa.Value) {
	if v != nil && !s.vals[v] && pointerLike(v.Type()) && !synced(v.Type()) {
		s.vals[v] = true
		s.changed = true
	}
}

func (s *sharing) markCell(k string) {
	if k != "" && !s.cells[k] {
		s.cells[k] = true
		s.changed = true
	}
}

func cellOf(addr ssa.Value) string {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		t := ptrElem(x.X.Type())
		return types.TypeString(t, nil) + "." + t.Underlying().(*types.Struct).Field(x.Field).Name()
	case *ssa.Alloc:
		return x.Parent().String() + "$" + x.Name()
	}
	return "elem " + types.TypeString(ptrElem(addr.Type()), nil)
}

func (s *sharing) markResult(f *ssa.Function, i int) {
	if s.results[f] == nil {
		s.results[f] = map[int]bool{}
	}
	if !s.results[f][i] {
		s.results[f][i] = true
		s.changed = true
	}
}

// initialises tells that f runs as part of the initialisation only, or once,
// or with a lock of the package held.
func (s *sharing) initialises(f *ssa.Function, busy map[*ssa.Function]bool) bool {
	if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || s.once[f] {
		return true
	}
	if busy[f] {
		return true
	}
	if f.Parent() != nil && s.initialises(f.Parent(), busy) && len(s.callers[f]) == 0 {
		return true
	}
	if len(s.callers[f]) == 0 || token.IsExported(f.Name()) {
		return false
	}
	busy[f] = true
	defer delete(busy, f)
	for _, c := range s.callers[f] {
		if !s.protected(c, busy) {
			return false
		}
	}
	return true
}

func (s *sharing) protected(in ssa.Instruction, busy map[*ssa.Function]bool) bool {
	f := in.Parent()
	if s.initialises(f, busy) {
		return true
	}
	// a lock of the package is taken before
	for _, b := range f.Blocks {
		for k, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() == nil {
				continue
			}
			n := c.Call.StaticCallee().String()
			if n != "(*sync.Mutex).Lock" && n != "(*sync.RWMutex).Lock" || !fromGlobal(c.Call.Args[0]) {
				continue
			}
			if b == in.Block() {
				for _, j := range b.Instrs[k:] {
					if j == in {
						return true
					}
				}
			} else if b.Dominates(in.Block()) {
				return true
			}
		}
	}
	return false
}

func fromGlobal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Global:
		return true
	case *ssa.FieldAddr:
		return fromGlobal(x.X)
	case *ssa.IndexAddr:
		return fromGlobal(x.X)
	case *ssa.UnOp:
		return fromGlobal(x.X)
	}
	return false
}

func (s *sharing) writes(in ssa.Instruction, what string) {
	if s.report != nil && !s.protected(in, map[*ssa.Function]bool{}) {
		s.report(in, what)
	}
}

func (s *sharing) instr(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.IndexAddr:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.Field:
		if s.is(x.X) || s.cells[types.TypeString(x.X.Type(), nil)+"."+x.X.Type().Underlying().(*types.Struct).Field(x.Field).Name()] {
			s.mark(x)
		}
	case *ssa.Index:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.Slice:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.ChangeType:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.ChangeInterface:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.MakeInterface:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.TypeAssert:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.SliceToArrayPointer:
		if s.is(x.X) {
			s.mark(x)
		}
	case *ssa.Convert:
		if s.is(x.X) && pointerLike(x.X.Type()) {
			if b, ok := x.X.Type().Underlying().(*types.Basic); !ok || b.Kind() == types.UnsafePointer {
				if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					s.mark(x)
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if s.is(e) {
				s.mark(x)
			}
		}
	case *ssa.Extract:
		if s.vals[x.Tuple] {
			if c, ok := x.Tuple.(*ssa.Call); ok && s.known(&c.Call) {
				for _, g := range s.callees(&c.Call) {
					if s.results[g][x.Index] {
						s.mark(x)
					}
				}
			} else {
				s.mark(x)
			}
		}
	case *ssa.Lookup:
		if s.is(x.X) || s.cells["elem "+types.TypeString(x.Type(), nil)] {
			s.mark(x)
		}
	case *ssa.Range:
		if s.is(x.X) {
			s.vals[x] = true
		}
	case *ssa.Next:
		if s.vals[x.Iter] {
			s.mark(x)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if s.is(x.X) || s.cells[cellOf(x.X)] {
				s.mark(x)
			}
		case token.ARROW:
			if s.cells["elem "+types.TypeString(x.Type(), nil)] {
				s.mark(x)
			}
		}
	case *ssa.Store:
		if s.is(x.Val) && pointerLike(x.Val.Type()) {
			s.markCell(cellOf(x.Addr))
		}
		if s.is(x.Addr) {
			s.writes(in, "a variable is written")
		}
	case *ssa.MapUpdate:
		if s.is(x.Value) && pointerLike(x.Value.Type()) {
			s.markCell("elem " + types.TypeString(x.Value.Type(), nil))
		}
		if s.is(x.Map) {
			s.writes(in, "a map is written")
		}
	case *ssa.Send:
		if s.is(x.X) {
			s.markCell("elem " + types.TypeString(x.X.Type(), nil))
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if s.is(b) {
				s.mark(g.FreeVars[i])
			}
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if s.is(r) && pointerLike(r.Type()) {
				s.markResult(f, i)
			}
		}
	case ssa.CallInstruction:
		s.call(f, x)
	}
}

func (s *sharing) known(c *ssa.CallCommon) bool {
	for _, g := range s.callees(c) {
		if g.Blocks == nil {
			return false
		}
	}
	return len(s.callees(c)) > 0
}

// callees are the functions of the module c may call.
func (s *sharing) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	var out []*ssa.Function
	if c.IsInvoke() {
		it := c.Value.Type().Underlying().(*types.Interface)
		for _, g := range s.fns {
			if g.Name() != c.Method.Name() || g.Signature.Recv() == nil {
				continue
			}
			if t := g.Signature.Recv().Type(); types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
				out = append(out, g)
			}
		}
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	for _, g := range s.fns {
		if types.Identical(g.Signature, c.Signature()) && g.Signature.Recv() == nil {
			out = append(out, g)
		}
	}
	return out
}

func (s *sharing) call(f *ssa.Function, in ssa.CallInstruction) {
	c := in.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		res, _ := in.(ssa.Value)
		switch b.Name() {
		case "append":
			if s.is(c.Args[0]) {
				s.mark(res)
				if !fullSlice(c.Args[0]) {
					s.writes(in, "a slice is appended to, in place if it has room")
				}
			}
			if len(c.Args) > 1 && s.is(c.Args[1]) {
				if sl, ok := c.Args[1].Type().Underlying().(*types.Slice); ok && pointerLike(sl.Elem()) {
					s.mark(res)
				}
			}
		case "copy", "clear", "delete":
			if s.is(c.Args[0]) {
				s.writes(in, "the elements are written by "+b.Name())
			}
		}
		return
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	gs := s.callees(c)
	res, _ := in.(ssa.Value)
	outside := len(gs) == 0 || c.IsInvoke() && s.is(c.Value)
	for _, g := range gs {
		if g.Blocks == nil || !isModuleFn(g) {
			outside = true
			continue
		}
		if s.initialises(f, map[*ssa.Function]bool{}) {
			continue // of initialisation only the outcome counts
		}
		for i, a := range args {
			if i < len(g.Params) && s.is(a) {
				s.mark(g.Params[i])
			}
		}
		if res != nil {
			for range s.results[g] {
				s.mark(res)
			}
		}
	}
	if outside {
		s.external(in, c, args, res)
	}
}

func isModuleFn(g *ssa.Function) bool {
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Origin() != nil {
		g = g.Origin()
	}
	return g.Pkg != nil && isModulePkg(g.Pkg.Pkg)
}

// fullSlice: a slice without room behind it.
func fullSlice(v ssa.Value) bool {
	x, ok := v.(*ssa.Slice)
	return ok && x.Max != nil && x.High == x.Max
}

// external notes what a function outside the module does with its arguments.
func (s *sharing) external(in ssa.CallInstruction, c *ssa.CallCommon, args []ssa.Value, res ssa.Value) {
	pkg, name, recv := "", "", false
	if c.IsInvoke() {
		name, recv = c.Method.Name(), true
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
	} else if g := c.StaticCallee(); g != nil {
		name, recv = g.Name(), g.Signature.Recv() != nil
		if g.Pkg != nil {
			pkg = g.Pkg.Pkg.Path()
		} else if o := g.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
		if g.Origin() != nil {
			name = g.Origin().Name()
		}
	} else {
		return
	}
	for i, a := range args {
		if !s.is(a) || !pointerLike(a.Type()) {
			continue
		}
		if outsideWrites(pkg, name, recv, i, a.Type()) {
			s.writes(in, "it is given to "+pkg+"."+name+", which changes it")
		}
		if res != nil && types.Identical(res.Type(), a.Type()) && (i == 0 || !recv) {
			s.mark(res)
		}
	}
}

// outsideWrites tells whether a function of another module may change what
// its i-th argument (the receiver is the first) refers to.
func outsideWrites(pkg, name string, recv bool, i int, t types.Type) bool {
	has := func(xs ...string) bool {
		for _, x := range xs {
			if strings.HasPrefix(name, x) {
				return true
			}
		}
		return false
	}
	switch {
	case pkg == "" || name == "Error" || name == "String":
		return false // methods of error
	case strings.HasPrefix(pkg, "filippo.io/"):
		return i == 0 && recv && !has("Bytes", "Equal", "ExtendedCoordinates", "IsNegative") || name == "Swap"
	case pkg == "errors" || pkg == "strings" && !recv || pkg == "strconv" && !has("Append") || pkg == "log" || pkg == "os" || pkg == "time" || pkg == "path/filepath" ||
		pkg == "maps" && !has("Copy", "Delete", "Insert") || pkg == "math/bits" || pkg == "unicode/utf8" || pkg == "reflect" || pkg == "regexp" || pkg == "context" || pkg == "runtime":
		return false
	case pkg == "sync" || pkg == "sync/atomic":
		return false
	case pkg == "fmt":
		return has("Sscan", "Fscan", "Scan", "Append") && i > 0
	case pkg == "bytes" && !recv:
		return false
	case pkg == "slices":
		return i == 0 && has("Sort", "Reverse", "Insert", "Delete", "Replace", "Compact", "Grow", "Append")
	case pkg == "sort":
		return has("Sort", "Stable", "Slice", "Ints", "Strings", "Float") && !has("SliceIsSorted", "IntsAreSorted", "StringsAreSorted")
	case pkg == "encoding/binary":
		return has("Put", "Append", "Read", "Decode") || has("Write") && i == 0
	case pkg == "encoding/json":
		return recv || has("Unmarshal", "Indent", "Compact", "HTMLEscape") && i != 0 && name == "Unmarshal" || !has("Marshal", "Valid", "Unmarshal") && i == 0
	case pkg == "encoding/hex" || pkg == "encoding/base64":
		return has("Encode", "Decode", "Append") && !has("EncodeToString", "DecodeString", "EncodedLen", "DecodedLen") && i <= 1
	case pkg == "crypto/subtle":
		return has("ConstantTimeCopy") && i == 1 || name == "XORBytes" && i == 0
	case strings.HasPrefix(pkg, "crypto/sha") || pkg == "crypto/ed25519":
		return recv && i == 0 && has("Write", "Reset")
	case pkg == "math/big":
		return i == 0 && recv && !has("Cmp", "Sign", "Bit", "Bytes", "String", "Text", "IsInt", "IsUint", "Int64", "Uint64", "FillBytes", "TrailingZeroBits", "Append", "Format", "ProbablyPrime")
	case pkg == "io":
		return has("ReadFull", "ReadAtLeast") && i == 1 || name == "Read" || name == "Write" && i == 0
	case pkg == "crypto/rand":
		return name == "Read"
	}
	return true
}

func init() {
	addRule("C29", "package data does not change after initialisation", func(c *Ctx) {
		s := &sharing{p: c.p, vals: map[ssa.Value]bool{}, cells: map[string]bool{}, results: map[*ssa.Function]map[int]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, once: map[*ssa.Function]bool{}}
		data := 0
		for _, sp := range c.p.spkgs {
			if sp == nil || sp.Pkg.Name() == "main" || sp.Pkg.Path() == modulePath+"/"+harnessPkg {
				continue
			}
			for _, n := range sortedKeys(sp.Members) {
				if _, ok := sp.Members[n].(*ssa.Global); ok && n != "init$guard" {
					data++
				}
			}
		}
		c.p.moduleFuncs(nil)
		for f := range c.p.all {
			if f.Blocks == nil || !isModuleFn(f) || f.Synthetic != "" && f.Origin() == nil && f.Name() != "init" {
				continue
			}
			r := f
			for r.Parent() != nil {
				r = r.Parent()
			}
			if r.Origin() != nil {
				r = r.Origin()
			}
			if r.Pkg.Pkg.Name() == "main" || r.Pkg.Pkg.Path() == modulePath+"/"+harnessPkg {
				continue
			}
			s.fns = append(s.fns, f)
		}
		sort.Slice(s.fns, func(i, j int) bool {
			if a, b := s.fns[i].String(), s.fns[j].String(); a != b {
				return a < b
			}
			return s.fns[i].Pos() < s.fns[j].Pos()
		})
		each := func(do func(f *ssa.Function, in ssa.Instruction)) {
			for _, f := range s.fns {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						do(f, in)
					}
				}
			}
		}
		each(func(f *ssa.Function, in ssa.Instruction) {
			x, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			g := x.Common().StaticCallee()
			if g == nil {
				return
			}
			s.callers[g] = append(s.callers[g], x)
			if n := g.String(); n == "(*sync.Once).Do" || strings.HasPrefix(n, "sync.Once") {
				for _, a := range x.Common().Args {
					switch y := a.(type) {
					case *ssa.Function:
						s.once[y] = true
					case *ssa.MakeClosure:
						s.once[y.Fn.(*ssa.Function)] = true
					}
				}
			}
		})
		for s.changed = true; s.changed; {
			s.changed = false
			each(s.instr)
		}
		bad := map[string]bool{}
		s.report = func(in ssa.Instruction, what string) {
			where := c.p.posStr(in.Pos()) + " in " + short(in.Parent().String())
			if !bad[where] {
				bad[where] = true
				c.violate(where, "package data does not change after initialisation", what)
			}
		}
		n := 0
		each(func(f *ssa.Function, in ssa.Instruction) {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate, ssa.CallInstruction:
				n++
			}
			s.instr(f, in)
		})
		reach := 0
		for range s.vals {
			reach++
		}
		if n == 0 {
			c.violate("the module", "package data does not change after initialisation", "nothing analysed")
		}
		for _, f := range s.fns {
			c.oblige(true, short(f.String()), "package data does not change after initialisation", "")
		}
		if debugOn {
			println("package variables", data, "functions", len(s.fns), "writes and calls", n, "aliases", reach)
		}
	})
}
