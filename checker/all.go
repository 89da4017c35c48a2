package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

func dumpAll(p *Program) {
	fs := p.moduleFuncs(func(path string) bool {
		return strings.Contains(path, "/test") || strings.Contains(path, "/example") || strings.Contains(path, "/cmd")
	})
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		if f.Blocks == nil || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		func() {
			t0 := time.Now()
			defer func() {
				r := recover()
				d := time.Since(t0).Milliseconds()
				s := "ok"
				if r != nil {
					if u, ok := r.(undecidedErr); ok {
						s = "UNDECIDED " + u.msg
					} else {
						s = fmt.Sprint("PANIC ", r)
					}
				}
				if len(s) > 230 {
					s = s[:230]
				}
				fmt.Printf("%5dms %s: %s\n", d, strings.ReplaceAll(f.String(), "github.com/taurusgroup/frost-ed25519/", ""), s)
			}()
			ex := newExec(p)
			st := p.initState()
			var args []*DD
			for _, a := range f.Params {
				args = append(args, symVal("p:"+a.Name(), nil, a.Type()))
			}
			ex.callFn(f, args, nil, st, "top", nil)
		}()
	}
}
