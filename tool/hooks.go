package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Concrete runs use the real code with the callees that a contract replaces (zz.Stub) replaced at their call sites:
// hookOverlay writes, for every file of the repository with such a call (or a go statement), a copy in which the call
// goes through zz.Hook, which is the callee itself unless the contract being run replaces it.

const hk = "zvHk"

func stubNames(p *Program) map[string]bool {
	m := map[string]bool{"time.Now": true, "time.Since": true, "time.Until": true, "time.Sleep": true}
	for _, n := range []string{"Load", "LoadOrStore", "LoadAndDelete", "Delete", "Store"} {
		m["(*sync.Map)."+n] = true
	}
	for _, pk := range p.pkgs {
		for i, f := range pk.Syntax {
			if !strings.Contains(filepath.Base(pk.CompiledGoFiles[i]), "zz_verif_") {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok || len(c.Args) != 2 {
					return true
				}
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Stub" {
					if tv := pk.TypesInfo.Types[c.Args[0]]; tv.Value != nil && tv.Value.Kind() == constant.String {
						m[constant.StringVal(tv.Value)] = true
					}
				}
				return true
			})
		}
	}
	return m
}

type edit struct {
	at, end int // [at, end) is replaced by s
	s       string
}

func hookOverlay(p *Program, dir string) (map[string]string, error) {
	names := stubNames(p)
	res := map[string]string{}
	for pi, pk := range p.pkgs {
		if strings.HasSuffix(pk.PkgPath, "/zzv") {
			continue
		}
		for i, f := range pk.Syntax {
			path := pk.CompiledGoFiles[i]
			src := path
			if c, ok := overlayFiles(false)[path]; ok {
				src = c
			}
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			tf := p.fset.File(f.Pos())
			off := func(x token.Pos) int { return tf.Offset(x) }
			var es []edit
			imports := map[string]string{}
			qual := func(o *types.Package) string {
				if o == pk.Types {
					return ""
				}
				if imports[o.Path()] == "" {
					imports[o.Path()] = fmt.Sprintf("zvI%d", len(imports))
				}
				return imports[o.Path()]
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.GoStmt:
					es = append(es, edit{off(s.Go), off(s.Go) + 2, hk + ".Go(func() {"}, edit{off(s.End()), off(s.End()), "})"})
				case *ast.CallExpr:
					var id *ast.Ident
					switch fx := s.Fun.(type) {
					case *ast.Ident:
						id = fx
					case *ast.SelectorExpr:
						id = fx.Sel
					}
					if id == nil {
						return true
					}
					fn, ok := pk.TypesInfo.Uses[id].(*types.Func)
					if !ok || !names[fn.FullName()] {
						return true
					}
					sig := fn.Type().(*types.Signature)
					if sig.TypeParams() != nil || sig.RecvTypeParams() != nil {
						return true
					}
					if sig.Recv() == nil {
						es = append(es, edit{off(s.Fun.Pos()), off(s.Fun.Pos()), fmt.Sprintf("%s.Hook(%q, ", hk, fn.FullName())}, edit{off(s.Fun.End()), off(s.Fun.End()), ")"})
						return true
					}
					sel := s.Fun.(*ast.SelectorExpr)
					sn := pk.TypesInfo.Selections[sel]
					if sn == nil || sn.Kind() != types.MethodVal {
						return true
					}
					through := "" // embedded fields on the way to the method
					rt := sn.Recv()
					for _, ix := range sn.Index()[:len(sn.Index())-1] {
						u := rt.Underlying()
						if pt, ok := u.(*types.Pointer); ok {
							u = pt.Elem().Underlying()
						}
						st, ok := u.(*types.Struct)
						if !ok {
							return true
						}
						through += "." + st.Field(ix).Name()
						rt = st.Field(ix).Type()
					}
					_, isP := rt.Underlying().(*types.Pointer)
					_, wantP := sig.Recv().Type().(*types.Pointer)
					pre := ""
					if wantP && !isP {
						pre = "&"
					} else if !wantP && isP {
						pre = "*"
					}
					m := types.TypeString(sig.Recv().Type(), qual)
					if wantP {
						m = "(" + m + ")"
					}
					comma := ", "
					if len(s.Args) == 0 {
						comma = ""
					}
					es = append(es, edit{off(sel.X.Pos()), off(sel.X.Pos()), fmt.Sprintf("%s.Hook(%q, %s.%s)(%s", hk, fn.FullName(), m, fn.Name(), pre)},
						edit{off(sel.X.End()), off(s.Lparen) + 1, through + comma})
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			sort.SliceStable(es, func(a, b int) bool { return es[a].at < es[b].at })
			var o strings.Builder
			at := off(f.Name.End())
			o.Write(b[:at])
			fmt.Fprintf(&o, "; import %s %q", hk, "github.com/hrygo/gosms/utils/zzv")
			var ps []string
			for k := range imports {
				ps = append(ps, k)
			}
			sort.Strings(ps)
			for _, k := range ps {
				fmt.Fprintf(&o, "; import %s %q", imports[k], k)
			}
			for _, e := range es {
				if e.at < at {
					return nil, fmt.Errorf("overlapping edits in %s", path)
				}
				o.Write(b[at:e.at])
				o.WriteString(e.s)
				at = e.end
			}
			o.Write(b[at:])
			out := filepath.Join(dir, fmt.Sprintf("h%d_%d.go", pi, i))
			if err := os.WriteFile(out, []byte(o.String()), 0o644); err != nil {
				return nil, err
			}
			res[path] = out
		}
	}
	return res, nil
}
