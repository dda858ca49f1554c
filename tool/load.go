package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"
var verifDir = "/verif"

type Program struct {
	ssa     *ssa.Program
	fset    *token.FileSet
	models  map[string]*ssa.Function
	harness []*Harness
	pkgs    []*packages.Package // of the repository, contracts included
}

type Harness struct {
	Name     string
	Prop     string
	Fn       *ssa.Function
	PkgPath  string
	PkgDir   string
	Doc      []string
	Split    int
	Tier     string
	Budget   int
	Funcs    []string
	Bounded  string
	noModel  map[string]bool
	NoReplay bool
}

// overlayFiles maps /repo paths to contract files.
func overlayFiles(tests bool) map[string]string {
	m := map[string]string{}
	root := filepath.Join(verifDir, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir, f := filepath.Split(rel)
		if strings.HasSuffix(f, "_test.go") && !tests {
			return nil
		}
		if !strings.Contains(dir, "zzv") {
			f = "zz_verif_" + f
		}
		m[filepath.Join(repoDir, dir, f)] = p
		return nil
	})
	return m
}

func writeOverlay(path string, tests bool, extra map[string]string) error {
	m := overlayFiles(tests)
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": m}, "", " ")
	return os.WriteFile(path, b, 0o644)
}

func contractDirs() []string {
	seen := map[string]bool{}
	for p := range overlayFiles(false) {
		d := filepath.Dir(p)
		if strings.HasSuffix(d, "zzv") {
			continue
		}
		seen[d] = true
	}
	var r []string
	for d := range seen {
		r = append(r, d)
	}
	sort.Strings(r)
	return r
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOWORK", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOPATH", "GOMODCACHE", "GOCACHE", "PATH", "HOME", "GOROOT", "PWD":
			continue
		}
		env = append(env, e)
	}
	home := "/root"
	return append(env, "HOME="+home, "PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOWORK="+repoDir+"/go.work", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "PWD="+repoDir)
}

func Load(dirs []string) (*Program, error) {
	ov := map[string][]byte{}
	for k, v := range overlayFiles(false) {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: ov, Fset: fset}
	pats := []string{}
	for _, d := range dirs {
		pats = append(pats, d)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{ssa: prog, fset: fset, models: map[string]*ssa.Function{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if !strings.HasPrefix(pk.PkgPath, "github.com/hrygo/gosms") {
			return
		}
		p.pkgs = append(p.pkgs, pk)
		for i, f := range pk.Syntax {
			fn := pk.CompiledGoFiles[i]
			if !strings.Contains(filepath.Base(fn), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				obj := pk.TypesInfo.Defs[fd.Name].(*types.Func)
				sf := prog.FuncValue(obj)
				var h *Harness
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if !strings.HasPrefix(t, "gov:") {
						continue
					}
					fs := strings.Fields(t[4:])
					switch fs[0] {
					case "model":
						p.models[fs[1]] = sf
					case "prop":
						h = &Harness{Name: fd.Name.Name, Prop: fs[1], Fn: sf, PkgPath: pk.PkgPath, PkgDir: filepath.Dir(fn), Split: 1, Budget: 240, noModel: map[string]bool{}}
					}
					if h == nil {
						continue
					}
					switch fs[0] {
					case "split":
						fmt.Sscan(fs[1], &h.Split)
					case "tier":
						h.Tier = fs[1]
					case "budget":
						fmt.Sscan(fs[1], &h.Budget)
					case "func":
						h.Funcs = append(h.Funcs, strings.Join(fs[1:], " "))
					case "bounded":
						h.Bounded = strings.Join(fs[1:], " ")
					case "nomodel":
						h.noModel[fs[1]] = true
					case "noreplay":
						h.NoReplay = true
					}
				}
				if h != nil {
					p.harness = append(p.harness, h)
				}
			}
		}
	})
	sort.Slice(p.harness, func(i, j int) bool {
		return p.harness[i].Prop+p.harness[i].Name < p.harness[j].Prop+p.harness[j].Name
	})
	return p, nil
}
