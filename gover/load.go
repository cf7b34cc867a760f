package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = envOr("GOVER_REPO", "/repo")
var verifDir = envOr("GOVER_VERIF", "/verif")

// Program is the loaded repository with the contract files laid over it.
type Program struct {
	fset    *token.FileSet
	pkgs    []*packages.Package
	ssa     *ssa.Program
	spkgs   map[string]*ssa.Package
	funcs   []*ssa.Function
	gconst  map[*ssa.Global]*ssa.Const
	gwrite  map[*ssa.Global]int
	errs    []string
	srcHash string
}

func repoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')+1]
		switch k {
		case "PATH=", "HOME=", "GOFLAGS=", "GOPROXY=", "GOWORK=", "GO111MODULE=", "GOTOOLCHAIN=", "GOCACHE=", "GOMODCACHE=", "GOROOT=":
			continue
		}
		env = append(env, e)
	}
	gocache := os.Getenv("GOVER_GOCACHE")
	if gocache == "" {
		gocache = "/root/.cache/go-build"
	}
	return append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GO111MODULE=on",
		"GOCACHE="+gocache, "GOMODCACHE=/root/go/pkg/mod", "PATH=/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
}

// overlayFiles maps every contract file to its virtual place in the repository:
// /verif/contracts/lib/shuffle/x.go -> /repo/lib/shuffle/zz_verif_x.go
func overlayFiles() (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verifDir, "contracts")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		dir, base := filepath.Split(rel)
		if !strings.HasPrefix(base, "zz_verif") {
			base = "zz_verif_" + base
		}
		m[filepath.Join(repoDir, dir, base)] = p
		return nil
	})
	return m, err
}

// writeOverlay writes the go command's overlay file.
func writeOverlay(path string, extra map[string]string) error {
	m, err := overlayFiles()
	if err != nil {
		return err
	}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": m}, "", " ")
	return os.WriteFile(path, b, 0o644)
}

func load(patterns ...string) (*Program, error) {
	ov, err := overlayFiles()
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir: repoDir, Env: repoEnv(), Fset: fset, Overlay: overlay,
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{fset: fset, pkgs: pkgs, spkgs: map[string]*ssa.Package{}, gconst: map[*ssa.Global]*ssa.Const{}, gwrite: map[*ssa.Global]int{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			p.errs = append(p.errs, e.Error())
		}
	}
	if len(p.errs) > 0 {
		sort.Strings(p.errs)
		return p, fmt.Errorf("the repository with its contracts does not type-check:\n%s", strings.Join(p.errs, "\n"))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.ssa = prog
	for i, s := range sp {
		if s != nil {
			p.spkgs[pkgs[i].PkgPath] = s
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		p.funcs = append(p.funcs, f)
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						p.gwrite[g]++
						if c, ok := s.Val.(*ssa.Const); ok {
							p.gconst[g] = c
						}
						continue
					}
				}
				// any other use that could write through the address
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						switch u := ins.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							_ = u
							p.gwrite[g] += 2
						case *ssa.FieldAddr, *ssa.IndexAddr:
							p.gwrite[g] += 2
						case *ssa.DebugRef:
						default:
							p.gwrite[g] += 2
						}
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) constGlobal(g *ssa.Global) *ssa.Const {
	if p.gwrite[g] == 1 {
		return p.gconst[g]
	}
	return nil
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
