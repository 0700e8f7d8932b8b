package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the harness module and everything it imports,
// built from the current source.
type Program struct {
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	embeds map[*types.Var][]byte
	sizes  types.Sizes
}

func loadProgram(dir string, patterns []string, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedEmbedFiles,
		Dir: dir,
		Env: env,
	}
	init, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(init, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(init, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	prog.Build()
	p := &Program{fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, embeds: map[*types.Var][]byte{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	packages.Visit(init, nil, func(pk *packages.Package) {
		if len(pk.EmbedFiles) > 0 {
			p.findEmbeds(pk)
		}
	})
	return p, nil
}

func (p *Program) findEmbeds(pk *packages.Package) {
	for _, f := range pk.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, doc := range []*ast.CommentGroup{vs.Doc, g.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if !strings.HasPrefix(c.Text, "//go:embed ") {
							continue
						}
						name := strings.TrimSpace(strings.TrimPrefix(c.Text, "//go:embed "))
						dir := filepath.Dir(p.fset.Position(f.Pos()).Filename)
						b, err := os.ReadFile(filepath.Join(dir, name))
						if err != nil {
							continue
						}
						if v, ok := pk.TypesInfo.Defs[vs.Names[0]].(*types.Var); ok {
							p.embeds[v] = b
						}
					}
				}
			}
		}
	}
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}
