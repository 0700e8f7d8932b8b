package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

// genMain makes harness/gen/kagome, the repository's main package in a form
// that can be imported: package kagome with Main in place of main.
func genMain() error {
	mod, err := os.ReadFile(filepath.Join(harnessDir, "go.mod"))
	if err != nil {
		return err
	}
	repo := ""
	for _, l := range strings.Split(string(mod), "\n") {
		if a, b, ok := strings.Cut(l, "=>"); ok && strings.HasSuffix(strings.TrimSpace(a), "github.com/ikawaha/kagome/v2") {
			repo = strings.TrimSpace(b)
		}
	}
	if repo == "" {
		return fmt.Errorf("no replacement for kagome in go.mod")
	}
	dir := filepath.Join(harnessDir, "gen", "kagome")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	names, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return err
	}
	want := map[string]bool{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(n)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name != "main" {
			continue
		}
		type edit struct {
			at int
			s  string
		}
		edits := []edit{{fset.Position(f.Name.Pos()).Offset, "kagome"}}
		ast.Inspect(f, func(x ast.Node) bool {
			if d, ok := x.(*ast.FuncDecl); ok && d.Recv == nil && d.Name.Name == "main" {
				edits = append(edits, edit{fset.Position(d.Name.Pos()).Offset, "Main"})
			}
			return true
		})
		var out bytes.Buffer
		last := 0
		for _, e := range edits {
			out.Write(src[last:e.at])
			out.WriteString(e.s)
			last = e.at + len("main")
		}
		out.Write(src[last:])
		to := filepath.Join(dir, filepath.Base(n))
		want[to] = true
		if old, err := os.ReadFile(to); err == nil && bytes.Equal(old, out.Bytes()) {
			continue
		}
		if err := os.WriteFile(to, out.Bytes(), 0o644); err != nil {
			return err
		}
	}
	old, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, o := range old {
		if !want[o] {
			os.Remove(o)
		}
	}
	return nil
}
