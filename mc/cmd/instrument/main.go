// Command instrument rewrites Go packages so that they run under vmc/rt.
//
//	instrument -out DIR [-quiet] -dir MODDIR -pkgs p1,p2 -modfile F
//
// Each package's directory below MODDIR is mirrored below DIR.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Module     *struct {
		Path, Version, Dir string
	}
	Error *struct{ Err string }
}

func main() {
	dir := flag.String("dir", "", "directory of the main module to list from")
	out := flag.String("out", "", "output directory")
	mods := flag.String("mods", "", "comma list of module=mode (mode full or quiet) to instrument")
	flag.Parse()
	if err := run(*dir, *out, *mods); err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func run(dir, out, mods string) error {
	mode := map[string]string{}
	for _, m := range strings.Split(mods, ",") {
		kv := strings.SplitN(m, "=", 2)
		mode[kv[0]] = kv[1]
	}
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,Export,Standard,Imports,ImportMap,Module,Error", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var todo []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		pp := p
		pkgs[p.ImportPath] = &pp
		if p.Module != nil && mode[p.Module.Path] != "" && p.Name != "main" {
			if p.Error != nil {
				return fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
			}
			todo = append(todo, &pp)
		}
	}
	instr := map[string]bool{}
	for _, p := range todo {
		instr[p.ImportPath] = true
	}
	fset := token.NewFileSet()
	for _, p := range todo {
		if err := instrument(fset, p, pkgs, instr, mode[p.Module.Path] == "quiet", filepath.Join(out, filepath.FromSlash(p.ImportPath))); err != nil {
			return fmt.Errorf("%s: %v", p.ImportPath, err)
		}
	}
	return nil
}

func instrument(fset *token.FileSet, p *listPkg, pkgs map[string]*listPkg, instr map[string]bool, quiet bool, out string) error {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), FakeImportC: true}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return fmt.Errorf("type check: %v", err)
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	for i, f := range files {
		r := &rw{fset: fset, info: info, pkg: tp, instr: instr, quiet: quiet, file: p.GoFiles[i]}
		r.doFile(f)
		if len(r.errs) > 0 {
			sort.Strings(r.errs)
			return fmt.Errorf("unsupported: %s", strings.Join(r.errs, "; "))
		}
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n// Code generated by vmc instrument. DO NOT EDIT.\n\n")
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			return fmt.Errorf("print %s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(out, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}
