package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// listPkg is what `go list -json` says about a package.
type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
}

func goCmd(dir string, env []string, args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	var stderr bytes.Buffer
	c.Stderr = &stderr
	out, err := c.Output()
	if err != nil {
		return out, fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, stderr.String())
	}
	return out, nil
}

func goList(dir string, args ...string) ([]*listPkg, error) {
	out, err := goCmd(dir, nil, append([]string{"list", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,CgoFiles,Imports,Module,Error"}, args...)...)
	if err != nil {
		return nil, err
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []*listPkg
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			return pkgs, nil
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
}

var shimmed = []string{"sync", "sync/atomic", "time", "context", "net"}

// external packages that are rewritten along with the program
var alsoRewrite = map[string]bool{"github.com/patrickmn/go-cache": true}

// generate copies the sources of repo into dst with all sources of nondeterminism under the control of mcrt.
func generate(repo, verif, dst string) (modPath string, err error) {
	roots := []string{"."}
	for _, d := range []string{"network", "encoding", "tsm", "utsm", "datalink", "btypes", "helpers"} {
		if _, err := os.Stat(filepath.Join(repo, d)); err == nil {
			roots = append(roots, "./"+d+"/...")
		}
	}
	pkgs, err := goList(repo, append([]string{"-deps"}, roots...)...)
	if err != nil {
		return "", err
	}
	for _, p := range pkgs {
		if p.ImportPath == pkgs[len(pkgs)-1].ImportPath && p.Module != nil {
			modPath = p.Module.Path
		}
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	perIter := false
	lines := strings.Split(string(gomod), "\n")
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			modPath = f[1]
		}
		if len(f) == 2 && f[0] == "go" {
			var a, b int
			fmt.Sscanf(f[1], "%d.%d", &a, &b)
			if b < 22 {
				lines[i] = "go 1.21"
			} else {
				perIter = true
			}
		}
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(strings.Join(lines, "\n")), 0o644); err != nil {
		return "", err
	}
	if gosum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dst, "go.sum"), gosum, 0o644)
	}
	zz := modPath + "/zzmc"

	// the plain copy, for type checking
	var own []*listPkg
	dirOf := map[string]string{} // directory below dst
	for _, p := range pkgs {
		if p.Standard {
			continue
		}
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			dirOf[p.ImportPath] = strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		} else if alsoRewrite[p.ImportPath] {
			dirOf[p.ImportPath] = "zzmc/ext/" + p.Name
		} else {
			continue
		}
		if p.Error != nil {
			return "", fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		own = append(own, p)
	}
	std := map[string]string{}
	if exp, err := goList(repo, append([]string{"-deps", "-export"}, append(roots, shimmed...)...)...); err != nil {
		return "", err
	} else {
		for _, p := range exp {
			std[p.ImportPath] = p.Export
		}
	}
	fset := token.NewFileSet()
	checked := map[string]*types.Package{}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := std[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}).(types.ImporterFrom)
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := checked[path]; p != nil {
			return p, nil
		}
		if path == "unsafe" {
			return types.Unsafe, nil
		}
		return gc.ImportFrom(path, repo, 0)
	})

	var resetPkgs []string
	type parsed struct {
		p     *listPkg
		files []*ast.File
		names []string
		info  *types.Info
		tp    *types.Package
	}
	var all []parsed
	mutated := map[types.Object]bool{}
	for _, p := range own {
		files, names, err := parsePkg(fset, p)
		if err != nil {
			return "", err
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Implicits: map[ast.Node]types.Object{}}
		var first error
		conf := types.Config{Importer: imp, Error: func(err error) {
			if first == nil {
				first = err
			}
		}}
		tp, _ := conf.Check(p.ImportPath, fset, files, info)
		if first != nil {
			return "", fmt.Errorf("type check %s: %v", p.ImportPath, first)
		}
		checked[p.ImportPath] = tp
		findMutated(files, info, mutated)
		all = append(all, parsed{p, files, names, info, tp})
	}
	for _, x := range all {
		p := x.p
		dir := filepath.Join(dst, dirOf[p.ImportPath])
		if err := os.MkdirAll(dir, 0o755); err != nil {
			return "", err
		}
		rw := &rewriter{fset: fset, info: x.info, pkg: x.tp, zz: zz, perIter: perIter, mutated: mutated,
			topExprs: map[ast.Expr]ast.Expr{}, rename: func(path string) string {
				if alsoRewrite[path] {
					return modPath + "/" + dirOf[path]
				}
				return path
			}}
		for i, f := range x.files {
			rw.file(f)
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, f); err != nil {
				return "", fmt.Errorf("print %s: %v", x.names[i], err)
			}
			if err := os.WriteFile(filepath.Join(dir, x.names[i]), buf.Bytes(), 0o644); err != nil {
				return "", err
			}
		}
		if p.Name != "main" {
			if err := os.WriteFile(filepath.Join(dir, "zz_reset.go"), []byte(rw.resetSource(p.Name)), 0o644); err != nil {
				return "", err
			}
			ip := p.ImportPath
			if alsoRewrite[ip] {
				ip = modPath + "/" + dirOf[ip]
			}
			resetPkgs = append(resetPkgs, ip)
		}
	}

	// the runtime, the harness and the replacements of the standard packages
	if err := copyTree(filepath.Join(verif, "mc", "zzmc"), filepath.Join(dst, "zzmc"), modPath); err != nil {
		return "", err
	}
	for _, path := range shimmed {
		tp, err := gc.ImportFrom(path, repo, 0)
		if err != nil {
			return "", err
		}
		dir := filepath.Join(dst, "zzmc", "shim", filepath.Base(path))
		if err := writeAliases(dir, tp); err != nil {
			return "", err
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package resetall\n\nimport (\n\t\"%s/mcrt\"\n", zz)
	for i, p := range resetPkgs {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\n// Reset gives every package variable that the program may change its initial value.\nfunc Reset() {\n\tmcrt.Quiet(true)\n")
	for i := range resetPkgs {
		fmt.Fprintf(&b, "\tp%d.ZZReset()\n", i)
	}
	b.WriteString("\tmcrt.Quiet(false)\n}\n")
	dir := filepath.Join(dst, "zzmc", "resetall")
	os.MkdirAll(dir, 0o755)
	return modPath, os.WriteFile(filepath.Join(dir, "reset.go"), []byte(b.String()), 0o644)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func parsePkg(fset *token.FileSet, p *listPkg) (files []*ast.File, names []string, err error) {
	for _, n := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, err
		}
		// import "C" is dropped; a file that really uses it does not type-check afterwards
		for di := 0; di < len(f.Decls); di++ {
			g, ok := f.Decls[di].(*ast.GenDecl)
			if !ok || g.Tok != token.IMPORT {
				continue
			}
			var keep []ast.Spec
			for _, s := range g.Specs {
				if s.(*ast.ImportSpec).Path.Value != `"C"` {
					keep = append(keep, s)
				}
			}
			g.Specs = keep
			if len(keep) == 0 {
				f.Decls = append(f.Decls[:di], f.Decls[di+1:]...)
				di--
			}
		}
		var imps []*ast.ImportSpec
		for _, s := range f.Imports {
			if s.Path.Value != `"C"` {
				imps = append(imps, s)
			}
		}
		f.Imports = imps
		files = append(files, f)
		names = append(names, n)
	}
	return files, names, nil
}

func copyTree(src, dst, modPath string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		to := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if modPath != "github.com/NubeDev/bacnet" {
			b = bytes.ReplaceAll(b, []byte("github.com/NubeDev/bacnet"), []byte(modPath))
		}
		return os.WriteFile(to, b, 0o644)
	})
}

// writeAliases re-exports everything of a standard package that over.go does not replace.
func writeAliases(dir string, tp *types.Package) error {
	f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, "over.go"), nil, 0)
	if err != nil {
		return err
	}
	over := map[string]bool{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				over[d.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					over[s.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range s.Names {
						over[n.Name] = true
					}
				}
			}
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.27\n\npackage %s\n\nimport std %q\n\n", tp.Name(), tp.Path())
	names := tp.Scope().Names()
	sort.Strings(names)
	used := false
	for _, n := range names {
		o := tp.Scope().Lookup(n)
		if !o.Exported() || over[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.Func:
			if sig := o.Type().(*types.Signature); sig.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", n, n)
		}
		used = true
	}
	if !used {
		return nil
	}
	return os.WriteFile(filepath.Join(dir, "alias.go"), []byte(b.String()), 0o644)
}

func unq(s string) string { v, _ := strconv.Unquote(s); return v }
