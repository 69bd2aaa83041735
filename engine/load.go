package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// overlay holds the harness files added to the package under test.
type overlay struct {
	files   map[string][]byte // path in the repository -> contents
	dropped []string          // declarations that do not fit the current source
}

func readOverlay(repo, dir string) (*overlay, error) {
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil || len(fs) == 0 {
		return nil, fmt.Errorf("no harness files in %s", dir)
	}
	sort.Strings(fs)
	o := &overlay{files: map[string][]byte{}}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		o.files[filepath.Join(repo, "zz_vf_"+filepath.Base(f))] = b
	}
	return o, nil
}

// load type-checks the package with the harness and drops harness
// declarations that no longer compile.
func load(repo string, o *overlay) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly")
	for try := 0; try < 60; try++ {
		ov := map[string][]byte{}
		for k, v := range o.files {
			if !strings.HasSuffix(k, "_test.go") {
				ov[k] = v
			}
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Overlay: ov}
		pkgs, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("%d packages in %s", len(pkgs), repo)
		}
		bad := false
		for _, e := range pkgs[0].Errors {
			if !o.drop(e) {
				return nil, fmt.Errorf("package does not compile: %v", e)
			}
			bad = true
		}
		if bad {
			continue
		}
		var depErr error
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if len(p.Errors) > 0 && depErr == nil {
				depErr = fmt.Errorf("%v", p.Errors[0])
			}
		})
		if depErr != nil {
			return nil, depErr
		}
		prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		p := &Program{prog: prog, main: sp[0], infos: map[*ssa.Function]*fnInfo{}, built: map[*ssa.Package]bool{}, sizes: types.SizesFor("gc", "amd64"), mainDir: repo}
		sp[0].Build()
		p.built[sp[0]] = true
		return p, nil
	}
	return nil, fmt.Errorf("harness does not fit the package")
}

func (o *overlay) drop(e packages.Error) bool {
	parts := strings.Split(e.Pos, ":")
	if len(parts) < 2 {
		return false
	}
	src, ok := o.files[parts[0]]
	if !ok {
		return false
	}
	line, err := strconv.Atoi(parts[1])
	if err != nil {
		return false
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, parts[0], src, parser.SkipObjectResolution)
	if err != nil {
		return false
	}
	blank := func(from, to token.Pos, what string) bool {
		a, b := fset.Position(from).Offset, fset.Position(to).Offset
		out := bytes.Clone(src)
		for i := a; i < b; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
		o.files[parts[0]] = out
		if what != "" {
			o.dropped = append(o.dropped, fmt.Sprintf("%s (%s)", what, e.Msg))
		}
		return true
	}
	for _, d := range f.Decls {
		if l1, l2 := fset.Position(d.Pos()).Line, fset.Position(d.End()).Line; line < l1 || line > l2 {
			continue
		}
		switch d := d.(type) {
		case *ast.FuncDecl:
			return blank(d.Pos(), d.End(), d.Name.Name)
		case *ast.GenDecl:
			if d.Tok == token.IMPORT && d.Lparen.IsValid() {
				for _, s := range d.Specs {
					if fset.Position(s.Pos()).Line == line {
						return blank(s.Pos(), s.End(), "")
					}
				}
			}
			return blank(d.Pos(), d.End(), "declaration in "+filepath.Base(parts[0]))
		}
	}
	// an error already repaired by an earlier drop in this round
	return strings.Contains(string(src), "\n") && len(o.dropped) > 0
}

func (p *Program) harnesses(prop string, only string) []*harness {
	var hs []*harness
	for name, m := range p.main.Members {
		fn, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(name, "vfH_"+prop+"_") {
			continue
		}
		if only != "" && !strings.Contains(name, only) {
			continue
		}
		hs = append(hs, &harness{name: name, fn: fn})
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	return hs
}
