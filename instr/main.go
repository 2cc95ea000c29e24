// Command instr rewrites Go packages for deterministic simulation.
//
// It type-checks the named packages as they are in the working tree, and
// writes instrumented copies plus a `go build -overlay` file, so that nothing
// in the tree itself changes.  See ../DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	ImportMap  map[string]string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
	Module     *struct{ GoVersion string }
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	out := flag.String("out", "", "output directory for instrumented files")
	base := flag.String("base", "", "existing overlay file to merge")
	overlay := flag.String("overlay", "", "overlay file to write")
	seams := flag.String("seams", "", "comma-separated optional seams: fs,net,http")
	flag.Parse()
	pats := flag.Args()
	if *out == "" || *overlay == "" || len(pats) == 0 {
		die("usage: instr -out DIR -overlay FILE [-base FILE] pkg...")
	}
	table := buildTable(strings.Split(*seams, ","))

	ov := struct{ Replace map[string]string }{map[string]string{}}
	if *base != "" {
		b, err := os.ReadFile(*base)
		if err != nil {
			die("%v", err)
		}
		if err := json.Unmarshal(b, &ov); err != nil {
			die("%v", err)
		}
	}
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,ImportMap,Standard,DepOnly,Error,Module"}
	if *base != "" {
		args = append(args, "-overlay="+*base)
	}
	args = append(args, pats...)
	cmd := exec.Command("go", args...)
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var targets []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if !p.DepOnly {
			targets = append(targets, p)
		}
	}
	os.MkdirAll(*out, 0o755)
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	var firstErr error
	for _, p := range targets {
		if len(p.CgoFiles) > 0 {
			continue
		}
		wg.Add(1)
		go func(p *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			res, err := instrument(p, exports, table, ov.Replace)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if firstErr == nil {
					firstErr = fmt.Errorf("%s: %v", p.ImportPath, err)
				}
				return
			}
			for file, text := range res {
				dst := filepath.Join(*out, strings.NewReplacer("/", "_", "@", "_").Replace(p.ImportPath)+"__"+filepath.Base(file))
				if old, err := os.ReadFile(dst); err != nil || !bytes.Equal(old, []byte(text)) {
					if err := os.WriteFile(dst, []byte(text), 0o644); err != nil {
						firstErr = err
						return
					}
				}
				ov.Replace[file] = dst
			}
		}(p)
	}
	wg.Wait()
	if firstErr != nil {
		die("%v", firstErr)
	}
	b, _ := json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(*overlay, b, 0o644); err != nil {
		die("%v", err)
	}
}

func instrument(p *listPkg, exports map[string]string, table map[string]repl, over map[string]string) (map[string]string, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, f := range p.GoFiles {
		path := f
		if !filepath.IsAbs(path) {
			path = filepath.Join(p.Dir, f)
		}
		from := path
		if o, ok := over[path]; ok {
			from = o
		}
		src, err := os.ReadFile(from)
		if err != nil {
			return nil, err
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
		names = append(names, path)
		srcs[path] = src
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(e)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), FakeImportC: true}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return nil, err
	}
	res := map[string]string{}
	for i, af := range files {
		r := &rewriter{fset: fset, info: info, pkg: pkg, src: srcs[names[i]], file: af, table: table, path: names[i],
			imports: map[string]bool{}, useReal: map[string]int{}, captured: map[types.Object]bool{}}
		res[names[i]] = r.rewrite()
	}
	return res, nil
}
