// Command instrument rewrites a scratch copy of the code under test so that
// the simulator owns its nondeterminism:
//
//   - a call before every statement (simulated time, preemption points), a
//     different one where package-level variables or atomics are used,
//   - go statements start simulated threads,
//   - sync, math/rand and math/rand/v2 are replaced,
//   - ranging over a map takes its order from the tape,
//   - sizes given to make and image.New* are watched.
//
// Usage: instrument [-no feature,...] ROOT   (ROOT is the module directory)
//
// Nothing outside ROOT is written. Edits are made on the text, so that line
// numbers stay as they are.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const corePath = "vimagination.zapto.org/limage/zzverif/core"

var replaced = map[string][3]string{
	"sync":         {"sync", "vimagination.zapto.org/limage/zzverif/simsync", "sync"},
	"math/rand":    {"rand", "vimagination.zapto.org/limage/zzverif/simrand", "rand"},
	"math/rand/v2": {"rand", "vimagination.zapto.org/limage/zzverif/simrandv2", "rand"},
}

type edit struct {
	at, end int
	seq     int
	text    string
}

type file struct {
	fset  *token.FileSet
	ast   *ast.File
	src   []byte
	path  string
	edits []edit
	core  bool
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *file) put(at, end token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(at), f.off(end), len(f.edits), text})
}

func (f *file) ins(at token.Pos, text string) { f.put(at, at, text) }

var (
	off  = map[string]bool{}
	site int
)

func main() {
	no := flag.String("no", "", "features to leave out: steps,go,sync,rand,maps,alloc,time")
	sites := flag.String("sites", "", "write the list of statement sites here")
	flag.Parse()

	for _, s := range strings.Split(*no, ",") {
		off[s] = true
	}

	root := flag.Arg(0)

	dirs, err := packageDirs(root)
	if err != nil {
		fail(err)
	}

	info := loadTypes(root, dirs)

	var list bytes.Buffer

	for _, d := range dirs {
		names, err := filepath.Glob(filepath.Join(d, "*.go"))
		if err != nil {
			fail(err)
		}

		sort.Strings(names)

		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}

			if err := rewrite(root, n, info, &list); err != nil {
				fail(err)
			}
		}
	}

	if *sites != "" {
		if err := os.WriteFile(*sites, list.Bytes(), 0o644); err != nil {
			fail(err)
		}
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(1)
}

func packageDirs(root string) ([]string, error) {
	var dirs []string

	err := filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}

		if !d.IsDir() {
			return nil
		}

		b := d.Name()
		if p != root && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || b == "zzverif") {
			return filepath.SkipDir
		}

		if m, _ := filepath.Glob(filepath.Join(p, "*.go")); len(m) > 0 {
			dirs = append(dirs, p)
		}

		return nil
	})

	return dirs, err
}

// found holds the positions of range statements over maps, and of statements
// that use what threads may share: package-level variables and atomics.
type found struct{ maps, shared map[string]bool }

// loadTypes finds them. Without type information (code that does not compile
// here) there are none.
func loadTypes(root string, dirs []string) found {
	mr := found{make(map[string]bool), make(map[string]bool)}

	if off["maps"] {
		return mr
	}

	exports := make(map[string]string)

	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Export", "./...")
	cmd.Dir = root

	out, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument: go list:", err)
	}

	dec := json.NewDecoder(bytes.NewReader(out))

	for {
		var p struct{ ImportPath, Export string }
		if err := dec.Decode(&p); err != nil {
			break
		}

		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}

	for _, d := range dirs {
		fset := token.NewFileSet()

		names, _ := filepath.Glob(filepath.Join(d, "*.go"))
		sort.Strings(names)

		var files []*ast.File

		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}

			f, err := parser.ParseFile(fset, n, nil, parser.SkipObjectResolution)
			if err != nil {
				continue
			}

			files = append(files, f)
		}

		info := &types.Info{Types: make(map[ast.Expr]types.TypeAndValue), Uses: make(map[*ast.Ident]types.Object)}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				if e, ok := exports[path]; ok {
					return os.Open(e)
				}

				return nil, fmt.Errorf("no export data for %s", path)
			}),
			Error: func(error) {},
		}

		conf.Check(d, fset, files, info)

		for _, f := range files {
			ast.Inspect(f, func(n ast.Node) bool {
				if st, ok := n.(ast.Stmt); ok && usesShared(st, info) {
					pos := fset.Position(st.Pos())
					mr.shared[fmt.Sprintf("%s:%d", pos.Filename, pos.Offset)] = true
				}

				rs, ok := n.(*ast.RangeStmt)
				if !ok {
					return true
				}

				if tv, ok := info.Types[rs.X]; ok && tv.Type != nil {
					if _, ok := tv.Type.Underlying().(*types.Map); ok {
						pos := fset.Position(rs.Pos())
						mr.maps[fmt.Sprintf("%s:%d", pos.Filename, pos.Offset)] = true
					}
				}

				return true
			})
		}
	}

	return mr
}

// usesShared reports whether the statement itself, not one nested in it, uses a
// package-level variable of the code or an atomic.
func usesShared(st ast.Stmt, info *types.Info) bool {
	switch st.(type) {
	case *ast.BlockStmt, *ast.CaseClause, *ast.CommClause, *ast.LabeledStmt:
		return false
	}

	uses := false

	ast.Inspect(st, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.Ident:
			switch o := info.Uses[n].(type) {
			case *types.Func:
				uses = uses || o.Pkg() != nil && o.Pkg().Path() == "sync/atomic"
			case *types.Var:
				if o.Pkg() == nil || o.IsField() || o.Parent() != o.Pkg().Scope() {
					break
				}

				// Errors and color models are not what is being changed.
				switch o.Type().String() {
				case "error", "image/color.Model":
				default:
					uses = uses || strings.HasPrefix(o.Pkg().Path(), "/") || strings.HasPrefix(o.Pkg().Path(), "vimagination.zapto.org/limage")
				}
			}
		}

		return true
	})

	return uses
}

func rewrite(root, name string, mr found, list *bytes.Buffer) error {
	src, err := os.ReadFile(name)
	if err != nil {
		return err
	}

	f := &file{fset: token.NewFileSet(), src: src, path: name}

	f.ast, err = parser.ParseFile(f.fset, name, src, parser.SkipObjectResolution|parser.ParseComments)
	if err != nil {
		return err
	}

	imports := make(map[string]string)

	for _, im := range f.ast.Imports {
		p, err := strconv.Unquote(im.Path.Value)
		if err != nil {
			continue
		}

		b := filepath.Base(p)
		if im.Name != nil {
			b = im.Name.Name
		}

		imports[b] = p

		r, ok := replaced[p]
		if !ok || (p == "sync" && off["sync"]) || (p != "sync" && off["rand"]) {
			continue
		}

		text := strconv.Quote(r[1])
		if im.Name == nil {
			text = r[0] + " " + text
		}

		f.put(im.Path.Pos(), im.Path.End(), text)
	}

	rel, _ := filepath.Rel(root, name)

	step := func(pos token.Pos, what string) {
		if off["steps"] {
			return
		}

		site++

		f.core = true

		call := "Y"
		if mr.shared[fmt.Sprintf("%s:%d", name, f.off(pos))] {
			call = "S"
		}

		f.ins(pos, fmt.Sprintf("zzc.%s(%d);", call, site))
		fmt.Fprintf(list, "%d %s:%d\n", site, rel, f.fset.Position(pos).Line)
	}

	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}

			step(s.Pos(), "")
		}
	}

	var clock string

	body := func(b *ast.BlockStmt) {
		if b != nil && len(b.List) == 0 {
			step(b.Lbrace+1, "")
		}
	}

	ast.Inspect(f.ast, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			body(n.Body)
		case *ast.FuncDecl:
			body(n.Body)
		case *ast.FuncLit:
			body(n.Body)
		case *ast.RangeStmt:
			body(n.Body)

			if mr.maps[fmt.Sprintf("%s:%d", name, f.off(n.Pos()))] {
				f.mapRange(n)
			}
		case *ast.GoStmt:
			if !off["go"] {
				f.goStmt(n)
			}
		case *ast.CallExpr:
			if !off["alloc"] {
				f.alloc(n, imports)
			}
		case *ast.SelectorExpr: // the clock
			if x, ok := n.X.(*ast.Ident); ok && imports[x.Name] == "time" && !off["time"] {
				switch n.Sel.Name {
				case "Now", "Since", "Sleep":
					f.core = true
					clock = x.Name
					f.put(x.Pos(), x.End(), "zzc")
				}
			}
		}

		return true
	})

	if f.core {
		f.ins(f.ast.Name.End(), "; import zzc "+strconv.Quote(corePath))
	}

	out := f.apply()

	if clock != "" { // may not be used otherwise
		out = append(out, "\nvar _ "+clock+".Duration\n"...)
	}

	if _, err := parser.ParseFile(token.NewFileSet(), name, out, 0); err != nil {
		return fmt.Errorf("%s: result does not parse: %w", rel, err)
	}

	return os.WriteFile(name, out, 0o644)
}

func ident(e ast.Expr) string {
	if id, ok := e.(*ast.Ident); ok {
		return id.Name
	}

	return ""
}

func (f *file) mapRange(n *ast.RangeStmt) {
	if n.Key == nil {
		return
	}

	deletes := false

	ast.Inspect(n.Body, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && (ident(c.Fun) == "delete" || ident(c.Fun) == "clear") {
			deletes = true
		}

		return true
	})

	if deletes {
		return
	}

	text := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}

		return string(f.src[f.off(e.Pos()):f.off(e.End())])
	}

	k, v := text(n.Key), text(n.Value)
	assign := " " + n.Tok.String() + " "

	var set string

	switch {
	case k == "_" && v == "_":
	case v == "_":
		set = k + assign + "zzp.Key;"
	case k == "_":
		set = v + assign + "zzp.Val;"
	default:
		set = k + ", " + v + assign + "zzp.Key, zzp.Val;"
	}

	if set == "" {
		return
	}

	f.core = true
	f.put(n.Key.Pos(), n.X.Pos(), "_, zzp := range zzc.MapPairs(")
	f.ins(n.X.End(), ")")
	f.ins(n.Body.Lbrace+1, set)
}

func (f *file) goStmt(n *ast.GoStmt) {
	switch ident(n.Call.Fun) {
	case "print", "println", "panic", "close", "delete", "copy", "append", "recover", "clear":
		return
	}

	f.core = true

	name := "zzc.Go("
	if n.Call.Ellipsis.IsValid() {
		name = "zzc.GoSlice("

		f.put(n.Call.Ellipsis, n.Call.Ellipsis+3, "")
	}

	f.put(n.Go, n.Call.Fun.Pos(), name)

	sep := ""
	if len(n.Call.Args) > 0 {
		sep = ", "
	}

	f.put(n.Call.Lparen, n.Call.Lparen+1, sep)
}

func (f *file) alloc(n *ast.CallExpr, imports map[string]string) {
	if ident(n.Fun) == "make" && len(n.Args) > 1 {
		for _, a := range n.Args[1:] {
			if _, ok := a.(*ast.BasicLit); ok {
				continue
			}

			f.core = true
			f.ins(a.Pos(), "zzc.Cap(")
			f.ins(a.End(), ")")
		}

		return
	}

	sel, ok := n.Fun.(*ast.SelectorExpr)
	if !ok || len(n.Args) == 0 {
		return
	}

	if imports[ident(sel.X)] == "image" && strings.HasPrefix(sel.Sel.Name, "New") && sel.Sel.Name != "NewUniform" {
		f.core = true
		f.ins(n.Args[0].Pos(), "zzc.Rect(")
		f.ins(n.Args[0].End(), ")")
	}
}

func (f *file) apply() []byte {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.at != b.at {
			return a.at < b.at
		}

		return a.seq < b.seq
	})

	var (
		out bytes.Buffer
		pos int
	)

	for _, e := range f.edits {
		if e.at < pos {
			// An edit inside replaced text: cannot happen for the edits made here.
			fmt.Fprintf(os.Stderr, "instrument: overlapping edit in %s at %d\n", f.path, e.at)

			continue
		}

		out.Write(f.src[pos:e.at])
		out.WriteString(e.text)

		pos = e.end
	}

	out.Write(f.src[pos:])

	return out.Bytes()
}
