// Command instr rewrites the current sources of the library under test for the
// simulator and emits an overlay for `go build -overlay`. Nothing is written
// below the library's own tree.
//
// What it does to every non-test library file, keeping line numbers:
//   - a scheduling point simrt.Y(n) before every statement and at the start of
//     every loop body and function body;
//   - the import "sync" is replaced by the simulated one;
//   - reflect map iteration is replaced by one whose order the simulator picks;
//   - `go` statements, time.Sleep and runtime.Gosched become simulated ones;
//   - every package gets SimReset, which puts its package level state back to
//     what a freshly started process has.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int // replace [off,end)
	text     string
	prio     int
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Main bool }
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  string
}

var (
	repo    = flag.String("repo", "/repo", "library under test")
	harness = flag.String("harness", "", "harness directory")
	out     = flag.String("out", "", "output directory")
	level   = flag.Int("level", 0, "0 full, 1 no map/time/channel rewriting, 2 also no state reset, 3 also no scheduling points")
	modpath string
	goroot  string
	sites   []string
)

const simName = "simrtXq"

func main() {
	flag.Parse()
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func run() error {
	cmd := exec.Command("go", "list", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Standard,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %w", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	var pkgs []pkgInfo
	for dec.More() {
		var p pkgInfo
		if err := dec.Decode(&p); err != nil {
			return err
		}
		if p.Name == "main" || len(p.GoFiles) == 0 || p.Standard || p.Module == nil || !p.Module.Main {
			continue
		}
		pkgs = append(pkgs, p)
	}
	if gb, err := exec.Command("go", "env", "GOROOT").Output(); err == nil {
		goroot = strings.TrimSpace(string(gb))
		build.Default.GOROOT = goroot
	}
	if len(pkgs) == 0 {
		return fmt.Errorf("no packages")
	}
	cmd = exec.Command("go", "list", "-m")
	cmd.Dir = *repo
	mb, err := cmd.Output()
	if err != nil {
		return err
	}
	modpath = strings.TrimSpace(strings.Split(string(mb), "\n")[0])

	overlay := map[string]string{}
	simDir := filepath.Join(*repo, "internal", "verifsim")
	base := modpath + "/internal/verifsim"

	// harness packages
	err = filepath.Walk(*harness, func(p string, st os.FileInfo, err error) error {
		if err != nil || st.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*harness, p)
		overlay[filepath.Join(simDir, rel)] = p
		return nil
	})
	if err != nil {
		return err
	}

	var resets []string
	for _, p := range pkgs {
		if err := instrument(p, base, overlay); err != nil {
			return err
		}
		resets = append(resets, p.ImportPath)
	}

	// go list -deps lists dependencies first, as package initialisation does
	var sb strings.Builder
	sb.WriteString("package simreset\n\nimport (\n")
	for i, p := range resets {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, p)
	}
	sb.WriteString(")\n\nfunc Reset() {\n")
	for i := range resets {
		fmt.Fprintf(&sb, "\tp%d.SimResetXq()\n", i)
	}
	sb.WriteString("}\n")
	fmt.Fprintf(&sb, "\nconst Level = %d\nconst NumSites = %d\n\nvar Sites = []string{\n", *level, len(sites))
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t%q,\n", s)
	}
	sb.WriteString("}\n")
	rp := filepath.Join(*out, "simreset.go")
	if err := os.WriteFile(rp, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(simDir, "simreset", "simreset.go")] = rp

	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	return os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644)
}

func instrument(p pkgInfo, base string, overlay map[string]string) error {
	var files []*file
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, &file{path: path, src: src, ast: f})
	}
	off := func(pos token.Pos) int { return fset.Position(pos).Offset }
	kinds := rangeKinds(p.ImportPath, files)

	for _, f := range files {
		var keep []string // uses which keep imports in use
		rel, _ := filepath.Rel(*repo, f.path)
		site := func(pos token.Pos) string {
			n := len(sites)
			sites = append(sites, fmt.Sprintf("%s:%d", rel, fset.Position(pos).Line))
			return fmt.Sprintf("%s.Y(%d);", simName, n)
		}
		ins := func(pos token.Pos, text string) {
			f.edits = append(f.edits, edit{off: off(pos), end: off(pos), text: text})
		}
		repl := func(from, to token.Pos, text string) {
			f.edits = append(f.edits, edit{off: off(from), end: off(to), text: text, prio: 1})
		}

		// imports
		imports := map[string]string{}
		for _, im := range f.ast.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			name := filepath.Base(ip)
			if im.Name != nil {
				name = im.Name.Name
			}
			imports[ip] = name
			if ip == "math/rand/v2" && im.Name == nil {
				name = "rand"
			}
			sub := map[string]string{"sync": "simsync"}
			if *level < 1 {
				sub = map[string]string{"sync": "simsync", "time": "simtime", "math/rand": "simrand", "math/rand/v2": "simrandv2"}
			}
			if s := sub[ip]; s != "" {
				if im.Name != nil {
					repl(im.Path.Pos(), im.Path.End(), strconv.Quote(base+"/"+s))
				} else {
					repl(im.Path.Pos(), im.Path.End(), name+" "+strconv.Quote(base+"/"+s))
				}
			}
		}
		ins(f.ast.Name.End(), fmt.Sprintf("; import %s %q", simName, base+"/simrt"))

		if *level >= 3 {
			f.edits = nil
			ins(f.ast.Name.End(), fmt.Sprintf("; import %s %q", simName, base+"/simrt"))
			continue
		}

		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				ins(s.Pos(), site(s.Pos()))
			}
		}
		ast.Inspect(f.ast, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					ins(n.Body.Lbrace+1, site(n.Body.Lbrace))
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					ins(n.Body.Lbrace+1, site(n.Body.Lbrace))
				}
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.BlockStmt:
				isClauses := len(n.List) > 0
				for _, s := range n.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
					default:
						isClauses = false
					}
				}
				if !isClauses {
					list(n.List)
				}
			case *ast.FuncDecl:
				if n.Body != nil && len(n.Body.List) == 0 {
					ins(n.Body.Lbrace+1, site(n.Body.Lbrace))
				}
			case *ast.GoStmt:
				repl(n.Pos(), n.Call.Pos(), simName+".Go(func(){")
				ins(n.End(), "})")
			}
			return true
		})

		if *level < 1 {
			rname, hasReflect := imports["reflect"]
			gname, hasRuntime := imports["runtime"]
			comm := map[ast.Node]bool{}
			recv2 := map[ast.Node]bool{}
			labeled := map[*ast.SelectStmt]token.Pos{}
			nsel := 0
			ast.Inspect(f.ast, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CommClause:
					switch c := n.Comm.(type) {
					case *ast.SendStmt:
						comm[c] = true
					case *ast.ExprStmt:
						comm[c.X] = true
					case *ast.AssignStmt:
						comm[c.Rhs[0]] = true
					}
				case *ast.AssignStmt:
					if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
						recv2[n.Rhs[0]] = true
					}
				case *ast.ValueSpec:
					if len(n.Names) == 2 && len(n.Values) == 1 {
						recv2[n.Values[0]] = true
					}
				case *ast.LabeledStmt:
					if s, ok := n.Stmt.(*ast.SelectStmt); ok {
						labeled[s] = n.Pos()
					}
				case *ast.SelectStmt:
					for _, c := range n.Body.List {
						if c.(*ast.CommClause).Comm == nil {
							return true
						}
					}
					at, ok := labeled[n]
					if !ok {
						at = n.Pos()
					}
					nsel++
					l := fmt.Sprintf("simSel%dXq", nsel)
					ins(at, l+": ")
					ins(n.Body.Rbrace, "; default: "+simName+".Spin(); goto "+l+";")
				case *ast.RangeStmt:
					fn := ""
					switch kinds[n] {
					case 'c':
						fn = ".RangeChan("
					case 'm':
						if n.Key == nil || copies(n) {
							return true
						}
						fn = ".RangeMap("
						if n.Value == nil {
							fn = ".RangeMapKeys("
						}
					default:
						return true
					}
					ins(n.X.Pos(), simName+fn)
					ins(n.X.End(), ")")
				case *ast.SendStmt:
					if !comm[n] {
						ins(n.Pos(), simName+".Send(")
						repl(n.Arrow, n.Arrow+2, ")(")
						ins(n.End(), ")")
					}
				case *ast.UnaryExpr:
					if n.Op == token.ARROW && !comm[n] {
						fn := ".Recv("
						if recv2[n] {
							fn = ".Recv2("
						}
						repl(n.Pos(), n.Pos()+2, simName+fn)
						ins(n.End(), ")")
					}
				case *ast.StarExpr:
					if sel, ok := n.X.(*ast.SelectorExpr); ok && hasReflect {
						if id, ok := sel.X.(*ast.Ident); ok && id.Name == rname && sel.Sel.Name == "MapIter" {
							repl(sel.Pos(), sel.End(), simName+".MapIter")
						}
					}
				case *ast.CallExpr:
					sel, ok := n.Fun.(*ast.SelectorExpr)
					if !ok {
						return true
					}
					if id, ok := sel.X.(*ast.Ident); ok {
						if hasRuntime && id.Name == gname {
							switch sel.Sel.Name {
							case "Gosched", "SetFinalizer", "AddCleanup":
								repl(sel.Pos(), sel.End(), simName+"."+sel.Sel.Name)
								keep = append(keep, gname+".GC")
								return true
							}
						}
					}
					if !hasReflect {
						return true
					}
					switch {
					case (sel.Sel.Name == "MapRange" || sel.Sel.Name == "MapKeys") && len(n.Args) == 0:
						ins(n.Pos(), simName+"."+sel.Sel.Name+"(")
						repl(sel.X.End(), n.End(), ")")
					case (sel.Sel.Name == "SetIterKey" || sel.Sel.Name == "SetIterValue") && len(n.Args) == 1:
						ins(n.Pos(), simName+"."+sel.Sel.Name+"(")
						repl(sel.X.End(), n.Lparen+1, ",")
					}
				}
				return true
			})
		}
		for _, k := range keep {
			f.tail += "\nvar _ = " + k + "\n"
		}
	}

	// init functions are renamed so that SimReset can call them again
	var inits []string
	for _, f := range files {
		for _, d := range f.ast.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
				continue
			}
			name := fmt.Sprintf("simInitXq%d", len(inits))
			inits = append(inits, name)
			f.edits = append(f.edits, edit{off: off(fd.Name.Pos()), end: off(fd.Name.End()), text: name, prio: 1})
		}
	}

	reset := resetSource(fset, files, inits)
	var sb strings.Builder
	fmt.Fprintf(&sb, "\nvar _ = %s.Y\n", simName)
	tail := sb.String()
	for i, f := range files {
		t := tail + f.tail
		if i == 0 {
			t += initCaller(inits)
			if *level >= 2 {
				t += "\nfunc SimResetXq() {}\n"
			} else {
				t += "\n" + reset.head
			}
		}
		if *level < 2 {
			t += reset.perFile[i]
		}
		res := apply(f.src, f.edits) + t
		name := strings.NewReplacer("/", "_", ".", "_").Replace(strings.TrimPrefix(f.path, *repo)) + ".go"
		op := filepath.Join(*out, name)
		if err := os.WriteFile(op, []byte(res), 0o644); err != nil {
			return err
		}
		overlay[f.path] = op
	}
	return nil
}

// rangeKinds tells which range statements go over a channel ('c') and which over a
// map ('m').
func rangeKinds(path string, files []*file) map[*ast.RangeStmt]byte {
	kinds := map[*ast.RangeStmt]byte{}
	if *level >= 1 {
		return kinds
	}
	var l []*ast.File
	for _, f := range files {
		l = append(l, f.ast)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: imports{}, Error: func(error) {}, FakeImportC: true}
	func() {
		defer func() { _ = recover() }()
		if p, _ := conf.Check(path, fset, l, info); p != nil {
			p.MarkComplete()
			checked[path] = p
		}
	}()
	for _, f := range l {
		ast.Inspect(f, func(n ast.Node) bool {
			r, ok := n.(*ast.RangeStmt)
			if !ok {
				return true
			}
			tv, ok := info.Types[r.X]
			if !ok || tv.Type == nil {
				return true
			}
			switch tv.Type.Underlying().(type) {
			case *types.Chan:
				kinds[r] = 'c'
			case *types.Map:
				kinds[r] = 'm'
			}
			return true
		})
	}
	return kinds
}

// imports gives the type checker what it asks for: packages of the library, which
// have been looked at before, and those of the standard library, of which the
// bodies of functions do not matter.
type imports struct{}

var (
	fset    = token.NewFileSet()
	checked = map[string]*types.Package{"unsafe": types.Unsafe}
)

func (i imports) Import(path string) (*types.Package, error) {
	if p := checked[path]; p != nil {
		return p, nil
	}
	checked[path] = types.NewPackage(path, filepath.Base(path)) // should it come back
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.Import(path, filepath.Join(goroot, "src"), 0)
	if err != nil {
		return nil, err
	}
	var l []*ast.File
	for _, name := range bp.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(bp.Dir, name), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		l = append(l, f)
	}
	conf := types.Config{Importer: i, Error: func(error) {}, FakeImportC: true, IgnoreFuncBodies: true, Sizes: types.SizesFor("gc", ctx.GOARCH)}
	p, _ := conf.Check(path, fset, l, nil)
	if p == nil {
		return nil, fmt.Errorf("%s: not understood", path)
	}
	p.MarkComplete()
	checked[path] = p
	return p, nil
}

// copies tells whether a loop over a map only stores its entries in another one.
func copies(n *ast.RangeStmt) bool {
	if len(n.Body.List) != 1 {
		return false
	}
	as, ok := n.Body.List[0].(*ast.AssignStmt)
	if !ok || len(as.Lhs) != 1 {
		return false
	}
	ix, ok := as.Lhs[0].(*ast.IndexExpr)
	if !ok {
		return false
	}
	k, ok := n.Key.(*ast.Ident)
	i, ok2 := ix.Index.(*ast.Ident)
	return ok && ok2 && k.Name == i.Name
}

func initCaller(inits []string) string {
	if len(inits) == 0 {
		return ""
	}
	var sb strings.Builder
	sb.WriteString("\nfunc init() {")
	for _, n := range inits {
		sb.WriteString(" " + n + "();")
	}
	sb.WriteString(" }\n")
	return sb.String()
}

func apply(src []byte, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions before replacements at the same offset
		return edits[i].prio < edits[j].prio
	})
	var sb strings.Builder
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			if e.end > pos {
				pos = e.end
			}
			continue // swallowed by an outer replacement
		}
		sb.Write(src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(src[pos:])
	return sb.String()
}

type resetCode struct {
	head    string
	perFile []string
}

// resetSource builds the code which re-runs package initialisation: zero every
// variable, run initialisers in dependency order, then the init functions.
// Initialisers stay in the file they came from, so that its imports apply.
func resetSource(fset *token.FileSet, files []*file, inits []string) resetCode {
	type spec struct {
		names []string
		expr  string
		deps  map[string]bool
		file  int
		done  bool
	}
	var specs []*spec
	decls := map[string][]ast.Node{} // name -> bodies to look for references in
	isVar := map[string]bool{}
	rc := resetCode{perFile: make([]string, len(files))}
	var zero []string

	for fi, f := range files {
		for _, d := range f.ast.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					decls[d.Name.Name] = append(decls[d.Name.Name], d.Body)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for _, n := range vs.Names {
						if n.Name != "_" {
							isVar[n.Name] = true
							zero = append(zero, n.Name)
						}
					}
					src := func(e ast.Expr) string {
						return string(f.src[fset.Position(e.Pos()).Offset:fset.Position(e.End()).Offset])
					}
					if len(vs.Values) == len(vs.Names) {
						for i, n := range vs.Names {
							if n.Name == "_" {
								continue
							}
							decls[n.Name] = append(decls[n.Name], vs.Values[i])
							specs = append(specs, &spec{names: []string{n.Name}, expr: src(vs.Values[i]), file: fi})
						}
					} else if len(vs.Values) == 1 {
						var names []string
						for _, n := range vs.Names {
							names = append(names, n.Name)
							decls[n.Name] = append(decls[n.Name], vs.Values[0])
						}
						specs = append(specs, &spec{names: names, expr: src(vs.Values[0]), file: fi})
					}
				}
			}
		}
	}
	// transitive references
	for _, s := range specs {
		s.deps = map[string]bool{}
		var visit func(name string)
		seen := map[string]bool{}
		visit = func(name string) {
			if seen[name] {
				return
			}
			seen[name] = true
			for _, n := range decls[name] {
				ast.Inspect(n, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if isVar[id.Name] {
							s.deps[id.Name] = true
						}
						if _, ok := decls[id.Name]; ok {
							visit(id.Name)
						}
					}
					return true
				})
			}
		}
		for _, n := range s.names {
			visit(n)
		}
		for _, n := range s.names {
			delete(s.deps, n)
		}
	}
	pending := map[string]bool{}
	for _, s := range specs {
		for _, n := range s.names {
			pending[n] = true
		}
	}
	var calls []string
	emit := func(s *spec) {
		s.done = true
		fn := fmt.Sprintf("simVarXq%d", len(calls))
		// a function scoped copy of the initialiser; assignment keeps the declared type
		rc.perFile[s.file] += fmt.Sprintf("\nfunc %s() { %s = %s }\n", fn, strings.Join(s.names, ", "), s.expr)
		calls = append(calls, fn)
		for _, n := range s.names {
			delete(pending, n)
		}
	}
	for range specs {
		var pick *spec
		for _, s := range specs {
			if s.done {
				continue
			}
			ready := true
			for d := range s.deps {
				if pending[d] {
					ready = false
				}
			}
			if ready {
				pick = s
				break
			}
		}
		if pick == nil {
			for _, s := range specs {
				if !s.done {
					pick = s
					break
				}
			}
		}
		if pick == nil {
			break
		}
		emit(pick)
	}
	var sb strings.Builder
	sb.WriteString("func SimResetXq() {\n")
	for _, z := range zero {
		fmt.Fprintf(&sb, "\t%s.Zero(&%s)\n", simName, z)
	}
	for _, c := range calls {
		fmt.Fprintf(&sb, "\t%s()\n", c)
	}
	for _, n := range inits {
		fmt.Fprintf(&sb, "\t%s()\n", n)
	}
	sb.WriteString("}\n")
	rc.head = sb.String()
	return rc
}
