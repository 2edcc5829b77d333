package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	modPath  = "github.com/RomiChan/protobuf"
	simPath  = modPath + "/verifsim"
	syncxPkg = "github.com/RomiChan/syncx"
)

// Site is one scheduling point of the instrumented code.
type Site struct {
	ID   int    `json:"id"`
	Pos  string `json:"pos"`
	Func string `json:"func"`
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

func goList(dir string, args ...string) ([]listPkg, error) {
	cmd := exec.Command("go", append([]string{"list", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Error"}, args...)...)
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list %v: %v: %s", args, err, errb.String())
	}
	var pkgs []listPkg
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		pkgs = append(pkgs, p)
	}
	return pkgs, nil
}

type edit struct {
	pos  int
	end  int // exclusive; == pos for an insertion
	text string
	seq  int
}

type instrumenter struct {
	fset    *token.FileSet
	sites   []Site
	exports map[string]string
	oldGo   bool // the module asks for a language version before 1.21
}

func (in *instrumenter) site(pos token.Pos, fn string) int {
	p := in.fset.Position(pos)
	id := len(in.sites) + 1
	in.sites = append(in.sites, Site{id, filepath.Base(filepath.Dir(p.Filename)) + "/" + filepath.Base(p.Filename) + ":" + strconv.Itoa(p.Line), fn})
	return id
}

// instrumentAll rewrites every package of the module that package proto is
// made of (and the vendored syncx) inside the scratch copy, and writes the
// package that resets all their package-level state.
func instrumentAll(repo string) ([]Site, []string, error) {
	pkgs, err := goList(repo, "-export", "-deps", "./proto")
	if err != nil {
		return nil, nil, err
	}
	in := &instrumenter{fset: token.NewFileSet(), exports: map[string]string{}}
	if gm, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, l := range strings.Split(string(gm), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
				if v := strings.Split(f[1], "."); len(v) > 1 {
					minor, _ := strconv.Atoi(v[1])
					in.oldGo = minor < 21
				}
			}
		}
	}
	var mine []listPkg
	for _, p := range pkgs {
		if p.Error != nil {
			return nil, nil, fmt.Errorf("%s: %s", p.ImportPath, p.Error.Err)
		}
		in.exports[p.ImportPath] = p.Export
		if p.ImportPath == syncxPkg || strings.HasPrefix(p.ImportPath, modPath+"/") || p.ImportPath == modPath {
			mine = append(mine, p)
		}
	}
	var resets []string // import paths in dependency order
	var names []string
	for _, p := range mine {
		dst := p.Dir
		ip := p.ImportPath
		if ip == syncxPkg {
			dst = filepath.Join(repo, "verifsim", "syncx")
			ip = simPath + "/syncx"
			if err := os.MkdirAll(dst, 0o755); err != nil {
				return nil, nil, err
			}
			ents, err := os.ReadDir(p.Dir)
			if err != nil {
				return nil, nil, err
			}
			for _, e := range ents { // assembly stubs that allow body-less functions
				if strings.HasSuffix(e.Name(), ".s") {
					b, err := os.ReadFile(filepath.Join(p.Dir, e.Name()))
					if err != nil {
						return nil, nil, err
					}
					if err := os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644); err != nil {
						return nil, nil, err
					}
				}
			}
		}
		if err := in.pkg(p, dst); err != nil {
			return nil, nil, fmt.Errorf("instrument %s: %v", p.ImportPath, err)
		}
		resets = append(resets, ip)
		names = append(names, p.Name)
	}
	var b bytes.Buffer
	b.WriteString("// Package reset returns all library packages to their state at program start.\npackage reset\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, r)
	}
	b.WriteString(")\n\n// All resets everything.\nfunc All() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tp%d.VerifReset_%s()\n", i, names[i])
	}
	b.WriteString("}\n")
	if err := os.MkdirAll(filepath.Join(repo, "verifsim", "reset"), 0o755); err != nil {
		return nil, nil, err
	}
	if err := os.WriteFile(filepath.Join(repo, "verifsim", "reset", "reset.go"), b.Bytes(), 0o644); err != nil {
		return nil, nil, err
	}
	return in.sites, names, nil
}

func (in *instrumenter) pkg(p listPkg, dst string) error {
	var files []*ast.File
	var srcs [][]byte
	var paths []string
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(in.fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, src)
		paths = append(paths, path)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Defs:  map[*ast.Ident]types.Object{},
		Uses:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
			e := in.exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
	}
	if _, err := conf.Check(p.ImportPath, in.fset, files, info); err != nil {
		return err
	}
	off := func(pos token.Pos) int { return in.fset.Position(pos).Offset }

	// package-level state
	inits := make([]bytes.Buffer, len(files))
	var resetCalls []string
	linknamed := map[string]bool{}
	for _, f := range files {
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:linkname ") {
					if w := strings.Fields(c.Text); len(w) > 1 {
						linknamed[w[1]] = true
					}
				}
			}
		}
	}
	nInit := 0
	type initFn struct {
		file int
		d    *ast.FuncDecl
	}
	var initFns []initFn
	hasInit := map[types.Object]bool{}
	for _, iz := range info.InitOrder {
		for _, v := range iz.Lhs {
			hasInit[v] = true
		}
	}
	for fi, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && fd.Body != nil {
					initFns = append(initFns, initFn{fi, fd})
				}
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					o := info.Defs[n]
					if n.Name == "_" || linknamed[n.Name] || o == nil || hasInit[o] {
						continue
					}
					t := string(srcs[fi][off(vs.Type.Pos()):off(vs.Type.End())])
					fmt.Fprintf(&inits[fi], "\nfunc verifInit%d() { %s = *new(%s) }\n", nInit, n.Name, t)
					resetCalls = append(resetCalls, fmt.Sprintf("verifInit%d()", nInit))
					nInit++
				}
			}
		}
	}
	// the initializers run again at every reset, instrumented like the rest
	type initExpr struct {
		file, n  int
		lhs      string
		pos, end int
	}
	var initExprs []initExpr
	for _, iz := range info.InitOrder {
		fi := -1
		for i, f := range files {
			if f.Pos() <= iz.Rhs.Pos() && iz.Rhs.Pos() < f.End() {
				fi = i
			}
		}
		if fi < 0 {
			return fmt.Errorf("initializer without file")
		}
		var lhs []string
		skip := true
		for _, v := range iz.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				skip = false
			}
			if linknamed[v.Name()] {
				skip = true
				break
			}
		}
		if skip {
			continue
		}
		initExprs = append(initExprs, initExpr{fi, nInit, strings.Join(lhs, ", "), off(iz.Rhs.Pos()), off(iz.Rhs.End())})
		resetCalls = append(resetCalls, fmt.Sprintf("verifInit%d()", nInit))
		nInit++
	}
	fmt.Fprintf(&inits[0], "\n// VerifReset_%s returns the package to its state at program start.\nfunc VerifReset_%s() {\n", p.Name, p.Name)
	for _, c := range resetCalls {
		fmt.Fprintf(&inits[0], "\t%s\n", c)
	}
	for i := range initFns {
		fmt.Fprintf(&inits[0], "\tverifInitFn%d()\n", i)
	}
	inits[0].WriteString("}\n")

	for fi, f := range files {
		var edits []edit
		add := func(pos, end int, text string) { edits = append(edits, edit{pos, end, text, len(edits)}) }
		// what ends an expression goes before what follows it, the innermost first
		closer := func(pos int, text string) { edits = append(edits, edit{pos, pos, text, -len(edits) - 1}) }
		// the scheduler import goes on the line of the package clause
		add(off(f.Name.End()), off(f.Name.End()), fmt.Sprintf("; import verifsimrt %q", simPath+"/simrt"))
		for _, is := range f.Imports {
			path, _ := strconv.Unquote(is.Path.Value)
			switch path {
			case "sync":
				name := ""
				if is.Name == nil {
					name = "sync "
				}
				add(off(is.Path.Pos()), off(is.Path.End()), name+strconv.Quote(simPath+"/simsync"))
			case syncxPkg:
				name := ""
				if is.Name == nil {
					name = "syncx "
				}
				add(off(is.Path.Pos()), off(is.Path.End()), name+strconv.Quote(simPath+"/syncx"))
			}
		}
		for i, fn := range initFns {
			if fn.file == fi {
				add(off(fn.d.Name.Pos()), off(fn.d.Name.End()), fmt.Sprintf("verifInitFn%d", i))
				fmt.Fprintf(&inits[fi], "\nfunc init() { verifInitFn%d() }\n", i)
			}
		}
		var fname string
		// channel operations that are cases of a select stay what they are
		inSelect := map[ast.Node]bool{}
		recv2 := map[ast.Node]bool{}
		labelOf := map[ast.Node]token.Pos{}
		unparen := func(e ast.Expr) ast.Expr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					return e
				}
				e = p.X
			}
		}
		nSel := 0
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CommClause:
				switch c := n.Comm.(type) {
				case *ast.SendStmt:
					inSelect[c] = true
				case *ast.ExprStmt:
					inSelect[unparen(c.X)] = true
				case *ast.AssignStmt:
					inSelect[unparen(c.Rhs[0])] = true
				}
			case *ast.AssignStmt:
				if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
					recv2[unparen(n.Rhs[0])] = true
				}
			case *ast.LabeledStmt:
				labelOf[n.Stmt] = n.Pos()
			case *ast.ValueSpec:
				if len(n.Names) == 2 && len(n.Values) == 1 {
					recv2[unparen(n.Values[0])] = true
				}
			}
			return true
		})
		var list func(l []ast.Stmt)
		list = func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("verifsimrt.Y(%d); ", in.site(s.Pos(), fname)))
			}
		}
		for _, d := range f.Decls {
			fd, isFn := d.(*ast.FuncDecl)
			if isFn {
				if fd.Body == nil {
					continue
				}
				skip := false
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:norace") {
							skip = true
						}
					}
				}
				if skip {
					continue
				}
				fname = fd.Name.Name
				if fd.Recv != nil && len(fd.Recv.List) > 0 {
					fname = string(srcs[fi][off(fd.Recv.List[0].Type.Pos()):off(fd.Recv.List[0].Type.End())]) + "." + fname
				}
			} else {
				fname = "(package)"
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				case *ast.ForStmt:
					add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, fmt.Sprintf(" verifsimrt.Y(%d); ", in.site(n.Pos(), fname)))
				case *ast.SelectStmt:
					// a select that would wait polls, and lets others run
					for _, c := range n.Body.List {
						if c.(*ast.CommClause).Comm == nil {
							return true
						}
					}
					nSel++
					p := n.Pos()
					if l, ok := labelOf[n]; ok {
						p = l
					}
					add(off(p), off(p), fmt.Sprintf("verifSel%d: ", nSel))
					add(off(n.Body.Rbrace), off(n.Body.Rbrace), fmt.Sprintf("; default: verifsimrt.Yield(nil, %d); goto verifSel%d; ", in.site(n.Pos(), fname), nSel))
				case *ast.SendStmt:
					if !inSelect[n] {
						add(off(n.Pos()), off(n.Pos()), "verifsimrt.Send(")
						add(off(n.Arrow), off(n.Arrow)+2, fmt.Sprintf(", %d)(", in.site(n.Pos(), fname)))
						closer(off(n.End()), ")")
					}
				case *ast.UnaryExpr:
					if n.Op == token.ARROW && !inSelect[n] {
						name := "Recv"
						if recv2[n] {
							name = "Recv2"
						}
						add(off(n.OpPos), off(n.OpPos)+2, "verifsimrt."+name+"(")
						closer(off(n.End()), fmt.Sprintf(", %d)", in.site(n.Pos(), fname)))
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && len(n.Args) > 0 {
						_, builtin := info.Uses[id].(*types.Builtin)
						if builtin && id.Name == "copy" {
							add(off(id.Pos()), off(id.End()), "verifsimrt.Copied(copy")
							closer(off(n.End()), ")")
						}
						if sl, ok := n.Args[0].(*ast.SliceExpr); ok && builtin && id.Name == "append" && n.Ellipsis.IsValid() && sl.Low == nil {
							if h, ok := sl.High.(*ast.BasicLit); ok && h.Value == "0" {
								add(off(id.Pos()), off(id.End()), "verifsimrt.Filled(append")
								closer(off(n.End()), ")")
							}
						}
						if builtin && id.Name == "make" {
							if tv, ok := info.Types[n.Args[0]]; ok {
								if _, isChan := tv.Type.Underlying().(*types.Chan); isChan {
									// two goroutines never stand at a channel at once
									if len(n.Args) == 1 {
										closer(off(n.Args[0].End()), ", 1")
									} else {
										add(off(n.Args[1].Pos()), off(n.Args[1].Pos()), "verifsimrt.Cap(")
										closer(off(n.Args[1].End()), ")")
									}
								}
							}
						}
					}
					if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
						if fn, ok := info.Uses[sel.Sel].(*types.Func); ok && fn.Pkg() != nil {
							switch fn.FullName() {
							case "runtime.Gosched":
								add(off(n.Pos()), off(n.Pos()), "verifsimrt.Yield(")
								add(off(n.Lparen), off(n.Lparen)+1, fmt.Sprintf(", %d", in.site(n.Pos(), fname)))
							case "time.Sleep":
								add(off(n.Pos()), off(n.Pos()), "verifsimrt.Sleep(")
								add(off(n.Lparen), off(n.Lparen)+1, fmt.Sprintf(", %d, ", in.site(n.Pos(), fname)))
							}
						}
					}
				case *ast.RangeStmt:
					in.rangeStmt(n, info, srcs[fi], off, add, fname)
				case *ast.GoStmt:
					lit, isLit := n.Call.Fun.(*ast.FuncLit)
					if isLit && len(n.Call.Args) == 0 {
						// go func() {...}()  becomes  verifsimrt.Go(func() {...})
						add(off(n.Pos()), off(lit.Pos()), "verifsimrt.Go(")
						add(off(lit.End()), off(n.End()), ")")
						return true
					}
					// go f(a, b)  becomes  verifsimrt.GoCall(f, a, b)
					add(off(n.Pos()), off(n.Call.Fun.Pos()), "verifsimrt.GoCall(")
					sep := ", "
					if len(n.Call.Args) == 0 {
						sep = ""
					}
					add(off(n.Call.Fun.End()), off(n.Call.Lparen)+1, sep)
				}
				return true
			})
		}
		// clauses of switch and select bodies were listed as statements of a
		// block: drop those insertions
		drop := map[int]bool{}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.CaseClause:
				drop[off(n.Pos())] = true
			case *ast.CommClause:
				drop[off(n.Pos())] = true
			}
			return true
		})
		kept := edits[:0]
		for _, e := range edits {
			if e.pos == e.end && drop[e.pos] && strings.HasPrefix(e.text, "verifsimrt.Y(") {
				continue
			}
			kept = append(kept, e)
		}
		edits = kept
		sort.SliceStable(edits, func(i, j int) bool {
			if edits[i].pos != edits[j].pos {
				return edits[i].pos < edits[j].pos
			}
			ii, jj := edits[i].pos == edits[i].end, edits[j].pos == edits[j].end
			if ii != jj {
				return ii // insertions before replacements
			}
			return edits[i].seq < edits[j].seq
		})
		var out bytes.Buffer
		if !bytes.Contains(srcs[fi][:off(f.Package)], []byte("//go:build")) && !bytes.Contains(srcs[fi][:off(f.Package)], []byte("// +build")) && in.oldGo {
			// MapKeys needs interface types to satisfy comparable
			out.WriteString("//go:build go1.21\n\n")
		}
		render := func(w *bytes.Buffer, pos, end int) error {
			last := pos
			for _, e := range edits {
				if e.pos < pos || e.pos > end || e.pos == end && (e.end > end || e.seq >= 0) {
					continue
				}
				if e.pos < last {
					return fmt.Errorf("%s: overlapping edits", paths[fi])
				}
				w.Write(srcs[fi][last:e.pos])
				w.WriteString(e.text)
				last = e.end
			}
			w.Write(srcs[fi][last:end])
			return nil
		}
		for _, x := range initExprs {
			if x.file != fi {
				continue
			}
			fmt.Fprintf(&inits[fi], "\nfunc verifInit%d() { %s = ", x.n, x.lhs)
			if err := render(&inits[fi], x.pos, x.end); err != nil {
				return err
			}
			inits[fi].WriteString(" }\n")
		}
		if err := render(&out, 0, len(srcs[fi])); err != nil {
			return err
		}
		if n := len(srcs[fi]); n > 0 && srcs[fi][n-1] != '\n' {
			out.WriteByte('\n')
		}
		out.Write(inits[fi].Bytes())
		out.WriteString("\nvar _ = verifsimrt.Y\n")
		if err := os.WriteFile(filepath.Join(dst, filepath.Base(paths[fi])), out.Bytes(), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// rangeStmt turns iteration over a map, whose order depends on addresses and
// the runtime's random source, into iteration over the keys in an order that
// the simulation decides.
func (in *instrumenter) rangeStmt(n *ast.RangeStmt, info *types.Info, src []byte, off func(token.Pos) int, add func(int, int, string), fname string) {
	y := fmt.Sprintf(" verifsimrt.Y(%d); ", in.site(n.Pos(), fname))
	lb := off(n.Body.Lbrace) + 1
	tv, ok := info.Types[n.X]
	isMap := false
	if ok && tv.Type != nil {
		_, isMap = tv.Type.Underlying().(*types.Map)
	}
	simple := false
	switch x := n.X.(type) {
	case *ast.Ident:
		simple = true
	case *ast.SelectorExpr:
		_, simple = x.X.(*ast.Ident)
	}
	if !isMap || !simple || n.Tok != token.DEFINE || n.Key == nil {
		add(lb, lb, y)
		return
	}
	txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
	key := txt(n.Key)
	head := ""
	if key == "_" {
		key = "verifKey"
	}
	if n.Value != nil && txt(n.Value) != "_" {
		head = fmt.Sprintf(" %s, verifOK := %s[%s]; if !verifOK { continue }; ", txt(n.Value), txt(n.X), key)
	} else {
		head = fmt.Sprintf(" if _, verifOK := %s[%s]; !verifOK { continue }; ", txt(n.X), key)
	}
	add(off(n.Key.Pos()), off(n.X.End()), fmt.Sprintf("_, %s := range verifsimrt.MapKeys(%s)", key, txt(n.X)))
	add(lb, lb, head+y)
}
