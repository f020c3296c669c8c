// instr rewrites packages of requiemdb for systematic exploration: it puts
// scheduling points before statements that can touch shared memory, and routes
// sync, channels, goroutines, tickers and map iteration through the scheduler
// in harness/sched. It writes rewritten copies to OUT and prints an overlay.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	mod   = "github.com/gernest/requiemdb"
	zz    = mod + "/internal/zzverif/"
	sched = "zzsched"
)

type pkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
}

type edit struct {
	off, end int
	text     string
	seq      int
}

var (
	repo   = flag.String("repo", "/repo", "")
	out    = flag.String("out", "", "")
	roots  = flag.String("roots", "./internal/service", "")
	points = flag.String("points", "", "packages (relative to internal/) with statement points")
	feat   = flag.String("feat", "split,map,chan,time,ristretto,sync", "")
)

func has(f string) bool {
	for _, x := range strings.Split(*feat, ",") {
		if x == f {
			return true
		}
	}
	return false
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard"}, strings.Split(*roots, ",")...)...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr: go list:", err)
		os.Exit(1)
	}
	exports := map[string]string{}
	var mine []*pkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, mod+"/internal/") && !strings.HasPrefix(p.ImportPath, zz) {
			q := p
			mine = append(mine, &q)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	want := map[string]bool{}
	for _, p := range strings.Split(*points, ",") {
		if p != "" {
			want[mod+"/internal/"+p] = true
		}
	}
	rep := map[string]string{}
	var names []string
	mapLines := map[string]bool{}
	for _, p := range mine {
		r := &rewriter{fset: fset, stmts: want[p.ImportPath], names: &names, rel: strings.TrimPrefix(p.ImportPath, mod+"/internal/")}
		var files []*ast.File
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(full)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			a, err := parser.ParseFile(fset, full, src, parser.SkipObjectResolution)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			files = append(files, a)
			r.src = append(r.src, src)
		}
		r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		cfg := types.Config{Importer: imp, Error: func(error) {}}
		cfg.Check(p.ImportPath, fset, files, r.info)
		for i, a := range files {
			ast.Inspect(a, func(n ast.Node) bool {
				var x ast.Expr
				switch n := n.(type) {
				case *ast.IndexExpr:
					x = n.X
				case *ast.RangeStmt:
					x = n.X
				case *ast.CallExpr:
					if len(n.Args) > 0 && r.info.Types[n.Fun].IsBuiltin() {
						x = n.Args[0]
					}
				}
				if x != nil && r.info.Types[x].Type != nil {
					if _, ok := r.info.Types[x].Type.Underlying().(*types.Map); ok {
						// the end of a statement that spans lines counts as well
						for l := fset.Position(n.Pos()).Line; l <= fset.Position(x.End()).Line; l++ {
							mapLines[fmt.Sprintf("%s/%s:%d", r.rel, p.GoFiles[i], l)] = true
						}
					}
				}
				return true
			})
			text, changed := r.file(a, r.src[i])
			if !changed {
				continue
			}
			dst := filepath.Join(*out, strings.ReplaceAll(r.rel, "/", "_")+"_"+p.GoFiles[i])
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			rep[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	var g bytes.Buffer
	fmt.Fprintln(&g, "package sched\n\nfunc init() {\n\tNames = []string{")
	for _, n := range names {
		fmt.Fprintf(&g, "\t\t%q,\n", n)
	}
	fmt.Fprintln(&g, "\t}\n\tMapLines = map[string]bool{")
	for l := range mapLines {
		fmt.Fprintf(&g, "\t\t%q: true,\n", l)
	}
	fmt.Fprintln(&g, "\t}\n}")
	dst := filepath.Join(*out, "zz_names.go")
	if err := os.WriteFile(dst, g.Bytes(), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	rep[filepath.Join(*repo, "internal/zzverif/sched/names.go")] = dst
	json.NewEncoder(os.Stdout).Encode(rep)
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	stmts bool
	rel   string
	src   [][]byte
	names *[]string

	cur    []byte
	base   token.Pos
	edits  []edit
	n      int
	used   bool
	fnName string
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) text(n ast.Node) string {
	return string(r.cur[r.off(n.Pos()):r.off(n.End())])
}
func (r *rewriter) replace(from, to token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(from), r.off(to), s, len(r.edits)})
}
func (r *rewriter) insert(at token.Pos, s string) { r.replace(at, at, s) }
func (r *rewriter) point(p token.Pos) string {
	r.used = true
	*r.names = append(*r.names, fmt.Sprintf("%s/%s:%d", r.rel, filepath.Base(r.fset.Position(p).Filename), r.fset.Position(p).Line))
	return fmt.Sprintf("%s.P(%d); ", sched, len(*r.names)-1)
}

var vtimeNames = map[string]bool{"NewTicker": true, "Tick": true, "After": true, "AfterFunc": true, "NewTimer": true, "Sleep": true, "Ticker": true, "Timer": true}

func (r *rewriter) file(f *ast.File, src []byte) ([]byte, bool) {
	r.cur, r.edits, r.used = src, nil, false
	changed := false
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		swap := ""
		switch path {
		case "sync":
			if has("sync") {
				swap = zz + "shim/vsync"
				if name == "" {
					name = "sync"
				}
			}
		case "time":
			if has("time") {
				local := "time"
				if name != "" {
					local = name
				}
				uses := false
				ast.Inspect(f, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok {
						if x, ok := s.X.(*ast.Ident); ok && x.Name == local && vtimeNames[s.Sel.Name] {
							uses = true
						}
					}
					return true
				})
				if uses {
					swap = zz + "shim/vtime"
					name = local
				}
			}
		case "github.com/dgraph-io/ristretto":
			if has("ristretto") {
				swap = zz + "shim/vristretto"
				if name == "" {
					name = "ristretto"
				}
			}
		}
		if swap != "" {
			r.replace(im.Pos(), im.End(), fmt.Sprintf("%s %q", name, swap))
			changed = true
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Body != nil {
			r.fnName = fd.Name.Name
			r.block(fd.Body.List, fd.Name.Name == "init")
		} else if g, ok := d.(*ast.GenDecl); ok {
			// function literals of package variables
			ast.Inspect(g, func(n ast.Node) bool {
				if l, ok := n.(*ast.FuncLit); ok {
					r.block(l.Body.List, false)
					return false
				}
				return true
			})
		}
	}
	if r.used {
		r.insert(f.Name.End(), "; import "+sched+` "`+zz+`sched"`)
		changed = true
	}
	if !changed {
		return nil, false
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		if r.edits[i].off != r.edits[j].off {
			return r.edits[i].off < r.edits[j].off
		}
		return r.edits[i].seq < r.edits[j].seq
	})
	var o bytes.Buffer
	last := 0
	for _, e := range r.edits {
		if e.off < last {
			// overlapping edits: keep the first one
			continue
		}
		o.Write(src[last:e.off])
		o.WriteString(e.text)
		last = e.end
	}
	o.Write(src[last:])
	return o.Bytes(), true
}

func (r *rewriter) block(list []ast.Stmt, quiet bool) {
	for _, s := range list {
		r.stmt(s, quiet)
	}
}

// stmt rewrites a statement of a statement list.
func (r *rewriter) stmt(s ast.Stmt, quiet bool) {
	if _, ok := s.(*ast.EmptyStmt); ok {
		return
	}
	if r.stmts && !quiet && r.shared(s) {
		r.insert(s.Pos(), r.point(s.Pos()))
	}
	if l, ok := s.(*ast.LabeledStmt); ok {
		s = l.Stmt
	}
	switch s := s.(type) {
	case *ast.BlockStmt:
		r.block(s.List, quiet)
	case *ast.IfStmt:
		r.expr(s.Init)
		r.expr(s.Cond)
		r.block(s.Body.List, quiet)
		switch e := s.Else.(type) {
		case *ast.BlockStmt:
			r.block(e.List, quiet)
		case *ast.IfStmt:
			r.elseIf(e, quiet)
		}
	case *ast.ForStmt:
		r.expr(s.Init)
		r.expr(s.Cond)
		r.expr(s.Post)
		r.block(s.Body.List, quiet)
	case *ast.RangeStmt:
		r.rangeStmt(s)
		r.block(s.Body.List, quiet)
	case *ast.SwitchStmt:
		r.expr(s.Init)
		r.expr(s.Tag)
		for _, c := range s.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				r.expr(e)
			}
			r.block(c.(*ast.CaseClause).Body, quiet)
		}
	case *ast.TypeSwitchStmt:
		r.expr(s.Init)
		r.expr(s.Assign)
		for _, c := range s.Body.List {
			r.block(c.(*ast.CaseClause).Body, quiet)
		}
	case *ast.SelectStmt:
		if has("chan") {
			r.selectStmt(s, quiet)
		} else {
			for _, c := range s.Body.List {
				r.block(c.(*ast.CommClause).Body, quiet)
			}
		}
	case *ast.GoStmt:
		r.goStmt(s)
	case *ast.SendStmt:
		r.expr(s.Chan)
		r.expr(s.Value)
		if has("chan") {
			r.used = true
			r.insert(s.Chan.Pos(), sched+".Send(")
			r.replace(s.Arrow, s.Arrow+2, ", ")
			r.insert(s.End(), ")")
		}
	case *ast.AssignStmt:
		r.assign(s, quiet)
	case *ast.IncDecStmt:
		r.expr(s.X)
		if r.stmts && !quiet && has("split") && r.location(s.X) {
			v := r.v()
			op := "+"
			if s.Tok == token.DEC {
				op = "-"
			}
			r.replace(s.Pos(), s.End(), fmt.Sprintf("%s := %s; %s%s = %s %s 1", v, r.text(s.X), r.point(s.Pos()), r.text(s.X), v, op))
		}
	default:
		r.expr(s)
	}
}

func (r *rewriter) elseIf(s *ast.IfStmt, quiet bool) {
	r.expr(s.Init)
	r.expr(s.Cond)
	r.block(s.Body.List, quiet)
	switch e := s.Else.(type) {
	case *ast.BlockStmt:
		r.block(e.List, quiet)
	case *ast.IfStmt:
		r.elseIf(e, quiet)
	}
}

func (r *rewriter) v() string {
	r.n++
	return fmt.Sprintf("zzv%d", r.n)
}

func (r *rewriter) assign(s *ast.AssignStmt, quiet bool) {
	for _, e := range s.Lhs {
		r.expr(e)
	}
	for _, e := range s.Rhs {
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW && len(s.Lhs) == 2 && len(s.Rhs) == 1 && has("chan") {
			r.used = true
			r.expr(u.X)
			r.replace(u.Pos(), u.X.Pos(), sched+".Recv2(")
			r.insert(u.End(), ")")
			continue
		}
		r.expr(e)
	}
	if !r.stmts || quiet || !has("split") || len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE || !r.location(s.Lhs[0]) {
		return
	}
	lhs := r.text(s.Lhs[0])
	if s.Tok != token.ASSIGN {
		op := strings.TrimSuffix(s.Tok.String(), "=")
		v := r.v()
		r.replace(s.Lhs[0].Pos(), s.Rhs[0].Pos(), fmt.Sprintf("%s := %s %s (", v, lhs, op))
		r.insert(s.End(), fmt.Sprintf("); %s%s = %s", r.point(s.Pos()), lhs, v))
		return
	}
	t := r.info.Types[s.Rhs[0]]
	if t.Type == nil || t.Value != nil || t.IsNil() {
		return
	}
	if b, ok := t.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	if _, ok := t.Type.(*types.Tuple); ok {
		return
	}
	switch s.Rhs[0].(type) {
	case *ast.FuncLit, *ast.BasicLit, *ast.Ident:
		return
	}
	v := r.v()
	r.replace(s.Lhs[0].Pos(), s.Rhs[0].Pos(), v+" := ")
	r.insert(s.End(), fmt.Sprintf("; %s%s = %s", r.point(s.Pos()), lhs, v))
}

// location reports whether e names a shared location without side effects.
func (r *rewriter) location(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		return r.pure(e.X)
	case *ast.IndexExpr:
		return r.pure(e.X) && r.pure(e.Index)
	case *ast.StarExpr:
		return r.pure(e.X)
	case *ast.Ident:
		return r.global(e)
	}
	return false
}

func (r *rewriter) pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return r.pure(e.X)
	case *ast.IndexExpr:
		return r.pure(e.X) && r.pure(e.Index)
	case *ast.StarExpr:
		return r.pure(e.X)
	case *ast.ParenExpr:
		return r.pure(e.X)
	}
	return false
}

func (r *rewriter) global(id *ast.Ident) bool {
	v, ok := r.info.Uses[id].(*types.Var)
	return ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

var quietPkgs = map[string]bool{"errors": true, "fmt": true, "log/slog": true, "strconv": true, "math": true, "strings": true, "path/filepath": true, "slices": true, "bytes": true}

// shared reports whether the statement itself, without nested statements,
// can touch shared memory.
func (r *rewriter) shared(s ast.Stmt) bool {
	var nodes []ast.Node
	switch s := s.(type) {
	case *ast.BlockStmt:
		return false
	case *ast.LabeledStmt:
		return r.shared(s.Stmt)
	case *ast.IfStmt:
		nodes = []ast.Node{s.Init, s.Cond}
		for e, ok := s.Else.(*ast.IfStmt); ok; e, ok = e.Else.(*ast.IfStmt) {
			nodes = append(nodes, e.Init, e.Cond)
		}
	case *ast.ForStmt:
		nodes = []ast.Node{s.Init, s.Cond, s.Post}
	case *ast.RangeStmt:
		nodes = []ast.Node{s.X}
	case *ast.SwitchStmt:
		nodes = []ast.Node{s.Init, s.Tag}
	case *ast.TypeSwitchStmt:
		nodes = []ast.Node{s.Init, s.Assign}
	case *ast.SelectStmt, *ast.GoStmt, *ast.DeferStmt:
		return false
	default:
		nodes = []ast.Node{s}
	}
	hit := false
	for _, n := range nodes {
		if isNil(n) {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if tv := r.info.Types[n.Fun]; tv.IsType() || tv.IsBuiltin() {
					return true
				}
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					if x, ok := sel.X.(*ast.Ident); ok {
						if pn, ok := r.info.Uses[x].(*types.PkgName); ok && quietPkgs[pn.Imported().Path()] {
							return true
						}
					}
				}
				hit = true
			case *ast.SelectorExpr:
				if x, ok := n.X.(*ast.Ident); ok {
					if _, ok := r.info.Uses[x].(*types.PkgName); ok {
						if v, ok := r.info.Uses[n.Sel].(*types.Var); ok && v.Pkg() != nil && strings.HasPrefix(v.Pkg().Path(), mod) {
							hit = true
						}
						return false
					}
				}
				hit = true
			case *ast.IndexExpr, *ast.StarExpr:
				hit = true
			case *ast.Ident:
				if r.global(n) {
					hit = true
				}
			}
			return !hit
		})
	}
	return hit
}

func isNil(n ast.Node) bool {
	if n == nil {
		return true
	}
	switch n := n.(type) {
	case ast.Stmt:
		return n == nil
	case ast.Expr:
		return n == nil
	}
	return false
}

// expr rewrites receives and function literals inside of n.
func (r *rewriter) expr(n ast.Node) {
	if isNil(n) {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			r.block(n.Body.List, false)
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && has("chan") {
				r.used = true
				r.replace(n.Pos(), n.X.Pos(), sched+".Recv(")
				r.insert(n.End(), ")")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && has("chan") && r.info.Types[n.Fun].IsBuiltin() {
				r.used = true
				r.replace(id.Pos(), id.End(), sched+".Close")
			}
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "GetSequence" && len(n.Args) == 2 && has("lease") {
				r.used = true
				r.insert(n.Args[1].Pos(), sched+".Lease(")
				r.insert(n.Args[1].End(), ")")
			}
		}
		return true
	})
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) {
	t := r.info.Types[s.X].Type
	if t == nil {
		r.expr(s.X)
		return
	}
	name := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return ""
			}
			return id.Name
		}
		return "?"
	}
	switch t.Underlying().(type) {
	case *types.Map:
		k, v := name(s.Key), name(s.Value)
		if !has("map") || !r.pure(s.X) || k == "?" || v == "?" || s.Tok == token.ASSIGN {
			r.expr(s.X)
			return
		}
		r.used = true
		x := r.text(s.X)
		kk, ok := r.v(), r.v()
		h := fmt.Sprintf("for _, %s := range %s.Keys(%s) { ", kk, sched, x)
		if v == "" {
			h += fmt.Sprintf("if _, %s := %s[%s]; !%s { continue }; ", ok, x, kk, ok)
		} else {
			h += fmt.Sprintf("%s, %s := %s[%s]; if !%s { continue }; _ = %s; ", v, ok, x, kk, ok, v)
		}
		if k != "" {
			h += fmt.Sprintf("%s := %s; _ = %s; ", k, kk, k)
		}
		r.replace(s.For, s.Body.Lbrace+1, h)
	case *types.Chan:
		k := name(s.Key)
		if !has("chan") || k == "?" || s.Tok == token.ASSIGN {
			return
		}
		r.used = true
		ok := r.v()
		if k == "" {
			k = "_"
		}
		r.replace(s.For, s.Body.Lbrace+1, fmt.Sprintf("for { %s, %s := %s.Recv2(%s); if !%s { break }; ", k, ok, sched, r.text(s.X), ok))
	default:
		r.expr(s.X)
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) {
	c := s.Call
	if c.Ellipsis != token.NoPos || r.info.Types[c.Fun].IsBuiltin() || r.info.Types[c.Fun].IsType() {
		return
	}
	r.used = true
	r.expr(c.Fun)
	for _, a := range c.Args {
		r.expr(a)
	}
	r.replace(s.Go, c.Fun.Pos(), sched+".Go(")
	if len(c.Args) > 0 {
		r.replace(c.Lparen, c.Lparen+1, ", ")
	} else {
		r.replace(c.Lparen, c.Lparen+1, "")
	}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, quiet bool) {
	r.used = true
	var cases []string
	def := "false"
	n := 0
	res := r.v()
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		switch cm := cc.Comm.(type) {
		case nil:
			def = "true"
			r.replace(cc.Case, cc.Colon, "default")
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("%s.SendCase(%s, %s)", sched, r.text(cm.Chan), r.text(cm.Value)))
			r.replace(cc.Case, cc.Colon, fmt.Sprintf("case %d", n))
			n++
		default:
			var u *ast.UnaryExpr
			bind := ""
			switch cm := cm.(type) {
			case *ast.ExprStmt:
				u, _ = unparen(cm.X).(*ast.UnaryExpr)
			case *ast.AssignStmt:
				u, _ = unparen(cm.Rhs[0]).(*ast.UnaryExpr)
				var l []string
				for _, e := range cm.Lhs {
					l = append(l, r.text(e))
				}
				if len(l) == 1 {
					l = append(l, "_")
				}
				bind = fmt.Sprintf("%s %s %s.Got[%s](%s.Cases[%d])", strings.Join(l, ", "), cm.Tok, sched, r.elem(u.X), res, n)
			}
			cases = append(cases, fmt.Sprintf("%s.RecvCase(%s)", sched, r.text(u.X)))
			r.replace(cc.Case, cc.Colon+1, fmt.Sprintf("case %d: %s; ", n, bind))
			n++
		}
		r.block(cc.Body, quiet)
	}
	r.replace(s.Select, s.Body.Lbrace, fmt.Sprintf("switch %s := %s.Select(%s, %s); %s.Index ", res, sched, def, strings.Join(cases, ", "), res))
	if len(cases) == 0 {
		r.replace(s.Select, s.Body.Lbrace, fmt.Sprintf("switch %s := %s.Select(%s); %s.Index ", res, sched, def, res))
	}
}

func (r *rewriter) elem(e ast.Expr) string {
	t := r.info.Types[e].Type
	c, ok := t.Underlying().(*types.Chan)
	if !ok {
		return "any"
	}
	return types.TypeString(c.Elem(), func(p *types.Package) string {
		if p.Path() == mod+"/internal/"+r.rel {
			return ""
		}
		return p.Name()
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}
