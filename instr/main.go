// instr rewrites the current working tree of the library so that every
// synchronisation operation goes through verif/sched, and writes a
// `go build -overlay` file. /repo itself is never touched.
//
//	instr -repo /repo -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const root = "github.com/dropmorepackets/haproxy-go"

type pkg struct {
	Dir, ImportPath, Export string
	GoFiles                 []string
	Module                  *struct{ Path string }
	ImportMap               map[string]string
}

type edit struct {
	off, end int // replaced range in the original text
	prio     int // order of insertions at the same offset
	text     string
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

var fineField = map[string]bool{root + "/spop": true, root + "/peers": true, root + "/pkg/testutil": true}

var noStmt bool

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.BoolVar(&noStmt, "nostmt", false, "no statement level points")
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=Dir,ImportPath,Export,GoFiles,Module,ImportMap",
		root+"/spop", root+"/peers", root+"/peers/sticktable", root+"/pkg/encoding", root+"/pkg/buffer", root+"/pkg/testutil")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	var pkgs []pkg
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == root {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	overlay := map[string]string{}
	site := 0
	try := false
	for _, p := range pkgs {
		var files []*ast.File
		var paths []string
		for _, f := range p.GoFiles {
			path := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			paths = append(paths, path)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p.ImportPath, fset, files, info)
		for i, af := range files {
			src, err := os.ReadFile(paths[i])
			if err != nil {
				die("%v", err)
			}
			r := &rewriter{fset: fset, f: af, src: src, info: info, pkg: p.ImportPath, site: &site,
				rel: strings.TrimPrefix(paths[i], *repo+"/")}
			text := r.rewrite()
			try = try || bytes.Contains(src, []byte(".TryLock()")) || bytes.Contains(src, []byte(".TryRLock()"))
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(paths[i], "/"), "/", "__"))
			if err := os.WriteFile(dst, text, 0o644); err != nil {
				die("%v", err)
			}
			overlay[paths[i]] = dst
		}
	}
	if wd, err := os.Getwd(); err == nil && try {
		// unlocking does not commute with attempts to lock
		dst := filepath.Join(*out, "trylock.go")
		if err := os.WriteFile(dst, []byte("package vsync\n\nfunc init() { UnlockPoints = true }\n"), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(wd, "vsync", "trylock_generated.go")] = dst
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	fset  *token.FileSet
	f     *ast.File
	src   []byte
	info  *types.Info
	pkg   string
	rel   string
	site  *int
	edits []edit
	sites []string
	base  int
	keep  map[string]bool
	recv2 map[*ast.UnaryExpr]bool // receives with two results
	selN  int
	vio   bool // refers to verif/vio
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *rewriter) ins(off, prio int, s string) { r.edits = append(r.edits, edit{off, off, prio, s}) }
func (r *rewriter) rep(off, end int, s string)  { r.edits = append(r.edits, edit{off, end, 5, s}) }
func (r *rewriter) isPkg(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

var replaced = map[string]map[string]string{
	"time":    {"Sleep": "Sleep", "AfterFunc": "AfterFunc"},
	"net":     {"Listen": "NetListen"},
	"context": {"AfterFunc": "ContextAfterFunc"},
	"runtime": {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "Gosched"},
}

// blocking constructs of the standard library, mirrored by verif/vio
var mirrored = map[string]map[string]string{
	"io":  {"Pipe": "Pipe", "PipeReader": "PipeReader", "PipeWriter": "PipeWriter"},
	"net": {"Pipe": "NetPipe"},
}

var keepAs = map[string]string{"io": "EOF", "net": "ErrClosed"}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) rewrite() []byte {
	r.base = *r.site
	r.keep = map[string]bool{}
	for _, is := range r.f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		switch path {
		case "sync", "sync/atomic":
			name := "sync"
			to := "verif/vsync"
			if path == "sync/atomic" {
				name, to = "atomic", "verif/vatomic"
			}
			if is.Name != nil {
				name = ""
			} else {
				name += " "
			}
			r.rep(r.off(is.Path.Pos()), r.off(is.Path.End()), name+strconv.Quote(to))
		}
	}
	r.recv2 = map[*ast.UnaryExpr]bool{}
	r.visit(r.f)
	// header
	o := r.off(r.f.Name.End())
	r.ins(o, 0, `; import vsched__ "verif/sched"`)
	if r.vio {
		r.ins(o, 1, `; import vio__ "verif/vio"`)
	}
	var tail strings.Builder
	var ks []string
	for k := range r.keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&tail, "\nvar _ = %s", k)
	}
	fmt.Fprintf(&tail, "\nvar _ = vsched__.RegisterSites(%d, []string{", r.base)
	for _, s := range r.sites {
		fmt.Fprintf(&tail, "%q,", s)
	}
	tail.WriteString("})\n")
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		return a.prio < b.prio
	})
	var w bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			continue // inside a replaced region
		}
		w.Write(r.src[pos:e.off])
		w.WriteString(e.text)
		pos = e.end
	}
	w.Write(r.src[pos:])
	w.WriteString(tail.String())
	return w.Bytes()
}

// visit rewrites everything below root.
func (r *rewriter) visit(root ast.Node) {
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := isRecv(n.Rhs[0]); ok {
					r.recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := isRecv(n.Values[0]); ok {
					r.recv2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				fn := "vsched__.Recv("
				if r.recv2[n] {
					fn = "vsched__.Recv2("
				}
				o := r.off(n.Pos())
				r.rep(o, o+2, fn)
				r.ins(r.off(n.End()), 3, ")")
			}
		case *ast.SendStmt:
			r.ins(r.off(n.Pos()), 4, "vsched__.Send(")
			o := r.off(n.Arrow)
			r.rep(o, o+2, ")(")
			r.ins(r.off(n.End()), 3, ")")
		case *ast.GoStmt:
			name := fmt.Sprintf("%s:%d", r.rel, r.fset.Position(n.Pos()).Line)
			if tv, ok := r.info.Types[n.Call.Fun]; ok && tv.IsBuiltin() {
				r.ins(r.off(n.Call.Fun.Pos()), 4, fmt.Sprintf("vsched__.Wrap(%q, func() { ", name))
				r.ins(r.off(n.Call.End()), 2, " })()")
				break
			}
			r.ins(r.off(n.Call.Fun.Pos()), 4, fmt.Sprintf("vsched__.Wrap(%q, ", name))
			r.ins(r.off(n.Call.Fun.End()), 2, ")")
		case *ast.RangeStmt:
			tv, ok := r.info.Types[n.X]
			if ok && tv.Type != nil {
				if _, isch := tv.Type.Underlying().(*types.Chan); isch {
					r.selN++
					ch, c, k := r.text(n.X), fmt.Sprintf("vsched_r%d", r.selN), fmt.Sprintf("vsched_ok%d", r.selN)
					h := fmt.Sprintf("for %s := %s; ; { ", c, ch)
					switch {
					case n.Key == nil:
						h += fmt.Sprintf("_, %s := vsched__.Recv2(%s); ", k, c)
					case n.Tok == token.DEFINE:
						h += fmt.Sprintf("%s, %s := vsched__.Recv2(%s); ", r.text(n.Key), k, c)
					default:
						h += fmt.Sprintf("var %s bool; %s, %s = vsched__.Recv2(%s); ", k, r.text(n.Key), k, c)
					}
					h += fmt.Sprintf("if !%s { break }; ", k)
					r.rep(r.off(n.For), r.off(n.Body.Lbrace)+1, h)
					r.block(n.Body.List)
					for _, s := range n.Body.List {
						r.visit(s)
					}
					return false
				}
			}
		case *ast.SelectStmt:
			r.selectStmt(n)
			return false
		case *ast.SelectorExpr:
			for path, m := range mirrored {
				if to, ok := m[n.Sel.Name]; ok && r.isPkg(n.X, path) {
					r.keep[r.text(n.X)+"."+keepAs[path]] = true
					r.vio = true
					r.rep(r.off(n.Pos()), r.off(n.End()), "vio__."+to)
					return false
				}
			}
			for path, m := range replaced {
				if to, ok := m[n.Sel.Name]; ok && r.isPkg(n.X, path) {
					r.keep[r.text(n.X)+"."+n.Sel.Name] = true
					r.rep(r.off(n.Pos()), r.off(n.End()), "vsched__."+to)
					return false
				}
			}
		case *ast.BlockStmt:
			r.block(n.List)
		case *ast.CaseClause:
			r.block(n.Body)
		}
		return true
	})
}

func (r *rewriter) selectStmt(n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		r.rep(r.off(n.Pos()), r.off(n.End()), "{ vsched__.Block(); panic(\"unreachable\") }")
		return
	}
	hasDef := false
	var names, inits []string
	type hdr struct {
		cc *ast.CommClause
		t  string
	}
	var hs []hdr
	i := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			hs = append(hs, hdr{cc, "default:"})
			continue
		}
		name := fmt.Sprintf("vsched_c%d_%d", r.selN, i)
		t := fmt.Sprintf("case %d:", i)
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, fmt.Sprintf("vsched__.SC(%s)(%s)", r.text(s.Chan), r.text(s.Value)))
		case *ast.ExprStmt:
			u, _ := isRecv(s.X)
			inits = append(inits, fmt.Sprintf("vsched__.RC(%s)", r.text(u.X)))
		case *ast.AssignStmt:
			u, _ := isRecv(s.Rhs[0])
			inits = append(inits, fmt.Sprintf("vsched__.RC(%s)", r.text(u.X)))
			rhs := name + ".V"
			lhs := r.text(s.Lhs[0])
			if len(s.Lhs) == 2 {
				lhs += ", " + r.text(s.Lhs[1])
				rhs += ", " + name + ".OK"
			}
			t += fmt.Sprintf(" %s %s %s;", lhs, s.Tok, rhs)
		}
		names = append(names, name)
		hs = append(hs, hdr{cc, t})
		i++
	}
	r.selN++
	var sw string
	if len(names) == 0 {
		sw = "switch vsched__.Select(true) {"
	} else {
		sw = fmt.Sprintf("switch %s := %s; vsched__.Select(%v, %s) {", strings.Join(names, ", "), strings.Join(inits, ", "), hasDef, strings.Join(names, ", "))
	}
	r.rep(r.off(n.Select), r.off(n.Body.Lbrace)+1, sw)
	for _, h := range hs {
		r.rep(r.off(h.cc.Case), r.off(h.cc.Colon)+1, h.t)
		r.block(h.cc.Body)
		for _, s := range h.cc.Body {
			r.visit(s)
		}
	}
	if !hasDef {
		// a select is a terminating statement, a switch needs a default
		r.ins(r.off(n.Body.Rbrace), 3, "default: panic(\"unreachable\");")
	}
}

// block adds statement-level scheduling points.
func (r *rewriter) block(list []ast.Stmt) {
	for _, s := range list {
		if noStmt {
			continue
		}
		fn := "Stmt"
		if !r.shared(s) {
			if fineField[r.pkg] || !r.touches(s) {
				continue
			}
			fn = "StmtEnc"
		}
		p := r.fset.Position(s.Pos())
		r.sites = append(r.sites, fmt.Sprintf("%s:%d", r.rel, p.Line))
		r.ins(p.Offset, 1, fmt.Sprintf("vsched__.%s(%d);", fn, *r.site))
		*r.site++
	}
}

// shared: does the statement itself (not nested blocks) touch memory that
// another goroutine could reach: package variables, or (in packages that
// run concurrently) fields reached through a pointer and dereferences.
func (r *rewriter) shared(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.DeclStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.LabeledStmt:
		if _, ok := s.(*ast.DeclStmt); !ok {
			return false
		}
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				if strings.HasPrefix(v.Pkg().Path(), "github.com/dropmorepackets/haproxy-go") && interesting(v.Type()) {
					found = true
				}
			}
		case *ast.SelectorExpr:
			if !fineField[r.pkg] {
				return true
			}
			if sel, ok := r.info.Selections[n]; ok && sel.Kind() == types.FieldVal {
				if _, ptr := sel.Recv().Underlying().(*types.Pointer); ptr {
					found = true
				}
			}
		case *ast.StarExpr:
			if fineField[r.pkg] {
				if tv, ok := r.info.Types[n]; ok && tv.IsValue() {
					found = true
				}
			}
		}
		return true
	})
	return found
}

// touches: does the statement itself touch memory that is not a plain local.
func (r *rewriter) touches(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.DeclStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.LabeledStmt:
		return false
	}
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			if sel, ok := r.info.Selections[n]; ok && sel.Kind() == types.FieldVal {
				found = true
			}
		case *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr:
			found = true
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "append") {
				found = true
			}
		}
		return !found
	})
	return found
}

func interesting(t types.Type) bool {
	s := t.String()
	if strings.HasPrefix(s, "sync.") || s == "error" || strings.HasPrefix(s, "reflect.") {
		return false
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return false
	}
	return true
}
