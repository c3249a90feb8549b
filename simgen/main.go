// simgen writes an instrumented twin of the module in -repo into -out and an
// overlay file for `go build -overlay`. See DESIGN.md.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	EmbedFiles                    []string
	Standard                      bool
	Module                        *struct {
		Path, Dir string
		Main      bool
	}
	ImportMap map[string]string
	Error     *struct{ Err string }
}

var (
	repo    = flag.String("repo", "/repo", "module root")
	out     = flag.String("out", "", "output directory")
	simDir  = flag.String("sim", "", "directory holding simrt, simsync, simos, harness")
	sites   []string
	modPath string
)

const vdir = "internal/verifsim"

// extPkgs are dependencies that write to the standard streams themselves; the
// code under test is given copies whose os and fmt calls are simulated.
var extPkgs = []string{"github.com/spf13/cobra", "github.com/spf13/pflag"}

// kagome is the module of the Japanese tokenizer. The code under test is given
// a copy of it whose pool of lattice nodes the simulator decides about.
const kagome = "github.com/ikawaha/kagome.ipadic/"

func kagomeDir(path string) string {
	return vdir + "/ext/kagome/" + strings.TrimPrefix(path, kagome)
}

// copyKagome maps a package of the tokenizer to its copy.
func copyKagome(p *listPkg, overlay map[string]string) {
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		to := filepath.Join(*repo, kagomeDir(p.ImportPath), n)
		if fi, err := os.Stat(path); err == nil && fi.Size() > 100_000 { // data
			overlay[to] = path
			continue
		}
		b, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		s := strings.ReplaceAll(string(b), `"`+kagome, `"`+modPath+"/"+kagomeDir(kagome))
		if strings.HasSuffix(p.ImportPath, "/lattice") {
			s = strings.ReplaceAll(s, `"sync"`, `sync "`+modPath+"/"+vdir+`/simpool"`)
		}
		op := filepath.Join(*out, "kagome", strings.ReplaceAll(p.ImportPath, "/", "__"), n)
		write(op, s)
		overlay[to] = op
	}
}

func extDir(path string) string { return vdir + "/ext/" + filepath.Base(path) }

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-mod=readonly", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,GoFiles,EmbedFiles,Standard,Module,ImportMap,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs = append(pkgs, p)
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			modPath = p.Module.Path
		}
	}
	overlay := map[string]string{}
	var mains []string
	for _, p := range pkgs {
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Module.Main {
			if strings.Contains(p.ImportPath, vdir) {
				continue
			}
			instrument(p, exports, overlay, true)
			if p.Name == "main" {
				mains = append(mains, p.ImportPath)
			}
		} else {
			if strings.HasPrefix(p.ImportPath, kagome) {
				copyKagome(p, overlay)
			}
			for _, e := range extPkgs {
				if e == p.ImportPath {
					instrument(p, exports, overlay, false)
				}
			}
		}
	}
	// The simulator's own packages.
	filepath.Walk(*simDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			fatal("%v", err)
		}
		if !fi.IsDir() && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(*simDir, path)
			overlay[filepath.Join(*repo, vdir, rel)] = path
		}
		return nil
	})
	// Site table.
	var sb strings.Builder
	sb.WriteString("package simrt\n\nfunc init() { Sites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "%q,\n", s)
	}
	sb.WriteString("}}\n")
	sp := filepath.Join(*out, "zz_sites.go")
	write(sp, sb.String())
	overlay[filepath.Join(*repo, vdir, "simrt", "zz_sites.go")] = sp

	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	write(filepath.Join(*out, "overlay.json"), string(ob))
	fmt.Printf("instrumented %d files, %d sites, mains %v\n", len(overlay), len(sites), mains)
}

func write(path, s string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, []byte(s), 0o644); err != nil {
		fatal("%v", err)
	}
}

type edit struct {
	off, end int // replace [off,end)
	text     string
	prio     int // order among edits at the same offset
	seq      int
}

type fileCtx struct {
	p       *pkgCtx
	f       *ast.File
	src     []byte
	name    string
	edits   []edit
	tok     *token.File
	keep    map[string]string // package alias -> reference that keeps the import used
	skip    map[ast.Node]bool
	counter int
}

type pkgCtx struct {
	lp    *listPkg
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	files []*fileCtx
	full  bool
}

func instrument(lp *listPkg, exports map[string]string, overlay map[string]string, full bool) {
	pc := &pkgCtx{lp: lp, fset: token.NewFileSet(), full: full}
	var asts []*ast.File
	for _, n := range lp.GoFiles {
		path := filepath.Join(lp.Dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		f, err := parser.ParseFile(pc.fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		asts = append(asts, f)
		pc.files = append(pc.files, &fileCtx{p: pc, f: f, src: src, name: n, tok: pc.fset.File(f.Pos()), keep: map[string]string{}, skip: map[ast.Node]bool{}})
	}
	imp := importer.ForCompiler(pc.fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := lp.ImportMap[path]; ok {
			path = m
		}
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	pc.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	var err error
	pc.pkg, err = conf.Check(lp.ImportPath, pc.fset, asts, pc.info)
	if err != nil {
		fatal("type check %s: %v", lp.ImportPath, err)
	}

	isMain := full && lp.Name == "main"
	genName := strings.NewReplacer(".", "", "-", "", "_", "").Replace(filepath.Base(lp.ImportPath))
	pkgName := lp.Name
	if isMain {
		pkgName = "cmd" + genName
	}
	outDir := filepath.Join(*out, strings.ReplaceAll(lp.ImportPath, "/", "__"))

	initNo := 0
	var inits []string
	for _, fc := range pc.files {
		fc.rewriteImports()
		for _, d := range fc.f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				if full && d.Recv == nil && d.Name.Name == "init" {
					n := fmt.Sprintf("verifInit%d__", initNo)
					initNo++
					fc.replace(d.Name.Pos(), d.Name.End(), n, 0)
					inits = append(inits, n)
				}
				if isMain && d.Recv == nil && d.Name.Name == "main" {
					fc.replace(d.Name.Pos(), d.Name.End(), "Main", 0)
				}
				fc.walk(d.Body)
			case *ast.GenDecl:
				if d.Tok == token.VAR || d.Tok == token.TYPE || d.Tok == token.CONST {
					fc.walk(d)
				}
			}
			if fd, ok := d.(*ast.FuncDecl); ok {
				// parameter and result types may mention os.File
				fc.walk(fd.Type)
				if fd.Recv != nil {
					fc.walk(fd.Recv)
				}
			}
		}
		if isMain {
			fc.replace(fc.f.Name.Pos(), fc.f.Name.End(), pkgName, 0)
		}
		hdr := fmt.Sprintf("; import verifrt__ %q; import verifos__ %q", modPath+"/"+vdir+"/simrt", modPath+"/"+vdir+"/simos")
		fc.insert(fc.f.Name.End(), hdr, 5)
	}

	// Re-runnable initialisation.
	tail := map[*fileCtx]*strings.Builder{}
	for _, fc := range pc.files {
		sb := &strings.Builder{}
		sb.WriteString("\n\nvar _ = verifrt__.Y\nvar _ = verifos__.Exit\n")
		var ks []string
		for k := range fc.keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			sb.WriteString(fc.keep[k] + "\n")
		}
		tail[fc] = sb
	}
	var resetBody strings.Builder
	if full {
		hasInit := map[types.Object]bool{}
		for _, in := range pc.info.InitOrder {
			for _, l := range in.Lhs {
				hasInit[l] = true
			}
		}
		// zero the others
		for _, fc := range pc.files {
			for _, d := range fc.f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					if isEmbed(gd.Doc) || isEmbed(vs.Doc) {
						continue
					}
					for _, n := range vs.Names {
						o := pc.info.Defs[n]
						if n.Name == "_" || o == nil || hasInit[o] {
							continue
						}
						fmt.Fprintf(&resetBody, "\tverifrt__.Zero(&%s)\n", n.Name)
					}
				}
			}
		}
		for i, in := range pc.info.InitOrder {
			allBlank := true
			var lhs []string
			for _, l := range in.Lhs {
				lhs = append(lhs, l.Name())
				if l.Name() != "_" {
					allBlank = false
				}
			}
			if allBlank {
				continue
			}
			fc := pc.fileOf(in.Rhs.Pos())
			fn := fmt.Sprintf("verifVar%d__", i)
			rhs := fc.render(in.Rhs.Pos(), in.Rhs.End())
			fmt.Fprintf(tail[fc], "func %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), rhs)
			fmt.Fprintf(&resetBody, "\t%s()\n", fn)
		}
		for _, n := range inits {
			fmt.Fprintf(&resetBody, "\t%s()\n", n)
		}
	}
	for _, fc := range pc.files {
		text := fc.renderAll() + tail[fc].String()
		op := filepath.Join(outDir, fc.name)
		write(op, text)
		if isMain {
			overlay[filepath.Join(*repo, vdir, "gen", "cmd"+genName, fc.name)] = op
		} else if !full {
			overlay[filepath.Join(*repo, extDir(lp.ImportPath), fc.name)] = op
		} else {
			overlay[filepath.Join(lp.Dir, fc.name)] = op
		}
	}
	if full {
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport verifrt__ %q\n\n", pkgName, modPath+"/"+vdir+"/simrt")
		fmt.Fprintf(&sb, "func verifReset__() {\n%s}\n\nfunc init() {\n", resetBody.String())
		for _, n := range inits {
			fmt.Fprintf(&sb, "\t%s()\n", n)
		}
		fmt.Fprintf(&sb, "\tverifrt__.RegisterPkg(%q, verifReset__)\n}\n", lp.ImportPath)
		op := filepath.Join(outDir, "zz_verif_gen.go")
		write(op, sb.String())
		if isMain {
			overlay[filepath.Join(*repo, vdir, "gen", "cmd"+genName, "zz_verif_gen.go")] = op
		} else {
			overlay[filepath.Join(lp.Dir, "zz_verif_gen.go")] = op
		}
	}
}

func isEmbed(cg *ast.CommentGroup) bool {
	if cg == nil {
		return false
	}
	for _, c := range cg.List {
		if strings.HasPrefix(c.Text, "//go:embed") {
			return true
		}
	}
	return false
}

func (pc *pkgCtx) fileOf(p token.Pos) *fileCtx {
	for _, fc := range pc.files {
		if fc.tok == pc.fset.File(p) {
			return fc
		}
	}
	fatal("no file for position")
	return nil
}

func (fc *fileCtx) off(p token.Pos) int { return fc.tok.Offset(p) }

func (fc *fileCtx) replace(a, b token.Pos, text string, prio int) {
	fc.counter++
	fc.edits = append(fc.edits, edit{fc.off(a), fc.off(b), text, prio, fc.counter})
}
func (fc *fileCtx) insert(a token.Pos, text string, prio int) { fc.replace(a, a, text, prio) }

// text returns the original source.
func (fc *fileCtx) text(a, b token.Pos) string { return string(fc.src[fc.off(a):fc.off(b)]) }

// openers at one offset: outer first (pre-order). closers: inner first.
const (
	prioClose = -10
	prioYield = 0
	prioOpen  = 10
)

func (fc *fileCtx) sorted() []edit {
	es := append([]edit(nil), fc.edits...)
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if a.prio != b.prio {
			return a.prio < b.prio
		}
		if a.prio == prioClose {
			return a.seq > b.seq // inner (later in pre-order) first
		}
		// pure insertions before replacements at the same offset
		if (a.end == a.off) != (b.end == b.off) {
			return a.end == a.off
		}
		return a.seq < b.seq
	})
	return es
}

func (fc *fileCtx) renderRange(lo, hi int) string {
	var sb strings.Builder
	cur := lo
	for _, e := range fc.sorted() {
		if e.off < lo || e.end > hi || (e.off == hi && e.prio != prioClose) {
			continue
		}
		if e.off == lo && e.prio == prioClose {
			continue
		}
		if e.off < cur {
			fatal("overlapping edits in %s at offset %d: %q", fc.name, e.off, e.text)
		}
		sb.Write(fc.src[cur:e.off])
		sb.WriteString(e.text)
		cur = e.end
	}
	sb.Write(fc.src[cur:hi])
	return sb.String()
}

func (fc *fileCtx) render(a, b token.Pos) string { return fc.renderRange(fc.off(a), fc.off(b)) }
func (fc *fileCtx) renderAll() string            { return fc.renderRange(0, len(fc.src)) }

func (fc *fileCtx) rewriteImports() {
	for _, im := range fc.f.Imports {
		for _, e := range extPkgs {
			if im.Path.Value == strconv.Quote(e) {
				name := filepath.Base(e)
				if im.Name != nil {
					name = im.Name.Name
				}
				fc.replace(im.Pos(), im.End(), fmt.Sprintf("%s %q", name, modPath+"/"+extDir(e)), 0)
			}
		}
		if !fc.p.full {
			continue
		}
		if path, err := strconv.Unquote(im.Path.Value); err == nil && strings.HasPrefix(path, kagome) {
			name := filepath.Base(path)
			if im.Name != nil {
				name = im.Name.Name
			}
			fc.replace(im.Pos(), im.End(), fmt.Sprintf("%s %q", name, modPath+"/"+kagomeDir(path)), 0)
		}
		if rep := simPkgs[im.Path.Value]; rep != "" {
			name := strings.Trim(filepath.Base(im.Path.Value), `"`)
			if im.Name != nil {
				name = im.Name.Name
			}
			fc.replace(im.Pos(), im.End(), fmt.Sprintf("%s %q", name, modPath+"/"+vdir+"/"+rep), 0)
		}
	}
}

var simPkgs = map[string]string{`"sync"`: "simsync", `"hash/maphash"`: "simhash"}

func (fc *fileCtx) site(n ast.Node) int {
	pos := fc.p.fset.Position(n.Pos())
	rel, err := filepath.Rel(*repo, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
	return len(sites) - 1
}

// hot reports whether the statement itself (not its nested blocks) touches
// package-level variables, sync objects or channels.
func (fc *fileCtx) hot(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		if found {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return n == ast.Node(s)
		case *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.Ident:
			if v, ok := fc.p.info.Uses[n].(*types.Var); ok && !v.IsField() && v.Parent() == v.Pkg().Scope() &&
				strings.HasPrefix(v.Pkg().Path(), modPath) {
				found = true
			}
		case *ast.SelectorExpr:
			if sel := fc.p.info.Selections[n]; sel != nil {
				if o := sel.Obj(); o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), "sync") {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

func (fc *fileCtx) yieldBefore(s ast.Stmt) {
	switch s.(type) {
	case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
		return
	}
	fn := "Y"
	if fc.hot(s) {
		fn = "H"
	}
	fc.insert(s.Pos(), fmt.Sprintf("verifrt__.%s(%d); ", fn, fc.site(s)), prioYield)
}

func (fc *fileCtx) list(l []ast.Stmt) {
	for _, s := range l {
		fc.yieldBefore(s)
	}
}

func (fc *fileCtx) walk(root ast.Node) {
	full := fc.p.full
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil || fc.skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			if full {
				fc.list(n.List)
			}
		case *ast.CaseClause:
			if full {
				fc.list(n.Body)
			}
		case *ast.CommClause:
			if full {
				fc.list(n.Body)
			}
		case *ast.ForStmt:
			if full && len(n.Body.List) == 0 {
				fc.insert(n.Body.Lbrace+1, fmt.Sprintf(" verifrt__.Y(%d); ", fc.site(n)), prioYield)
			}
		case *ast.RangeStmt:
			if full {
				fc.rangeStmt(n)
			}
		case *ast.GoStmt:
			if full {
				fc.goStmt(n)
			}
		case *ast.SendStmt:
			if full {
				fc.insert(n.Chan.Pos(), "verifrt__.Sender(", prioOpen)
				fc.replace(n.Chan.End(), n.Value.Pos(), ")(", prioOpen)
				fc.insert(n.Value.End(), ")", prioClose)
			}
		case *ast.UnaryExpr:
			if full && n.Op == token.ARROW {
				name := "Recv"
				if tv, ok := fc.p.info.Types[n]; ok {
					if _, isTuple := tv.Type.(*types.Tuple); isTuple {
						name = "Recv2"
					}
				}
				fc.replace(n.Pos(), n.Pos()+2, "verifrt__."+name+"(", prioOpen)
				fc.insert(n.End(), ")", prioClose)
			}
		case *ast.CallExpr:
			if full {
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
					if _, isB := fc.p.info.Uses[id].(*types.Builtin); isB {
						fc.replace(id.Pos(), id.End(), "verifrt__.CloseOf", prioOpen)
						// CloseOf(ch) returns a closure so that direction-typed channels infer.
						fc.insert(n.End(), "()", prioClose)
					}
				}
			}
		case *ast.SelectStmt:
			if full {
				fc.selectStmt(n)
			}
		case *ast.SelectorExpr:
			fc.selector(n)
		}
		return true
	})
}

func (fc *fileCtx) selector(n *ast.SelectorExpr) {
	id, ok := n.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := fc.p.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	path, name := pn.Imported().Path(), n.Sel.Name
	switch path {
	case "os":
		if simOS[name] || simProc[name] {
			to := "verifos__"
			if simProc[name] {
				to = "verifrt__"
			}
			fc.replace(id.Pos(), id.End(), to, prioOpen)
			fc.keep[id.Name] = "var _ = " + id.Name + ".ErrExist"
		}
	case "io/ioutil":
		if name == "ReadFile" || name == "WriteFile" {
			fc.replace(id.Pos(), id.End(), "verifos__", prioOpen)
			fc.keep[id.Name] = "var _ = " + id.Name + ".Discard"
		}
	case "fmt":
		switch name {
		case "Print", "Printf", "Println", "Scan", "Scanf", "Scanln":
			fc.replace(id.Pos(), id.End(), "verifos__", prioOpen)
			fc.keep[id.Name] = "var _ = " + id.Name + ".Sprint"
		}
	case "time":
		if fc.p.full && simTime[name] {
			fc.replace(id.Pos(), id.End(), "verifrt__", prioOpen)
			fc.keep[id.Name] = "var _ = " + id.Name + ".UTC"
		}
	case "maps":
		if fc.p.full && (name == "Keys" || name == "Values" || name == "All") {
			fc.replace(n.Pos(), n.End(), "verifrt__.Maps"+name, prioOpen)
			fc.skip[n.X] = true
			fc.keep[id.Name] = "var _ = " + id.Name + ".Clone[map[int]int]"
		}
	case "math/rand", "math/rand/v2":
		if fc.p.full && simRand[name] {
			fc.replace(id.Pos(), id.End(), "verifrt__", prioOpen)
			fc.keep[id.Name] = "var _ " + id.Name + ".Rand"
		}
	case "crypto/rand":
		if fc.p.full && (name == "Read" || name == "Reader" || name == "Int") {
			fc.replace(n.Pos(), n.End(), "verifrt__.Crypto"+name, prioOpen)
			fc.skip[n.X] = true
			fc.keep[id.Name] = "var _ = " + id.Name + ".Prime"
		}
	case "runtime":
		if fc.p.full && simRuntime[name] {
			fc.replace(id.Pos(), id.End(), "verifrt__", prioOpen)
			fc.keep[id.Name] = "var _ " + id.Name + ".Error"
		}
	}
}

var simRuntime = map[string]bool{"NumCPU": true, "GOMAXPROCS": true, "NumGoroutine": true, "Gosched": true, "GC": true}
var simProc = map[string]bool{"Getpid": true, "Getppid": true, "Hostname": true, "Getenv": true, "LookupEnv": true, "Environ": true}
var simRand = map[string]bool{"Int": true, "Intn": true, "Int63": true, "Int31": true, "Int63n": true, "Int31n": true, "Float64": true, "Float32": true,
	"NormFloat64": true, "ExpFloat64": true, "Perm": true, "Shuffle": true, "Seed": true, "Uint32": true, "Uint64": true, "Uint": true,
	"IntN": true, "Int64": true, "Int32": true, "Int64N": true, "Int32N": true, "Uint64N": true, "Uint32N": true, "UintN": true, "N": true}
var simTime = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true,
	"NewTimer": true, "NewTicker": true, "Tick": true, "Timer": true, "Ticker": true}
var simOS = map[string]bool{
	"Stdin": true, "Stdout": true, "Stderr": true, "Args": true, "Exit": true, "File": true,
	"Open": true, "OpenFile": true, "Create": true, "ReadFile": true, "WriteFile": true,
	"Remove": true, "Rename": true, "Stat": true, "Lstat": true, "CreateTemp": true, "Truncate": true,
	"MkdirAll": true, "Mkdir": true, "MkdirTemp": true, "RemoveAll": true, "Chmod": true, "TempDir": true,
}

func (fc *fileCtx) rangeStmt(n *ast.RangeStmt) {
	t := fc.p.info.Types[n.X].Type
	if t == nil {
		return
	}
	// A yield in empty bodies keeps every loop interruptible.
	if len(n.Body.List) == 0 {
		fc.insert(n.Body.Lbrace+1, fmt.Sprintf(" verifrt__.Y(%d); ", fc.site(n)), prioYield)
	}
	under := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		under = tp.Constraint().Underlying()
	}
	switch under := under.(type) {
	case *types.Map:
		fc.rangeIter(n, "MapIter", "Next")
	case *types.Chan:
		_ = under
		fc.rangeIter(n, "ChanIter", "Next")
	}
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (fc *fileCtx) rangeIter(n *ast.RangeStmt, ctor, next string) {
	fc.counter++
	it := fmt.Sprintf("verifit%d__", fc.counter)
	hasK, hasV := !blank(n.Key), !blank(n.Value)
	k, v := "", ""
	if hasK {
		k = fc.text(n.Key.Pos(), n.Key.End())
		fc.skip[n.Key] = true
	} else if n.Key != nil {
		fc.skip[n.Key] = true
	}
	if hasV {
		v = fc.text(n.Value.Pos(), n.Value.End())
		fc.skip[n.Value] = true
	} else if n.Value != nil {
		fc.skip[n.Value] = true
	}
	suffix, lhs, args := "", it, ""
	if hasK {
		suffix += "K"
		args += "&" + k
		if n.Tok == token.DEFINE {
			lhs += ", " + k
		}
	}
	if hasV {
		suffix += "V"
		if args != "" {
			args += ", "
		}
		args += "&" + v
		if n.Tok == token.DEFINE {
			lhs += ", " + v
		}
	}
	ctorSuffix := suffix
	if n.Tok != token.DEFINE {
		ctorSuffix = ""
	}
	fc.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s := verifrt__.%s%s(", lhs, ctor, ctorSuffix), prioOpen)
	fc.insert(n.X.End(), fmt.Sprintf("); %s.%s%s(%s); ", it, next, suffix, args), prioClose)
}

func (fc *fileCtx) goStmt(n *ast.GoStmt) {
	call := n.Call
	lit, isLit := call.Fun.(*ast.FuncLit)
	if isLit && len(call.Args) == 0 {
		fc.replace(n.Go, lit.Pos(), "verifrt__.Go(func() { ", prioOpen)
		fc.replace(lit.End(), call.End(), "() })", prioClose)
		return
	}
	var pre, args []string
	for i, a := range call.Args {
		fc.skipAll(a)
		tv := fc.p.info.Types[a]
		txt := fc.text(a.Pos(), a.End())
		if tv.Value != nil && tv.Value.Kind() != constant.Unknown || tv.IsNil() {
			args = append(args, txt)
			continue
		}
		v := fmt.Sprintf("verifa%d__", i)
		pre = append(pre, fmt.Sprintf("%s := %s; ", v, txt))
		args = append(args, v)
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		dots = "..."
	}
	if isLit {
		fc.replace(n.Go, lit.Pos(), "{ "+strings.Join(pre, "")+"verifrt__.Go(func() { ", prioOpen)
		fc.replace(lit.End(), call.End(), "("+strings.Join(args, ", ")+dots+") }) }", prioClose)
		return
	}
	fn := fc.text(call.Fun.Pos(), call.Fun.End())
	tv := fc.p.info.Types[call.Fun]
	if !tv.IsBuiltin() && !tv.IsType() {
		pre = append([]string{"veriff__ := " + fn + "; "}, pre...)
		fn = "veriff__"
	}
	fc.skipAll(call.Fun)
	fc.replace(n.Go, call.End(), "{ "+strings.Join(pre, "")+"verifrt__.Go(func() { "+fn+"("+strings.Join(args, ", ")+dots+") }) }", prioOpen)
}

func (fc *fileCtx) skipAll(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil {
			fc.skip[x] = true
		}
		return true
	})
}

func (fc *fileCtx) typeText(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == fc.p.pkg {
			return ""
		}
		for _, im := range fc.f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		return p.Name()
	})
}

func (fc *fileCtx) selectStmt(n *ast.SelectStmt) {
	fc.counter++
	s := fmt.Sprintf("verifs%d__", fc.counter)
	hasDef := false
	var cases []string
	idx := 0
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		head := fmt.Sprintf("case %d:", idx)
		idx++
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			cases = append(cases, fmt.Sprintf("verifrt__.SendCase(%s)(%s)", fc.text(cm.Chan.Pos(), cm.Chan.End()), fc.text(cm.Value.Pos(), cm.Value.End())))
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("verifrt__.RecvCase(%s)", fc.text(u.X.Pos(), u.X.End())))
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			cases = append(cases, fmt.Sprintf("verifrt__.RecvCase(%s)", fc.text(u.X.Pos(), u.X.End())))
			ct := fc.p.info.Types[u.X].Type.Underlying().(*types.Chan)
			el := fc.typeText(ct.Elem())
			rhs := fmt.Sprintf("verifrt__.SelVal[%s](%s)", el, s)
			if len(cm.Lhs) == 2 {
				rhs += ", " + s + ".Ok"
			}
			head += " " + fc.text(cm.Lhs[0].Pos(), cm.Lhs[len(cm.Lhs)-1].End()) + " " + cm.Tok.String() + " " + rhs + ";"
		}
		fc.skipAll(cc.Comm)
		fc.replace(cc.Case, cc.Colon+1, head, prioOpen)
	}
	fc.replace(n.Select, n.Body.Lbrace, fmt.Sprintf("switch %s := verifrt__.Select(%v, %s); %s.I ", s, hasDef, strings.Join(cases, ", "), s), prioOpen)
}
