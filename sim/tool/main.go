// Command tool builds the simulated copy of the repository: it rewrites the
// packages so that goroutines, channels, synchronisation, clocks, map
// iteration, files, processes and the network go to the simulator.
//
// usage: tool -src copy-of-repo -sim /verif/sim -out outdir
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Deps       []string
	ImportMap  map[string]string
	Incomplete bool
	Error      *struct{ Err string }
}

type pkgInfo struct {
	lp     *listPkg
	out    string // output import path
	dir    string // output directory
	files  []*ast.File
	names  []string
	tp     *types.Package
	info   *types.Info
	glob   map[types.Object]bool // per-process variables
	pb     bool
	isMain bool
}

var (
	fset    = token.NewFileSet()
	pkgs    = map[string]*listPkg{}
	rew     = map[string]*pkgInfo{}
	order   []string
	modPath string
	simPath string
	clones  = map[string]*clone{}
)

type clone struct {
	out   string
	pglob map[string]bool // per-process variables ZzG_x
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewriter: "+f+"\n", a...)
	os.Exit(2)
}

// real packages without any nondeterminism, time or I/O of their own
var pure = []string{
	"bufio", "bytes", "cmp", "compress/", "container/", "embed", "encoding", "encoding/", "errors", "expvar", "go/", "hash", "hash/", "html", "html/", "image", "image/", "index/", "io/fs", "iter", "math", "math/", "mime", "path", "reflect", "regexp", "regexp/", "slices", "sort", "strconv", "strings", "syscall", "text/", "unicode", "unicode/", "unsafe", "crypto/md5", "crypto/sha1", "crypto/sha256", "crypto/sha512", "unique", "runtime/debug", "structs",
	"github.com/golang/protobuf/", "google.golang.org/protobuf/", "google.golang.org/grpc/", "github.com/fogleman/simplify", "golang.org/x/text/", "google.golang.org/genproto/",
}

func isPure(p string) bool {
	for _, q := range pure {
		if p == q || strings.HasSuffix(q, "/") && strings.HasPrefix(p, q) {
			return true
		}
	}
	return false
}

// mapImport gives the import path to use in the simulated copy.
func mapImport(p string) string {
	if p == "golang.org/x/net/context" {
		p = "context"
	}
	if c, ok := clones[p]; ok {
		return c.out
	}
	if r, ok := rew[p]; ok {
		return r.out
	}
	return p
}

func main() {
	src := flag.String("src", "", "copy of the repository (already without what cannot be built)")
	sim := flag.String("sim", "", "simulator sources")
	out := flag.String("out", "", "output module directory")
	mainsFlag := flag.String("mains", "", "comma separated name=importpath of programs")
	flag.Parse()
	b, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		fatalf("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			modPath = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	simPath = modPath + "/zzsim"
	os.MkdirAll(*out, 0755)
	copyFile(filepath.Join(*src, "go.mod"), filepath.Join(*out, "go.mod"))
	copyFile(filepath.Join(*src, "go.sum"), filepath.Join(*out, "go.sum"))

	list(*src)
	loadClones(filepath.Join(*sim, "std"), filepath.Join(*out, "zzsim", "std"))
	copyTree(filepath.Join(*sim, "rt"), filepath.Join(*out, "zzsim", "rt"))
	copyTree(filepath.Join(*sim, "harness"), filepath.Join(*out, "zzsim", "harness"))

	for _, p := range order {
		rew[p].load()
	}
	for _, p := range order {
		rew[p].findGlobals()
	}
	for _, p := range order {
		rew[p].write()
	}
	writeBins(*out, *mainsFlag)
}

func copyFile(a, b string) {
	d, err := os.ReadFile(a)
	if err != nil {
		fatalf("%v", err)
	}
	d = bytes.ReplaceAll(d, []byte("ZZSIM/"), []byte(simPath+"/"))
	d = bytes.ReplaceAll(d, []byte("ZZMOD/"), []byte(modPath+"/"))
	os.MkdirAll(filepath.Dir(b), 0755)
	if old, err := os.ReadFile(b); err == nil && bytes.Equal(old, d) {
		return
	}
	if err := os.WriteFile(b, d, 0644); err != nil {
		fatalf("%v", err)
	}
}

func copyTree(a, b string) {
	filepath.Walk(a, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fatalf("%v", err)
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(a, p)
		copyFile(p, filepath.Join(b, rel))
		return nil
	})
}

func list(src string) {
	args := []string{"list", "-e", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,Standard,GoFiles,Imports,ImportMap,Incomplete,Error", "./..."}
	extra := []string{"flag", "crypto/rand", "os/exec", "os/signal", "archive/zip", "maps", "context", "math/rand", "math/rand/v2", "io/ioutil", "net", "log", "time", "math/big", "iter", "google.golang.org/grpc", "google.golang.org/grpc/peer", "google.golang.org/grpc/connectivity", "google.golang.org/grpc/keepalive", "google.golang.org/grpc/metadata", "google.golang.org/grpc/credentials/insecure"}
	cmd := exec.Command("go", append(args, extra...)...)
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil && len(o) == 0 {
		fatalf("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	var all []*listPkg
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatalf("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		all = append(all, p)
	}
	add := func(p *listPkg, outPath string) {
		rew[p.ImportPath] = &pkgInfo{lp: p, out: outPath, isMain: p.Name == "main"}
		order = append(order, p.ImportPath)
	}
	for _, p := range all { // dependency order
		switch {
		case p.ImportPath == "flag":
			add(p, simPath+"/std/flag")
		case p.ImportPath == "github.com/fogleman/fauxgl":
			add(p, simPath+"/fauxgl")
		case strings.HasPrefix(p.ImportPath, "golang.org/x/sync/"):
			add(p, simPath+"/xsync/"+strings.TrimPrefix(p.ImportPath, "golang.org/x/sync/"))
		case p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/"):
			if p.Error != nil {
				fatalf("package %s: %s", p.ImportPath, p.Error.Err)
			}
			add(p, p.ImportPath)
		}
	}
	for _, p := range order {
		r := rew[p]
		r.dir = filepath.Join(outDir(), strings.TrimPrefix(strings.TrimPrefix(r.out, modPath), "/"))
	}
}

func outDir() string { return flag.Lookup("out").Value.String() }

// --- clones of library packages ---

type reexport struct {
	funcs []string // "*": all
	skip  []string // types and functions not to re-export
	none  bool
	real  string
}

var reexports = map[string]reexport{
	"os":            {funcs: []string{"IsExist", "IsNotExist", "IsPermission", "IsTimeout", "IsPathSeparator", "NewSyscallError", "Expand"}, skip: []string{"Root", "ProcAttr", "Args", "Stdin", "Stdout", "Stderr"}},
	"io":            {funcs: []string{"*"}},
	"fmt":           {funcs: []string{"Sscan", "Sscanf", "Sscanln", "Fscan", "Fscanf", "Fscanln", "FormatString"}},
	"time":          {funcs: []string{"Date", "Parse", "ParseInLocation", "ParseDuration", "Unix", "UnixMilli", "UnixMicro", "FixedZone"}},
	"context":       {funcs: []string{"Background", "TODO", "WithValue"}},
	"runtime":       {funcs: []string{"Caller", "Callers", "CallersFrames", "FuncForPC", "Stack", "Goexit", "KeepAlive", "ReadMemStats", "Version", "NumCgoCall"}, skip: []string{"Cleanup"}},
	"math/rand":     {funcs: []string{"New", "NewSource", "NewZipf"}},
	"math/rand/v2":  {funcs: []string{"New", "NewPCG", "NewChaCha8", "NewZipf"}},
	"path/filepath": {funcs: []string{"*"}},
	"archive/zip":   {funcs: []string{"*"}},
	"net":           {funcs: []string{"ParseIP", "ParseCIDR", "IPv4", "JoinHostPort", "SplitHostPort", "CIDRMask", "IPv4Mask", "ParseMAC"}, skip: []string{"Resolver", "Dialer", "DefaultResolver"}},
	"os/exec":       {none: true}, "log": {none: true}, "sync": {none: true}, "sync/atomic": {none: true}, "maps": {none: true}, "io/ioutil": {none: true}, "os/signal": {none: true}, "crypto/rand": {none: true},
	"grpc": {none: true, real: "google.golang.org/grpc"},
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func loadClones(dir, out string) {
	copyTree(dir, out)
	for path, re := range reexports {
		realPath := path
		if re.real != "" {
			realPath = re.real
		}
		clones[realPath] = &clone{out: simPath + "/std/" + path, pglob: map[string]bool{}}
	}
	for path, re := range reexports {
		realPath := path
		if re.real != "" {
			realPath = re.real
		}
		c := clones[realPath]
		declared := map[string]bool{}
		files, _ := filepath.Glob(filepath.Join(dir, path, "*.go"))
		name := ""
		for _, fn := range files {
			f, err := parser.ParseFile(fset, fn, nil, 0)
			if err != nil {
				fatalf("%v", err)
			}
			name = f.Name.Name
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						declared[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							declared[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								declared[n.Name] = true
								if strings.HasPrefix(n.Name, "ZzG_") {
									c.pglob[n.Name[4:]] = true
								}
							}
						}
					}
				}
			}
		}
		if re.none {
			continue
		}
		tp, err := realImporter().Import(realPath)
		if err != nil {
			fatalf("import %s: %v", realPath, err)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport zzreal %q\n\n", name, realPath)
		for _, n := range tp.Scope().Names() {
			o := tp.Scope().Lookup(n)
			if !o.Exported() || declared[n] || contains(re.skip, n) {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&sb, "const %s = zzreal.%s\n", n, n)
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&sb, "type %s = zzreal.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&sb, "var %s = zzreal.%s\n", n, n)
			case *types.Func:
				if !contains(re.funcs, "*") && !contains(re.funcs, n) {
					continue
				}
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&sb, "var %s = zzreal.%s\n", n, n)
			}
		}
		os.WriteFile(filepath.Join(out, path, "zz_reexport.go"), []byte(sb.String()), 0644)
	}
}

var realImp types.Importer

func realImporter() types.Importer {
	if realImp == nil {
		realImp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			p := pkgs[path]
			if p == nil || p.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(p.Export)
		})
	}
	return realImp
}

type srcImporter struct{}

func (srcImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if r, ok := rew[path]; ok && r.tp != nil {
		return r.tp, nil
	}
	return realImporter().Import(path)
}

// --- loading ---

func (r *pkgInfo) load() {
	for _, n := range r.lp.GoFiles {
		fn := filepath.Join(r.lp.Dir, n)
		f, err := parser.ParseFile(fset, fn, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatalf("%v", err)
		}
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if strings.Contains(c.Text, "Code generated by protoc-gen-go") {
					r.pb = true
				}
				if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
					fatalf("%s: unsupported directive %s", fn, c.Text)
				}
			}
		}
		f.Comments = nil
		f.Doc = nil
		r.files = append(r.files, f)
		r.names = append(r.names, n)
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if _, ok := clones[p]; ok {
				continue
			}
			if _, ok := rew[p]; ok {
				continue
			}
			if p == "golang.org/x/net/context" || isPure(p) {
				continue
			}
			if r.lp.Standard && strings.HasPrefix(p, "internal/") {
				fatalf("%s imports %s", fn, p)
			}
			fatalf("%s imports %s, which is not simulated", fn, p)
		}
	}
	r.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	var errs []error
	cfg := types.Config{Importer: srcImporter{}, Error: func(err error) { errs = append(errs, err) }, Sizes: types.SizesFor("gc", "amd64")}
	path := r.lp.ImportPath
	tp, _ := cfg.Check(path, fset, r.files, r.info)
	if len(errs) > 0 {
		fatalf("type check %s: %v", path, errs[0])
	}
	r.tp = tp
}

// findGlobals decides which package variables become per-process.
func (r *pkgInfo) findGlobals() {
	r.glob = map[types.Object]bool{}
	if r.pb {
		return
	}
	for _, n := range r.tp.Scope().Names() {
		if v, ok := r.tp.Scope().Lookup(n).(*types.Var); ok {
			r.glob[v] = true
		}
	}
	// exported variables used from other packages are judged there too
	shared := map[types.Object]bool{}
	for v := range r.glob {
		shared[v] = true
	}
	for _, p := range order {
		q := rew[p]
		for _, f := range q.files {
			q.scanUses(f, shared)
		}
	}
	for v, ok := range shared {
		if ok && r.lp.ImportPath != "flag" {
			delete(r.glob, v)
		}
	}
}

// scanUses clears shared[v] for variables that are used other than for reading.
func (r *pkgInfo) scanUses(f *ast.File, shared map[types.Object]bool) {
	var stack []ast.Node
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o := r.info.Uses[id]
		if o == nil || !shared[o] {
			return true
		}
		shared[o] = r.readOnlyUse(o, stack)
		return true
	})
}

func (r *pkgInfo) readOnlyUse(o types.Object, stack []ast.Node) bool {
	i := len(stack) - 1
	cur := stack[i]
	i--
	if s, ok := stack[i].(*ast.SelectorExpr); ok && s.Sel == cur {
		cur = s
		i--
	}
	t := o.Type()
	for ; i >= 0; i-- {
		par := stack[i]
		switch p := par.(type) {
		case *ast.ParenExpr:
		case *ast.IndexExpr:
			if p.X == cur {
				switch u := t.Underlying().(type) {
				case *types.Array:
					t = u.Elem()
				case *types.Slice:
					t = u.Elem()
				case *types.Map:
					t = u.Elem()
				case *types.Basic:
					return true
				default:
					return false
				}
			} else {
				return isValue(t) // used as the index
			}
		case *ast.SelectorExpr:
			if sel, ok := r.info.Selections[p]; ok && sel.Kind() == types.FieldVal && p.X == cur {
				t = sel.Type()
			} else if ok && p.X == cur {
				// a method: harmless on regexps, and by value on plain values
				if t.String() == "*regexp.Regexp" {
					return true
				}
				f, isf := sel.Obj().(*types.Func)
				if isf {
					_, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer)
					return !ptr && isValue(t)
				}
				return false
			} else {
				return false
			}
		case *ast.UnaryExpr:
			if p.Op == token.AND || p.Op == token.ARROW {
				return false
			}
			return true
		case *ast.AssignStmt:
			for _, l := range p.Lhs {
				if l == cur {
					return false
				}
			}
			return isValue(t)
		case *ast.IncDecStmt:
			return false
		case *ast.RangeStmt:
			if p.X == cur {
				switch u := t.Underlying().(type) {
				case *types.Slice:
					return isValue(u.Elem())
				case *types.Array:
					return isValue(u.Elem())
				case *types.Map:
					return isValue(u.Elem()) && isValue(u.Key())
				case *types.Basic:
					return true
				}
			}
			return false
		case *ast.CallExpr:
			if p.Fun == cur {
				return false
			}
			if fid, ok := p.Fun.(*ast.Ident); ok {
				if b, ok := r.info.Uses[fid].(*types.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					return true
				}
			}
			return isValue(t)
		default:
			return isValue(t)
		}
		cur = par
	}
	return isValue(t)
}

// isValue: copying it shares nothing that could be modified.
func isValue(t types.Type) bool {
	if t.String() == "error" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer
	case *types.Array:
		return isValue(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !isValue(f.Type()) || strings.Contains(f.Type().String(), "sync.") {
				return false
			}
		}
		return true
	}
	return false
}

// --- rewriting ---

type rewriter struct {
	r     *pkgInfo
	f     *ast.File
	n     int
	needs map[string]string // extra imports: path -> name
	inits []ast.Decl
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func sel(x ast.Expr, s string) ast.Expr { return &ast.SelectorExpr{X: x, Sel: id(s)} }

func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }

func rtf(s string) ast.Expr { return sel(id("zzrt"), s) }

func str(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)}
}

func (w *rewriter) tmp(p string) string { w.n++; return fmt.Sprintf("zz%s%d", p, w.n) }

func (w *rewriter) qual(p *types.Package) string {
	if p == w.r.tp {
		return ""
	}
	path := mapImport(p.Path())
	if n, ok := w.needs[path]; ok {
		return n
	}
	n := fmt.Sprintf("zzi%d", len(w.needs))
	w.needs[path] = n
	return n
}

func (w *rewriter) typeExpr(t types.Type) ast.Expr {
	s := types.TypeString(t, w.qual)
	e, err := parser.ParseExpr(s)
	if err != nil {
		fatalf("%s: cannot express type %s", w.r.lp.ImportPath, s)
	}
	return e
}

func (r *pkgInfo) write() {
	os.MkdirAll(r.dir, 0755)
	for i, f := range r.files {
		w := &rewriter{r: r, f: f, needs: map[string]string{}}
		w.file()
		var buf bytes.Buffer
		buf.WriteString("// Generated from " + r.names[i] + ".\n\n")
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			fatalf("print %s: %v", r.names[i], err)
		}
		out := strings.ReplaceAll(buf.String(), "//line "+filepath.Clean(flag.Lookup("src").Value.String())+"/", "//line /repo/")
		if err := os.WriteFile(filepath.Join(r.dir, r.names[i]), []byte(out), 0644); err != nil {
			fatalf("%v", err)
		}
	}
}

func (w *rewriter) file() {
	f := w.f
	if w.r.isMain {
		f.Name = id("zzmain")
	}
	var decls []ast.Decl
	usesUnsafe := false
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			switch d.Tok {
			case token.IMPORT:
				for _, s := range d.Specs {
					im := s.(*ast.ImportSpec)
					p := strings.Trim(im.Path.Value, `"`)
					if p == "unsafe" {
						usesUnsafe = true
					}
					if im.Name != nil && im.Name.Name == "." {
						fatalf("dot import of %s", p)
					}
					im.Path = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", mapImport(p))}
					im.Comment, im.Doc = nil, nil
				}
				decls = append(decls, d)
			case token.VAR:
				decls = append(decls, w.globalVars(d)...)
			default:
				if d.Tok == token.TYPE {
					for _, s := range d.Specs {
						ts := s.(*ast.TypeSpec)
						ts.Type = w.expr(ts.Type)
						ts.Comment, ts.Doc = nil, nil
					}
				} else {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						w.exprs(vs.Values)
						vs.Comment, vs.Doc = nil, nil
					}
				}
				d.Doc = nil
				decls = append(decls, d)
			}
		case *ast.FuncDecl:
			d.Doc = nil
			w.funcDecl(d)
			decls = append(decls, d)
		}
	}
	_ = usesUnsafe
	decls = append(decls, w.inits...)
	// extra imports
	imps := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Specs: []ast.Spec{&ast.ImportSpec{Name: id("zzrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", simPath+"/rt")}}}}
	var ps []string
	for p := range w.needs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		imps.Specs = append(imps.Specs, &ast.ImportSpec{Name: id(w.needs[p]), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", p)}})
	}
	keep := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{rtf("Tick")}}}}
	f.Decls = append([]ast.Decl{imps}, append(decls, keep)...)
	f.Imports = nil
}

func (w *rewriter) funcDecl(d *ast.FuncDecl) {
	if d.Recv != nil {
		w.fields(d.Recv)
	}
	d.Type = w.expr(d.Type).(*ast.FuncType)
	if d.Body != nil {
		w.block(d.Body)
	}
	if d.Recv == nil && d.Name.Name == "main" && w.r.isMain {
		d.Name = id("ZzMain")
	}
	if d.Recv == nil && d.Name.Name == "init" && !w.r.pb {
		n := w.tmp("init" + strings.Map(func(c rune) rune {
			if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
				return c
			}
			return '_'
		}, strings.ToLower(filepath.Base(fset.Position(w.f.Package).Filename))))
		d.Name = id(n)
		w.inits = append(w.inits, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{call(rtf("RegisterInit"), str(w.r.lp.ImportPath), id(n))}}}})
	}
}

func (w *rewriter) newGlobal(name string, t types.Type, body []ast.Stmt) ast.Spec {
	te := w.typeExpr(t)
	var fn ast.Expr = id("nil")
	if body != nil {
		fn = &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: te}}}}, Body: &ast.BlockStmt{List: body}}
	}
	return &ast.ValueSpec{Names: []*ast.Ident{id("ZzG_" + name)}, Values: []ast.Expr{call(&ast.IndexExpr{X: rtf("NewGlobal"), Index: w.typeExpr(t)}, str(w.r.lp.ImportPath), str(name), fn)}}
}

func (w *rewriter) globalVars(d *ast.GenDecl) []ast.Decl {
	var out []ast.Decl
	emit := func(s ast.Spec) {
		out = append(out, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{s}})
	}
	for _, s := range d.Specs {
		vs := s.(*ast.ValueSpec)
		vs.Doc, vs.Comment = nil, nil
		any := false
		for _, n := range vs.Names {
			if o := w.r.info.Defs[n]; o != nil && w.r.glob[o] {
				any = true
			}
		}
		if !any {
			if vs.Type != nil {
				vs.Type = w.expr(vs.Type)
			}
			// blank or shared variables are initialised once, outside any process:
			// only allowed when the initialiser is harmless
			blank := true
			for _, n := range vs.Names {
				if n.Name != "_" {
					blank = false
				}
			}
			w.valueSpec(vs)
			if blank && !w.r.pb {
				hasCall := false
				for _, v := range vs.Values {
					ast.Inspect(v, func(n ast.Node) bool {
						if _, ok := n.(*ast.CallExpr); ok {
							hasCall = true
						}
						return true
					})
				}
				if hasCall {
					for i := range vs.Names {
						vs.Names[i] = id(w.tmp("blank"))
					}
					var body []ast.Stmt
					for _, v := range vs.Values {
						body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
					}
					out = append(out, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{call(rtf("RegisterInit"), str(w.r.lp.ImportPath), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})}}}})
					continue
				}
			}
			emit(vs)
			continue
		}
		objT := func(n *ast.Ident) types.Type { return w.r.info.Defs[n].Type() }
		switch {
		case len(vs.Values) == 0:
			for _, n := range vs.Names {
				if n.Name != "_" {
					emit(w.newGlobal(n.Name, objT(n), nil))
				}
			}
		case len(vs.Values) == len(vs.Names):
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				if !w.r.glob[w.r.info.Defs[n]] {
					emit(&ast.ValueSpec{Names: []*ast.Ident{n}, Type: vs.Type, Values: []ast.Expr{w.expr(vs.Values[i])}})
					continue
				}
				emit(w.newGlobal(n.Name, objT(n), []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{w.expr(vs.Values[i])}}}))
			}
		default: // var a, b = f()
			tn := w.tmp("tuple")
			var fl []*ast.Field
			var names, rets []ast.Expr
			for i, n := range vs.Names {
				if n.Name == "_" {
					names = append(names, id("_"))
					continue
				}
				fn := fmt.Sprintf("F%d", i)
				fl = append(fl, &ast.Field{Names: []*ast.Ident{id(fn)}, Type: w.typeExpr(objT(n))})
				names = append(names, sel(id("zzv"), fn))
			}
			_ = rets
			st := &ast.StructType{Fields: &ast.FieldList{List: fl}}
			out = append(out, &ast.GenDecl{Tok: token.TYPE, Specs: []ast.Spec{&ast.TypeSpec{Name: id(tn + "T"), Type: st}}})
			fnl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("zzv")}, Type: id(tn + "T")}}}}, Body: &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: names, Tok: token.ASSIGN, Rhs: []ast.Expr{w.recv2(vs.Values[0], len(vs.Names))}}, &ast.ReturnStmt{Results: []ast.Expr{id("zzv")}}}}}
			out = append(out, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(tn)}, Values: []ast.Expr{call(&ast.IndexExpr{X: rtf("NewGlobal"), Index: id(tn + "T")}, str(w.r.lp.ImportPath), str(tn), fnl)}}}})
			for i, n := range vs.Names {
				if n.Name != "_" {
					emit(w.newGlobal(n.Name, objT(n), []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{sel(call(sel(id(tn), "P")), fmt.Sprintf("F%d", i))}}}))
				}
			}
		}
	}
	return out
}

// recv2 rewrites an expression used in a context of n values.
func (w *rewriter) recv2(e ast.Expr, n int) ast.Expr {
	x := e
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW && n == 2 {
		return call(sel(call(rtf("CR"), w.expr(u.X)), "Recv2"))
	}
	return w.expr(e)
}

func (w *rewriter) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Values) == 1 && len(vs.Names) == 2 {
		vs.Values[0] = w.recv2(vs.Values[0], 2)
		return
	}
	w.exprs(vs.Values)
}

func (w *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = w.expr(l[i])
	}
}

func (w *rewriter) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Type = w.expr(f.Type)
		f.Doc, f.Comment = nil, nil
	}
}

func isChan(t types.Type) (*types.Chan, bool) {
	if t == nil {
		return nil, false
	}
	c, ok := t.Underlying().(*types.Chan)
	if ok {
		return c, true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		c, ok := coreType(tp).(*types.Chan)
		return c, ok
	}
	return nil, false
}

func coreType(tp *types.TypeParam) types.Type {
	i, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || i.NumEmbeddeds() != 1 {
		return nil
	}
	switch e := i.EmbeddedType(0).(type) {
	case *types.Union:
		if e.Len() == 1 {
			return e.Term(0).Type().Underlying()
		}
	default:
		return e.Underlying()
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Map); ok {
		return true
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_, ok := coreType(tp).(*types.Map)
		return ok
	}
	return false
}

func (w *rewriter) globalRef(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.Pkg() == nil {
		return false
	}
	if r, ok := rew[v.Pkg().Path()]; ok {
		return r.glob[o]
	}
	return false
}

func deref(x ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(sel(x, "P"))}}
}

func (w *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		o := w.r.info.Uses[e]
		if o == nil {
			return e
		}
		if w.globalRef(o) && o.Parent() == o.Pkg().Scope() {
			return deref(id("ZzG_" + e.Name))
		}
		if f, ok := o.(*types.Func); ok && w.r.isMain && f.Name() == "main" && f.Parent() == w.r.tp.Scope() {
			return id("ZzMain")
		}
		return e
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if pn, ok := w.r.info.Uses[x].(*types.PkgName); ok {
				o := w.r.info.Uses[e.Sel]
				if v, ok := o.(*types.Var); ok {
					if w.globalRef(v) {
						return deref(sel(x, "ZzG_"+e.Sel.Name))
					}
					path := pn.Imported().Path()
					if c, ok := clones[path]; ok && c.pglob[e.Sel.Name] {
						return deref(sel(x, "ZzG_"+e.Sel.Name))
					}
				}
				return e
			}
		}
		e.X = w.expr(e.X)
		return e
	case *ast.ParenExpr:
		e.X = w.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return call(sel(call(rtf("CR"), w.expr(e.X)), "Recv"))
		}
		e.X = w.expr(e.X)
	case *ast.BinaryExpr:
		e.X = w.expr(e.X)
		e.Y = w.expr(e.Y)
	case *ast.StarExpr:
		e.X = w.expr(e.X)
	case *ast.IndexExpr:
		e.X = w.expr(e.X)
		e.Index = w.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = w.expr(e.X)
		w.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X = w.expr(e.X)
		e.Low, e.High, e.Max = w.expr(e.Low), w.expr(e.High), w.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = w.expr(e.X)
		e.Type = w.expr(e.Type)
	case *ast.CallExpr:
		return w.callExpr(e)
	case *ast.CompositeLit:
		e.Type = w.expr(e.Type)
		st := false
		if t := w.r.info.TypeOf(e); t != nil {
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			_, st = u.(*types.Struct)
		}
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if !st {
					kv.Key = w.expr(kv.Key)
				}
				kv.Value = w.expr(kv.Value)
			} else {
				e.Elts[i] = w.expr(x)
			}
		}
	case *ast.FuncLit:
		e.Type = w.expr(e.Type).(*ast.FuncType)
		w.block(e.Body)
	case *ast.KeyValueExpr:
		e.Key, e.Value = w.expr(e.Key), w.expr(e.Value)
	case *ast.ArrayType:
		e.Len = w.expr(e.Len)
		e.Elt = w.expr(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = w.expr(e.Key), w.expr(e.Value)
	case *ast.ChanType:
		e.Value = w.expr(e.Value)
	case *ast.StructType:
		w.fields(e.Fields)
	case *ast.FuncType:
		w.fields(e.TypeParams)
		w.fields(e.Params)
		w.fields(e.Results)
	case *ast.InterfaceType:
		w.fields(e.Methods)
	case *ast.Ellipsis:
		e.Elt = w.expr(e.Elt)
	case *ast.BasicLit, *ast.BadExpr:
	default:
		fatalf("expression %T", e)
	}
	return e
}

func (w *rewriter) builtin(e ast.Expr) string {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := w.r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (w *rewriter) callExpr(e *ast.CallExpr) ast.Expr {
	switch w.builtin(e.Fun) {
	case "close":
		return call(sel(call(rtf("CS"), w.expr(e.Args[0])), "Close"))
	case "len":
		if c, ok := isChan(w.r.info.TypeOf(e.Args[0])); ok {
			f := "CR"
			if c.Dir() == types.SendOnly {
				f = "CS"
			}
			return call(sel(call(rtf(f), w.expr(e.Args[0])), "Len"))
		}
	}
	e.Fun = w.expr(e.Fun)
	w.exprs(e.Args)
	return e
}

func (w *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = w.stmts(b.List)
	}
}

func (w *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	for i := range l {
		l[i] = w.stmt(l[i])
	}
	return l
}

func tick() ast.Stmt { return &ast.ExprStmt{X: call(rtf("Tick"))} }

func define(names []string, vals ...ast.Expr) ast.Stmt {
	var l []ast.Expr
	for _, n := range names {
		l = append(l, id(n))
	}
	return &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: vals}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return e == nil || ok && i.Name == "_"
}

func (w *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		s.X = w.expr(s.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(sel(call(rtf("CS"), w.expr(s.Chan)), "Send"), w.expr(s.Value))}
	case *ast.IncDecStmt:
		s.X = w.expr(s.X)
	case *ast.AssignStmt:
		for i := range s.Lhs {
			if s.Tok == token.DEFINE {
				continue
			}
			s.Lhs[i] = w.expr(s.Lhs[i])
		}
		if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
			s.Rhs[0] = w.recv2(s.Rhs[0], 2)
		} else {
			w.exprs(s.Rhs)
		}
	case *ast.GoStmt:
		return w.goStmt(s)
	case *ast.DeferStmt:
		x := w.callExpr(s.Call)
		s.Call = x.(*ast.CallExpr)
	case *ast.ReturnStmt:
		w.exprs(s.Results)
	case *ast.BranchStmt, *ast.EmptyStmt:
	case *ast.BlockStmt:
		w.block(s)
	case *ast.IfStmt:
		s.Init = w.stmt(s.Init)
		s.Cond = w.expr(s.Cond)
		w.block(s.Body)
		s.Else = w.stmt(s.Else)
	case *ast.CaseClause:
		w.exprs(s.List)
		s.Body = w.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = w.stmt(s.Init)
		s.Tag = w.expr(s.Tag)
		w.block(s.Body)
	case *ast.TypeSwitchStmt:
		s.Init = w.stmt(s.Init)
		s.Assign = w.stmt(s.Assign)
		w.block(s.Body)
	case *ast.SelectStmt:
		return w.selectStmt(s, nil)
	case *ast.ForStmt:
		s.Init = w.stmt(s.Init)
		s.Cond = w.expr(s.Cond)
		s.Post = w.stmt(s.Post)
		w.block(s.Body)
		s.Body.List = append([]ast.Stmt{tick()}, s.Body.List...)
	case *ast.RangeStmt:
		return w.rangeStmt(s)
	case *ast.LabeledStmt:
		if x, ok := s.Stmt.(*ast.SelectStmt); ok {
			return w.selectStmt(x, s.Label)
		}
		s.Stmt = w.stmt(s.Stmt)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.ValueSpec:
					sp.Type = w.expr(sp.Type)
					sp.Doc, sp.Comment = nil, nil
					w.valueSpec(sp)
				case *ast.TypeSpec:
					sp.Type = w.expr(sp.Type)
					sp.Doc, sp.Comment = nil, nil
				}
			}
			g.Doc = nil
		}
	default:
		fatalf("statement %T", s)
	}
	return s
}

func (w *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := w.r.info.TypeOf(s.X)
	if _, ok := isChan(t); ok {
		it, okn := w.tmp("r"), w.tmp("ok")
		x := w.expr(s.X)
		w.block(s.Body)
		var pre []ast.Stmt
		switch {
		case isBlank(s.Key):
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id(okn)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(id(it), "Recv2"))}})
		case s.Tok == token.DEFINE:
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key, id(okn)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(sel(id(it), "Recv2"))}})
		default:
			vn := w.tmp("v")
			pre = append(pre, define([]string{vn, okn}, call(sel(id(it), "Recv2"))))
			defer func(k ast.Expr) {}(s.Key)
			pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(okn)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}})
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{w.expr(s.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vn)}}, tick())
			return &ast.ForStmt{For: s.For, Init: define([]string{it}, call(rtf("CR"), x)), Body: &ast.BlockStmt{Lbrace: s.Body.Lbrace, List: append(pre, s.Body.List...), Rbrace: s.Body.Rbrace}}
		}
		pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(okn)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}, tick())
		return &ast.ForStmt{For: s.For, Init: define([]string{it}, call(rtf("CR"), x)), Body: &ast.BlockStmt{Lbrace: s.Body.Lbrace, List: append(pre, s.Body.List...), Rbrace: s.Body.Rbrace}}
	}
	if isMap(t) {
		it := w.tmp("i")
		x := w.expr(s.X)
		w.block(s.Body)
		var lhs, rhs []ast.Expr
		if !isBlank(s.Key) {
			k := s.Key
			if s.Tok != token.DEFINE {
				k = w.expr(k)
			}
			lhs = append(lhs, k)
			rhs = append(rhs, call(sel(id(it), "Key")))
		}
		if !isBlank(s.Value) {
			v := s.Value
			if s.Tok != token.DEFINE {
				v = w.expr(v)
			}
			lhs = append(lhs, v)
			rhs = append(rhs, call(sel(id(it), "Val")))
		}
		pre := []ast.Stmt{tick()}
		if len(lhs) > 0 {
			pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs})
		}
		return &ast.ForStmt{For: s.For, Init: define([]string{it}, call(rtf("MapIter"), x)), Cond: call(sel(id(it), "Next")), Body: &ast.BlockStmt{Lbrace: s.Body.Lbrace, List: append(pre, s.Body.List...), Rbrace: s.Body.Rbrace}}
	}
	if s.Tok != token.DEFINE {
		s.Key, s.Value = w.expr(s.Key), w.expr(s.Value)
	}
	s.X = w.expr(s.X)
	w.block(s.Body)
	s.Body.List = append([]ast.Stmt{tick()}, s.Body.List...)
	return s
}

func (w *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	c := s.Call
	var pre []ast.Stmt
	if w.builtin(c.Fun) != "" {
		x := w.callExpr(c)
		return &ast.ExprStmt{X: call(rtf("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: x}}}})}
	}
	fun := c.Fun
	direct := false
	switch f := unparen(fun).(type) {
	case *ast.FuncLit:
		direct = len(c.Args) == 0
	case *ast.Ident:
		_, direct = w.r.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if x, ok := f.X.(*ast.Ident); ok {
			if _, ok := w.r.info.Uses[x].(*types.PkgName); ok {
				_, direct = w.r.info.Uses[f.Sel].(*types.Func)
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	fx := w.expr(fun)
	if !direct {
		n := w.tmp("f")
		pre = append(pre, define([]string{n}, fx))
		fx = id(n)
	}
	if len(c.Args) == 0 && len(pre) == 0 {
		if fl, ok := fx.(*ast.FuncLit); ok && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
			return &ast.ExprStmt{X: call(rtf("Go"), fl)}
		}
	}
	var args []ast.Expr
	if len(c.Args) == 1 {
		if tu, ok := w.r.info.TypeOf(c.Args[0]).(*types.Tuple); ok {
			var ns []string
			for i := 0; i < tu.Len(); i++ {
				n := w.tmp("a")
				ns = append(ns, n)
				args = append(args, id(n))
			}
			pre = append(pre, define(ns, w.expr(c.Args[0])))
		}
	}
	if args == nil {
		for _, a := range c.Args {
			tv := w.r.info.Types[a]
			if tv.Value != nil || tv.IsNil() || isUntyped(tv.Type) {
				args = append(args, w.expr(a))
				continue
			}
			n := w.tmp("a")
			pre = append(pre, define([]string{n}, w.expr(a)))
			args = append(args, id(n))
		}
	}
	cl := &ast.CallExpr{Fun: fx, Args: args, Ellipsis: c.Ellipsis}
	g := &ast.ExprStmt{X: call(rtf("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: cl}}}})}
	return &ast.BlockStmt{Lbrace: s.Go, List: append(pre, g)}
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (w *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{Lbrace: s.Select, List: []ast.Stmt{&ast.ExprStmt{X: call(rtf("BlockForever"))}, &ast.ExprStmt{X: call(id("panic"), str("unreachable"))}}}
	}
	hasDef := "false"
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = "true"
		}
	}
	sn := w.tmp("s")
	out := []ast.Stmt{define([]string{sn}, call(rtf("NewSel"), id(hasDef)))}
	sw := &ast.SwitchStmt{Switch: s.Select, Tag: call(sel(id(sn), "Do")), Body: &ast.BlockStmt{Lbrace: s.Body.Lbrace, Rbrace: s.Body.Rbrace}}
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: w.stmts(cc.Body)})
			continue
		}
		var pre []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			out = append(out, &ast.ExprStmt{X: call(sel(call(rtf("SelSend"), id(sn), w.expr(m.Chan)), "Val"), w.expr(m.Value))})
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			out = append(out, &ast.ExprStmt{X: call(rtf("SelRecv"), id(sn), w.expr(u.X))})
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			cn := w.tmp("c")
			out = append(out, define([]string{cn}, call(rtf("SelRecv"), id(sn), w.expr(u.X))))
			get := "Get"
			if len(m.Lhs) == 2 {
				get = "Get2"
			}
			if m.Tok != token.DEFINE {
				w.exprs(m.Lhs)
			}
			allBlank := true
			for _, l := range m.Lhs {
				if !isBlank(l) {
					allBlank = false
				}
			}
			if allBlank {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(cn)}})
			} else {
				pre = append(pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{call(sel(id(cn), get))}})
			}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}}, Body: append(pre, w.stmts(cc.Body)...)})
		k++
	}
	if hasDef == "false" {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), str("unreachable"))}}})
	}
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{Lbrace: s.Select, List: append(out, last)}
}

// --- programs ---

func writeBins(out, mains string) {
	var sb, reg strings.Builder
	sb.WriteString("// Generated.\npackage harness\n\nimport (\n\tzzrt \"" + simPath + "/rt\"\n")
	dep := func(p string) []string {
		seen := map[string]bool{}
		var l []string
		var rec func(q string)
		rec = func(q string) {
			if seen[q] {
				return
			}
			seen[q] = true
			r, ok := rew[q]
			if !ok {
				return
			}
			for _, i := range r.lp.Imports {
				rec(i)
			}
			l = append(l, q)
		}
		rec(p)
		return l
	}
	quote := func(l []string) string {
		var q []string
		for _, s := range l {
			q = append(q, fmt.Sprintf("%q", s))
		}
		return strings.Join(q, ", ")
	}
	n := 0
	for _, m := range strings.Split(mains, ",") {
		if m == "" {
			continue
		}
		name, path, _ := strings.Cut(m, "=")
		path = modPath + "/" + path
		if rew[path] == nil {
			fatalf("program %s (%s) not found", name, path)
		}
		n++
		fmt.Fprintf(&sb, "\tm%d %q\n", n, path)
		fmt.Fprintf(&reg, "\tzzrt.RegisterBinary(%q, m%d.ZzMain, %s)\n", name, n, quote(dep(path)))
	}
	var lib []string
	for _, p := range order {
		if !rew[p].isMain {
			lib = append(lib, p)
		}
	}
	fmt.Fprintf(&reg, "\tzzrt.RegisterLibPkgs(%s)\n", quote(lib))
	sb.WriteString(")\n\nfunc registerBins() {\n" + reg.String() + "}\n")
	os.WriteFile(filepath.Join(out, "zzsim", "harness", "zz_bins.go"), []byte(sb.String()), 0644)
}
