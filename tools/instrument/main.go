// Command instrument copies the non-test sources of the system under test (and of the few
// third-party modules that hold state shared between requests) to a build directory, redirecting
// every source of nondeterminism to the simulator. The originals are only read.
//
// It works on types, not on the way the code is written: every reference to a redirected package
// member is replaced wherever it appears, a scheduling point is added before every statement, every
// go statement is registered with the scheduler, every range over a map asks the simulator for its
// order, and package-level state is re-initialised at every simulated process start.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type goPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	SFiles     []string
	HFiles     []string
	Export     string
	ImportMap  map[string]string
	Standard   bool
	Module     *struct {
		Path, Dir, GoVersion string
		Main                 bool
	}
}

// what to do with a module
type modRule struct {
	path   string
	dirOut string
	yields func(importPath string) bool
	reset  bool
	touch  func(importPath string) bool
	fine   bool // shared memory accesses
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

var siteNo int
var sites []string

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	if *out == "" {
		fatal("-out is required")
	}

	cmd := exec.Command("go", "list", "-export", "-deps", "-tags", "sqlite_fts5",
		"-json=ImportPath,Dir,Name,GoFiles,CgoFiles,SFiles,HFiles,Export,ImportMap,Standard,Module", "./cmd/...", "./pkg/...")
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		fatal("go list failed: %v", err)
	}
	pkgs := map[string]*goPkg{}
	var order []*goPkg
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := &goPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}

	yes := func(string) bool { return true }
	no := func(string) bool { return false }
	mainMod := ""
	for _, p := range order {
		if p.Module != nil && p.Module.Main {
			mainMod = p.Module.Path
		}
	}
	rules := []modRule{
		{mainMod, "rodb", yes, true, yes, true},
		{"github.com/antchfx/xpath", "xpath", yes, true, yes, false},
		{"github.com/antchfx/xmlquery", "xmlquery", yes, true, yes, false},
		{"github.com/sirupsen/logrus", "logrus", no, true, yes, false},
		{"golang.org/x/text", "xtext", func(ip string) bool {
			switch ip {
			case "golang.org/x/text/transform", "golang.org/x/text/encoding", "golang.org/x/text/encoding/unicode",
				"golang.org/x/text/encoding/japanese", "golang.org/x/text/encoding/simplifiedchinese":
				return true
			}
			return false
		}, false, func(ip string) bool {
			return ip == "golang.org/x/text/transform" || strings.HasPrefix(ip, "golang.org/x/text/encoding")
		}, false},
	}

	lookup := func(from *goPkg) func(string) (io.ReadCloser, error) {
		return func(path string) (io.ReadCloser, error) {
			if from != nil {
				if m, ok := from.ImportMap[path]; ok {
					path = m
				}
			}
			p, ok := pkgs[path]
			if !ok || p.Export == "" {
				return nil, fmt.Errorf("no export data for %q", path)
			}
			return os.Open(p.Export)
		}
	}

	var mains []string
	for _, rule := range rules {
		var mod *goPkg
		for _, p := range order {
			if p.Module == nil || p.Module.Path != rule.path {
				continue
			}
			mod = p
			rel, err := filepath.Rel(p.Module.Dir, p.Dir)
			if err != nil {
				fatal("%v", err)
			}
			outDir := filepath.Join(*out, rule.dirOut, rel)
			if err := os.MkdirAll(outDir, 0o755); err != nil {
				fatal("%v", err)
			}
			for _, f := range append(append([]string{}, p.SFiles...), p.HFiles...) {
				copyFile(filepath.Join(p.Dir, f), filepath.Join(outDir, f))
			}
			if len(p.CgoFiles) > 0 {
				fatal("%v uses cgo: cannot be instrumented", p.ImportPath)
			}
			if !rule.touch(p.ImportPath) {
				for _, f := range p.GoFiles {
					copyFile(filepath.Join(p.Dir, f), filepath.Join(outDir, f))
				}
				continue
			}
			if p.Name == "main" {
				mains = append(mains, p.ImportPath)
			}
			instrumentPackage(p, outDir, rule.yields(p.ImportPath), rule.reset, rule.fine, lookup(p))
		}
		if mod == nil {
			// the module is no longer a dependency: leave an empty one
			if err := os.MkdirAll(filepath.Join(*out, rule.dirOut), 0o755); err != nil {
				fatal("%v", err)
			}
			os.WriteFile(filepath.Join(*out, rule.dirOut, "go.mod"), []byte("module "+rule.path+"\n"), 0o644)
			continue
		}
		writeGoMod(filepath.Join(mod.Module.Dir, "go.mod"), filepath.Join(*out, rule.dirOut, "go.mod"))
	}
	if len(mains) != 1 {
		fatal("expected exactly one main package, got %v", mains)
	}
	var buf bytes.Buffer
	for i, s := range sites {
		fmt.Fprintf(&buf, "%d\t%s\n", i+1, s)
	}
	os.WriteFile(filepath.Join(*out, "sites.txt"), buf.Bytes(), 0o644)
	os.WriteFile(filepath.Join(*out, "main.txt"), []byte(mains[0]), 0o644)
}

func copyFile(from, to string) {
	data, err := os.ReadFile(from)
	if err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(to, data, 0o644); err != nil {
		fatal("%v", err)
	}
}

// The instrumented code calls generic functions of the simulator, which needs language version 1.18;
// 1.21 is the last version with the loop variable semantics of all earlier ones.
func writeGoMod(from, to string) {
	data, err := os.ReadFile(from)
	if err != nil {
		fatal("%v", err)
	}
	lines := strings.Split(string(data), "\n")
	found := false
	for i, l := range lines {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			found = true
			parts := strings.Split(f[1], ".")
			minor := 0
			if len(parts) > 1 {
				minor, _ = strconv.Atoi(parts[1])
			}
			if minor < 21 {
				lines[i] = "go 1.21"
			}
		}
		if len(f) > 0 && f[0] == "toolchain" {
			lines[i] = ""
		}
	}
	if !found {
		lines = append(lines, "go 1.21")
	}
	if err := os.WriteFile(to, []byte(strings.Join(lines, "\n")+"\n"), 0o644); err != nil {
		fatal("%v", err)
	}
}

// ---------------------------------------------------------------- redirections

var simImport = map[string]string{
	"os": "rodbsim/simos", "io/ioutil": "rodbsim/simos", "net": "rodbsim/simnet", "sync": "rodbsim/simsync",
	"os/signal": "rodbsim/simos", "github.com/fsnotify/fsnotify": "rodbsim/simfsnotify",
	"database/sql": "rodbsim/simsql", "math/rand": "rodbsim/simrand", "math/rand/v2": "rodbsim/simrand",
	"runtime": "rodbsim/simos", "io": "rodbsim/simos", "path/filepath": "rodbsim/simos", "net/http": "rodbsim/simnet", "crypto/tls": "rodbsim/simnet",
}

func set(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

// members replaced by the simulator's
var redirected = map[string]map[string]bool{
	"os": set(`File Open Create OpenFile Stat Lstat Remove RemoveAll Rename Mkdir MkdirAll MkdirTemp CreateTemp ReadFile WriteFile
		ReadDir Truncate Chmod Chtimes Chown Exit Stdout Stderr Stdin Link Symlink Readlink SameFile`),
	"runtime":                      set(`SetFinalizer`),
	"io/ioutil":                    set(`ReadFile WriteFile ReadDir TempFile TempDir`),
	"net":                          set(`Listen`),
	"net/http":                     set(`ListenAndServe ListenAndServeTLS Serve ServeTLS`),
	"crypto/tls":                   set(`LoadX509KeyPair NewListener`),
	"sync":                         set(`Mutex RWMutex WaitGroup Once Cond NewCond Pool Map Locker OnceFunc OnceValue OnceValues`),
	"os/signal":                    set(`Notify Stop Ignore Reset NotifyContext`),
	"github.com/fsnotify/fsnotify": set(`NewWatcher NewBufferedWatcher Watcher`),
	"database/sql":                 set(`Open OpenDB`),
	"math/rand": set(`Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 NormFloat64 ExpFloat64 Perm Shuffle Seed Read
		IntN Int32 Int32N Int64 Int64N UintN Uint32N Uint64N N`),
	"io":            set(`Pipe PipeReader PipeWriter`),
	"path/filepath": set(`Walk WalkDir Glob EvalSymlinks`),
}

var redirectedMethods = map[string]bool{
	"(*net/http.Server).ServeTLS": true, "(*net/http.Server).ListenAndServeTLS": true, "(*net/http.Server).ListenAndServe": true,
}

// members that may stay as they are; anything else of these packages is an error of the harness
// (an effect the simulator does not control), never a silent pass-through
var passThrough = map[string]map[string]bool{
	"os": set(`Args Getenv LookupEnv ExpandEnv Expand Environ Setenv Unsetenv Getpid Getppid Signal Interrupt Kill FileInfo FileMode
		PathError DirEntry Getwd SyscallError PathSeparator DevNull TempDir UserHomeDir Hostname Getuid Getgid Geteuid LinkError
		IsNotExist IsExist IsPermission IsTimeout ErrNotExist ErrExist ErrPermission ErrInvalid ErrClosed ErrDeadlineExceeded
		ErrNoDeadline ErrProcessDone IsPathSeparator NewSyscallError Getpagesize Executable PathListSeparator SEEK_SET SEEK_CUR SEEK_END`),
	"io/ioutil": set(`ReadAll Discard NopCloser`),
	"sync":      set(``),
	"os/signal": set(``),
}

func passes(pkg, name string) bool {
	set, restricted := passThrough[pkg]
	if !restricted {
		return true
	}
	if set[name] {
		return true
	}
	if pkg == "os" && (strings.HasPrefix(name, "O_") || strings.HasPrefix(name, "Mode")) {
		return true
	}
	return false
}

func redirectTable(path string) map[string]bool {
	if path == "math/rand/v2" {
		return redirected["math/rand"]
	}
	return redirected[path]
}

// ---------------------------------------------------------------- edits

type edit struct {
	start, end int
	text       string
	prio       int // order among insertions at the same offset
}

type fileInst struct {
	src   []byte
	file  *ast.File
	tf    *token.File
	name  string
	edits []edit
	uses  map[string]string // sim import path -> local name
	keep  map[string]int    // import path -> remaining references
}

func (f *fileInst) off(p token.Pos) int { return f.tf.Offset(p) }
func (f *fileInst) ins(p token.Pos, prio int, text string) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, text, prio})
}
func (f *fileInst) repl(a, b token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), text, 0})
}

func (f *fileInst) render(start, end int) string {
	var in []edit
	for _, e := range f.edits {
		if e.start >= start && e.end <= end {
			in = append(in, e)
		}
	}
	sort.SliceStable(in, func(i, j int) bool {
		if in[i].start != in[j].start {
			return in[i].start < in[j].start
		}
		if (in[i].start == in[i].end) != (in[j].start == in[j].end) {
			return in[i].start == in[i].end // insertions before replacements
		}
		return in[i].prio < in[j].prio
	})
	var b strings.Builder
	pos := start
	for _, e := range in {
		if e.start < pos {
			fatal("%v: overlapping edits at offset %v (%q)", f.name, e.start, e.text)
		}
		b.Write(f.src[pos:e.start])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:end])
	return b.String()
}

func instrumentPackage(p *goPkg, outDir string, yields, reset, fine bool, lookup func(string) (io.ReadCloser, error)) {
	fset := token.NewFileSet()
	var files []*ast.File
	var insts []*fileInst
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		file, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, file)
		insts = append(insts, &fileInst{src: src, file: file, tf: fset.File(file.Pos()), name: path,
			uses: map[string]string{}, keep: map[string]int{}})
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", lookup),
		Sizes:    types.SizesFor("gc", "amd64"),
	}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tpkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type-checking %v: %v", p.ImportPath, err)
	}

	initNo := 0
	var initCalls []string
	for _, f := range insts {
		f.redirect(info)
		for _, decl := range f.file.Decls {
			fd, ok := decl.(*ast.FuncDecl)
			if !ok {
				continue
			}
			if fd.Recv == nil && fd.Name.Name == "init" && reset {
				initNo++
				n := fmt.Sprintf("simInit_%d", initNo)
				f.repl(fd.Name.Pos(), fd.Name.End(), n)
				initCalls = append(initCalls, n)
			}
			if p.Name == "main" && fd.Recv == nil && fd.Name.Name == "main" {
				f.repl(fd.Name.Pos(), fd.Name.End(), "Main")
			}
		}
		if p.Name == "main" {
			f.repl(f.file.Name.Pos(), f.file.Name.End(), "rodbmain")
		}
		// The copying of single bytes of the XML library would be most of the scheduling points of a run
		perByte := p.ImportPath == "github.com/antchfx/xmlquery" && filepath.Base(f.name) == "cached_reader.go"
		f.statements(info, yields && !perByte)
		if fine {
			f.memory(info, tpkg)
		}
	}

	// package-level state
	type initStep struct {
		file int
		text string
	}
	var steps []initStep
	if reset {
		varFile := map[types.Object]int{}
		noInit := []initStep{}
		type rhsLoc struct {
			file       int
			start, end int
		}
		rhs := map[ast.Expr]rhsLoc{}
		for i, f := range insts {
			for _, decl := range f.file.Decls {
				gd, ok := decl.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, spec := range gd.Specs {
					vs := spec.(*ast.ValueSpec)
					if hasEmbed(gd, vs) {
						continue
					}
					for _, n := range vs.Names {
						if o := info.Defs[n]; o != nil {
							varFile[o] = i
						}
					}
					for _, v := range vs.Values {
						rhs[v] = rhsLoc{i, f.off(v.Pos()), f.off(v.End())}
					}
					if len(vs.Values) == 0 {
						for _, n := range vs.Names {
							if n.Name == "_" {
								continue
							}
							noInit = append(noInit, initStep{i, fmt.Sprintf("{ var z %s; %s = z }",
								f.render(f.off(vs.Type.Pos()), f.off(vs.Type.End())), n.Name)})
						}
					}
				}
			}
		}
		steps = append(steps, noInit...)
		for _, in := range info.InitOrder {
			loc, ok := rhs[in.Rhs]
			if !ok {
				continue
			}
			var names []string
			blank := true
			for _, l := range in.Lhs {
				names = append(names, l.Name())
				if l.Name() != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			steps = append(steps, initStep{loc.file, strings.Join(names, ", ") + " = " + insts[loc.file].render(loc.start, loc.end)})
		}
		_ = tpkg
	}

	for i, f := range insts {
		var tail strings.Builder
		if len(steps) > 0 {
			any := false
			for n, s := range steps {
				if s.file != i {
					continue
				}
				if !any {
					fmt.Fprintf(&tail, "\n\nfunc simReset_%d(step int) {\nswitch step {\n", i)
					any = true
				}
				fmt.Fprintf(&tail, "case %d:\n%s\n", n, s.text)
			}
			if any {
				tail.WriteString("}\n}\n")
			} else {
				fmt.Fprintf(&tail, "\n\nfunc simReset_%d(step int) {}\n", i)
			}
		}
		f.fixImports(info)
		text := f.render(0, len(f.src)) + tail.String()
		if err := os.WriteFile(filepath.Join(outDir, filepath.Base(f.name)), []byte(text), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	if reset && (len(steps) > 0 || len(initCalls) > 0) {
		var b strings.Builder
		name := p.Name
		if name == "main" {
			name = "rodbmain"
		}
		fmt.Fprintf(&b, "package %s\n\nimport \"rodbsim/simrt\"\n\nfunc init() {\n", name)
		for _, c := range initCalls {
			fmt.Fprintf(&b, "\t%s()\n", c)
		}
		fmt.Fprintf(&b, "\tsimrt.RegisterReset(%q, func() {\n", p.ImportPath)
		if len(steps) > 0 {
			fmt.Fprintf(&b, "\t\tfor i := 0; i < %d; i++ {\n", len(steps))
			for i := range insts {
				fmt.Fprintf(&b, "\t\t\tsimReset_%d(i)\n", i)
			}
			b.WriteString("\t\t}\n")
		}
		for _, c := range initCalls {
			fmt.Fprintf(&b, "\t\t%s()\n", c)
		}
		b.WriteString("\t})\n}\n")
		os.WriteFile(filepath.Join(outDir, "zz_sim_reset.go"), []byte(b.String()), 0o644)
	}
}

func hasEmbed(gd *ast.GenDecl, vs *ast.ValueSpec) bool {
	for _, g := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
		if g == nil {
			continue
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") {
				return true
			}
		}
	}
	return false
}

// redirect replaces qualified references to redirected members.
func (f *fileInst) redirect(info *types.Info) {
	for _, imp := range f.file.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		if imp.Name != nil && imp.Name.Name == "." && simImport[path] != "" {
			fatal("%v: dot import of %v is not supported", f.name, path)
		}
	}
	ast.Inspect(f.file, func(n ast.Node) bool {
		if call, ok := n.(*ast.CallExpr); ok && returnsTx(call, info) {
			f.uses["rodbsim/simsql"] = "sim__simsql"
			f.ins(call.Pos(), 5, "sim__simsql.TrackTx(")
			f.ins(call.End(), -5, ")")
		}
		sel, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		// x.ServeTLS becomes (simnet.Server_ServeTLS)(x), a function of the same type
		if s := info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
			if fn, ok := s.Obj().(*types.Func); ok && redirectedMethods[fn.FullName()] {
				f.uses["rodbsim/simnet"] = "sim__simnet"
				pre := "sim__simnet.Server_" + sel.Sel.Name + "("
				if _, ptr := s.Recv().(*types.Pointer); !ptr {
					pre += "&"
				}
				f.ins(sel.Pos(), 6, pre)
				f.repl(sel.X.End(), sel.Sel.End(), ")")
			}
		}
		id, ok := sel.X.(*ast.Ident)
		if !ok {
			return true
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok {
			return true
		}
		path := pn.Imported().Path()
		if redirectTable(path)[sel.Sel.Name] {
			sp := simImport[path]
			local := "sim__" + filepath.Base(sp)
			f.uses[sp] = local
			f.repl(id.Pos(), id.End(), local)
			return true
		}
		if !passes(path, sel.Sel.Name) {
			fatal("%v: %v.%v is not covered by the simulator", f.name, path, sel.Sel.Name)
		}
		f.keep[path]++
		return true
	})
}

// returnsTx tells whether a call begins a database/sql transaction.
func returnsTx(call *ast.CallExpr, info *types.Info) bool {
	sel, ok := call.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	fn, ok := info.Uses[sel.Sel].(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "database/sql" {
		return false
	}
	tuple, ok := info.Types[call].Type.(*types.Tuple)
	return ok && tuple.Len() == 2 && tuple.At(0).Type().String() == "*database/sql.Tx"
}

func (f *fileInst) fixImports(info *types.Info) {
	var b strings.Builder
	var ps []string
	for p := range f.uses {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&b, "; import %s %q", f.uses[p], p)
	}
	// imports whose every reference was redirected
	for _, imp := range f.file.Imports {
		path, _ := strconv.Unquote(imp.Path.Value)
		if simImport[path] == "" || f.keep[path] > 0 {
			continue
		}
		if imp.Name != nil && imp.Name.Name == "_" {
			continue
		}
		if imp.Name != nil {
			f.repl(imp.Name.Pos(), imp.Name.End(), "_")
		} else {
			f.ins(imp.Path.Pos(), 0, "_ ")
		}
	}
	f.ins(f.file.Name.End(), 1, b.String())
}

func (f *fileInst) sim(name string) string {
	f.uses["rodbsim/simrt"] = "sim__rt"
	return "sim__rt." + name
}

func (f *fileInst) site(p token.Pos) string {
	siteNo++
	pos := f.tf.Position(p)
	sites = append(sites, fmt.Sprintf("%s:%d", pos.Filename, pos.Line))
	return strconv.Itoa(siteNo)
}

func (f *fileInst) statements(info *types.Info, yields bool) {
	labeled := map[ast.Stmt]bool{}
	inComm, recv2 := map[ast.Node]bool{}, map[ast.Node]bool{}
	var inFunc int
	yield := func(list []ast.Stmt) {
		for _, s := range list {
			f.ins(s.Pos(), 5, f.sim("Y")+"("+f.site(s.Pos())+"); ")
		}
	}
	var stack []ast.Node
	ast.Inspect(f.file, func(n ast.Node) bool {
		if n == nil {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			switch top.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				inFunc--
			}
			return true
		}
		stack = append(stack, n)
		switch x := n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			inFunc++
		case *ast.BlockStmt:
			if yields && !isSwitchBody(stack) {
				yield(x.List)
			}
		case *ast.CaseClause:
			if yields {
				yield(x.Body)
			}
		case *ast.CommClause:
			if yields {
				yield(x.Body)
			}
		case *ast.LabeledStmt:
			labeled[x.Stmt] = true
		case *ast.GoStmt:
			f.goStmt(x, info)
		case *ast.RangeStmt:
			f.rangeStmt(x, info)
			f.rangeChan(x, info)
		case *ast.SelectStmt:
			f.selectStmt(x, inComm)
		case *ast.SendStmt:
			if !inComm[x] {
				f.ins(x.Chan.Pos(), 7, f.sim("Sender")+"(")
				f.repl(x.Chan.End(), x.Value.Pos(), ")(")
				f.ins(x.Value.End(), -6, ")")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				recv2[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				recv2[ast.Unparen(x.Values[0])] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inComm[x] {
				fn := "Recv"
				if recv2[x] {
					fn = "Recv2"
				}
				f.repl(x.Pos(), x.X.Pos(), f.sim(fn)+"(")
				f.ins(x.X.End(), -6, ")")
			}
		}
		return true
	})
}

// selectStmt adds a case for the end of the process to a select that can wait.
func (f *fileInst) selectStmt(x *ast.SelectStmt, inComm map[ast.Node]bool) {
	waits := true
	for _, s := range x.Body.List {
		switch c := s.(*ast.CommClause).Comm.(type) {
		case nil:
			waits = false
		case *ast.SendStmt:
			inComm[c] = true
		case *ast.ExprStmt:
			inComm[ast.Unparen(c.X)] = true
		case *ast.AssignStmt:
			inComm[ast.Unparen(c.Rhs[0])] = true
		}
	}
	if waits {
		f.ins(x.Body.Rbrace, 9, "case <-"+f.sim("Killed")+"(): "+f.sim("Die")+"(); panic(\"killed\")\n")
	}
}

// for v := range c  =>  for it, v := simrt.ChanIterV(c); it.Next(&v);
func (f *fileInst) rangeChan(x *ast.RangeStmt, info *types.Info) {
	t := info.Types[x.X].Type
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Chan); !ok {
		return
	}
	head, next := "sim__it := "+f.sim("ChanIter")+"(", "sim__it.Next(nil)"
	if id, ok := x.Key.(*ast.Ident); x.Key != nil && !(ok && id.Name == "_") {
		k := f.render(f.off(x.Key.Pos()), f.off(x.Key.End()))
		next = "sim__it.Next(&" + k + ")"
		if x.Tok == token.DEFINE {
			head = "sim__it, " + k + " := " + f.sim("ChanIterV") + "("
		}
	}
	f.repl(x.For+token.Pos(len("for")), x.X.Pos(), " "+head)
	f.ins(x.X.End(), 9, "); "+next+"; ")
}

func isSwitchBody(stack []ast.Node) bool {
	if len(stack) < 2 {
		return false
	}
	switch stack[len(stack)-2].(type) {
	case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		return true
	}
	return false
}

// go F(A, B)  =>  { simF := F; simA0 := A; ...; simrt.Go(func() { simF(simA0, ...) }) }
func (f *fileInst) goStmt(x *ast.GoStmt, info *types.Info) {
	call := x.Call
	if tv, ok := info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
		fatal("%v: go statement with a builtin", f.name)
	}
	f.repl(x.Pos(), call.Fun.Pos(), "{ sim__f := ")
	var params []string
	last := call.Fun.End()
	for i, a := range call.Args {
		name := fmt.Sprintf("sim__a%d", i)
		tv := info.Types[a]
		switch {
		case tv.IsNil():
			params = append(params, "nil")
			f.repl(last, a.End(), "")
			last = a.End()
			continue
		case tv.Value != nil:
			f.repl(last, a.Pos(), "; const "+name+" = ")
		default:
			f.repl(last, a.Pos(), "; "+name+" := ")
		}
		params = append(params, name)
		last = a.End()
	}
	args := strings.Join(params, ", ")
	if call.Ellipsis.IsValid() {
		args += "..."
	}
	f.repl(last, call.End(), "; "+f.sim("Go")+"(func() { sim__f("+args+") }) }")
}

func (f *fileInst) rangeStmt(x *ast.RangeStmt, info *types.Info) {
	t := info.Types[x.X].Type
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Map); !ok {
		return
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	k, v := !blank(x.Key), !blank(x.Value)
	text := func(e ast.Expr) string { return f.render(f.off(e.Pos()), f.off(e.End())) }
	var head, next string
	switch {
	case k && v:
		next = "sim__it.Next(&" + text(x.Key) + ", &" + text(x.Value) + ")"
	case k:
		next = "sim__it.Next(&" + text(x.Key) + ", nil)"
	case v:
		next = "sim__it.Next(nil, &" + text(x.Value) + ")"
	default:
		next = "sim__it.Next(nil, nil)"
	}
	fn := f.sim("MapIter")
	if x.Tok == token.DEFINE && (k || v) {
		switch {
		case k && v:
			head = "sim__it, " + text(x.Key) + ", " + text(x.Value) + " := " + f.sim("MapIterKV") + "("
		case k:
			head = "sim__it, " + text(x.Key) + " := " + f.sim("MapIterK") + "("
		default:
			head = "sim__it, " + text(x.Value) + " := " + f.sim("MapIterV") + "("
		}
	} else {
		head = "sim__it := " + fn + "("
	}
	f.repl(x.For+token.Pos(len("for")), x.X.Pos(), " "+head)
	// (edits inside x.X stay as they are)
	f.ins(x.X.End(), 9, "); "+next+"; ")
}

// memory splits the accesses to shared memory that are not atomic (see simrt/mem.go).
func (f *fileInst) memory(info *types.Info, pkg *types.Package) {
	text := func(e ast.Expr) string { return string(f.src[f.off(e.Pos()):f.off(e.End())]) }
	isMap := func(e ast.Expr) bool {
		t := info.Types[e].Type
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Map)
		return ok
	}
	var funcs []ast.Node // enclosing functions
	// other tasks may have the variable: a field, a package variable, a captured one
	shared := func(e ast.Expr) bool {
		switch x := ast.Unparen(e).(type) {
		case *ast.SelectorExpr:
			return true
		case *ast.StarExpr:
			return true
		case *ast.Ident:
			v, ok := info.Uses[x].(*types.Var)
			if !ok || len(funcs) == 0 {
				return false
			}
			top := funcs[len(funcs)-1]
			return v.Parent() == pkg.Scope() || v.Pos() < top.Pos() || v.Pos() > top.End()
		}
		return false
	}
	var pure func(e ast.Expr) bool
	pure = func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.Ident:
			return true
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, isPkg := info.Uses[id].(*types.PkgName); isPkg {
					return false // maybe redirected
				}
			}
			return pure(x.X)
		}
		return false
	}
	// the type that inference finds is the one of the expression
	typed := func(e ast.Expr) bool {
		tv := info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.Type == nil || tv.IsType() {
			return false
		}
		if _, tuple := tv.Type.(*types.Tuple); tuple {
			return false
		}
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return types.Identical(tv.Type, types.Typ[types.Bool])
		}
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncLit, *ast.CallExpr:
				return false
			case *ast.BinaryExpr:
				if (x.Op == token.SHL || x.Op == token.SHR) && info.Types[x.X].Value != nil {
					ok = false
				}
			}
			return true
		})
		return ok
	}
	trivial := func(e ast.Expr) bool {
		switch x := ast.Unparen(e).(type) {
		case *ast.Ident, *ast.BasicLit, *ast.FuncLit, *ast.CompositeLit:
			return true
		case *ast.UnaryExpr:
			_, lit := ast.Unparen(x.X).(*ast.CompositeLit)
			return lit
		}
		return false
	}
	written := map[ast.Expr]bool{} // index expressions of maps that are assigned to
	inList := map[ast.Stmt]bool{}
	var stack []ast.Node
	ast.Inspect(f.file, func(n ast.Node) bool {
		if n == nil {
			switch stack[len(stack)-1].(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				funcs = funcs[:len(funcs)-1]
			}
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		if len(funcs) == 0 {
			switch n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				funcs = append(funcs, n)
			}
			return true
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				inList[s] = true
			}
		}
		mapWrite := func(e ast.Expr) {
			fn := "MapW"
			if shared(e) {
				fn = "MapWS"
			}
			f.ins(e.Pos(), 8, f.sim(fn)+"("+f.site(e.Pos())+", ")
			f.ins(e.End(), -8, ")")
		}
		switch x := n.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			funcs = append(funcs, n)
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.IncDecStmt:
			if ix, ok := ast.Unparen(x.X).(*ast.IndexExpr); ok && isMap(ix.X) {
				written[ix] = true
				mapWrite(ix.X)
			} else if shared(x.X) && pure(x.X) {
				f.repl(x.X.End(), x.End(), " = "+f.sim("V")+"("+f.site(x.Pos())+", "+text(x.X)+" "+x.Tok.String()[:1]+" 1)")
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok && isMap(ix.X) {
					written[ix] = true
					mapWrite(ix.X)
				}
			}
			if x.Tok == token.DEFINE {
				break
			}
			if len(x.Lhs) == 1 && len(x.Rhs) == 1 && shared(x.Lhs[0]) {
				r := x.Rhs[0]
				if x.Tok == token.ASSIGN {
					if !trivial(r) && typed(r) {
						f.ins(r.Pos(), 3, f.sim("V")+"("+f.site(r.Pos())+", ")
						f.ins(r.End(), -4, ")")
					}
				} else if pure(x.Lhs[0]) {
					op := strings.TrimSuffix(x.Tok.String(), "=")
					f.repl(x.TokPos, r.Pos(), "= "+f.sim("V")+"("+f.site(r.Pos())+", "+text(x.Lhs[0])+" "+op+" (")
					f.ins(r.End(), -4, "))")
				}
			}
			if len(x.Lhs) > 1 && inList[x] {
				ok, any := true, false
				for _, l := range x.Lhs {
					id, isIdent := l.(*ast.Ident)
					if isIdent && id.Name == "_" {
						continue
					}
					ok = ok && pure(l)
					any = any || shared(l)
				}
				for _, r := range x.Rhs {
					if len(x.Rhs) > 1 {
						ok = ok && typed(r)
					} else if _, isCall := ast.Unparen(r).(*ast.CallExpr); !isCall {
						ok = false
					}
				}
				if !ok || !any {
					break
				}
				var names []string
				tail := ""
				for i, l := range x.Lhs {
					if id, isIdent := l.(*ast.Ident); isIdent && id.Name == "_" {
						names = append(names, "_")
						continue
					}
					n := fmt.Sprintf("sim__t%d", i)
					names = append(names, n)
					if tail != "" {
						tail += "; " + f.sim("Y") + "(" + f.site(l.Pos()) + ")"
					}
					tail += "; " + text(l) + " = " + n
				}
				f.repl(x.Pos(), x.Rhs[0].Pos(), "{ "+strings.Join(names, ", ")+" := ")
				f.ins(x.End(), -3, tail+" }")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 && isMap(x.Args[0]) {
				if b, ok := info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
					mapWrite(x.Args[0])
				}
			}
		case *ast.IndexExpr:
			if isMap(x.X) && !written[x] {
				f.ins(x.X.Pos(), 8, f.sim("MapR")+"(")
				f.ins(x.X.End(), -8, ")")
			}
		case *ast.BinaryExpr:
			if x.Op != token.LAND && x.Op != token.LOR {
				break
			}
			if t := info.Types[x].Type; t == nil || info.Types[x].Value != nil || !(types.Identical(t, types.Typ[types.Bool]) || types.Identical(t, types.Typ[types.UntypedBool])) {
				break
			}
			field := false
			ast.Inspect(x.Y, func(n ast.Node) bool {
				if sel, ok := n.(*ast.SelectorExpr); ok {
					if s := info.Selections[sel]; s != nil && s.Kind() == types.FieldVal {
						field = true
					}
				}
				return !field
			})
			if !field {
				break
			}
			pre, op := "T", " && "
			if x.Op == token.LOR {
				pre, op = "F", " || "
			}
			f.ins(x.Y.Pos(), 4, "("+f.sim(pre)+"("+f.site(x.Y.Pos())+")"+op+"(")
			f.ins(x.Y.End(), -5, "))")
		}
		return true
	})
}
